#include "rai.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <algorithm>
#include <cmath>

static std::map<const Value *, int> valNo;
static int numOf(const Value *v) { auto i = valNo.find(v); if (i != valNo.end()) return i->second; int n = valNo.size(); return valNo[v] = n; }
Str valueTag(const Value *v) { return std::to_string(numOf(v)); }
Str St::key() const {
  Str s;
  for (auto &x : status) s += std::to_string(x.first) + x.second + ",";
  s += "|";
  std::vector<std::pair<int, int>> v;
  for (auto &x : preg) v.push_back({numOf(x.first), x.second});
  std::sort(v.begin(), v.end());
  for (auto &x : v) s += std::to_string(x.first) + "=" + std::to_string(x.second) + ",";
  s += "|";
  for (auto &x : pcell) s += std::to_string(x.first.first) + "+" + std::to_string(x.first.second) + "=" + std::to_string(x.second.r) + ",";
  s += "|";
  for (auto &x : tag) s += x.first + "=" + x.second + ",";
  return s;
}
Rai::Rai(Ctx &c, Function &f) : cx(c), F(f), DL(c.dl()) { R.push_back(Region()); R[0].k = Region::Null; R[0].name = "NULL"; }
int Rai::sv(const Value *v) { auto i = ssa.find(v); if (i != ssa.end()) return i->second; return ssa[v] = nv(v->hasName() ? v->getName().str() : "t" + std::to_string(vname.size())); }
int Rai::region(const Value *v) { auto i = rid.find(v); if (i != rid.end()) return i->second; R.push_back(Region()); R.back().V = v; return rid[v] = R.size() - 1; }
Str Rai::show(const Lin &e) {
  if (e.bad) return "?";
  Str s;
  for (auto &x : e.t) { s += x.second < 0 ? " - " : s.empty() ? "" : " + "; if (std::abs(x.second) != 1) s += std::to_string(std::abs(x.second)) + "*"; s += vname[x.first]; }
  if (e.k || s.empty()) s += (e.k < 0 ? " - " : s.empty() ? "" : " + ") + std::to_string(std::abs(e.k));
  return s;
}
Str Rai::show(const Poly &P) { if (P.bottom) return "bottom"; Str s; for (auto &q : P.eq) s += show(q.second) + " == 0; "; for (auto &g : P.ge) s += show(g) + " >= 0; "; return s; }
Lin Rai::ex(const Value *v, const St *S) {
  if (auto *C = dyn_cast<ConstantInt>(v)) { if (C->getBitWidth() > 64) return Lin::none(); return C->getBitWidth() == 1 ? Lin((int64_t)C->getZExtValue()) : Lin(C->getSExtValue()); }
  if (isa<UndefValue>(v)) return Lin::none();
  if (isa<Constant>(v)) return Lin::none();
  if (!v->getType()->isIntegerTy()) return Lin::none();
  auto it = memo.find(v);
  if (it != memo.end()) return it->second;
  Lin r;
  if (auto *A = dyn_cast<Argument>(v)) r = Lin::var(argVar ? argVar(A) : sv(A));
  else {
    auto *I = cast<Instruction>(v);
    auto own = [&]() { return Lin::var(sv(v)); };
    switch (I->getOpcode()) {
    case Instruction::Add: r = v->getType()->isIntegerTy(1) ? own() : ex(I->getOperand(0)) + ex(I->getOperand(1)); break;
    case Instruction::Sub: r = v->getType()->isIntegerTy(1) ? own() : ex(I->getOperand(0)) - ex(I->getOperand(1)); break;
    case Instruction::Mul: { Lin a = ex(I->getOperand(0)), b = ex(I->getOperand(1)); r = b.isConst() ? a * b.k : a.isConst() ? b * a.k : own(); break; }
    case Instruction::Shl: { Lin b = ex(I->getOperand(1)); r = b.isConst() && b.k >= 0 && b.k < 40 ? ex(I->getOperand(0)) * (1ll << b.k) : own(); break; }
    case Instruction::Xor: { Lin b = ex(I->getOperand(1)); r = b.isConst() && b.k == -1 && !v->getType()->isIntegerTy(1) ? Lin(-1) - ex(I->getOperand(0)) : own(); break; }
    case Instruction::SExt: case Instruction::ZExt: case Instruction::Trunc:
      r = I->getOperand(0)->getType()->isIntegerTy(1) || v->getType()->isIntegerTy(1) ? own() : ex(I->getOperand(0)); break;
    case Instruction::Freeze: r = ex(I->getOperand(0)); break;
    default: r = own();
    }
    if (r.bad) r = own();
  }
  return memo[v] = r;
}
PtrV Rai::pv(St &S, const Value *v) {
  PtrV p;
  if (isa<ConstantPointerNull>(v)) { p.r = 0; return p; }
  if (auto *G = dyn_cast<GEPOperator>(v)) {
    p = pv(S, G->getPointerOperand());
    if (p.r < 0) return p;
    MapVector<Value *, APInt> vo; APInt co(64, 0);
    if (!G->collectOffset(DL, 64, vo, co)) { p.off = Lin::none(); return p; }
    p.off = p.off + Lin(co.getSExtValue());
    for (auto &x : vo) p.off = p.off + ex(x.first, &S) * x.second.getSExtValue();
    return p;
  }
  if (auto *C = dyn_cast<BitCastOperator>(v)) return pv(S, C->getOperand(0));
  if (auto *A = dyn_cast<AllocaInst>(v)) {
    int r = region(A);
    if (!R[r].sized) { R[r].k = Region::Local; R[r].name = "local " + A->getName().str(); R[r].sized = true; auto sz = A->getAllocationSize(DL); R[r].size = sz ? Lin((int64_t)sz->getFixedValue()) : Lin::none(); }
    p.r = r; return p;
  }
  if (auto *A = dyn_cast<Argument>(v)) { int r = region(A); if (R[r].k == Region::Unknown) { R[r].k = Region::Arg; R[r].name = A->getName().str(); R[r].arg = A->getArgNo(); } p.r = r; return p; }
  if (auto *G = dyn_cast<GlobalVariable>(v)) {
    int r = region(G);
    if (!R[r].sized) { R[r].k = Region::Global; R[r].name = G->getName().str(); R[r].sized = true; R[r].size = Lin((int64_t)DL.getTypeAllocSize(G->getValueType())); }
    p.r = r; return p;
  }
  if (isa<Instruction>(v)) {
    auto i = S.preg.find(v);
    if (i == S.preg.end()) return p;
    p.r = i->second;
    if (p.r > 0) p.off = isa<CallInst>(v) ? Lin(0) : Lin::var(sv(v));
    return p;
  }
  return p;
}
static FI ftop() { return {-HUGE_VAL, HUGE_VAL}; }
static double dn(double x) { return std::isfinite(x) && x != 0 ? std::nextafter(x, -HUGE_VAL) : x; }
static double up(double x) { return std::isfinite(x) && x != 0 ? std::nextafter(x, HUGE_VAL) : x; }
FI Rai::fi(const St &S, const Value *v) {
  if (auto *C = dyn_cast<ConstantFP>(v)) { bool l; APFloat a = C->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); double d = a.convertToDouble(); if (std::isnan(d)) return ftop(); return {d, d}; }
  auto i = S.fl.find(v);
  return i == S.fl.end() ? ftop() : i->second;
}
static FI fix(FI r) { if (std::isnan(r.lo) || std::isnan(r.hi) || r.lo > r.hi) return ftop(); return {dn(r.lo), up(r.hi)}; }
static FI fadd(FI a, FI b) { return fix({a.lo + b.lo, a.hi + b.hi}); }
static FI fmul(FI a, FI b) {
  double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  for (double &x : c) if (std::isnan(x)) { // 0 * infinity
    if ((a.lo >= 0 && b.lo >= 0)) return {0, HUGE_VAL};
    return ftop(); }
  return fix({std::min({c[0], c[1], c[2], c[3]}), std::max({c[0], c[1], c[2], c[3]})});
}
FI Rai::evalFP(St &S, const Instruction *I) {
  auto op = [&](int i) { return fi(S, I->getOperand(i)); };
  switch (I->getOpcode()) {
  case Instruction::FAdd: return fadd(op(0), op(1));
  case Instruction::FSub: { FI b = op(1); return fadd(op(0), {-b.hi, -b.lo}); }
  case Instruction::FMul: return fmul(op(0), op(1));
  case Instruction::FDiv: { FI b = op(1); if (b.lo > 0 || b.hi < 0) return fmul(op(0), fix({1 / b.hi, 1 / b.lo})); return ftop(); }
  case Instruction::FNeg: { FI a = op(0); return {-a.hi, -a.lo}; }
  case Instruction::FPExt: return op(0);
  case Instruction::FPTrunc: { FI a = op(0); float l = (float)a.lo, h = (float)a.hi; return {std::isfinite(l) ? std::nextafterf(l, -HUGE_VALF) : (double)l, std::isfinite(h) ? std::nextafterf(h, HUGE_VALF) : (double)h}; }
  case Instruction::SIToFP: case Instruction::UIToFP: {
    if (I->getOperand(0)->getType()->isIntegerTy(1)) return {-1, 1};
    Lin e = ex(I->getOperand(0)); int64_t lo, hi; FI r = ftop();
    if (e.bad) return r;
    if (S.P.boundMin(e, lo)) r.lo = (double)lo; if (S.P.boundMin(e * -1, hi)) r.hi = (double)-hi;
    if (I->getType()->isFloatTy()) { r.lo -= std::fabs(r.lo) * 1e-6; r.hi += std::fabs(r.hi) * 1e-6; }
    return r; }
  case Instruction::Select: { FI a = op(1), b = op(2); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
  case Instruction::Freeze: return op(0);
  case Instruction::Call:
    if (auto *C = dyn_cast<CallInst>(I)) {
      StringRef n = C->getCalledFunction() ? C->getCalledFunction()->getName() : "";
      if (n.starts_with("llvm.fmuladd") || n.starts_with("llvm.fma")) return fadd(fmul(op(0), op(1)), op(2));
      if (n.starts_with("llvm.fabs") || n == "fabs") { FI a = op(0); double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); return {a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0, m}; }
      if (n == "sqrt" || n.starts_with("llvm.sqrt")) { FI a = op(0); return fix({a.lo > 0 ? std::sqrt(a.lo) : 0, a.hi >= 0 ? std::sqrt(a.hi) : 0}); }
      if (n == "atan") return {-1.5708, 1.5708};
      if (n == "sin" || n == "cos") return {-1, 1};
      if (n == "floor" || n.starts_with("llvm.floor")) { FI a = op(0); return {std::floor(a.lo), std::floor(a.hi)}; }
      if (n == "ceil" || n.starts_with("llvm.ceil")) { FI a = op(0); return {std::ceil(a.lo), std::ceil(a.hi)}; }
    }
    return ftop();
  default: return ftop();
  }
}
void Rai::set(St &S, int var, const Lin &e) {
  if (e.bad) { S.P.forget(var); return; }
  if (e.coef(var)) {
    int t = nv("tmp");
    S.P.addEq(Lin::var(t) - e);
    S.P.forget(var);
    S.P = renamed(S.P, {{t, var}});
    vname.pop_back();
    return;
  }
  S.P.forget(var);
  S.P.addEq(Lin::var(var) - e);
}
// x / c (c > 1, x >= 0) of an expression over unchanging symbols, shared by the operations on it
int Rai::quotient(St &S, const Lin &x, int64_t c) {
  if (x.bad || x.isConst() || !S.P.entailsGe(x)) return -1;
  int64_t sc; Lin r = S.P.reduce(x, &sc);
  if (sc != 1 || r.t.empty()) return -1;
  for (auto &t : r.t) if (!canonical.count(t.first)) return -1;
  Lin q = Lin::var(V("(" + show(r) + ")/" + std::to_string(c)));
  S.P.addGe(q); S.P.addGe(r - q * c); S.P.addGe(q * c + Lin(c - 1) - r);
  return q.t[0].first;
}
void Rai::computeLive() {
  std::map<const BasicBlock *, std::set<const Value *>> use, def, out;
  auto tracked = [](const Value *v) { return (isa<Instruction>(v)) && (v->getType()->isIntegerTy() || v->getType()->isPointerTy() || v->getType()->isFloatingPointTy()); };
  for (auto &B : F) {
    auto &u = use[&B]; auto &d = def[&B];
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (!isa<PHINode>(&I)) for (auto &o : I.operands()) if (tracked(o) && !d.count(o)) u.insert(o);
      d.insert(&I);
    }
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto *B : post_order(&F)) {
      std::set<const Value *> o;
      for (auto *s : successors(B)) {
        for (auto *v : live[s]) if (!(isa<PHINode>(v) && cast<Instruction>(v)->getParent() == s)) o.insert(v);
        for (auto &P : s->phis()) { const Value *v = P.getIncomingValueForBlock(B); if (tracked(v)) o.insert(v); }
      }
      std::set<const Value *> n = use[B];
      for (auto *v : o) if (!def[B].count(v)) n.insert(v);
      // phis used in the block itself are live at its start
      for (auto &P : B->phis()) { bool u = o.count(&P); if (!u) for (auto *us : P.users()) { if (isa<DbgInfoIntrinsic>(us)) continue; u = true; } if (u) n.insert(&P); }
      if (n != live[B]) { live[B] = n; ch = true; }
    }
  }
  std::function<void(const Value *, std::set<int> &, int)> pvars = [&](const Value *v, std::set<int> &s, int d) {
    if (d > 20) return;
    if (v->getType()->isIntegerTy()) { Lin e = ex(v); for (auto &x : e.t) s.insert(x.first); if (auto *I = dyn_cast<Instruction>(v)) if (ssa.count(v)) s.insert(sv(v));
      // conditions computed earlier and branched on later
      if (v->getType()->isIntegerTy(1)) if (auto *I = dyn_cast<Instruction>(v)) if (!isa<PHINode>(I)) for (auto &o : I->operands()) if (!isa<Constant>(o)) pvars(o, s, d + 1);
      return; }
    if (!v->getType()->isPointerTy()) return;
    if (auto *G = dyn_cast<GEPOperator>(v)) { for (auto &o : G->operands()) pvars(o, s, d + 1); return; }
    if (isa<Instruction>(v)) s.insert(sv(v));
  };
  for (auto &B : F) for (auto *v : live[&B]) pvars(v, liveVars[&B], 0);
  // pointers: keep the region of every pointer some live pointer is derived from
  for (auto &B : F) {
    std::set<const Value *> add;
    for (auto *v : live[&B]) { const Value *p = v; for (int d = 0; d < 20; d++) { if (auto *G = dyn_cast<GEPOperator>(p)) { p = G->getPointerOperand(); add.insert(p); } else if (auto *C = dyn_cast<CmpInst>(p)) { for (auto &o : C->operands()) add.insert(o.get()); break; } else break; } }
    live[&B].insert(add.begin(), add.end());
  }
}
void Rai::project(St &S, const BasicBlock *at) {
  auto &lv = liveVars[at];
  auto &l = live[at];
  for (auto i = S.preg.begin(); i != S.preg.end();) if (l.count(i->first)) ++i; else i = S.preg.erase(i);
  for (auto i = S.fl.begin(); i != S.fl.end();) if (isa<Argument>(i->first) || l.count(i->first)) ++i; else { S.nan.erase(i->first); i = S.fl.erase(i); }
  std::set<int> keep = canonical;
  keep.insert(lv.begin(), lv.end());
  for (auto &c : S.cell) for (auto &x : c.second.t) keep.insert(x.first);
  for (auto &c : S.pcell) for (auto &x : c.second.off.t) keep.insert(x.first);
  for (auto &r : R) if (r.k == Region::Heap) for (auto &x : r.size.t) keep.insert(x.first);
  S.P.keep([&](int v) { return keep.count(v) > 0; });
  auto canon = [&](const Lin &l) { for (auto &x : l.t) if (!canonical.count(x.first)) return false; return true; };
  for (auto &g : S.P.ge) if (S.facts.size() < 40 && canon(g)) S.facts.insert(g);
}
std::vector<St> Rai::assume(const St &S0, const Value *c, bool truth) {
  std::vector<St> out;
  St S = S0;
  auto done = [&](St &s) { if (!s.P.bottom && !s.P.empty()) out.push_back(s); };
  if (auto *C = dyn_cast<ConstantInt>(c)) { if (C->isOne() == truth) out.push_back(S); return out; }
  if (auto *X = dyn_cast<Instruction>(c)) {
    if (X->getOpcode() == Instruction::Xor && isa<ConstantInt>(X->getOperand(1)) && X->getType()->isIntegerTy(1)) return assume(S0, X->getOperand(0), truth != cast<ConstantInt>(X->getOperand(1))->isOne());
    bool isAnd = X->getOpcode() == Instruction::And && X->getType()->isIntegerTy(1), isOr = X->getOpcode() == Instruction::Or && X->getType()->isIntegerTy(1);
    const Value *a = isAnd || isOr ? X->getOperand(0) : nullptr, *b = isAnd || isOr ? X->getOperand(1) : nullptr;
    if (auto *Se = dyn_cast<SelectInst>(X)) if (X->getType()->isIntegerTy(1)) {
      if (auto *k = dyn_cast<ConstantInt>(Se->getFalseValue()); k && k->isZero()) { isAnd = true; a = Se->getCondition(); b = Se->getTrueValue(); }
      else if (auto *k = dyn_cast<ConstantInt>(Se->getTrueValue()); k && k->isOne()) { isOr = true; a = Se->getCondition(); b = Se->getFalseValue(); }
    }
    if (isAnd || isOr) {
      if (isAnd == truth) { for (auto &s : assume(S0, a, truth)) for (auto &t : assume(s, b, truth)) out.push_back(t); return out; }
      out = assume(S0, a, truth);
      for (auto &s : assume(S0, a, !truth)) for (auto &t : assume(s, b, truth)) out.push_back(t);
      return out;
    }
    if (auto *I = dyn_cast<ICmpInst>(X)) {
      auto pr = truth ? I->getPredicate() : I->getInversePredicate();
      const Value *a = I->getOperand(0), *b = I->getOperand(1);
      if (a->getType()->isPointerTy()) {
        if (!isa<ConstantPointerNull>(b)) std::swap(a, b);
        PtrV p = pv(S, a), q = pv(S, b);
        if (pr != CmpInst::ICMP_EQ && pr != CmpInst::ICMP_NE) { out.push_back(S); return out; }
        bool eq = pr == CmpInst::ICMP_EQ;
        if (q.r == 0) {
          if (p.r == 0) { if (eq) out.push_back(S); return out; }
          if (p.r < 0) { out.push_back(S); return out; }
          auto &rg = R[p.r];
          if (rg.k == Region::Arg) {
            char st = S.status.count(p.r) ? S.status[p.r] : 0;
            if (st == 'n') { if (!eq) out.push_back(S); return out; }
            if (st == 'N') { if (eq) out.push_back(S); return out; }
            S.status[p.r] = eq ? 'N' : 'n'; out.push_back(S); return out;
          }
          if (!eq) out.push_back(S); // locals, globals and successful allocations
          return out;
        }
        if (p.r >= 0 && q.r >= 0) {
          bool param = R[p.r].k == Region::Arg && R[q.r].k == Region::Arg;
          if (p.r == q.r) { if (eq) { S.P.addEq(p.off - q.off); done(S); } else if (p.off.bad || q.off.bad || !S.P.entailsEq(p.off - q.off)) out.push_back(S0); return out; }
          if (!param) { if (!eq) out.push_back(S); return out; }
          int r1 = std::min(p.r, q.r), r2 = std::max(p.r, q.r);
          Str k = "a" + std::to_string(r1) + "=" + std::to_string(r2);
          if (!p.off.bad && !q.off.bad && S.P.entailsEq(p.off) && S.P.entailsEq(q.off)) {
            auto t = S.tag.find(k);
            if (t != S.tag.end()) { if ((t->second == "1") == eq) out.push_back(S); return out; }
            S.tag[k] = eq ? "1" : "0";
          }
        }
        out.push_back(S); return out;
      }
      Lin x = ex(a), y = ex(b);
      if (x.bad || y.bad) { out.push_back(S); return out; }
      // (zext (cmp)) != 0
      if (y.isConst() && y.k == 0 && (pr == CmpInst::ICMP_NE || pr == CmpInst::ICMP_EQ))
        if (auto *Z = dyn_cast<CastInst>(a)) if (Z->getOperand(0)->getType()->isIntegerTy(1)) return assume(S0, Z->getOperand(0), pr == CmpInst::ICMP_NE);
      Lin d = x - y;
      if (CmpInst::isUnsigned(pr)) {
        bool xn = S.P.entailsGe(x), yn = S.P.entailsGe(y);
        if (xn && yn) pr = ICmpInst::getSignedPredicate(pr);
        else if (yn && (pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE)) { S.P.addGe(x); pr = ICmpInst::getSignedPredicate(pr); }
        else if (xn && (pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_UGE)) { S.P.addGe(y); pr = ICmpInst::getSignedPredicate(pr); }
        else { out.push_back(S); return out; }
      }
      switch (pr) {
      case CmpInst::ICMP_EQ: S.P.addEq(d); break;
      case CmpInst::ICMP_NE:
        if (S.P.entailsEq(d)) return out;
        if (S.P.entailsGe(d)) S.P.addGe(d - Lin(1));
        else if (S.P.entailsGe(d * -1)) S.P.addGe(d * -1 - Lin(1));
        break;
      case CmpInst::ICMP_SLT: S.P.addGe(d * -1 - Lin(1)); break;
      case CmpInst::ICMP_SLE: S.P.addGe(d * -1); break;
      case CmpInst::ICMP_SGT: S.P.addGe(d - Lin(1)); break;
      case CmpInst::ICMP_SGE: S.P.addGe(d); break;
      default: break;
      }
      done(S);
      return out;
    }
    if (auto *I = dyn_cast<FCmpInst>(X)) {
      auto pr = truth ? I->getPredicate() : I->getInversePredicate();
      const Value *a = I->getOperand(0), *b = I->getOperand(1);
      FI x = fi(S, a), y = fi(S, b);
      // the ranges leave NaN out: a NaN never decides a branch here, it only keeps the other side possible
      if (!isa<ConstantFP>(a) && !S.fl.count(a) && !isa<ConstantFP>(b) && !S.fl.count(b)) { out.push_back(S); return out; }
      bool an = mayNan(S, a), bn = mayNan(S, b);
      bool nanOk = CmpInst::isUnordered(pr) && (an || bn);
      bool feasible = true;
      switch (pr) {
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: feasible = x.lo < y.hi; x.hi = std::min(x.hi, y.hi); y.lo = std::max(y.lo, x.lo); break;
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: feasible = x.lo <= y.hi; x.hi = std::min(x.hi, y.hi); y.lo = std::max(y.lo, x.lo); break;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: feasible = x.hi > y.lo; x.lo = std::max(x.lo, y.lo); y.hi = std::min(y.hi, x.hi); break;
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: feasible = x.hi >= y.lo; x.lo = std::max(x.lo, y.lo); y.hi = std::min(y.hi, x.hi); break;
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: feasible = x.lo <= y.hi && y.lo <= x.hi; x.lo = y.lo = std::max(x.lo, y.lo); x.hi = y.hi = std::min(x.hi, y.hi); break;
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: feasible = !(x.lo == x.hi && y.lo == y.hi && x.lo == y.lo); break;
      default: out.push_back(S); return out;
      }
      if (!feasible && !nanOk) return out;
      bool ord = CmpInst::isOrdered(pr);
      auto put = [&](const Value *v, FI f, bool n) { if (isa<ConstantFP>(v)) return; if (feasible) setF(S, v, f, n && !ord); else if (S.fl.count(v)) S.nan.insert(v); };
      put(a, x, an); put(b, y, bn);
      out.push_back(S); return out;
    }
    if (isa<PHINode>(X) || isa<TruncInst>(X) || isa<LoadInst>(X)) { Lin e = ex(X); S.P.addEq(e - Lin(truth)); done(S); return out; }
  }
  out.push_back(S);
  return out;
}
// an absent entry stands for every value, NaN included
void Rai::setF(St &S, const Value *v, FI f, bool n) {
  if (n && f.lo == -HUGE_VAL && f.hi == HUGE_VAL) { S.fl.erase(v); S.nan.erase(v); return; }
  S.fl[v] = f; if (n) S.nan.insert(v); else S.nan.erase(v);
}
bool Rai::mayNan(const St &S, const Value *v) { if (auto *C = dyn_cast<ConstantFP>(v)) return C->isNaN(); if (isa<Argument>(v)) return !S.fl.count(v); return !S.fl.count(v) || S.nan.count(v); }
void Rai::edge(const BasicBlock *from, const BasicBlock *to, St S, std::vector<std::pair<const BasicBlock *, St>> &outs) {
  // phis, simultaneously
  std::vector<std::pair<int, Lin>> as; std::vector<std::pair<const Value *, int>> pr; std::vector<int> hav;
  {
    std::vector<std::tuple<const Value *, FI, bool>> fs;
    for (auto &P : to->phis()) if (P.getType()->isFloatingPointTy()) { const Value *v = P.getIncomingValueForBlock(from); fs.push_back({&P, fi(S, v), mayNan(S, v)}); }
    for (auto &[v, f, n] : fs) setF(S, v, f, n);
  }
  for (auto &P : to->phis()) {
    const Value *v = P.getIncomingValueForBlock(from);
    if (retPhis.count(&P)) { Str b = "r" + valueTag(&P); if (auto *C = dyn_cast<ConstantInt>(v)) S.tag[b] = std::to_string(C->getSExtValue()); else S.tag[b] = "v"; }
    if (P.getType()->isIntegerTy()) {
      Lin e = ex(v);
      if (P.getType()->isIntegerTy(1) && isa<CmpInst>(v)) e = Lin::none();
      if (e.bad) hav.push_back(sv(&P)); else as.push_back({sv(&P), e});
    } else if (P.getType()->isPointerTy()) {
      PtrV p = pv(S, v);
      pr.push_back({&P, p.r});
      if (p.r > 0 && !p.off.bad) as.push_back({sv(&P), p.off}); else hav.push_back(sv(&P));
    }
  }
  { auto q = pathTag.find(to); if (q != pathTag.end()) {
    Str w; for (auto &P : to->phis()) if (P.getType()->isIntegerTy()) { const Value *v = P.getIncomingValueForBlock(from); unsigned i = 0; while (P.getIncomingValue(i) != v) i++; w += std::to_string(i) + "."; }
    S.tag[q->second] = w; } }
  if (!as.empty() || !hav.empty()) {
    std::map<int, int> ren; size_t base = vname.size();
    for (auto &x : as) { int t = nv("tmp"); S.P.addEq(Lin::var(t) - x.second); ren[t] = x.first; }
    for (auto &x : as) S.P.forget(x.first);
    for (int h : hav) S.P.forget(h);
    // cells may mention the old phi values
    auto stale = [&](const Lin &l) { for (auto &x : as) if (l.coef(x.first)) return true; for (int h : hav) if (l.coef(h)) return true; return false; };
    for (auto &c : S.cell) if (stale(c.second)) c.second = Lin::none();
    for (auto i = S.cell.begin(); i != S.cell.end();) if (i->second.bad) i = S.cell.erase(i); else ++i;
    for (auto &c : S.pcell) if (stale(c.second.off)) c.second.off = Lin::none();
    S.P = renamed(S.P, ren);
    vname.resize(base);
    for (auto &x : as) if (x.first && vname.size() > 0 && to->phis().begin() != to->phis().end()) {
    }
    for (auto &x : pr) if (x.second >= 0) S.preg[x.first] = x.second; else S.preg.erase(x.first);
  }
  for (auto &P : to->phis()) if (P.getType()->isIntegerTy(1)) { S.P.addGe(Lin::var(sv(&P))); S.P.addGe(Lin(1) - Lin::var(sv(&P))); }
  project(S, to);
  if (S.P.bottom) return;
  outs.push_back({to, S});
}
void Rai::exec(std::vector<St> &Ss, const Instruction *I) {
  steps++;
  if (isa<DbgInfoIntrinsic>(I)) return;
  if (I->getType()->isFloatingPointTy() && !isa<PHINode>(I)) for (auto &S : Ss) {
    FI r = evalFP(S, I);
    bool n = false;
    if (I->getOpcode() == Instruction::SIToFP || I->getOpcode() == Instruction::UIToFP) n = false;
    else if (isa<LoadInst>(I) || isa<CallInst>(I)) n = true;
    else { for (auto &o : I->operands()) if (o->getType()->isFloatingPointTy()) n |= mayNan(S, o); if (I->getOpcode() == Instruction::FDiv) { FI b = fi(S, I->getOperand(1)); n |= b.lo <= 0 && b.hi >= 0; } if (std::isinf(r.lo) || std::isinf(r.hi)) n = true; }
    setF(S, I, r, n);
  }
  // a value kept in memory must not mention symbols that are assigned again later
  auto stable = [&](St &S, const Lin &e, const Instruction *X) {
    int64_t sc = 1; Lin r = S.P.reduce(e, &sc);
    if (sc == 1 && !r.bad) { bool ok = true; for (auto &x : r.t) ok &= canonical.count(x.first) > 0; if (ok) return r; }
    int v = sv(X);
    for (auto i = S.cell.begin(); i != S.cell.end();) if (i->second.coef(v)) i = S.cell.erase(i); else ++i;
    set(S, v, e);
    return Lin::var(v);
  };
  auto lenOf = [&](St &S, const Value *v) { return ex(v, &S); };
  if (auto *II = dyn_cast<IntrinsicInst>(I)) {
    switch (II->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset:
      for (auto &S : Ss) {
        Lin len = lenOf(S, II->getArgOperand(2));
        PtrV d = pv(S, II->getArgOperand(0));
        if (II->getIntrinsicID() != Intrinsic::memset) { PtrV s = pv(S, II->getArgOperand(1)); if (onAccess) onAccess(S, I, s, -1, false, len); }
        if (onAccess) onAccess(S, I, d, -1, true, len);
        for (auto i = S.cell.begin(); i != S.cell.end();) if (i->first.first == d.r || d.r < 0) i = S.cell.erase(i); else ++i;
        for (auto i = S.pcell.begin(); i != S.pcell.end();) if (i->first.first == d.r || d.r < 0) i = S.pcell.erase(i); else ++i;
        for (auto i = S.fcell.begin(); i != S.fcell.end();) if (i->first.first == d.r || d.r < 0) i = S.fcell.erase(i); else ++i;
      }
      return;
    default: if (!I->getType()->isIntegerTy()) return;
    }
  }
  auto place = [&](St &S, PtrV &p) { // a local array's position that is known
    if (p.r <= 0 || p.off.bad || p.off.isConst() || !(R[p.r].k == Region::Local || (heapCells && R[p.r].k == Region::Heap))) return;
    int64_t sc; Lin r = S.P.reduce(p.off, &sc);
    if (r.isConst() && sc && r.k % sc == 0) p.off = Lin(r.k / sc);
  };
  if (auto *L = dyn_cast<LoadInst>(I)) {
    for (auto &S : Ss) {
      PtrV p = pv(S, L->getPointerOperand());
      int64_t sz = DL.getTypeStoreSize(L->getType());
      if (onAccess) onAccess(S, I, p, sz, false, Lin(sz));
      place(S, p);
      if (L->getType()->isIntegerTy()) {
        Lin val = Lin::none();
        if (onGlobalLoad) { int v = onGlobalLoad(const_cast<LoadInst *>(L), S); if (v >= 0) val = Lin::var(v); }
        if (val.bad && p.r > 0 && p.off.isConst()) { auto c = S.cell.find({p.r, p.off.k}); if (heapCells) loadCell[sv(L)] = {p.r, p.off.k}; if (c != S.cell.end() && (!heapCells || !cellW.count(c->first) || cellW[c->first] == sz)) val = c->second; }
        set(S, sv(L), val);
      } else if (L->getType()->isDoubleTy()) {
        if (heapCells && p.r > 0 && p.off.isConst()) { auto c = S.fcell.find({p.r, p.off.k}); if (c != S.fcell.end()) setF(S, L, c->second.first, c->second.second); }
      } else if (L->getType()->isPointerTy()) {
        S.preg.erase(L); S.P.forget(sv(L));
        if (p.r > 0 && p.off.isConst()) { auto c = S.pcell.find({p.r, p.off.k}); if (c != S.pcell.end() && c->second.r >= 0) { S.preg[L] = c->second.r; set(S, sv(L), c->second.off); } }
        if (!S.preg.count(L)) if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand())) if (G->hasInitializer()) if (auto *T = dyn_cast<GlobalVariable>(G->getInitializer()->stripPointerCasts())) { S.preg[L] = pv(S, T).r; set(S, sv(L), Lin(0)); }
      }
    }
    return;
  }
  if (auto *X = dyn_cast<StoreInst>(I)) {
    for (auto &S : Ss) {
      PtrV p = pv(S, X->getPointerOperand());
      auto *T = X->getValueOperand()->getType();
      int64_t sz = DL.getTypeStoreSize(T);
      if (onAccess) onAccess(S, I, p, sz, true, Lin(sz));
      place(S, p);
      // cells hit
      int64_t klo = INT64_MIN, khi = INT64_MAX; // the bytes that may be hit
      if (p.r > 0 && p.off.isConst()) { klo = p.off.k; khi = p.off.k + sz; }
      else if (p.r > 0 && heapCells && !p.off.bad) { int64_t l, h; if (S.P.boundMin(p.off, l)) klo = l; if (S.P.boundMin(p.off * -1, h)) khi = -h + sz; }
      auto kill = [&](auto &m) { for (auto i = m.begin(); i != m.end();) { bool k = p.r < 0 ? R[i->first.first].k == Region::Local || R[i->first.first].k == Region::Heap : i->first.first == p.r && i->first.second < khi && klo < i->first.second + (cellW.count(i->first) ? cellW[i->first] : 8); if (k) i = m.erase(i); else ++i; } };
      kill(S.cell); kill(S.pcell); kill(S.fcell);
      if (p.r > 0 && p.off.isConst() && (R[p.r].k == Region::Local || R[p.r].meta || (heapCells && R[p.r].k == Region::Heap))) {
        if (T->isIntegerTy()) { Lin e = ex(X->getValueOperand()); if (!e.bad) { cellW[{p.r, p.off.k}] = heapCells ? sz : std::max<int64_t>(cellW[{p.r, p.off.k}], sz); S.cell[{p.r, p.off.k}] = stable(S, e, X); } }
        else if (T->isPointerTy()) { PtrV q = pv(S, X->getValueOperand()); if (q.r >= 0) { q.off = stable(S, q.off, X); S.pcell[{p.r, p.off.k}] = q; } }
        else if (heapCells && T->isDoubleTy()) S.fcell[{p.r, p.off.k}] = {fi(S, X->getValueOperand()), mayNan(S, X->getValueOperand())};
      }
    }
    return;
  }
  if (auto *C = dyn_cast<CallInst>(I)) {
    Function *G = calleeOf(C);
    if (onCall && onCall(Ss, const_cast<CallInst *>(C), G)) return;
    if (isAllocFn(G)) {
      std::vector<St> out;
      int r = region(C);
      if (!R[r].sized) { R[r].k = Region::Heap; R[r].name = "buffer allocated in line " + std::to_string(C->getDebugLoc() ? C->getDebugLoc().getLine() : 0); R[r].sized = true; R[r].size = Lin::var(nv("size" + std::to_string(r))); }
      for (auto &S : Ss) {
        Lin n = ex(C->getArgOperand(G->getName() == "realloc" ? 1 : 0));
        if (G->getName() == "calloc") { Lin m = ex(C->getArgOperand(1)); n = m.isConst() ? n * m.k : n.isConst() ? m * n.k : Lin::none(); }
        St bad = S; bad.preg[C] = 0; bad.status.erase(r);
        if (complain && S.status.count(r) && S.status[r] == 'L') complain(I, "leak", R[r].name, "a buffer is allocated again while the previous one is still held");
        S.preg[C] = r; S.status[r] = 'L';
        set(S, R[r].size.t[0].first, n);
        if (onAlloc) onAlloc(S, const_cast<CallInst *>(C), r);
        if (complain && !n.bad && !S.P.entailsGe(n)) complain(I, "size", R[r].name, "the size of an allocation may be negative");
        out.push_back(S); out.push_back(bad);
      }
      Ss = out;
      return;
    }
    if (G && G->getName() == "free") {
      for (auto &S : Ss) {
        PtrV p = pv(S, C->getArgOperand(0));
        if (p.r <= 0) continue;
        if (R[p.r].k != Region::Heap) { if (complain) complain(I, "free", R[p.r].name, "releases memory that was not allocated (" + R[p.r].name + ")"); continue; }
        if (complain && (S.status.count(p.r) ? S.status[p.r] : 'F') != 'L') complain(I, "free", R[p.r].name, "releases a buffer twice");
        S.status[p.r] = 'F';
      }
      return;
    }
    if (C->getType()->isIntegerTy()) for (auto &S : Ss) S.P.forget(sv(C));
    return;
  }
  if (!I->getType()->isIntegerTy()) {
    if (auto *Se = dyn_cast<SelectInst>(I); Se && I->getType()->isPointerTy()) {
      std::vector<St> out;
      for (auto &S : Ss) for (int t = 0; t < 2; t++) for (auto &s : assume(S, Se->getCondition(), t)) { St x = s; PtrV p = pv(x, t ? Se->getTrueValue() : Se->getFalseValue()); if (p.r >= 0) { x.preg[I] = p.r; set(x, sv(I), p.off); } else x.preg.erase(I); out.push_back(x); }
      Ss = out;
    }
    return;
  }
  auto divisor = [&](St &S, const Instruction *I, const Lin &y) { if (complain && (y.bad || (!S.P.entailsGe(y - Lin(1)) && !S.P.entailsGe(y * -1 - Lin(1))))) complain(I, "division", "divisor", "an integer division whose divisor may be 0"); };
  Lin e = ex(I);
  int own = sv(I);
  if (!(e.t.size() == 1 && e.t[0].first == own && e.k == 0)) return; // linear: nothing to record
  if (isa<PHINode>(I)) return;
  for (auto &S : Ss) {
    S.P.forget(own);
    Lin v = Lin::var(own);
    if (I->getType()->isIntegerTy(1)) { S.P.addGe(v); S.P.addGe(Lin(1) - v); continue; }
    switch (I->getOpcode()) {
    case Instruction::ZExt: case Instruction::SExt: {
      // from a truth value
      bool z = I->getOpcode() == Instruction::ZExt;
      auto t = assume(S, I->getOperand(0), true), f = assume(S, I->getOperand(0), false);
      if (t.empty()) S.P.addEq(v);
      else if (f.empty()) S.P.addEq(v - Lin(z ? 1 : -1));
      else if (z) { S.P.addGe(v); S.P.addGe(Lin(1) - v); } else { S.P.addGe(v + Lin(1)); S.P.addGe(v * -1); }
      break;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      FI f = fi(S, I->getOperand(0));
      if (f.lo > -2e9 && f.lo < 2e9) S.P.addGe(v - Lin((int64_t)f.lo));
      if (f.hi < 2e9 && f.hi > -2e9) S.P.addGe(Lin((int64_t)f.hi) - v);
      break;
    }
    case Instruction::SDiv: case Instruction::UDiv: case Instruction::AShr: case Instruction::LShr: {
      Lin x = ex(I->getOperand(0)), y = ex(I->getOperand(1));
      bool sh = I->getOpcode() == Instruction::AShr || I->getOpcode() == Instruction::LShr;
      if (!sh) divisor(S, I, y);
      int64_t c = y.isConst() ? (sh ? (y.k >= 0 && y.k < 31 ? 1ll << y.k : 0) : y.k) : 0;
      if (x.bad) break;
      if (int q = c > 1 ? quotient(S, x, c) : -1; q >= 0) { S.P.addEq(v - Lin::var(q)); break; }
      if (c > 0) {
        if (S.P.entailsGe(x)) { S.P.addGe(v); S.P.addGe(x - v * c); S.P.addGe(v * c - x + Lin(c - 1)); }
        else { S.P.addGe(x - v * c + Lin(c - 1)); S.P.addGe(v * c - x + Lin(c - 1)); }
      } else if (S.P.entailsGe(x) && S.P.entailsGe(y - Lin(1))) { S.P.addGe(v); S.P.addGe(x - v); }
      break;
    }
    case Instruction::SRem: case Instruction::URem: {
      Lin x = ex(I->getOperand(0)), y = ex(I->getOperand(1));
      divisor(S, I, y);
      if (x.bad || y.bad) break;
      if (int q = y.isConst() && y.k > 1 ? quotient(S, x, y.k) : -1; q >= 0) { S.P.addEq(v - x + Lin::var(q) * y.k); break; }
      if (S.P.entailsGe(y - Lin(1))) {
        S.P.addGe(y - v - Lin(1)); S.P.addGe(v + y - Lin(1));
        if (S.P.entailsGe(x) || I->getOpcode() == Instruction::URem) { S.P.addGe(v); if (S.P.entailsGe(x)) { S.P.addGe(x - v); if (heapCells && S.P.entailsGe(y - x - Lin(1))) S.P.addEq(x - v); } }
      }
      break;
    }
    case Instruction::Mul: {
      Lin x = ex(I->getOperand(0)), y = ex(I->getOperand(1));
      if (x.bad || y.bad) break;
      if (S.P.entailsGe(x) && S.P.entailsGe(y)) {
        S.P.addGe(v);
        if (S.P.entailsGe(x - Lin(1))) S.P.addGe(v - y);
        if (S.P.entailsGe(y - Lin(1))) S.P.addGe(v - x);
      }
      break;
    }
    case Instruction::Or: {
      Lin x = ex(I->getOperand(0)), y = ex(I->getOperand(1));
      if (x.bad || y.bad) break;
      if (S.P.entailsEq(x - y)) { S.P.addEq(v - x); break; }
      if (!S.P.entailsGe(x) || !S.P.entailsGe(y)) break;
      int64_t a, b, c, d;
      if (S.P.boundMin(x, a) && S.P.boundMin(x * -1, b) && S.P.boundMin(y, c) && S.P.boundMin(y * -1, d) && a == -b && c == -d) { S.P.addEq(v - Lin(a | c)); break; }
      S.P.addGe(v - x); S.P.addGe(v - y); S.P.addGe(x + y - v);
      break;
    }
    case Instruction::And: { Lin y = ex(I->getOperand(1)); if (y.isConst() && y.k >= 0) { S.P.addGe(v); S.P.addGe(y - v); Lin x = ex(I->getOperand(0)); if (!x.bad && S.P.entailsGe(x)) S.P.addGe(x - v); } break; }
    case Instruction::Select: {
      auto *Se = cast<SelectInst>(I);
      Poly J; J.bottom = true;
      for (int t = 0; t < 2; t++) for (auto &s : assume(S, Se->getCondition(), t)) { Poly p = s.P; Lin w = ex(t ? Se->getTrueValue() : Se->getFalseValue()); p.forget(own); if (!w.bad) p.addEq(v - w); J = Poly::join(J, p); }
      S.P = J;
      break;
    }
    case Instruction::Call: {
      if (auto *II = dyn_cast<IntrinsicInst>(I)) {
        auto id = II->getIntrinsicID();
        Lin a = II->arg_size() > 0 && II->getArgOperand(0)->getType()->isIntegerTy() ? ex(II->getArgOperand(0)) : Lin::none(), b = II->arg_size() > 1 && II->getArgOperand(1)->getType()->isIntegerTy() ? ex(II->getArgOperand(1)) : Lin::none();
        if (a.bad) break;
        if (id == Intrinsic::smax && !b.bad) { Poly p = S.P, q = S.P; p.addGe(a - b); p.addEq(v - a); q.addGe(b - a - Lin(1)); q.addEq(v - b); S.P = Poly::join(p, q); }
        if (id == Intrinsic::smin && !b.bad) { Poly p = S.P, q = S.P; p.addGe(b - a); p.addEq(v - a); q.addGe(a - b - Lin(1)); q.addEq(v - b); S.P = Poly::join(p, q); }
        if (id == Intrinsic::abs) { S.P.addGe(v); S.P.addGe(v - a); S.P.addGe(v + a); }
      }
      break;
    }
    default: break;
    }
  }
}
std::vector<St> Rai::execBlock(const BasicBlock *B, St S, std::vector<std::pair<const BasicBlock *, St>> &outs) {
  blocksRun++;
  std::vector<St> Ss{S};
  for (auto &I : *B) {
    if (isa<PHINode>(&I)) continue;
    if (I.isTerminator()) break;
    exec(Ss, &I);
    if (Ss.empty()) return Ss;
  }
  auto *T = B->getTerminator();
  for (auto &s : Ss) {
    if (s.P.bottom) continue;
    if (auto *br = dyn_cast<BranchInst>(T)) {
      if (br->isUnconditional()) edge(B, br->getSuccessor(0), s, outs);
      else if (br->getSuccessor(0) == br->getSuccessor(1)) edge(B, br->getSuccessor(0), s, outs);
      else for (int t = 0; t < 2; t++) for (auto &x : assume(s, br->getCondition(), t == 0)) edge(B, br->getSuccessor(t), x, outs);
    } else if (auto *sw = dyn_cast<SwitchInst>(T)) {
      Lin e = ex(sw->getCondition());
      St d = s;
      for (auto &c : sw->cases()) {
        St x = s; Lin k(c.getCaseValue()->getSExtValue());
        if (!e.bad) x.P.addEq(e - k);
        if (!x.P.bottom && !x.P.empty()) edge(B, c.getCaseSuccessor(), x, outs);
        if (!e.bad) { if (d.P.entailsEq(e - k)) d.P.bottom = true; else if (d.P.entailsGe(e - k)) d.P.addGe(e - k - Lin(1)); else if (d.P.entailsGe(k - e)) d.P.addGe(k - e - Lin(1)); }
      }
      if (!d.P.bottom && !d.P.empty()) edge(B, sw->getDefaultDest(), d, outs);
    } else if (auto *r = dyn_cast<ReturnInst>(T)) {
      Lin v = r->getReturnValue() ? ex(r->getReturnValue()) : Lin::none();
      if (onReturn) onReturn(s, r, v);
    }
  }
  return Ss;
}
void Rai::joinInto(St &A, const St &B0, const BasicBlock *at, bool wid, bool) {
  St B = B0;
  // scalars in memory become symbols of this join point
  std::vector<std::pair<int, Lin>> asA, asB;
  for (auto i = A.cell.begin(); i != A.cell.end();) {
    auto j = B.cell.find(i->first);
    if (j == B.cell.end()) { i = A.cell.erase(i); continue; }
    auto cv = cellVar.find({at, i->first});
    if (i->second == j->second && cv == cellVar.end() ) { ++i; continue; }
    int v = cv != cellVar.end() ? cv->second : (cellVar[{at, i->first}] = nv("cell" + std::to_string(i->first.first)));
    asA.push_back({v, i->second}); asB.push_back({v, j->second});
    i->second = Lin::var(v);
    ++i;
  }
  for (auto i = A.pcell.begin(); i != A.pcell.end();) { auto j = B.pcell.find(i->first); if (j == B.pcell.end() || j->second.r != i->second.r || !(j->second.off == i->second.off)) i = A.pcell.erase(i); else ++i; }
  auto apply = [&](Poly &P, std::vector<std::pair<int, Lin>> &as) {
    std::map<int, int> ren; size_t base = vname.size();
    for (auto &x : as) { int t = nv("tmp"); if (!x.second.bad) P.addEq(Lin::var(t) - x.second); ren[t] = x.first; }
    for (auto &x : as) P.forget(x.first);
    P = renamed(P, ren);
    vname.resize(base);
  };
  if (!asA.empty()) { apply(A.P, asA); apply(B.P, asB); }
  for (auto i = A.preg.begin(); i != A.preg.end();) { auto j = B.preg.find(i->first); if (j == B.preg.end() || j->second != i->second) i = A.preg.erase(i); else ++i; }
  for (auto i = A.tag.begin(); i != A.tag.end();) { auto j = B.tag.find(i->first); if (j == B.tag.end() || j->second != i->second) i = A.tag.erase(i); else ++i; }
  if (debug && getenv("RAIJ")) errs() << "JOIN" << wid << " " << at->getName() << "\n  A " << show(A.P) << "\n  B " << show(B.P) << "\n";
  for (auto i = A.fl.begin(); i != A.fl.end();) {
    auto j = B.fl.find(i->first);
    if (j == B.fl.end()) { i = A.fl.erase(i); continue; }
    FI n{std::min(i->second.lo, j->second.lo), std::max(i->second.hi, j->second.hi)};
    if (wid) {
      if (n.lo < i->second.lo) { double b = -HUGE_VAL; for (double t : fth) if (t <= n.lo && t > b) b = t; n.lo = b; }
      if (n.hi > i->second.hi) { double b = HUGE_VAL; for (double t : fth) if (t >= n.hi && t < b) b = t; n.hi = b; }
    }
    i->second = n;
    ++i;
  }
  for (auto i = A.fcell.begin(); i != A.fcell.end();) {
    auto j = B.fcell.find(i->first);
    if (j == B.fcell.end()) { i = A.fcell.erase(i); continue; }
    auto &x = i->second.first; FI y = j->second.first;
    FI n{std::min(x.lo, y.lo), std::max(x.hi, y.hi)};
    if (wid) {
      if (n.lo < x.lo) { double b = -HUGE_VAL; for (double t : fth) if (t <= n.lo && t > b) b = t; n.lo = b; }
      if (n.hi > x.hi) { double b = HUGE_VAL; for (double t : fth) if (t >= n.hi && t < b) b = t; n.hi = b; }
    }
    x = n; i->second.second |= j->second.second;
    ++i;
  }
  A.nan.insert(B.nan.begin(), B.nan.end());
  for (auto i = A.nan.begin(); i != A.nan.end();) if (A.fl.count(*i)) ++i; else i = A.nan.erase(i);
  for (auto i = A.fl.begin(); i != A.fl.end();) if (A.nan.count(i->first) && i->second.lo == -HUGE_VAL && i->second.hi == HUGE_VAL) { A.nan.erase(i->first); i = A.fl.erase(i); } else ++i;
  std::vector<Lin> both;
  for (auto &c : canonConds) if (A.P.entailsGe(c) && B.P.entailsGe(c)) both.push_back(c);
  for (auto &c : phiConds[at]) if (A.P.entailsGe(c) && B.P.entailsGe(c)) both.push_back(c);
  if (heapCells) { std::set<Lin> seen;
    for (auto &c : A.cell) if (!c.second.bad && !c.second.t.empty() && seen.insert(c.second).second && A.P.entailsGe(c.second) && B.P.entailsGe(c.second)) both.push_back(c.second);
    for (auto &c : cellConds) {
      Lin e(c.k); bool ok = true;
      for (auto &t : c.t) { auto l = loadCell.find(t.first); if (l == loadCell.end()) { ok &= canonical.count(t.first) > 0; e = e + Lin::var(t.first) * t.second; continue; } auto q = A.cell.find(l->second); if (q == A.cell.end() || q->second.bad) { ok = false; break; } e = e + q->second * t.second; }
      if (!ok || e.t.empty() || !seen.insert(e).second) continue;
      if (A.P.entailsGe(e) && B.P.entailsGe(e)) both.push_back(e);
    } }
  { std::set<Lin> nf;
    for (auto &f : A.facts) if (B.facts.count(f) || B.P.entailsGe(f)) nf.insert(f);
    if (!wid) for (auto &f : B.facts) if (!nf.count(f) && A.P.entailsGe(f)) nf.insert(f);
    A.facts = nf; }
  if (wid && firstSeen) for (auto &c : *firstSeen) if (B.P.entailsGe(c) && A.P.entailsGe(c)) both.push_back(c);
  if (wid) {
    Poly J = Poly::join(A.P, B.P, false), W = Poly::widen(A.P, J);
    for (auto &c : upTo[at]) if (!W.entailsGe(c) && J.entailsGe(c)) W.addGe(c);
    A.P = W;
  } else A.P = Poly::join(A.P, B.P);
  if (!A.P.bottom) {
    for (auto &c : always) if (!A.P.entailsGe(c)) A.P.addGe(c);
    for (auto &c : both) if (!A.P.entailsGe(c)) A.P.addGe(c);
    for (auto &c : A.facts) if (!A.P.entailsGe(c)) A.P.addGe(c);
  }
  if (debug && getenv("RAIJ")) errs() << "  = " << show(A.P) << "\n";
}
void Rai::run(std::vector<St> init) {
  { std::vector<const Value *> w; for (auto &B : F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) if (r->getReturnValue()) w.push_back(r->getReturnValue());
    w.insert(w.end(), extraRet.begin(), extraRet.end());
    while (!w.empty()) { auto *v = w.back(); w.pop_back(); if (auto *P = dyn_cast<PHINode>(v)) if (retPhis.insert(P).second) for (auto &x : P->incoming_values()) w.push_back(x); } }
  valNo.clear();
  for (auto &a : F.args()) if (a.getType()->isIntegerTy()) ex(&a);
  for (auto &B : F) for (auto &I : B) { numOf(&I); if (I.getType()->isIntegerTy() || I.getType()->isPointerTy()) sv(&I); }
  { std::set<double> t{0, 1, -1}; for (auto &B : F) for (auto &I : B) for (auto &o : I.operands()) if (isa<ConstantFP>(o)) { double d = fi(St(), o).lo; if (std::isfinite(d)) { t.insert(d); t.insert(d + 1); t.insert(d - 1); t.insert(-d); } } fth.assign(t.begin(), t.end()); }
  computeLive();
  // weak topological order: the blocks of a loop stay together, ahead of what follows the loop
  std::vector<const BasicBlock *> rpo;
  DominatorTree DT(F); LoopInfo LI(DT);
  {
    std::vector<const BasicBlock *> base; std::map<const BasicBlock *, int> bi;
    ReversePostOrderTraversal<Function *> T(&F); for (auto *b : T) { bi[b] = base.size(); base.push_back(b); }
    std::function<void(Loop *)> lay = [&](Loop *L) {
      // nodes: blocks directly in L, child loops (represented by their header)
      auto node = [&](const BasicBlock *b) -> const BasicBlock * {
        Loop *x = LI.getLoopFor(b); if (x == L) return b;
        while (x && x->getParentLoop() != L) x = x->getParentLoop();
        return x ? x->getHeader() : nullptr; };
      std::map<const BasicBlock *, std::set<const BasicBlock *>> succ; std::map<const BasicBlock *, int> indeg;
      const BasicBlock *head = L ? L->getHeader() : nullptr;
      for (auto *b : base) {
        if (L && !L->contains(b)) continue;
        auto *n = node(b); indeg.emplace(n, 0);
        for (auto *s : successors(b)) { if (L && !L->contains(s)) continue; if (s == head) continue; auto *m = node(s); if (m == n) continue; if (succ[n].insert(m).second) indeg[m]++; }
      }
      std::set<std::pair<int, const BasicBlock *>> ready;
      for (auto &e : indeg) if (!e.second) ready.insert({bi[e.first], e.first});
      std::set<const BasicBlock *> done;
      while (done.size() < indeg.size()) {
        if (ready.empty()) { const BasicBlock *p = nullptr; for (auto &e : indeg) if (!done.count(e.first) && (!p || bi[e.first] < bi[p])) p = e.first; ready.insert({bi[p], p}); }
        auto *n = ready.begin()->second; ready.erase(ready.begin());
        if (!done.insert(n).second) continue;
        Loop *x = LI.getLoopFor(n);
        if (x == L) rpo.push_back(n); else { while (x->getParentLoop() != L) x = x->getParentLoop(); lay(x); }
        for (auto *m : succ[n]) if (--indeg[m] == 0 && !done.count(m)) ready.insert({bi[m], m});
      }
    };
    lay(nullptr);
  }
  std::map<const BasicBlock *, int> ord; for (size_t i = 0; i < rpo.size(); i++) ord[rpo[i]] = i;
  std::set<const BasicBlock *> heads; for (auto *b : rpo) for (auto *s : successors(b)) if (ord[s] <= ord[b]) heads.insert(s);
  // conditions tested in a loop bound what widening may give up
  for (auto *h : heads) {
    Loop *L = LI.getLoopFor(h);
    if (!L || L->getHeader() != h) continue;
    std::set<Lin> cs;
    for (auto *b : L->blocks()) for (auto &I : *b) if (auto *C = dyn_cast<ICmpInst>(&I)) {
      if (!C->getOperand(0)->getType()->isIntegerTy()) continue;
      Lin x = ex(C->getOperand(0)), y = ex(C->getOperand(1));
      if (x.bad || y.bad) continue;
      Lin d = x - y;
      if (d.t.empty()) continue;
      for (int k : {0, 1, -1}) { cs.insert(d + Lin(k)); cs.insert(d * -1 + Lin(k)); }
    }
    upTo[h].assign(cs.begin(), cs.end());
  }
  always.clear(); canonConds.clear();
  if (heapCells) { std::set<Lin> cs;
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<ICmpInst>(&I)) {
      if (!C->getOperand(0)->getType()->isIntegerTy()) continue;
      Lin x = ex(C->getOperand(0)), y = ex(C->getOperand(1)); if (x.bad || y.bad) continue;
      Lin d = x - y; if (d.t.empty()) continue;
      bool ok = false; for (auto &t : d.t) ok |= !canonical.count(t.first);
      if (ok) for (int k : {0, 1, -1}) { cs.insert(d + Lin(k)); cs.insert(d * -1 + Lin(k)); }
    }
    cellConds.assign(cs.begin(), cs.end()); }
  if (init.size() == 1) for (auto &c : init[0].P.all()) { bool ok = true; for (auto &x : c.t) ok &= canonical.count(x.first) > 0; if (ok) always.push_back(c); }
  { std::set<Lin> cs;
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<ICmpInst>(&I)) {
      if (!C->getOperand(0)->getType()->isIntegerTy()) continue;
      Lin x = ex(C->getOperand(0)), y = ex(C->getOperand(1)); if (x.bad || y.bad) continue;
      Lin d = x - y; if (d.t.empty()) continue;
      bool ok = true; for (auto &t : d.t) ok &= canonical.count(t.first) > 0;
      if (ok) { cs.insert(d); cs.insert(d * -1); }
    }
    canonConds.assign(cs.begin(), cs.end()); }
  { std::map<int, const BasicBlock *> home; std::map<const BasicBlock *, std::set<Lin>> pc;
    for (auto &B : F) for (auto &P : B.phis()) if (P.getType()->isIntegerTy()) { home[sv(&P)] = &B; pc[&B].insert(Lin::var(sv(&P))); }
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<ICmpInst>(&I)) {
      if (!C->getOperand(0)->getType()->isIntegerTy()) continue;
      Lin x = ex(C->getOperand(0)), y = ex(C->getOperand(1)); if (x.bad || y.bad) continue;
      Lin d = x - y;
      for (auto &t : d.t) { auto h = home.find(t.first); if (h == home.end()) continue; for (int k : {0, -1}) { pc[h->second].insert(d + Lin(k)); pc[h->second].insert(d * -1 + Lin(k)); } }
    }
    phiConds.clear(); for (auto &e : pc) phiConds[e.first].assign(e.second.begin(), e.second.end()); }
  // a loop whose body branches on a comparison with what the loop changes: its states are kept apart by the outcome
  struct Split { Lin e; bool eq; Str tag; };
  std::map<const BasicBlock *, std::vector<Split>> splits; std::map<Str, Loop *> splitLoop; std::map<Str, const BasicBlock *> tagHead; pathTag.clear();
  if (!noJoin && strategy < 3) for (auto *h : rpo) {
    Loop *L = LI.getLoopFor(h);
    if (!heads.count(h) || !L || L->getHeader() != h) continue;
    std::set<int> own; for (auto &P : h->phis()) if (P.getType()->isIntegerTy()) own.insert(sv(&P));
    for (int pass = 0; pass < (strategy == 2 ? 1 : 2); pass++) for (auto *b : L->blocks()) {
      auto *br = dyn_cast<BranchInst>(b->getTerminator());
      if (!br || !br->isConditional() || LI.getLoopFor(b) != L) continue;
      if (!L->contains(br->getSuccessor(0)) || !L->contains(br->getSuccessor(1))) continue;
      auto *C = dyn_cast<ICmpInst>(br->getCondition());
      if (!C || !C->getOperand(0)->getType()->isIntegerTy() || C->isEquality() != (pass == 1)) continue;
      Lin x = ex(C->getOperand(0)), y = ex(C->getOperand(1)); if (x.bad || y.bad) continue;
      Lin d = x - y; int mine = 0; bool ok = true;
      for (auto &t : d.t) { if (own.count(t.first)) mine++; else { for (auto &e : ssa) if (e.second == t.first) if (auto *I = dyn_cast<Instruction>(e.first)) if (L->contains(I)) ok = false; } }
      if (!mine || !ok) continue;
      Split q; q.eq = C->isEquality();
      switch (C->getPredicate()) {
      case CmpInst::ICMP_SGE: case CmpInst::ICMP_SLT: q.e = d; break;
      case CmpInst::ICMP_SGT: case CmpInst::ICMP_SLE: q.e = d - Lin(1); break;
      case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: q.e = d; break;
      default: continue;
      }
      auto &v = splits[h];
      bool dup = false; for (auto &o : v) dup |= o.e == q.e && o.eq == q.eq;
      if (dup || v.size() >= 2) continue;
      q.tag = "p" + std::to_string(ord[h]) + "_" + std::to_string(v.size());
      splitLoop[q.tag] = L;
      v.push_back(q);
    }
    bool reset = false;
    // an index the loop resets to a constant: the reset value is a case of its own
    for (auto &P : h->phis()) {
      if ((strategy > 0 && strategy != 4) || !P.getType()->isIntegerTy() || splits[h].size() >= 3) continue;
      std::set<int64_t> ks; std::set<const Value *> seenV; std::vector<const Value *> wl;
      for (unsigned i = 0; i < P.getNumIncomingValues(); i++) if (L->contains(P.getIncomingBlock(i))) wl.push_back(P.getIncomingValue(i));
      while (!wl.empty()) {
        auto *v = wl.back(); wl.pop_back();
        if (v == &P || !seenV.insert(v).second) continue;
        if (auto *k = dyn_cast<ConstantInt>(v)) ks.insert(k->getSExtValue());
        else if (auto *Q = dyn_cast<PHINode>(v)) { if (L->contains(Q)) for (auto &x : Q->incoming_values()) wl.push_back(x); }
      }
      bool index = false; std::set<const Value *> us{&P}; std::vector<const Value *> uw{&P};
      while (!uw.empty()) { auto *v = uw.back(); uw.pop_back(); for (auto *U : v->users()) { if (isa<GetElementPtrInst>(U)) index = true; else if (isa<CastInst>(U) || isa<BinaryOperator>(U)) if (us.insert(U).second) uw.push_back(U); } }
      if (!index || ks.size() != 1) continue;
      Split q; q.eq = true; q.e = Lin::var(sv(&P)) - Lin(*ks.begin());
      auto &v = splits[h];
      bool dup = false; for (auto &o : v) dup |= o.e == q.e && o.eq;
      if (dup) continue;
      q.tag = "p" + std::to_string(ord[h]) + "_" + std::to_string(v.size());
      splitLoop[q.tag] = L; v.push_back(q); reset = true;
      break;
    }
    if (splits.count(h) && splits[h].empty()) splits.erase(h);
    if (reset) for (auto &P : h->phis()) {
      bool used = false; for (auto &q : splits[h]) used |= P.getType()->isIntegerTy() && q.e.coef(sv(&P)); if (!used) continue;
      std::set<const Value *> sn; std::vector<const Value *> wl;
      for (unsigned i = 0; i < P.getNumIncomingValues(); i++) if (L->contains(P.getIncomingBlock(i))) wl.push_back(P.getIncomingValue(i));
      while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); auto *Q = dyn_cast<PHINode>(v); if (!Q || !L->contains(Q) || Q->getParent() == h || heads.count(Q->getParent()) || !sn.insert(Q).second) continue;
        Str t = "q" + std::to_string(ord[Q->getParent()]); pathTag[Q->getParent()] = t; splitLoop[t] = L; tagHead[t] = h;
        for (auto &x : Q->incoming_values()) wl.push_back(x); }
    }
  }
  // first rounds of a loop that turns floating point values into numbers of steps, each on its own
  std::map<const BasicBlock *, Str> rounds;
  if (!noJoin && strategy == 5) for (Loop *L : LI) {
    bool conv = false; for (auto *b : L->blocks()) for (auto &I : *b) conv |= I.getOpcode() == Instruction::FPToSI && L->getSubLoops().size();
    if (conv && heads.count(L->getHeader())) { Str t = "k" + std::to_string(ord[L->getHeader()]); rounds[L->getHeader()] = t; splitLoop[t] = L; }
  }
  std::map<const BasicBlock *, int> roundCap;
  if (!noJoin && strategy == 5 && peel) for (Loop *L : LI.getLoopsInPreorder()) { // the first round of a loop that stores is a case of its own
    bool st = false; for (auto *b : L->blocks()) for (auto &I : *b) st |= isa<StoreInst>(I);
    if (!st || !L->getSubLoops().empty() || !heads.count(L->getHeader()) || rounds.count(L->getHeader())) continue;
    Str t = "k" + std::to_string(ord[L->getHeader()]); rounds[L->getHeader()] = t; splitLoop[t] = L; roundCap[L->getHeader()] = 1;
  }
  // flags kept in memory: set to constants only and compared with constants
  std::set<int64_t> flagOff;
  if (heapCells) {
    std::set<int64_t> cmp, notC;
    auto offOf = [&](const Value *p, int64_t &o) { APInt off(64, 0); auto *b = p->stripAndAccumulateConstantOffsets(DL, off, true); o = off.getSExtValue(); return isa<CallInst>(b) || isa<LoadInst>(b) || isa<PHINode>(b); };
    for (auto &B : F) for (auto &I : B) {
      int64_t o;
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->getType()->isIntegerTy() && offOf(L->getPointerOperand(), o)) for (auto *U : L->users()) if (auto *C = dyn_cast<ICmpInst>(U)) if (C->isEquality() && isa<ConstantInt>(C->getOperand(1))) cmp.insert(o); }
      if (auto *X = dyn_cast<StoreInst>(&I)) if (X->getValueOperand()->getType()->isIntegerTy() && offOf(X->getPointerOperand(), o) && !isa<ConstantInt>(X->getValueOperand())) notC.insert(o);
    }
    for (auto o : cmp) if (!notC.count(o)) flagOff.insert(o);
  }
  auto flags = [&](St &S) {
    if (flagOff.empty()) return;
    for (auto i = S.tag.begin(); i != S.tag.end();) if (i->first[0] == 'e') i = S.tag.erase(i); else ++i;
    for (auto &c : S.cell) if (R[c.first.first].k == Region::Heap && flagOff.count(c.first.second) && c.second.isConst() && std::abs(c.second.k) <= 8) S.tag["e" + std::to_string(c.first.first) + "_" + std::to_string(c.first.second)] = std::to_string(c.second.k);
  };
  constexpr int ROUNDS = 15; bool merged = false;
  typedef std::map<Str, St> SM;
  std::map<const BasicBlock *, SM> in;
  std::map<std::pair<const BasicBlock *, const BasicBlock *>, std::vector<St>> eo;
  std::map<std::pair<const BasicBlock *, Str>, int> visits; std::map<std::pair<const BasicBlock *, Str>, std::set<Lin>> seen;
  int firstHead = 1 << 30; for (auto *h : heads) firstHead = std::min(firstHead, ord[h]);
  auto gather = [&](const BasicBlock *b) {
    SM m; int n = 0;
    bool apart = noJoin || (strategy == 4 && ord[b] < firstHead && !gaveUp.count("many"));
    auto keyOf = [&](const St &s, int n) { return apart ? std::to_string(n) : s.key(); };
    auto add = [&](const St &s0) { St s1; if (!flagOff.empty()) { s1 = s0; flags(s1); } const St &s = flagOff.empty() ? s0 : s1; Str k = keyOf(s, n++); auto i = m.find(k); if (i == m.end()) m[k] = s; else joinInto(i->second, s, b, false, false); };
    if (b == rpo[0]) for (auto &s : init) add(s);
    std::set<const BasicBlock *> ps(pred_begin(b), pred_end(b));
    std::vector<const BasicBlock *> pl(ps.begin(), ps.end());
    std::sort(pl.begin(), pl.end(), [&](auto *x, auto *y) { return ord[x] < ord[y]; });
    for (auto *p : pl) { auto i = eo.find({p, b}); if (i != eo.end()) for (auto &s : i->second) {
      auto rd = rounds.find(b);
      if (rd == rounds.end()) { add(s); continue; }
      St x = s; auto t = x.tag.find(rd->second);
      int k = ord[p] >= ord[b] && t != x.tag.end() ? std::min(roundCap.count(b) ? roundCap[b] : ROUNDS, atoi(t->second.c_str()) + 1) : 0;
      x.tag[rd->second] = std::to_string(k); add(x);
    } }
    if (!noJoin) {
      bool stale = false;
      auto gone = [&](const Str &t) { if (t[0] != 'p' && t[0] != 'q' && t[0] != 'k') return false; auto l = splitLoop.find(t); if (l == splitLoop.end() || !l->second->contains(b)) return true; auto th = tagHead.find(t); return th != tagHead.end() && th->second == b; };
      for (auto &e : m) for (auto &t : e.second.tag) if (gone(t.first)) stale = true;
      auto sp = splits.find(b);
      if (stale || sp != splits.end()) {
        SM m2;
        for (auto &e : m) {
          St s = e.second;
          for (auto i = s.tag.begin(); i != s.tag.end();) { if (gone(i->first)) i = s.tag.erase(i); else ++i; }
          std::vector<St> parts{s};
          if (sp != splits.end()) for (auto &q : sp->second) {
            std::vector<St> np;
            for (auto &x : parts) for (int w = 0; w < (q.eq ? 3 : 2); w++) {
              St y = x;
              if (q.eq) { if (w == 0) y.P.addEq(q.e); else if (w == 1) y.P.addGe(q.e - Lin(1)); else y.P.addGe(q.e * -1 - Lin(1)); }
              else y.P.addGe(w == 0 ? q.e : q.e * -1 - Lin(1));
              if (y.P.bottom || y.P.empty()) continue;
              y.tag[q.tag] = std::to_string(w); np.push_back(y);
            }
            parts = np;
          }
          for (auto &x : parts) { Str k = x.key(); auto i = m2.find(k); if (i == m2.end()) m2[k] = x; else joinInto(i->second, x, b, false, false); }
        }
        m = m2;
      }
    }
    if (apart && !noJoin && m.size() > 600) { gaveUp.insert("many"); SM m2; for (auto &e : m) { Str k = e.second.key(); auto i = m2.find(k); if (i == m2.end()) m2[k] = e.second; else joinInto(i->second, e.second, b, false, false); } m = m2; apart = false; }
    if (m.size() > (rounds.empty() ? maxStates : 300) && !apart) { // too many: merge disregarding tags
      SM m2; merged = true;
      for (auto &e : m) { St s = e.second; for (auto i = s.tag.begin(); i != s.tag.end();) if (i->first[0] == 'c' || i->first[0] == 'q') i = s.tag.erase(i); else ++i; Str k = s.key(); auto i = m2.find(k); if (i == m2.end()) m2[k] = s; else joinInto(i->second, s, b, false, false); }
      m = m2;
    }
    if (m.size() > (rounds.empty() ? 64 : 400) && !apart) { gaveUp.insert("too many cases in " + F.getName().str()); SM m3; m3.insert(*m.begin()); St &a = m3.begin()->second; for (auto &e : m) joinInto(a, e.second, b, false, false); m = m3; }
    return m;
  };
  auto execAll = [&](const BasicBlock *b) {
    std::vector<std::pair<const BasicBlock *, St>> outs;
    for (auto &e : in[b]) execBlock(b, e.second, outs);
    for (auto *s : successors(b)) eo[{b, s}].clear();
    for (auto &o : outs) eo[{b, o.first}].push_back(o.second);
  };
  auto saveRep = report; report = false;
  auto sA = onAccess; auto sR = onReturn; auto sC = complain;
  // ascending phase: hooks run silently (they may refine states), see `report`
  std::map<const BasicBlock *, SM> known; // what a first run showed for these cases
  auto meet = [&](const BasicBlock *b, SM &m) {
    auto k = known.find(b); if (k == known.end()) return;
    for (auto &e : m) {
      auto o = k->second.find(e.first); if (o == k->second.end()) continue;
      std::map<int, Lin> at; std::set<int> off;
      for (auto &c : o->second.cell) for (auto &t : c.second.t) if (!canonical.count(t.first)) { auto q = e.second.cell.find(c.first); if (c.second == Lin::var(t.first) && q != e.second.cell.end() && !q->second.bad) at[t.first] = q->second; else off.insert(t.first); }
      for (auto &c : o->second.P.all()) {
        Lin l(c.k); bool ok = true;
        for (auto &t : c.t) {
          if (auto a = at.find(t.first); a != at.end()) l = l + a->second * t.second;
          else if (canonical.count(t.first) && !off.count(t.first)) l = l + Lin::var(t.first) * t.second;
          else { bool own = false; for (auto &P : b->phis()) own |= P.getType()->isIntegerTy() && sv(&P) == t.first; if (own && !off.count(t.first)) l = l + Lin::var(t.first) * t.second; else ok = false; }
        }
        if (ok && !l.t.empty()) e.second.P.addGe(l);
      }
    }
    for (auto i = m.begin(); i != m.end();) if (i->second.P.bottom || i->second.P.empty()) i = m.erase(i); else ++i;
  };
  for (int turn = 0; turn < (boot ? 2 : 1); turn++) {
  if (turn) { if (!gaveUp.empty() || merged) break; for (auto *h : heads) if (in.count(h)) known[h] = in[h]; in.clear(); eo.clear(); visits.clear(); seen.clear(); }
  std::set<int> wl{0};
  size_t guard = 0;
  while (!wl.empty()) {
    if (++guard > 60000) { gaveUp.insert("no fixpoint in " + F.getName().str()); break; }
    int i = *wl.begin(); wl.erase(wl.begin());
    auto *b = rpo[i];
    SM m = gather(b);
    if (turn) { meet(b, m); if (m.empty()) continue; }
    bool changed = !in.count(b);
    if (heads.count(b) && in.count(b)) {
      SM &old = in[b];
      SM res = old;
      for (auto &e : m) {
        auto o = res.find(e.first);
        if (o == res.end()) { res.insert(e); changed = true; continue; }
        St j = o->second;
        int vis = ++visits[{b, e.first}];
        auto &fs = seen[{b, e.first}];
        if (vis == 1) { auto v = o->second.P.all(); fs = std::set<Lin>(v.begin(), v.end()); }
        firstSeen = &fs;
        joinInto(j, e.second, b, vis > 3, true);
        firstSeen = nullptr;
        if (turn) { SM one; one.insert({e.first, j}); meet(b, one); if (!one.empty()) j = one.begin()->second; }
        if (!j.P.leq(o->second.P) || j.cell.size() != o->second.cell.size() || j.pcell.size() != o->second.pcell.size() || !(j.fl == o->second.fl) || !(j.nan == o->second.nan) || !(j.fcell == o->second.fcell)) { o->second = j; changed = true; }
        else if (!(j.cell == o->second.cell)) { o->second = j; changed = true; }
        if (vis > 40) { gaveUp.insert("no stable state in " + F.getName().str()); o->second.P = Poly(); o->second.fl.clear(); o->second.fcell.clear(); o->second.cell.clear(); }
      }
      m = res;
    } else changed = true;
    in[b] = m;
    if (!changed) continue;
    if (heads.count(b)) if (Loop *L = LI.getLoopFor(b)) if (L->getHeader() == b) for (auto i = visits.begin(); i != visits.end();) if (i->first.first != b && L->contains(i->first.first)) i = visits.erase(i); else ++i;
    execAll(b);
    for (auto *s : successors(b)) if (!eo[{b, s}].empty()) wl.insert(ord[s]);
  }
  // descending phase
  for (int pass = 0; pass < 2; pass++) for (auto *b : rpo) { SM m = gather(b); if (m.empty()) { in.erase(b); for (auto *s : successors(b)) eo.erase({b, s}); continue; } if (turn) meet(b, m); in[b] = m; execAll(b); }
  }
  report = saveRep;
  report = true;
  for (auto *b : rpo) {
    std::vector<std::pair<const BasicBlock *, St>> outs;
    if (in.count(b)) for (auto &e : in[b]) {
      if (debug) errs() << b->getName() << " [" << e.first << "] " << show(e.second.P) << "\n";
      execBlock(b, e.second, outs);
    }
  }
}
