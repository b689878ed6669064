#include "paths.h"
#include "registry.h"

bool splitOff(const Str &a, Str &base, int64_t &off) {
  size_t p = a.rfind("+#");
  if (p != Str::npos && a.find_first_of("*()[] ", p) == Str::npos) {
    off = atoll(a.c_str() + p + 2);
    base = a.substr(0, p);
    return true;
  }
  base = a; off = 0;
  return false;
}
Str plus(const Str &a, int64_t off) {
  Str b; int64_t o;
  splitOff(a, b, o);
  o += off;
  return o ? b + "+#" + std::to_string(o) : b;
}
Str litKey(Str P, Str a, Str b, bool &neg) {
  neg = false;
  if (P == "ne") { neg = true; P = "eq"; }
  else if (P == "sge") { neg = true; P = "slt"; }
  else if (P == "sle") { neg = true; P = "sgt"; }
  else if (P == "uge") { neg = true; P = "ult"; }
  else if (P == "ule") { neg = true; P = "ugt"; }
  if (P == "eq" && b < a) std::swap(a, b);
  if (P == "sgt") { std::swap(a, b); P = "slt"; }
  if (P == "ugt") { std::swap(a, b); P = "ult"; }
  return P + ":" + a + "," + b;
}
bool Path::has(const Str &pred, const Str &a, const Str &b) const {
  bool n1; Str k1 = litKey(pred, a, b, n1);
  for (auto &e : ev)
    if (e.k == Ev::Lit) { bool n2; if (litKey(e.pred, e.a, e.b, n2) == k1 && n1 == n2) return true; }
  // x == y also settles any comparison of x and y that equality implies; constants
  if (isNum(b)) {
    int64_t v = atoll(b.c_str());
    for (auto &e : ev)
      if (e.k == Ev::Lit && e.pred == "eq") {
        Str o = e.a == a ? e.b : e.b == a ? e.a : "";
        if (o.empty() || !isNum(o)) continue;
        int64_t w = atoll(o.c_str());
        if (pred == "ne") return w != v;
        if (pred == "slt") return w < v; if (pred == "sle") return w <= v; if (pred == "sgt") return w > v; if (pred == "sge") return w >= v;
      }
  }
  return false;
}

Str canon(unsigned op, Str a, Str b, unsigned w) {
  if (isNum(a) && isNum(b) && w && w <= 64) {
    APInt x(w, atoll(a.c_str()), true), y(w, atoll(b.c_str()), true), r;
    bool ok = true;
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: r = x.shl(y); break; case Instruction::LShr: r = x.lshr(y); break; case Instruction::AShr: r = x.ashr(y); break;
    case Instruction::SDiv: ok = y != 0; if (ok) r = x.sdiv(y); break; case Instruction::UDiv: ok = y != 0; if (ok) r = x.udiv(y); break;
    case Instruction::SRem: ok = y != 0; if (ok) r = x.srem(y); break; case Instruction::URem: ok = y != 0; if (ok) r = x.urem(y); break;
    default: ok = false;
    }
    if (ok) return std::to_string(r.getSExtValue());
  }
  if (op == Instruction::Sub && isNum(b)) { op = Instruction::Add; b = std::to_string(-atoll(b.c_str())); }
  if (b == "0" && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl)) return a;
  if (b == "1" && op == Instruction::Mul) return a;
  if ((op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && b < a) std::swap(a, b);
  return "(" + Str(Instruction::getOpcodeName(op)) + " " + a + " " + b + ")";
}
static bool writes(const Value *V, int d) {
  for (auto *U : V->users()) {
    if (auto *SI = dyn_cast<StoreInst>(U)) { if (SI->getPointerOperand() == V) return true; if (d > 0) return true; continue; }
    if (isa<LoadInst>(U) || isa<CmpInst>(U)) continue;
    if (auto *MT = dyn_cast<MemTransferInst>(U)) { if (MT->getRawDest() == V) return true; continue; }
    if (isa<CallBase>(U)) return true;
    if (auto *H = dyn_cast<GlobalVariable>(U)) { // initial value of a pointer variable
      if (d < 6) for (auto *L : H->users()) if (isa<LoadInst>(L) && writes(L, d + 1)) return true;
      continue;
    }
    if (isa<Constant>(U) && !isa<ConstantExpr>(U)) continue; // entry of a table: tables are only read
    if (d < 6 && (isa<GetElementPtrInst>(U) || isa<ConstantExpr>(U) || isa<CastInst>(U) || isa<PHINode>(U))) { if (writes(U, d + 1)) return true; continue; }
  }
  return false;
}
bool neverWritten(GlobalVariable *G) {
  static std::map<GlobalVariable *, bool> memo;
  auto it = memo.find(G);
  if (it != memo.end()) return it->second;
  bool r = G->isConstant() || !writes(G, 0);
  return memo[G] = r;
}

namespace {
struct St {
  std::map<const Value *, Str> env;
  std::map<Str, std::pair<Str, int64_t>> mem; // address -> value, size
  std::map<const BasicBlock *, int> visits, entries;
  std::map<Str, bool> facts;
  Path P;
};
struct Run {
  PathEnum &E;
  Function &F;
  const DataLayout &DL;
  std::map<const Value *, int> ids;
  size_t steps = 0;
  Run(PathEnum &e) : E(e), F(e.F), DL(e.cx.dl()) {
    int n = 0;
    for (auto &I : instructions(F)) ids[&I] = n++;
  }
  Str cst(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->getBitWidth() <= 64 ? std::to_string(CI->getSExtValue()) : "big";
    if (isa<ConstantPointerNull>(C)) return "0";
    if (auto *FP = dyn_cast<ConstantFP>(C)) { SmallString<32> s; FP->getValueAPF().toString(s); return "f" + s.str().str(); }
    if (auto *G = dyn_cast<GlobalValue>(C)) return "@" + G->getName().str();
    if (auto *GO = dyn_cast<GEPOperator>(C)) {
      APInt off(64, 0);
      if (GO->accumulateConstantOffset(DL, off)) return plus(cst(cast<Constant>(GO->getPointerOperand())), off.getSExtValue());
    }
    if (isa<UndefValue>(C)) return "undef";
    return "ce";
  }
  Str val(St &S, const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return cst(C);
    if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo());
    auto it = S.env.find(V);
    if (it != S.env.end()) return it->second;
    return "v" + std::to_string(ids[V]);
  }
  Str fold(unsigned op, const Str &a, const Str &b, Type *T) { return canon(op, a, b, T->isIntegerTy() ? T->getIntegerBitWidth() : 0); }
  Str gep(St &S, const GEPOperator *G) {
    Str s = val(S, G->getPointerOperand());
    int64_t c = 0; Str var;
    for (auto GTI = gep_type_begin(G), E2 = gep_type_end(G); GTI != E2; ++GTI) {
      const Value *Idx = GTI.getOperand();
      if (auto *ST = GTI.getStructTypeOrNull()) { c += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Idx)->getZExtValue()); continue; }
      int64_t sz = DL.getTypeAllocSize(GTI.getIndexedType());
      Str i = val(S, Idx);
      if (isNum(i)) c += atoll(i.c_str()) * sz;
      else var += "[" + i + "*" + std::to_string(sz) + "]";
    }
    if (!var.empty()) {
      Str b; int64_t o; splitOff(s, b, o);
      s = b + var; c += o;
    }
    return plus(s, c);
  }
  Str load(St &S, const Str &addr, Type *T) {
    int64_t sz = DL.getTypeStoreSize(T);
    auto it = S.mem.find(addr);
    if (it != S.mem.end() && (it->second.second == sz || (it->second.first == "0" && sz < it->second.second))) return it->second.first;
    // constant tables
    Str b; int64_t o; splitOff(addr, b, o);
    if (b[0] == '@')
      if (auto *G = F.getParent()->getGlobalVariable(b.substr(1), true); G && G->hasInitializer() && neverWritten(G))
        if (Constant *C = cload(E.cx, G, T, o)) { Str c = cst(C); if (c != "ce") return c; }
    return cellAt(addr);
  }
  void clobber(St &S, const Str &addr, int64_t size) {
    Str b; int64_t o; splitOff(addr, b, o);
    for (auto it = S.mem.begin(); it != S.mem.end();) {
      Str b2; int64_t o2; splitOff(it->first, b2, o2);
      bool kill = false;
      if (b2 == b) kill = size < 0 || (o2 < o + size && o < o2 + it->second.second);
      else if (b2.find(b + "[") == 0 || b.find(b2 + "[") == 0) kill = true;
      if (kill) it = S.mem.erase(it); else ++it;
    }
    // facts about overwritten cells no longer hold
    Str d = "*(" + b;
    for (auto it = S.facts.begin(); it != S.facts.end();)
      if (it->first.find(d) != Str::npos && b[0] != 'L') {
        // only when the very cell is mentioned
        if (it->first.find(cellAt(addr)) != Str::npos || size < 0) { it = S.facts.erase(it); continue; }
        ++it;
      } else ++it;
  }
  int cond(St &S, const Str &p, const Str &a, const Str &b) {
    if (isNum(a) && isNum(b)) {
      int64_t x = atoll(a.c_str()), y = atoll(b.c_str());
      if (p == "eq") return x == y; if (p == "ne") return x != y;
      if (p == "slt") return x < y; if (p == "sle") return x <= y; if (p == "sgt") return x > y; if (p == "sge") return x >= y;
      uint64_t ux = x, uy = y;
      if (p == "ult") return ux < uy; if (p == "ule") return ux <= uy; if (p == "ugt") return ux > uy; if (p == "uge") return ux >= uy;
    }
    if (a == b) { if (p == "eq" || p == "sle" || p == "sge" || p == "ule" || p == "uge") return 1; return 0; }
    // addresses of objects are never NULL
    if ((p == "eq" || p == "ne") && b == "0" && !a.empty() && (a[0] == '@' || a[0] == 'L')) return p == "ne";
    bool neg; Str k = litKey(p, a, b, neg);
    auto it = S.facts.find(k);
    if (it != S.facts.end()) return it->second ^ neg;
    return -1;
  }
  static const char *inv(const Str &p) {
    static const std::map<Str, const char *> m = {{"eq", "ne"}, {"ne", "eq"}, {"slt", "sge"}, {"sge", "slt"}, {"sgt", "sle"}, {"sle", "sgt"},
                                                  {"ult", "uge"}, {"uge", "ult"}, {"ugt", "ule"}, {"ule", "ugt"}, {"flt", "fge"}, {"fge", "flt"}, {"fgt", "fle"}, {"fle", "fgt"}, {"feq", "fne"}, {"fne", "feq"}};
    auto it = m.find(p);
    return it == m.end() ? "?" : it->second;
  }
  // split a condition into alternatives for the wanted truth; each is a list of literals
  typedef std::vector<std::array<Str, 3>> Lits;
  void alts(St &S, const Value *C, bool t, std::vector<Lits> &out, int d = 0) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) { if ((CI->isOne()) == t) out.push_back({}); return; }
    auto cmp = [&](Str p, const Str &a, const Str &b) {
      if (!t) p = inv(p);
      int k = cond(S, p, a, b);
      if (k == 0) return;
      if (k == 1) { out.push_back({}); return; }
      out.push_back({{p, a, b}});
    };
    if (auto *IC = dyn_cast<ICmpInst>(C)) {
      const Value *z = IC->getOperand(0);
      while (isa<ZExtInst>(z) || isa<SExtInst>(z)) z = cast<CastInst>(z)->getOperand(0);
      if (z->getType()->isIntegerTy(1) && IC->isEquality() && d < 8)
        if (auto *k = dyn_cast<ConstantInt>(IC->getOperand(1)); k && (k->isZero())) { alts(S, z, t ^ (IC->getPredicate() == ICmpInst::ICMP_EQ), out, d + 1); return; }
      cmp(CmpInst::getPredicateName(IC->getPredicate()).str(), val(S, IC->getOperand(0)), val(S, IC->getOperand(1)));
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(C)) {
      Str p;
      switch (FC->getPredicate()) {
      case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: p = "feq"; break; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: p = "fne"; break;
      case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: p = "flt"; break; case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: p = "fle"; break;
      case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: p = "fgt"; break; case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: p = "fge"; break;
      default: out.push_back({}); return;
      }
      if (!t) p = inv(p);
      out.push_back({{p, val(S, FC->getOperand(0)), val(S, FC->getOperand(1))}});
      return;
    }
    const Value *A = nullptr, *B = nullptr; bool isAnd = false;
    if (auto *BO = dyn_cast<BinaryOperator>(C)) {
      if (BO->getOpcode() == Instruction::Xor)
        if (auto *k = dyn_cast<ConstantInt>(BO->getOperand(1)); k && k->isOne()) { alts(S, BO->getOperand(0), !t, out, d + 1); return; }
      if (BO->getOpcode() == Instruction::And || BO->getOpcode() == Instruction::Or) { A = BO->getOperand(0); B = BO->getOperand(1); isAnd = BO->getOpcode() == Instruction::And; }
    }
    if (auto *SL = dyn_cast<SelectInst>(C)) {
      if (auto *f = dyn_cast<ConstantInt>(SL->getFalseValue()); f && f->isZero()) { A = SL->getCondition(); B = SL->getTrueValue(); isAnd = true; }
      else if (auto *tv = dyn_cast<ConstantInt>(SL->getTrueValue()); tv && tv->isOne()) { A = SL->getCondition(); B = SL->getFalseValue(); isAnd = false; }
    }
    if (A && d < 8) {
      bool conj = isAnd == t; // both must have truth t
      std::vector<Lits> a, b;
      alts(S, A, t, a, d + 1);
      alts(S, B, t, b, d + 1);
      if (conj) {
        for (auto &x : a) for (auto &y : b) { Lits l = x; l.insert(l.end(), y.begin(), y.end()); out.push_back(l); }
      } else {
        // A has truth t, or A has !t and B has t
        for (auto &x : a) out.push_back(x);
        std::vector<Lits> na; alts(S, A, !t, na, d + 1);
        for (auto &x : na) for (auto &y : b) { Lits l = x; l.insert(l.end(), y.begin(), y.end()); out.push_back(l); }
      }
      return;
    }
    // value carried by a phi
    Str v = val(S, C);
    if (isNum(v)) { if ((v != "0") == t) out.push_back({}); return; }
    if (v.compare(0, 2, "?(") == 0) { // deferred comparison name ?(pred a b)
      auto it = cmps.find(v);
      if (it != cmps.end()) { alts(S, it->second, t, out, d + 1); return; }
    }
    out.push_back({{t ? "ne" : "eq", v, "0"}});
  }
  std::map<Str, const Value *> cmps;
  bool assume(St &S, const Lits &ls) {
    for (auto &l : ls) {
      int k = cond(S, l[0], l[1], l[2]);
      if (k == 0) return false;
      if (l[0][0] != 'f') { bool neg; Str key = litKey(l[0], l[1], l[2], neg); S.facts[key] = !neg; }
      // x == c: remember equality decides other equalities with constants
      Ev e; e.k = Ev::Lit; e.pred = l[0]; e.a = l[1]; e.b = l[2]; S.P.ev.push_back(e);
    }
    return true;
  }
  void go(St S, const BasicBlock *B, const BasicBlock *from) {
    while (true) {
      if (E.overflow) return;
      if (++steps > E.maxSteps || E.paths.size() > E.maxPaths) { E.overflow = true; return; }
      if (from) {
        std::vector<std::pair<const Value *, Str>> up;
        for (auto &P : B->phis()) {
          const Value *V = P.getIncomingValueForBlock(from);
          if (isa<CmpInst>(V) && P.getType()->isIntegerTy(1)) { Str n = "?(" + std::to_string(ids[V]) + ")"; cmps[n] = V; up.push_back({&P, n}); }
          else up.push_back({&P, val(S, V)});
        }
        for (auto &u : up) S.env[u.first] = u.second;
      }
      int entry = S.entries[B]++;
      bool stop = false;
      for (auto &I : *B) {
        if (isa<PHINode>(&I) || I.isTerminator() || isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          Str a = val(S, L->getPointerOperand());
          S.env[&I] = load(S, a, L->getType());
          if (E.wantLoads) { Ev e; e.k = Ev::Load; e.a = a; e.b = S.env[&I]; e.size = DL.getTypeStoreSize(L->getType()); e.I = &I; S.P.ev.push_back(e); if (E.prune && E.prune(e)) stop = true; }
        } else if (auto *SI = dyn_cast<StoreInst>(&I)) {
          Ev e; e.k = Ev::Store; e.a = val(S, SI->getPointerOperand()); e.b = val(S, SI->getValueOperand());
          e.size = DL.getTypeStoreSize(SI->getValueOperand()->getType()); e.I = &I;
          clobber(S, e.a, e.size);
          S.mem[e.a] = {e.b, e.size};
          S.P.ev.push_back(e);
          if (E.prune && E.prune(e)) stop = true;
        } else if (auto *MI = dyn_cast<MemTransferInst>(&I)) {
          Ev e; e.k = Ev::Copy; e.a = val(S, MI->getRawDest()); e.b = val(S, MI->getRawSource());
          Str n = val(S, MI->getLength()); e.size = isNum(n) ? atoll(n.c_str()) : -1; e.I = &I;
          clobber(S, e.a, e.size);
          // a local array initialised from a constant: forward its words
          S.P.ev.push_back(e);
          copies(S, e);
          if (E.prune && E.prune(e)) stop = true;
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          if (isa<IntrinsicInst>(C) && !isa<MemIntrinsic>(C)) { S.env[&I] = "v" + std::to_string(ids[&I]); continue; }
          Ev e; e.k = Ev::Call; e.I = &I;
          Function *Fn = calleeOf(C);
          e.callee = Fn ? Fn->getName().str() : "*" + val(S, C->getCalledOperand());
          for (auto &A : C->args()) e.args.push_back(val(S, A));
          e.res = "c" + std::to_string(ids[&I]) + (entry ? "'" + std::to_string(entry) : "");
          S.env[&I] = e.res;
          if (auto *MS = dyn_cast<MemSetInst>(&I)) {
            e.callee = "memset";
            Str n = e.args[2]; clobber(S, e.args[0], isNum(n) ? atoll(n.c_str()) : -1);
            if (e.args[1] == "0" && isNum(n)) zeroed(S, e.args[0], atoll(n.c_str()));
            (void)MS;
          } else if (!(Fn && (Fn->onlyReadsMemory() || Fn->getName() == "strcmp" || isAllocFn(Fn)))) {
            for (auto &a : e.args) if (!isNum(a) && a[0] != 'f') clobber(S, a, -1);
          }
          S.P.ev.push_back(e);
          if (E.prune && E.prune(e)) stop = true;
        } else if (auto *G = dyn_cast<GEPOperator>(&I)) S.env[&I] = gep(S, G);
        else if (isa<AllocaInst>(&I)) S.env[&I] = "L" + std::to_string(ids[&I]);
        else if (auto *T = dyn_cast<TruncInst>(&I)) { Str v = val(S, T->getOperand(0)); S.env[&I] = isNum(v) ? std::to_string(APInt(64, atoll(v.c_str()), true).trunc(T->getType()->getIntegerBitWidth()).getSExtValue()) : v; }
        else if (auto *Z = dyn_cast<ZExtInst>(&I)) {
          Str v = val(S, Z->getOperand(0));
          if (Z->getSrcTy()->isIntegerTy(1)) {
            std::vector<Lits> t; alts(S, Z->getOperand(0), true, t);
            std::vector<Lits> f; alts(S, Z->getOperand(0), false, f);
            if (f.empty()) v = "1"; else if (t.empty()) v = "0";
          } else if (isNum(v)) v = std::to_string((int64_t)APInt(Z->getSrcTy()->getIntegerBitWidth(), atoll(v.c_str()), true).getZExtValue());
          S.env[&I] = v;
        } else if (auto *C = dyn_cast<CastInst>(&I)) {
          Str v = val(S, C->getOperand(0));
          if (isa<SExtInst>(C) || isa<BitCastInst>(C) || isa<PtrToIntInst>(C) || isa<IntToPtrInst>(C) || isa<FPExtInst>(C)) S.env[&I] = v;
          else S.env[&I] = "(" + Str(C->getOpcodeName()) + " " + v + ")";
        } else if (isa<FreezeInst>(&I)) S.env[&I] = val(S, I.getOperand(0));
        else if (auto *BO = dyn_cast<BinaryOperator>(&I)) S.env[&I] = fold(BO->getOpcode(), val(S, BO->getOperand(0)), val(S, BO->getOperand(1)), BO->getType());
        else if (auto *SL = dyn_cast<SelectInst>(&I)) {
          if (!SL->getType()->isIntegerTy(1)) {
            std::vector<Lits> t, f; alts(S, SL->getCondition(), true, t); alts(S, SL->getCondition(), false, f);
            if (f.empty()) S.env[&I] = val(S, SL->getTrueValue()); else if (t.empty()) S.env[&I] = val(S, SL->getFalseValue());
            else S.env[&I] = "v" + std::to_string(ids[&I]);
          }
        } else if (!isa<CmpInst>(&I)) S.env[&I] = "v" + std::to_string(ids[&I]);
        if (stop) break;
      }
      if (stop) { S.P.ret = "..."; E.paths.push_back(std::move(S.P)); return; }
      const Instruction *T = B->getTerminator();
      if (auto *R = dyn_cast<ReturnInst>(T)) {
        S.P.R = R;
        if (R->getReturnValue()) S.P.ret = val(S, R->getReturnValue());
        E.paths.push_back(std::move(S.P));
        return;
      }
      if (isa<UnreachableInst>(T)) return;
      if (auto *BI = dyn_cast<BranchInst>(T)) {
        if (BI->isUnconditional()) { from = B; B = BI->getSuccessor(0); continue; }
        std::vector<Lits> t, f;
        alts(S, BI->getCondition(), true, t);
        alts(S, BI->getCondition(), false, f);
        if (f.empty() && t.size() == 1 && t[0].empty()) { from = B; B = BI->getSuccessor(0); continue; }
        if (t.empty() && f.size() == 1 && f[0].empty()) { from = B; B = BI->getSuccessor(1); continue; }
        if (++S.visits[B] > E.maxVisit) return; // further iterations repeat the same effects
        for (auto &l : t) { St N = S; if (assume(N, l)) go(std::move(N), BI->getSuccessor(0), B); }
        for (auto &l : f) { St N = S; if (assume(N, l)) go(std::move(N), BI->getSuccessor(1), B); }
        return;
      }
      if (auto *SW = dyn_cast<SwitchInst>(T)) {
        Str c = val(S, SW->getCondition());
        if (++S.visits[B] > E.maxVisit && !isNum(c)) return;
        Lits none;
        for (auto k : SW->cases()) {
          Str v = std::to_string(k.getCaseValue()->getSExtValue());
          Lits l = {{"eq", c, v}};
          if (isNum(c)) { if (c != v) continue; l.clear(); }
          St N = S;
          if (assume(N, l)) go(std::move(N), k.getCaseSuccessor(), B);
          none.push_back({"ne", c, v});
        }
        if (isNum(c)) { bool hit = false; for (auto k : SW->cases()) if (std::to_string(k.getCaseValue()->getSExtValue()) == c) hit = true; if (hit) return; none.clear(); }
        St N = S;
        if (assume(N, none)) go(std::move(N), SW->getDefaultDest(), B);
        return;
      }
      return;
    }
  }
  void zeroed(St &S, const Str &a, int64_t n) {
    if (n > 512) return;
    for (int64_t o = 0; o + 8 <= n; o += 8) zero[plus(a, o)] = 1;
    for (int64_t o = 0; o + 8 <= n; o += 4) if (!S.mem.count(plus(a, o))) S.mem[plus(a, o)] = {"0", (o % 8) ? 4 : 8};
  }
  std::map<Str, int> zero;
  void copies(St &S, const Ev &e) {
    // forward words of a constant source
    Str b; int64_t o; splitOff(e.b, b, o);
    if (b[0] != '@' || e.size <= 0 || e.size > 4096 || e.a[0] != 'L') return;
    S.mem["=" + e.a] = {e.b, e.size};
  }
};
} // namespace

void PathEnum::run() {
  Run R(*this);
  R.go(St(), &F.getEntryBlock(), nullptr);
}
