// A candlestick pattern is decided by the same formula in all forms of the indicator.
#include "forms.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/ADT/PostOrderIterator.h"

namespace {
typedef Forms::Id Id; typedef Forms::Poly Poly;
struct Loc { enum K { None, Field, Ring, Set, Array, Out, Null } k = None; int64_t off = 0; Id idx = -1; const Value *v = nullptr; };
typedef std::map<Str, Id> Mem;
struct Ev {
  Forms &f; Ctx &cx; Function &F; const DataLayout &DL;
  std::function<Id(const Value *)> outside;           // values from before the region
  std::function<Id(LoadInst *, const Loc &, Mem &)> load;
  std::function<void(StoreInst *, const Loc &, Id, Mem &)> store;
  std::function<Id(CallInst *, std::vector<Id> &)> call;
  std::map<const Value *, Id> val;
  std::set<const BasicBlock *> region; const BasicBlock *entry = nullptr;
  std::map<const BasicBlock *, Mem> mem; std::map<std::pair<const BasicBlock *, const BasicBlock *>, Id> edge;
  Ev(Forms &fo, Ctx &c, Function &fn) : f(fo), cx(c), F(fn), DL(fn.getParent()->getDataLayout()) {}
  uint64_t settingsOff = 0, settingSize = 0; // where the candle settings are
  bool inRegion(const Instruction *I) { return region.count(I->getParent()); }
  Id get(const Value *v) {
    auto it = val.find(v); if (it != val.end()) return it->second;
    if (auto *C = dyn_cast<ConstantInt>(v)) return f.num(C->getBitWidth() == 1 ? double(C->getZExtValue()) : double(C->getSExtValue()));
    if (auto *C = dyn_cast<ConstantFP>(v)) { APFloat a = C->getValueAPF(); bool l; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return f.num(a.convertToDouble()); }
    if (isa<UndefValue>(v)) return f.num(0);
    if (auto *I = dyn_cast<Instruction>(v)) if (inRegion(I)) { Id r = compute(const_cast<Instruction *>(I)); return val[v] = r; }
    return val[v] = outside(v);
  }
  // where a pointer points
  Loc loc(const Value *p) {
    Loc r; APInt off(64, 0);
    const Value *b = p->stripAndAccumulateConstantOffsets(DL, off, true);
    r.off = off.getSExtValue(); r.v = b;
    if (isa<ConstantPointerNull>(b)) { r.k = Loc::Null; return r; }
    if (auto *A = dyn_cast<Argument>(b)) { r.k = argKind(A); return r; }
    if (auto *L = dyn_cast<LoadInst>(b)) {
      if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()); G && G->getName() == "TA_Globals") { r.k = Loc::Set; return r; }
      Loc x = loc(L->getPointerOperand());
      if (x.k == Loc::Field && fieldPtr.count(x.off)) { r.k = Loc::Ring; r.v = nullptr; r.idx = f.num(0); return r; }
      return r;
    }
    if (auto *G = dyn_cast<GEPOperator>(b)) if (G->getNumIndices() == 1) {
      Loc x = loc(G->getPointerOperand());
      int64_t sz = DL.getTypeAllocSize(G->getSourceElementType());
      if ((x.k == Loc::Array || x.k == Loc::Out) && x.off % sz == 0) { Id i = get(G->getOperand(1)); i = f.apply(Forms::ADD, i, f.num(x.off / sz + r.off / sz)); if (x.idx >= 0) i = f.apply(Forms::ADD, i, x.idx); x.idx = i; x.off = 0; return x; }
      if (x.k == Loc::Ring && x.off == 0) { x.idx = f.apply(Forms::ADD, x.idx, get(G->getOperand(1))); x.off = r.off; return x; }
    }
    return r;
  }
  std::function<Loc::K(const Argument *)> argKind; std::set<int64_t> fieldPtr;
  Id rt(const Value *v) { return get(v); }
  Id cases(Id x, std::function<Id(Id)> g) { if (f.isTerm(x)) return g(x); auto nd = f.nodes[x]; Id c = f.mk(nd.var, f.num(1), f.num(0)); Id h = cases(nd.hi, g), l = cases(nd.lo, g); return f.ite(c, h, l); }
  Id boolOp(unsigned op, Id a, Id b) {
    if (op == Instruction::And) return f.andI(a, b);
    if (op == Instruction::Or) return f.orI(a, b);
    return f.ite(a, f.neg(b), b);
  }
  Id compute(Instruction *I) {
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      Id a = get(B->getOperand(0)), b = get(B->getOperand(1));
      if (B->getType()->isIntegerTy(1)) return boolOp(B->getOpcode(), a, b);
      switch (B->getOpcode()) {
      case Instruction::Add: case Instruction::FAdd: return f.apply(Forms::ADD, a, b);
      case Instruction::Sub: case Instruction::FSub: return f.apply(Forms::SUB, a, b);
      case Instruction::Mul: case Instruction::FMul: return f.apply(Forms::MUL, a, b);
      case Instruction::FDiv: return f.apply(Forms::DIV, a, b);
      case Instruction::URem: case Instruction::SRem: return f.apply(Forms::REM, a, b);
      case Instruction::Shl: { double k; if (f.isConst(b, k)) return f.apply(Forms::MUL, a, f.num(double(1ull << int(k)))); break; }
      default: break;
      }
      return opaque(I);
    }
    if (isa<FPExtInst>(I) || isa<FPTruncInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<SIToFPInst>(I) || isa<FreezeInst>(I) || isa<UIToFPInst>(I)) return get(I->getOperand(0));
    if (isa<ZExtInst>(I)) return get(I->getOperand(0));
    if (isa<FPToSIInst>(I)) return cases(get(I->getOperand(0)), [&](Id x) { double k; if (f.isConst(x, k)) return f.num(std::trunc(k)); return f.term(f.sym(f.base("trunc:" + std::to_string(f.pid(f.polyOf(x))), true))); });
    if (I->getOpcode() == Instruction::FNeg) return f.apply(Forms::SUB, f.num(0), get(I->getOperand(0)));
    if (auto *S = dyn_cast<SelectInst>(I)) { if (S->getType()->isPointerTy()) return f.num(0); return f.ite(get(S->getCondition()), get(S->getTrueValue()), get(S->getFalseValue())); }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
      if (C->getOperand(0)->getType()->isPointerTy()) return f.num(ptrEq(C) == (C->getPredicate() == CmpInst::ICMP_EQ));
      Id a = get(C->getOperand(0)), b = get(C->getOperand(1));
      if (C->getOperand(0)->getType()->isIntegerTy(1)) { Id x = f.ite(a, f.neg(b), b); return C->getPredicate() == CmpInst::ICMP_EQ ? f.neg(x) : x; }
      switch (C->getPredicate()) {
      case CmpInst::ICMP_EQ: return f.apply(Forms::CEQ, a, b);
      case CmpInst::ICMP_NE: return f.neg(f.apply(Forms::CEQ, a, b));
      case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return f.apply(Forms::CLT, a, b);
      case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: return f.neg(f.apply(Forms::CLT, a, b));
      case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return f.apply(Forms::CLT, b, a);
      default: return f.neg(f.apply(Forms::CLT, b, a));
      }
    }
    if (auto *C = dyn_cast<FCmpInst>(I)) {
      Id a = get(C->getOperand(0)), b = get(C->getOperand(1));
      Id lt = f.apply(Forms::FLT, a, b), gt = f.apply(Forms::FGT, a, b);
      switch (C->getPredicate()) {
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return lt;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return gt;
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return f.neg(gt);
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return f.neg(lt);
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return f.neg(f.orI(lt, gt));
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return f.orI(lt, gt);
      case CmpInst::FCMP_ORD: return f.num(1);
      default: return f.num(0);
      }
    }
    if (auto *C = dyn_cast<CallInst>(I)) {
      if (auto *II = dyn_cast<IntrinsicInst>(C)) switch (II->getIntrinsicID()) {
      case Intrinsic::fabs: { Id a = get(C->getArgOperand(0)); Id m = f.apply(Forms::MIN0, a, f.num(0)); return f.apply(Forms::SUB, a, f.apply(Forms::MUL, m, f.num(2))); }
      case Intrinsic::fmuladd: return f.apply(Forms::ADD, f.apply(Forms::MUL, get(C->getArgOperand(0)), get(C->getArgOperand(1))), get(C->getArgOperand(2)));
      case Intrinsic::smax: case Intrinsic::umax: { Id a = get(C->getArgOperand(0)), b = get(C->getArgOperand(1)); return f.apply(Forms::SUB, a, f.apply(Forms::MIN0, f.apply(Forms::SUB, a, b), f.num(0))); }
      case Intrinsic::smin: case Intrinsic::umin: { Id a = get(C->getArgOperand(0)), b = get(C->getArgOperand(1)); return f.apply(Forms::ADD, b, f.apply(Forms::MIN0, f.apply(Forms::SUB, a, b), f.num(0))); }
      default: break;
      }
      return opaque(I);
    }
    if (isa<LoadInst>(I) || isa<PHINode>(I)) throw FormFail{"a value is used before it is set", I};
    return opaque(I);
  }
  Id opaque(Instruction *I) { 
    if (I->getType()->isVoidTy()) return f.num(0);
    return f.term(f.sym(f.base("v" + std::to_string((uintptr_t)I), I->getType()->isIntegerTy()))); }
  bool ptrEq(ICmpInst *C) { // nothing is NULL, no two arguments are one
    auto *a = C->getOperand(0)->stripPointerCasts(), *b = C->getOperand(1)->stripPointerCasts();
    return a == b;
  }
  bool live(const BasicBlock *B) { return alive.count(B); }
  std::set<const BasicBlock *> alive; std::map<const BasicBlock *, int> pos;
  // conditions under which the ways into B are taken, once its dominator has been passed
  void ways(const BasicBlock *B, const std::vector<const BasicBlock *> &order, DominatorTree &DT, std::vector<std::pair<const BasicBlock *, Id>> &in) {
    const BasicBlock *D = DT.getNode(const_cast<BasicBlock *>(B))->getIDom()->getBlock();
    std::set<const BasicBlock *> rel; std::vector<const BasicBlock *> st; for (auto &x : in) st.push_back(x.first);
    while (!st.empty()) { auto *x = st.back(); st.pop_back(); if (!rel.insert(x).second || x == D) continue; for (auto *p : predecessors(x)) if (alive.count(p) && edge.count({p, x}) && edge[{p, x}] != f.num(0) && pos[p] < pos[x]) st.push_back(p); }
    std::map<const BasicBlock *, Id> r; r[D] = f.num(1);
    for (int i = pos[D] + 1; i < pos[B]; i++) { auto *x = order[i]; if (!rel.count(x)) continue; Id v = f.num(0); std::set<const BasicBlock *> ps; for (auto *p : predecessors(x)) if (rel.count(p) && ps.insert(p).second && edge.count({p, x})) v = f.orI(f.andI(r[p], edge[{p, x}]), v); r[x] = v; }
    for (auto &x : in) x.second = f.andI(r[x.first], edge[{x.first, B}]);
  }
  void run(const std::vector<const BasicBlock *> &order, const Mem &start) {
    DominatorTree DT(F); for (size_t i = 0; i < order.size(); i++) pos[order[i]] = i;
    for (auto *B : order) {
      std::vector<std::pair<const BasicBlock *, Id>> in;
      if (B == entry) { alive.insert(B); mem[B] = start; }
      else {
        std::set<const BasicBlock *> seen;
        for (auto *P : predecessors(B)) if (alive.count(P) && pos.count(P) && pos[P] < pos[B] && edge.count({P, B}) && edge[{P, B}] != f.num(0) && seen.insert(P).second) in.push_back({P, edge[{P, B}]});
        if (in.empty()) continue;
        alive.insert(B);
        if (in.size() > 1) ways(B, order, DT, in);
        std::set<Str> keys; for (auto &x : in) for (auto &m : mem[x.first]) keys.insert(m.first);
        Mem &M = mem[B];
        for (auto &k : keys) {
          auto at = [&](const BasicBlock *P) { auto it = mem[P].find(k); return it == mem[P].end() ? init(k) : it->second; };
          Id v = at(in.back().first); for (int i = int(in.size()) - 2; i >= 0; i--) v = f.ite(in[i].second, at(in[i].first), v);
          M[k] = v;
        }
        for (auto &P : B->phis()) {
          if (P.getType()->isPointerTy()) continue;
          Id v = get(P.getIncomingValueForBlock(in.back().first)); for (int i = int(in.size()) - 2; i >= 0; i--) v = f.ite(in[i].second, get(P.getIncomingValueForBlock(in[i].first)), v);
          if (P.getType()->isIntegerTy() && !P.getType()->isIntegerTy(1)) v = f.collapse(v); // the larger of several
          val[&P] = v;
        }
      }
      for (auto &I0 : *B) {
        auto *I = const_cast<Instruction *>(&I0);
        if (isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I)) continue;
        if (auto *L = dyn_cast<LoadInst>(I)) { if (L->getType()->isPointerTy()) continue; try { val[L] = load(L, loc(L->getPointerOperand()), mem[B]); } catch (FormFail &x) { if (!x.at) x.at = I; throw; } continue; }
        if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getValueOperand()->getType()->isPointerTy()) continue; try { store(S, loc(S->getPointerOperand()), get(S->getValueOperand()), mem[B]); } catch (FormFail &x) { if (!x.at) x.at = I; throw; } continue; }
        if (I->isTerminator()) continue;
        if (I->getType()->isPointerTy() || I->getType()->isVoidTy()) continue;
        try { get(I); } catch (FormFail &x) { if (!x.at) x.at = I; throw; }
      }
      auto *T = B->getTerminator(); Id one = f.num(1);
      if (auto *br = dyn_cast<BranchInst>(T)) {
        if (!br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) edge[{B, br->getSuccessor(0)}] = one;
        else { Id c = get(br->getCondition()); edge[{B, br->getSuccessor(0)}] = c; edge[{B, br->getSuccessor(1)}] = f.neg(c); }
      } else if (auto *S = dyn_cast<SwitchInst>(T)) {
        Id x = get(S->getCondition()), rest = one; std::map<const BasicBlock *, Id> to;
        for (auto &c : S->cases()) { Id q = f.apply(Forms::CEQ, x, get(c.getCaseValue())); auto &t = to.insert({c.getCaseSuccessor(), f.num(0)}).first->second; t = f.orI(f.andI(rest, q), t); rest = f.andI(rest, f.neg(q)); }
        auto &t = to.insert({S->getDefaultDest(), f.num(0)}).first->second; t = f.orI(rest, t);
        for (auto &x : to) edge[{B, x.first}] = x.second;
      }
    }
  }
  std::function<Id(const Str &)> init = [this](const Str &k) { return f.term(f.sym(f.base(k, false))); };
};
// What a calculation decides at a position, and how its running totals develop.
struct Decision { Id out = -1; };
struct CandleForms {
  Id cases(Id x, std::function<Id(Id)> g) { if (f.isTerm(x)) return g(x); auto nd = f.nodes[x]; Id c = f.mk(nd.var, f.num(1), f.num(0)); Id h = cases(nd.hi, g), l = cases(nd.lo, g); return f.ite(c, h, l); }
  Ctx &cx; Forms f; 
  std::vector<std::pair<Str, Str>> odd; Poly lookPoly; bool haveLookback = false; std::vector<int> unresolved; // totals that do not cover what is compared with
  uint64_t setOff = 0, setSize = 0, rangeOff = 0, avgOff = 0, facOff = 0;
  CandleForms(Ctx &c) : cx(c) {}
  Id setting(int64_t off) {
    if (off < (int64_t)setOff) throw FormFail{"another global setting"};
    int64_t k = (off - setOff) / setSize, o = (off - setOff) % setSize; Str n = "setting" + std::to_string(k);
    if (o == (int64_t)rangeOff) return f.term(f.sym(f.base(n + ".rangeType", true)));
    if (o == (int64_t)avgOff) return f.term(f.sym(f.base(n + ".avgPeriod", true, true)));
    if (o == (int64_t)facOff) return f.term(f.sym(f.base(n + ".factor", false)));
    throw FormFail{"another global setting"};
  }
  Id input(const Str &name, const Poly &age) {
    int p = f.pid(age); Str k = name + "[" + (age.empty() ? "now" : f.show(age) + " ago") + "]"; int b = f.base(k, false); f.bases[b].in = 1; f.bases[b].age = p; return f.term(f.sym(b));
  }
  Id range(const Str &kind, const Poly &age) {
    Id rt = f.term(f.sym(f.base(kind + ".rangeType", true)));
    Id o = input("inOpen", age), h = input("inHigh", age), l = input("inLow", age), c = input("inClose", age);
    auto is = [&](const char *n) { return f.apply(Forms::CEQ, rt, f.num(rc(n))); };
    Id d = f.apply(Forms::SUB, c, o), m = f.apply(Forms::MIN0, d, f.num(0)); // min(c-o,0)
    Id body = f.apply(Forms::SUB, d, f.apply(Forms::MUL, m, f.num(2)));
    Id hl = f.apply(Forms::SUB, h, l), sh = f.apply(Forms::SUB, hl, body);
    return f.ite(is("TA_RangeType_RealBody"), body, f.ite(is("TA_RangeType_HighLow"), hl, f.ite(is("TA_RangeType_Shadows"), sh, f.num(0))));
  }
  struct Step { bool ok = false; Str kind; Poly k, m; bool add = false, sub = false; Str why; };
  // change == what is added (of age k) less what is removed (of age m)
  Step explain(Id change) {
    Step s; std::set<int> as, ps; f.support(change, as, ps);
    double z; if (f.isConst(change, z) && z == 0) { s.ok = true; return s; }
    std::set<Str> kinds; std::set<int> ages, bs;
    for (int a : as) f.polysIn(f.polys[f.atoms[a].d], bs);
    for (int p : ps) f.polysIn(f.polys[p], bs);
    std::set<int> all = bs; for (int b : bs) if (f.bases[b].minOf >= 0) f.polysIn(f.polys[f.bases[b].minOf], all);
    for (int b : all) { auto &B = f.bases[b]; if (B.in >= 0) ages.insert(B.age); if (StringRef(B.key).ends_with(".rangeType")) kinds.insert(B.key.substr(0, B.key.size() - 10)); }
    if (kinds.size() != 1) { s.why = kinds.empty() ? "not made of candle ranges" : "mixes several kinds of candle settings"; return s; }
    s.kind = *kinds.begin();
    for (int a : ages) { Poly A = f.polys[a]; if (range(s.kind, A) == change) { s.ok = s.add = true; s.k = A; return s; } if (f.apply(Forms::SUB, f.num(0), range(s.kind, A)) == change) { s.ok = s.sub = true; s.m = A; return s; } }
    for (int a : ages) for (int b : ages) { Poly A = f.polys[a], B = f.polys[b]; Id x = range(s.kind, A), y = range(s.kind, B); if (f.apply(Forms::SUB, x, y) == change) { s.ok = s.add = s.sub = true; s.k = A; s.m = B; return s; } }
    s.why = "is not one candle range added and one removed";
    return s;
  }
  Poly age(const Poly &now, const Poly &at) { return Forms::add(now, at, -1); }
  Id sumOf(const Str &kind, const Poly &k, const Poly &len) { return f.term(f.sym(f.base("total(" + kind + ", " + f.show(len) + " values before " + (k.empty() ? "now" : f.show(k) + " ago") + ")", false))); }

  // ---- calculation ----
  Id batch(Function &F) {
    DominatorTree DT(F); LoopInfo LI(DT);
    std::vector<StoreInst *> outs, begs; Loop *L = nullptr;
    for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) {
      auto *A = dyn_cast<Argument>(getUnderlyingObject(S->getPointerOperand(), 0)); if (!A) continue;
      if (A->getName() == "outBegIdx") begs.push_back(S);
      else if (A->getName() != "outNBElement") { outs.push_back(S); auto *l = LI.getLoopFor(S->getParent()); if (!l || (L && l != L)) throw FormFail{"results are stored in several loops", S}; L = l; }
    }
    if (!L) throw FormFail{"no loop over the positions"};
    const Value *S0 = nullptr; for (auto *s : begs) { if (isa<ConstantInt>(s->getValueOperand())) continue; if (S0 && S0 != s->getValueOperand()) throw FormFail{"outBegIdx is set in several ways", s}; S0 = s->getValueOperand(); }
    if (!S0) throw FormFail{"outBegIdx is not set"};
    Poly S = f.sym(f.base("start", true, true)), p = f.sym(f.base("position", true, true));
    f.facts = {Forms::add(p, S, -1)}; 
    std::map<const Value *, Id> outVals; outVals[S0] = f.term(S);
    std::function<Id(const Value *)> outVal = [&](const Value *v) -> Id {
      auto it = outVals.find(v); if (it != outVals.end()) return it->second;
      Id r = outer(F, LI, v, outVal); return outVals[v] = r;
    };
    Id endV = f.term(f.sym(f.base("end", true, true))); for (auto &A : F.args()) if (A.getName() == "endIdx") outVals[&A] = endV;
    f.facts.push_back(Forms::add(f.polyOf(endV), p, -1));
    Ev E(f, cx, F); setup(E, F, outVal);
    // counters of the loop, by position
    std::map<int, PHINode *> phis;
    headerPhis(E, F, L, outVal, phis, p, S);
    Poly now = p; const Loc *x; (void)x;
    E.load = [&](LoadInst *I, const Loc &l, Mem &) -> Id {
      if (l.k == Loc::Set) return setting(l.off);
      if (l.k == Loc::Array && l.idx >= 0) return cases(l.idx, [&](Id x) { return input(l.v->getName().str(), age(now, f.polyOf(x))); });
      throw FormFail{"reads something else", I};
    };
    E.store = [&](StoreInst *I, const Loc &l, Id v, Mem &m) {
      if (l.k != Loc::Out || l.idx < 0) throw FormFail{"stores something else", I};
      Id want = f.term(Forms::add(p, S, -1)); if (l.idx != want) throw FormFail{"the result is stored at a place that does not go with the position: " + (f.isTerm(l.idx) ? f.show(f.polyOf(l.idx)) : Str("by cases")), I, true};
      m["OUT"] = v;
    };
    Mem m0; m0["OUT"] = f.term(f.sym(f.base("(nothing stored)", false)));
    runLoop(E, F, L, m0);
    auto *latch = L->getLoopLatch(); if (!latch) throw FormFail{"several ways round the loop", L->getHeader()->getTerminator()};
    Id out = E.mem[latch]["OUT"];
    // running totals
    std::map<int, Id> sub;
    for (auto &ph : phis) {
      auto *P = ph.second; int b = ph.first;
      f.clearMemo(); auto keep = f.facts; for (int q = 0; q < (int)f.bases.size(); q++) if (StringRef(f.bases[q].key).ends_with(".avgPeriod")) f.facts.push_back(Forms::add(f.sym(q), Forms::konst(-1)));
      Id next = E.get(P->getIncomingValueForBlock(latch));
      Step st = explain(f.apply(Forms::SUB, next, f.term(f.sym(b))));
      f.facts = keep; f.clearMemo();
      if (!st.ok || !st.add || !st.sub) throw FormFail{"running total " + P->getName().str() + ": " + (st.why.empty() ? "one range has to be added and one removed at every position" : st.why), P};
      // what it starts with
      auto *P0 = dyn_cast<PHINode>(P->getIncomingValueForBlock(L->getLoopPredecessor())); Loop *L1 = nullptr;
      for (int n = 0; n < 4 && P0 && P0->getNumIncomingValues() == 1; n++) P0 = dyn_cast<PHINode>(P0->getIncomingValue(0));
      if (P0) L1 = LI.getLoopFor(P0->getParent());
      if (!P0 || !L1 || L1->getHeader() != P0->getParent()) throw FormFail{"running total " + P->getName().str() + " does not start from a sum of the ranges before the first position", P};
      Poly lo, hi; Str kind; first(F, LI, L1, P0, outVal, kind, lo, hi);
      if (kind != st.kind) throw FormFail{"running total " + P->getName().str() + " starts from ranges of another kind", P, true};
      // at the first position the added one is the next of those summed, the removed one the first
      Poly nextAdd = Forms::add(S, st.k, -1), firstSub = Forms::add(S, st.m, -1);
      if (Forms::add(hi, nextAdd, -1) != Poly()) throw FormFail{"running total " + P->getName().str() + ": the first sum ends before position " + f.show(hi) + " but the next range added is that of " + f.show(nextAdd), P, true};
      if (Forms::add(lo, firstSub, -1) != Poly()) throw FormFail{"running total " + P->getName().str() + ": the first sum begins at position " + f.show(lo) + " but the first range removed is that of " + f.show(firstSub), P, true};
      sub[b] = sumOf(st.kind, st.k, Forms::add(st.m, st.k, -1));
      cx.count("totals");
    }
    f.substMemo.clear(); out = f.subst(out, sub);
    f.facts.clear(); f.clearMemo();
    return out;
  }
  void setup(Ev &E, Function &F, std::function<Id(const Value *)> outVal) {
    E.outside = outVal;
    E.argKind = [](const Argument *A) { if (!A->getType()->isPointerTy()) return Loc::None; if (A->getName().starts_with("in")) return Loc::Array; if (A->getName().starts_with("out") && A->getName() != "outBegIdx" && A->getName() != "outNBElement") return Loc::Out; return Loc::None; };
  }
  // values set before the loop
  Id outer(Function &F, LoopInfo &LI, const Value *v, std::function<Id(const Value *)> &self) {
    if (auto *C = dyn_cast<ConstantInt>(v)) return f.num(C->getSExtValue());
    if (auto *C = dyn_cast<ConstantFP>(v)) return f.num(C->getValueAPF().convertToDouble());
    if (auto *A = dyn_cast<Argument>(v)) return f.term(f.sym(f.base(A->getName().str(), A->getType()->isIntegerTy())));
    auto *I = dyn_cast<Instruction>(v);
    if (!I) throw FormFail{"value"};
    if (isa<CastInst>(I) && !I->getType()->isPointerTy()) return self(I->getOperand(0));
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      int op = B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::FAdd ? Forms::ADD : B->getOpcode() == Instruction::Sub || B->getOpcode() == Instruction::FSub ? Forms::SUB : B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::FMul ? Forms::MUL : -1;
      if (op >= 0) return f.apply(op, self(B->getOperand(0)), self(B->getOperand(1)));
    }
    if (auto *X = dyn_cast<LoadInst>(I)) {
      APInt off(64, 0); auto *b = X->getPointerOperand()->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), off, true);
      if (auto *Y = dyn_cast<LoadInst>(b)) if (auto *G = dyn_cast<GlobalVariable>(Y->getPointerOperand()); G && G->getName() == "TA_Globals") return setting(off.getSExtValue());
    }
    if (auto *P = dyn_cast<PHINode>(I)) {
      if (P->getNumIncomingValues() == 1) return self(P->getIncomingValue(0));
      const Argument *A = nullptr; bool ok = true; std::set<const Value *> seen; std::vector<const Value *> st{P};
      while (!st.empty()) { auto *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (auto *q = dyn_cast<PHINode>(x)) { for (auto &o : q->incoming_values()) st.push_back(o); } else if (auto *a = dyn_cast<Argument>(x)) { if (A && A != a) ok = false; A = a; } else if (!isa<ConstantInt>(x) && !isa<ConstantFP>(x)) ok = false; }
      if (ok && A && A->getName().starts_with("optIn")) return f.term(f.sym(f.base(A->getName().str(), A->getType()->isIntegerTy())));
      // a counter after its loop
      if (auto *L = LI.getLoopFor(P->getParent()); L && L->getHeader() == P->getParent() && P->getType()->isIntegerTy() && L->getExitingBlock() == L->getHeader())
        if (auto *br = dyn_cast<BranchInst>(L->getHeader()->getTerminator())) if (auto *C = dyn_cast<ICmpInst>(br->getCondition())) if (C->getOperand(0) == P && C->getPredicate() == CmpInst::ICMP_SLT && L->contains(br->getSuccessor(0))) return self(C->getOperand(1));
    }
    if (auto *S = dyn_cast<SelectInst>(I)) for (int o = 0; o < 2; o++) if (auto *A = dyn_cast<Argument>(S->getOperand(1 + o)); A && A->getName().starts_with("optIn")) return f.term(f.sym(f.base(A->getName().str(), A->getType()->isIntegerTy())));
    return f.term(f.sym(f.base("v" + std::to_string((uintptr_t)I), I->getType()->isIntegerTy())));
  }
  void headerPhis(Ev &E, Function &F, Loop *L, std::function<Id(const Value *)> &outVal, std::map<int, PHINode *> &phis, const Poly &p, const Poly &S) {
    auto *latch = L->getLoopLatch(), *pre = L->getLoopPredecessor();
    if (!latch || !pre) throw FormFail{"the loop over the positions is entered in several ways", L->getHeader()->getTerminator()};
    for (auto &P : L->getHeader()->phis()) {
      if (P.getType()->isPointerTy()) continue;
      int64_t st = 0; const Value *v = P.getIncomingValueForBlock(latch); bool ok = P.getType()->isIntegerTy();
      for (int n = 0; ok && v != &P; n++) {
        auto *B = dyn_cast<BinaryOperator>(v); ok = false;
        if (auto *q = dyn_cast<PHINode>(v); q && q->getNumIncomingValues() == 1 && n < 20) { v = q->getIncomingValue(0); ok = true; continue; }
        if (auto *q = dyn_cast<PHINode>(v); q && n < 20 && L->contains(q)) { // all ways round add the same
          std::function<bool(const Value *, int64_t &, int)> walk = [&](const Value *w, int64_t &s, int d) -> bool {
            if (w == &P) { s = 0; return true; } if (d > 30) return false;
            if (auto *b = dyn_cast<BinaryOperator>(w)) if (auto *K = dyn_cast<ConstantInt>(b->getOperand(1))) { int64_t t; if (!walk(b->getOperand(0), t, d + 1)) return false; if (b->getOpcode() == Instruction::Add) { s = t + K->getSExtValue(); return true; } if (b->getOpcode() == Instruction::Sub) { s = t - K->getSExtValue(); return true; } return false; }
            if (auto *h = dyn_cast<PHINode>(w); h && L->contains(h) && h->getParent() != L->getHeader()) { bool fst = true; for (auto &o : h->incoming_values()) { int64_t t; if (!walk(o, t, d + 1)) return false; if (!fst && t != s) return false; s = t; fst = false; } return !fst; }
            return false; };
          int64_t t; if (walk(v, t, 0)) { st += t; v = &P; ok = true; }
          break;
        }
        if (B) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) { if (B->getOpcode() == Instruction::Add) { st += K->getSExtValue(); v = B->getOperand(0); ok = true; } else if (B->getOpcode() == Instruction::Sub) { st -= K->getSExtValue(); v = B->getOperand(0); ok = true; } }
        if (n > 20) ok = false;
      }
      if (ok && st) { // init + st * (position - start)
        Id i0 = outVal(P.getIncomingValueForBlock(pre));
        E.val[&P] = f.apply(Forms::ADD, i0, f.term(Forms::mul(Forms::konst(st), Forms::add(p, S, -1))));
      } else { int b = f.base("phi" + std::to_string((uintptr_t)&P), P.getType()->isIntegerTy()); phis[b] = &P; E.val[&P] = f.term(f.sym(b)); }
    }
  }
  void runLoop(Ev &E, Function &F, Loop *L, const Mem &m0) {
    E.entry = L->getHeader(); for (auto *b : L->blocks()) E.region.insert(b);
    if (!L->getSubLoops().empty()) throw FormFail{"a loop inside the loop over the positions", L->getSubLoops()[0]->getHeader()->getTerminator()};
    ReversePostOrderTraversal<Function *> R(&F); std::vector<const BasicBlock *> o; for (auto *b : R) if (L->contains(b)) o.push_back(b);
    for (auto &P : L->getHeader()->phis()) if (!E.val.count(&P) && !P.getType()->isPointerTy()) throw FormFail{"phi", &P};
    E.run(o, m0);
  }
  // the sum that a total starts with: positions lo .. hi-1
  void first(Function &F, LoopInfo &LI, Loop *L1, PHINode *P0, std::function<Id(const Value *)> &outVal, Str &kind, Poly &lo, Poly &hi) {
    auto *pre = L1->getLoopPredecessor(), *latch = L1->getLoopLatch(); if (!pre || !latch) throw FormFail{"loop", P0};
    double z; if (Id i = outVal(P0->getIncomingValueForBlock(pre)); !f.isConst(i, z) || z != 0) throw FormFail{"a running total that does not start from zero", P0};
    Poly q = f.sym(f.base("at", true, true)), zero;
    Ev E(f, cx, F); setup(E, F, outVal); std::map<int, PHINode *> phis; headerPhis(E, F, L1, outVal, phis, q, zero);
    // counters are start + round: "at" counts the rounds
    E.load = [&](LoadInst *I, const Loc &l, Mem &) -> Id {
      if (l.k == Loc::Set) return setting(l.off);
      if (l.k == Loc::Array && l.idx >= 0) return cases(l.idx, [&](Id x) { return input(l.v->getName().str(), Forms::add(q, f.polyOf(x), -1)); });
      throw FormFail{"reads something else", I}; };
    E.store = [&](StoreInst *I, const Loc &, Id, Mem &) { throw FormFail{"stores something", I}; };
    auto keep = f.facts;
    runLoop(E, F, L1, {});
    int b = *f.polyOf(E.val[P0]).begin()->first.begin();
    Step st = explain(f.apply(Forms::SUB, E.get(P0->getIncomingValueForBlock(latch)), f.term(f.sym(b))));
    if (!st.ok || !st.add || st.sub) { if (getenv("FORMDBG")) { Id ch = f.apply(Forms::SUB, E.get(P0->getIncomingValueForBlock(latch)), f.term(f.sym(b))); std::set<int> as, ps; f.support(ch, as, ps); for (int a : as) errs() << "atom " << f.showAtom(a) << "\n"; for (int p : ps) errs() << "val " << f.show(f.polys[p]) << "\n"; } throw FormFail{"a running total that does not start from a sum of candle ranges" + Str(st.why.empty() ? "" : ": ") + st.why, P0}; }
    kind = st.kind; lo = Forms::add(Poly(), st.k, -1); // round 0
    // number of rounds
    auto *ex = L1->getExitingBlock(); if (!ex) throw FormFail{"a sum whose number of terms is not fixed", P0};
    auto *br = dyn_cast<BranchInst>(ex->getTerminator()); auto *C = br ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    if (!C) throw FormFail{"a sum whose number of terms is not fixed", P0};
    bool stay = L1->contains(br->getSuccessor(0)); auto pr = stay ? C->getPredicate() : C->getInversePredicate();
    Id a = E.get(C->getOperand(0)), c = E.get(C->getOperand(1)); if (!f.isTerm(a) || !f.isTerm(c)) throw FormFail{"a sum whose number of terms is not fixed", P0};
    Poly d; // stay while d < 0 (for round number at)
    if (pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_NE) d = Forms::add(f.polyOf(a), f.polyOf(c), -1);
    else if (pr == CmpInst::ICMP_SGT) d = Forms::add(f.polyOf(c), f.polyOf(a), -1);
    else if (pr == CmpInst::ICMP_SLE) d = Forms::add(Forms::add(f.polyOf(a), f.polyOf(c), -1), Forms::konst(-1));
    else if (pr == CmpInst::ICMP_SGE) d = Forms::add(Forms::add(f.polyOf(c), f.polyOf(a), -1), Forms::konst(-1));
    else throw FormFail{"a sum whose number of terms is not fixed", P0};
    std::vector<int> qk{f.base("at", true)}; double co = d.count(qk) ? d[qk] : 0; if (pr == CmpInst::ICMP_NE && co == -1) { d = Forms::add({}, d, -1); co = 1; }
    if (co != 1) throw FormFail{"a sum whose number of terms is not fixed", P0};
    d.erase(qk); Poly rounds = Forms::add({}, d, -1);
    if (ex == latch && ex != L1->getHeader()) rounds = Forms::add(rounds, Forms::konst(1)); // tested after the round
    else if (ex != L1->getHeader() ) throw FormFail{"a sum whose number of terms is not fixed", P0};
    else if (ex == latch) rounds = Forms::add(rounds, Forms::konst(1));
    hi = Forms::add(lo, rounds);
    (void)keep;
  }
  // ---- stream ----
  Id stream(const Str &name, Function &F, Function *Look) {
    auto *T = findStruct(*cx.M, "TA_" + name + "_State"); if (!T) throw FormFail{"no description of the stream object"};
    std::map<int64_t, FieldInfo> fields; for (auto &x : structFields(T)) fields[x.off] = x;
    auto *DT = findStruct(*cx.M, "TA_" + name + "_Data"); std::map<int64_t, Str> data; if (DT) for (auto &x : structFields(DT)) data[x.off] = x.name;
    ReversePostOrderTraversal<Function *> R(&F); std::vector<const BasicBlock *> order(R.begin(), R.end());
    { DominatorTree D(F); LoopInfo LI(D); if (!LI.empty()) throw FormFail{"a loop in the update", (*LI.begin())->getHeader()->getTerminator()}; }
    Poly n = f.sym(f.base("n", true, true)), M = f.sym(f.base("M", true, true));
    // the length of the history is the lookback
    Poly look; bool haveLook = false; odd.clear(); unresolved.clear();
    if (Look) try { look = lookback(*Look, haveLook); } catch (FormFail &e) { if (getenv("FORMDBG")) errs() << "lookback: " << e.why << "\n"; haveLook = false; }
    if (getenv("FORMDBG")) errs() << "lookback " << haveLook << " " << f.show(look) << "\n";
    if (!haveLook) throw FormFail{"how far its history reaches is not a formula of the settings"};
    lookPoly = look; haveLookback = haveLook;
    std::map<Str, Poly> konst; // variables that never change after the first update
    int mode = 0; bool strict = false; // 0 first update, 1 filling, 2 answering
    struct Res { Mem end; };
    auto once = [&](int md, bool avg1) -> Mem {
      mode = md; f.facts.clear(); f.defs.clear(); f.clearMemo();
      f.facts.push_back(Forms::add(M, Forms::konst(-1)));
      if (haveLook) f.defs[f.base("M", true)] = look;
      Poly now = md == 0 ? Poly() : n;
      if (md == 0) ; else if (md == 1) { f.facts.push_back(Forms::add(n, Forms::konst(-1))); f.facts.push_back(Forms::add(Forms::add(M, n, -1), Forms::konst(-1))); }
      else { f.facts.push_back(Forms::add(n, M, -1)); f.facts.push_back(Forms::add(n, Forms::konst(-1))); }
      if (avg1) for (int q = 0; q < (int)f.bases.size(); q++) if (StringRef(f.bases[q].key).ends_with(".avgPeriod")) f.facts.push_back(Forms::add(f.sym(q), Forms::konst(-1)));
      Ev E(f, cx, F);
      E.entry = &F.getEntryBlock(); for (auto &b : F) E.region.insert(&b);
      E.argKind = [&](const Argument *A) { if (A->getName() == "_state") return Loc::Field; if (A->getName().starts_with("out")) return Loc::Out; return Loc::None; };
      for (auto &x : fields) if (x.second.name == "memory") E.fieldPtr.insert(x.first);
      E.outside = [&](const Value *v) -> Id { if (auto *A = dyn_cast<Argument>(v)) { if (A->getName().starts_with("in")) return input(A->getName().str(), {}); return f.term(f.sym(f.base(A->getName().str(), false))); } throw FormFail{"value"}; };
      auto slot = [&](const Str &x) { return input(x, M); };
      E.init = [&](const Str &k) -> Id {
        if (StringRef(k).starts_with("slot:")) return slot(k.substr(5));
        if (k == "OUT") return f.term(f.sym(f.base("(nothing stored)", false)));
        if (StringRef(k).starts_with("field:")) {
          Str x = k.substr(6);
          if (x == "mem_index") return f.term(now); // before the update
          if (x == "mem_size") return f.term(M);
          if (StringRef(x).starts_with("optIn")) return f.term(f.sym(f.base(x, false)));
          if (konst.count(x)) return f.term(konst[x]);
          return f.term(f.sym(f.base("field:" + x, isInt(fields, x))));
        }
        throw FormFail{"memory"}; };
      auto fieldKey = [&](int64_t off) -> Str {
        auto it = fields.upper_bound(off); if (it == fields.begin()) throw FormFail{"a place outside the stream object"}; --it;
        if (it->first == off) { auto *B = stripTypedef(it->second.type); if (!isa<DICompositeType>(B) || cast<DICompositeType>(B)->getTag() != dwarf::DW_TAG_array_type) return "field:" + it->second.name; }
        return "field:" + it->second.name + "+" + std::to_string(off - it->first); };
      auto ringAge = [&](Id idx, const Instruction *I) -> Poly {
        if (!f.isTerm(idx)) throw FormFail{"the place in the history depends on cases", I};
        Poly p = f.polyOf(idx);
        if (p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->second == 1) {
          Str k = f.bases[p.begin()->first[0]].key;
          if (StringRef(k).starts_with("rem:")) { int a, b; sscanf(k.c_str(), "rem:%d:%d", &a, &b); if (f.polys[b] != M) throw FormFail{"not a place of the history", I}; return Forms::add(now, f.polys[a], -1); }
        }
        if (f.atLeast0(p) && f.atLeast0(Forms::add(Forms::add(M, p, -1), Forms::konst(-1)))) return Forms::add(now, p, -1);
        throw FormFail{"a place of the history that is not related to the position", I}; };
      E.load = [&](LoadInst *I, const Loc &l, Mem &m) -> Id {
        if (l.k == Loc::Set) return setting(l.off);
        if (l.k == Loc::Field) { Str k = fieldKey(l.off); auto it = m.find(k); return it != m.end() ? it->second : E.init(k); }
        if (l.k == Loc::Ring) {
          auto d = data.find(l.off); if (d == data.end()) throw FormFail{"not a value of the history", I};
          return cases(l.idx, [&](Id x) -> Id {
            Poly a = ringAge(x, I);
            if (a.empty() || Forms::add(a, M, -1).empty()) { auto it = m.find("slot:" + d->second); return it != m.end() ? it->second : slot(d->second); }
            if (strict && md == 2 && f.atLeast0(Forms::add(Forms::add({}, a, -1), Forms::konst(-1)))) throw FormFail{"takes a value of the history from a later position (" + f.show(a) + " ago)", I, true};
            if (!f.atLeast0(Forms::add(M, a, -1))) { if (getenv("FORMDBG")) errs() << "reach " << f.show(Forms::add(M, a, -1)) << "\n"; if (strict && md == 2) throw FormFail{"takes a value from " + f.show(a) + " ago, which the history may not reach back to", I, true}; }
            // while filling, what is read before the beginning is not used: see the position the first range added belongs to
            return input(d->second, a); });
        }
        throw FormFail{"reads something else", I};
      };
      E.store = [&](StoreInst *I, const Loc &l, Id v, Mem &m) {
        if (l.k == Loc::Out) { m["OUT"] = v; return; }
        if (l.k == Loc::Field) { m[fieldKey(l.off)] = v; return; }
        if (l.k == Loc::Ring) {
          auto d = data.find(l.off); if (d == data.end()) throw FormFail{"not a value of the history", I};
          Poly a = ringAge(l.idx, I); if (!a.empty()) throw FormFail{"stores into the history at another place than that of the position", I, true};
          m["slot:" + d->second] = v; return; }
        throw FormFail{"stores something else", I};
      };
      E.run(order, {});
      // what is left at the end
      Mem end; bool firstRet = true;
      for (auto &b : F) if (isa<ReturnInst>(b.getTerminator()) && E.live(&b)) { if (!firstRet) throw FormFail{"several returns", b.getTerminator()}; firstRet = false; end = E.mem[&b]; }
      if (firstRet) throw FormFail{"never returns"};
      for (auto &d : data) { auto it = end.find("slot:" + d.second); if (it == end.end() || it->second != input(d.second, {})) throw FormFail{"the history of " + d.second + " is not given every value of " + d.second, nullptr, true}; }
      return end;
    };
    Mem e0 = once(0, false), e1 = once(1, false), e2 = once(2, false);
    for (auto &x : e0) if (StringRef(x.first).starts_with("field:") && f.isTerm(x.second)) {
      Str k = x.first.substr(6); if (k == "mem_index") continue;
      Id self = f.term(f.sym(f.base(x.first, isInt(fields, k))));
      auto same = [&](Mem &e) { auto it = e.find(x.first); return it == e.end() || it->second == self; };
      std::set<int> bs; f.polysIn(f.polyOf(x.second), bs); bool in = false; for (int b : bs) in |= f.bases[b].in >= 0;
      if (same(e1) && same(e2) && !in) konst[k] = f.polyOf(x.second);
    }
    strict = true;
    e0 = once(0, true); e1 = once(1, true); Mem e2u = once(2, true);
    std::map<int, Id> sub;
    std::set<Str> vary; for (auto *e : {&e0, &e1, &e2u}) for (auto &x : *e) if (StringRef(x.first).starts_with("field:") && x.first != "field:mem_index" && !konst.count(x.first.substr(6))) vary.insert(x.first);
    for (auto &k : vary) {
      Str nm = k.substr(6); int b = f.base(k, isInt(fields, nm)); Id self = f.term(f.sym(b));
      auto end = [&](Mem &e) { auto it = e.find(k); return it == e.end() ? self : it->second; };
      Str who = "running total " + nm + ": ";
      try {
      // answering: one added, one removed
      f.facts.clear(); f.facts.push_back(Forms::add(M, Forms::konst(-1)));
      Step s2 = explain(f.apply(Forms::SUB, end(e2u), self));
      if (!s2.ok || !s2.add || !s2.sub) throw FormFail{who + (s2.why.empty() ? "one range has to be added and one removed at every update" : s2.why)};
      // filling: from which position on is one added
      Id c1 = f.apply(Forms::SUB, end(e1), self); Poly g; bool always = false; int gate = -1; bool gateHi = false;
      Id rk = range(s2.kind, s2.k);
      if (c1 == rk) always = true;
      else {
        std::set<int> as, ps; f.support(c1, as, ps);
        for (int a : as) if (f.atoms[a].k == Forms::ILT) { std::set<int> bs; f.polysIn(f.polys[f.atoms[a].d], bs); if (bs.count(f.base("n", true))) { Id t = f.mk(a, f.num(1), f.num(0)); if (f.ite(t, f.num(0), rk) == c1) { gate = a; gateHi = false; } else if (f.ite(t, rk, f.num(0)) == c1) { gate = a; gateHi = true; } } }
        if (gate < 0) { sub[b] = sumOf(s2.kind, s2.k, haveLook ? subM(Forms::add(s2.m, s2.k, -1), M, look) : Forms::add(s2.m, s2.k, -1)); Step s1 = explain(c1); if (getenv("FORMDBG")) { std::set<int> as, ps; f.support(c1, as, ps); for (int a : as) errs() << "atom " << f.showAtom(a) << "\n"; for (int p : ps) errs() << "val " << f.show(f.polys[p]) << "\n"; } odd.push_back({nm, who + "before the first answer it is not built from the ranges that are later kept (" + (s1.ok ? (s1.add ? "adds the range " + f.show(s1.k) + " ago" : "adds nothing") + " instead of " + f.show(s2.k) + " ago" : s1.why) + ")"}); continue; }
        Poly d = f.polys[f.atoms[gate].d]; std::vector<int> nk{f.base("n", true)}; double co = d[nk];
        // n*co + r < 0 : not added (gateHi: added)
        Poly r = d; r.erase(nk);
        if (co == 1 && !gateHi) g = Forms::add({}, r, -1);           // added when n >= -r
        else if (co == -1 && gateHi) g = Forms::add(r, Forms::konst(1)); // added when n > r
        else throw FormFail{who + "is added to only at the beginning"};
      }
      // first update
      Id c0 = end(e0); double z;
      bool zero0 = f.isConst(c0, z) && z == 0, add0 = c0 == range(s2.kind, s2.k);
      if (always) { if (zero0) g = Forms::konst(1); else if (add0) g = Poly(); }
      if (!zero0 && !add0 && !always && g.size() <= 1) {}
      { std::set<int> as, ps; f.support(c0, as, ps); for (int p : ps) { std::set<int> bs; f.polysIn(f.polys[p], bs); if (bs.count(b)) throw FormFail{who + "is not set by the first update"}; } }
      if (!always && add0 && g != Poly()) throw FormFail{who + "a range is added by the first update although adding starts later"};
      Poly left = Forms::add(g, s2.k, -1), gone = Forms::add(M, s2.m, -1);
      Poly miss = Forms::add(left, gone, -1);
      if (!miss.empty()) { bool same = false; if (haveLook) { Poly q = subM(miss, M, look); same = q.empty(); if (!same && f.atLeast0(q) && f.atLeast0(Forms::add({}, q, -1))) same = true; }
        if (!same) odd.push_back({nm, who + "adding starts with the range of position " + f.show(left) + " but the first range removed is that of position " + f.show(gone) + (haveLook ? " where M is " + f.show(look) : "") + ", so that what it covers is not what is compared with"}); }
      sub[b] = sumOf(s2.kind, s2.k, haveLook ? subM(Forms::add(s2.m, s2.k, -1), M, look) : Forms::add(s2.m, s2.k, -1));
      cx.count("totals");
      } catch (FormFail &x) { odd.push_back({nm, x.why}); if (!sub.count(b)) unresolved.push_back(b); }
    }
    Mem e2f = once(2, false); Id out = e2f["OUT"];
    f.substMemo.clear(); f.facts.clear(); f.clearMemo();
    std::set<int> used = basesOf(out); // a total that nothing depends on may be anything
    odd.erase(std::remove_if(odd.begin(), odd.end(), [&](auto &o) { for (int b : used) if (f.bases[b].key == "field:" + o.first) return false; return true; }), odd.end());
    unresolved.erase(std::remove_if(unresolved.begin(), unresolved.end(), [&](int b) { return !used.count(b); }), unresolved.end());
    std::map<int, Id> s2 = sub; 
    return f.subst(out, s2);
  }
  std::set<int> basesOf(Id n) { std::set<int> as, ps, bs; f.support(n, as, ps); for (int p : ps) f.polysIn(f.polys[p], bs); for (int a : as) f.polysIn(f.polys[f.atoms[a].d], bs);
    for (std::vector<int> q(bs.begin(), bs.end()); !q.empty();) { int b = q.back(); q.pop_back(); if (f.bases[b].minOf >= 0) { std::set<int> n; f.polysIn(f.polys[f.bases[b].minOf], n); for (int x : n) if (bs.insert(x).second) q.push_back(x); } }
    return bs; }
  Poly subM(const Poly &p, const Poly &M, const Poly &look) { Poly r; int m = f.base("M", true); for (auto &t : p) { Poly x = Forms::konst(t.second); for (int b : t.first) x = Forms::mul(x, b == m ? look : f.sym(b)); r = Forms::add(r, x); } return r; }
  bool isInt(std::map<int64_t, FieldInfo> &fs, const Str &n) { for (auto &x : fs) if (x.second.name == n) if (auto *B = dyn_cast_or_null<DIBasicType>(stripTypedef(x.second.type))) return B->getEncoding() == dwarf::DW_ATE_signed || B->getEncoding() == dwarf::DW_ATE_unsigned; return false; }
  Poly lookback(Function &F, bool &ok) {
    f.facts.clear(); f.defs.clear(); f.clearMemo();
    Ev E(f, cx, F); E.entry = &F.getEntryBlock(); for (auto &b : F) E.region.insert(&b);
    E.argKind = [](const Argument *) { return Loc::None; };
    E.outside = [&](const Value *v) -> Id { if (auto *A = dyn_cast<Argument>(v)) return f.term(f.sym(f.base(A->getName().str(), A->getType()->isIntegerTy()))); throw FormFail{"value"}; };
    E.load = [&](LoadInst *I, const Loc &l, Mem &) -> Id { if (l.k == Loc::Set) return setting(l.off); throw FormFail{"load", I}; };
    E.store = [&](StoreInst *I, const Loc &, Id, Mem &) { throw FormFail{"store", I}; };
    ReversePostOrderTraversal<Function *> R(&F); std::vector<const BasicBlock *> order(R.begin(), R.end());
    E.run(order, {});
    for (auto &b : F) if (auto *r = dyn_cast<ReturnInst>(b.getTerminator())) {
      Id v = E.get(r->getReturnValue());
      // option out of range: -1
      std::function<Id(Id)> drop = [&](Id x) -> Id { if (f.isTerm(x)) return x; auto n = f.nodes[x]; Id h = drop(n.hi), l = drop(n.lo); double k; if (f.isConst(h, k) && k == -1) return l; if (f.isConst(l, k) && k == -1) return h; return f.ite(f.mk(n.var, f.num(1), f.num(0)), h, l); };
      v = f.collapse(drop(v));
      if (!f.isTerm(v)) { ok = false; return {}; }
      ok = true; return f.polyOf(v);
    }
    ok = false; return {};
  }
};
}
void checkCandleForms(Ctx &cx) {
  auto ind = collectIndicators(cx);
  auto *set = findStruct(*cx.M, "TA_CandleSetting"), *priv = findStructOrTypedef(*cx.M, "TA_LibcPriv");
  if (!set) set = findStructOrTypedef(*cx.M, "TA_CandleSetting");
  if (!set || !priv) { cx.violAt("form", "TA_CandleSetting", "", 0, "", "the candle settings are not found"); return; }
  // unrolled, without local arrays
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM;
    FunctionPassManager FPM2; if (auto e = PB.parsePassPipeline(FPM2, "sroa,instsimplify")) { errs() << toString(std::move(e)) << "\n"; exit(3); }
    if (auto e = PB.parsePassPipeline(FPM, getenv("FORMPIPE") ? getenv("FORMPIPE") : "sroa,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa")) { errs() << toString(std::move(e)) << "\n"; exit(3); }
    for (auto &e : ind) if (StringRef(e.first).starts_with("CDL")) for (auto &x : e.second) if (!x.second->isDeclaration() && (x.first == K_Batch || x.first == K_Float || x.first == K_State || x.first == K_Lookback)) {
      for (auto it = inst_begin(x.second); it != inst_end(x.second);) { Instruction *I = &*it++; if (auto *II = dyn_cast<IntrinsicInst>(I); II && (isa<DbgInfoIntrinsic>(II) || II->isLifetimeStartOrEnd())) I->eraseFromParent(); }
      FPM.run(*x.second, FAM);
      for (bool ch = true; ch;) {
        ch = false; FAM.invalidate(*x.second, PreservedAnalyses::none());
        auto &LI = FAM.getResult<LoopAnalysis>(*x.second); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(*x.second); auto &DT = FAM.getResult<DominatorTreeAnalysis>(*x.second);
        for (Loop *L : LI.getLoopsInPreorder()) {
          if (!L->isInnermost()) continue; unsigned n = SE.getSmallConstantTripCount(L); if (!n || n > 16) continue;
          UnrollLoopOptions O; O.Count = n; O.Force = true; O.Runtime = false; O.AllowExpensiveTripCount = false; O.UnrollRemainder = false; O.ForgetAllSCEV = true;
          auto &ORE = FAM.getResult<OptimizationRemarkEmitterAnalysis>(*x.second); auto &AC = FAM.getResult<AssumptionAnalysis>(*x.second); auto &TTI = FAM.getResult<TargetIRAnalysis>(*x.second);
          if (UnrollLoop(L, O, &LI, &SE, &DT, &AC, &TTI, &ORE, true) != LoopUnrollResult::Unmodified) { ch = true; break; }
        }
      }
      FPM2.run(*x.second, FAM); if (getenv("FORMDUMP") && getenv("FORMDUMP") == x.second->getName()) x.second->print(errs()); }
  }
  for (auto &e : ind) {
    if (!StringRef(e.first).starts_with("CDL")) continue;
    if (getenv("FORMONLY") && e.first != getenv("FORMONLY")) continue;
    if (e.first == "CDLHIKKAKE" || e.first == "CDLHIKKAKEMOD") continue; // remember an earlier pattern, not only totals
    cx.count("indicators");
    CandleForms C(cx);
    for (auto &x : structFields(priv)) if (x.name == "candleSettings") C.setOff = x.off;
    C.setSize = 0; for (auto &x : structFields(set)) { if (x.name == "rangeType") C.rangeOff = x.off; if (x.name == "avgPeriod") C.avgOff = x.off; if (x.name == "factor") C.facOff = x.off; }
    if (auto *CT = dyn_cast<DICompositeType>(set)) C.setSize = CT->getSizeInBits() / 8;
    std::map<Kind, Id> r;
    for (Kind k : {K_Batch, K_Float, K_State}) {
      if (!e.second.count(k)) continue;
      Function *F = e.second[k];
      try { r[k] = k == K_State ? C.stream(e.first, *F, e.second.count(K_Lookback) ? e.second[K_Lookback] : nullptr) : C.batch(*F); for (auto &o : C.odd) cx.viol("total", F, DebugLoc(), e.first + "." + o.first, o.second); C.odd.clear(); cx.count("forms"); cx.count("instructions", F->getInstructionCount()); }
      catch (FormFail &x) { if (x.hard) cx.viol("total", F, x.at ? x.at->getDebugLoc() : DebugLoc(), e.first, x.why); else cx.lists["undecided"].insert(F->getName().str() + ": " + x.why); }
    }
    Kind base = r.count(K_Batch) ? K_Batch : K_Float; if (!r.count(base)) continue;
    for (Kind k : {K_Float, K_State}) if (r.count(k) && k != base) {
      Str why; std::vector<Poly> given; if (k == K_State && C.haveLookback) given.push_back(Forms::add(C.lookPoly, Forms::konst(-1)));
      if (k == K_State) for (int u : C.unresolved) for (int t : C.basesOf(r[base])) if (StringRef(C.f.bases[t].key).starts_with("total(")) { // a reported total: go on as if it were the right one
          std::map<int, Id> m; m[u] = C.f.term(C.f.sym(t)); C.f.substMemo.clear(); Id q = C.f.subst(r[k], m); Str w; if (q == r[base] || C.f.same(q, r[base], given, w)) { r[k] = q; break; } }
      if (r[k] == r[base] || C.f.same(r[k], r[base], given, why)) cx.count("equal");
      else if (StringRef(why).starts_with("too many")) cx.lists["undecided"].insert(e.second[k]->getName().str() + ": " + why);
      else cx.viol("pattern", e.second[k], DebugLoc(), e.first, Str(k == K_State ? "the stream" : "the single precision version") + " decides differently from the calculation: " + why);
    }
    cx.count("cases", C.f.nodes.size());
  }
}
