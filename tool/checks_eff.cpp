// Effects and termination of everything reachable from the public interface.
#include "common.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/TypeBasedAliasAnalysis.h"
#include "llvm/Analysis/ValueTracking.h"
#include <functional>

// ---------------------------------------------------------------------------
// Every loop ends: some tested distance gets strictly shorter in every round.
namespace {
constexpr int64_t INF = int64_t(1) << 40;
struct Iv { int64_t lo, hi; };
struct LinX { std::map<const Value *, int64_t> t; Iv k{0, 0}; bool bad = false; }; // sum of multiples plus something in an interval
static int64_t cl(int64_t x) { return std::max(-INF, std::min(INF, x)); }
static LinX addL(const LinX &a, const LinX &b, int64_t m) {
  LinX r = a; if (a.bad || b.bad) { r.bad = true; return r; }
  for (auto &x : b.t) { auto &c = r.t[x.first]; c += x.second * m; if (!c) r.t.erase(x.first); }
  int64_t p = std::abs(b.k.lo) >= INF ? b.k.lo * (m < 0 ? -1 : 1) : b.k.lo * m, q = std::abs(b.k.hi) >= INF ? b.k.hi * (m < 0 ? -1 : 1) : b.k.hi * m;
  r.k.lo = cl(r.k.lo + std::min(p, q)); r.k.hi = cl(r.k.hi + std::max(p, q));
  return r;
}
struct Rank {
  Function &F; LoopInfo &LI; DominatorTree &DT; AAResults &AA;
  // v at the end of the round, over values at its beginning (header phis) and values that do not change
  LinX lin(const Value *v, const Loop *L, int depth = 0) {
    LinX r; 
    if (depth > 40) { r.bad = true; return r; }
    if (auto *C = dyn_cast<ConstantInt>(v)) { r.k.lo = r.k.hi = C->getSExtValue(); return r; }
    auto *I = dyn_cast<Instruction>(v);
    if (!I || !L->contains(I)) { r.t[v] = 1; return r; }
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      if (B->getOpcode() == Instruction::Add) return addL(lin(B->getOperand(0), L, depth + 1), lin(B->getOperand(1), L, depth + 1), 1);
      if (B->getOpcode() == Instruction::Sub) return addL(lin(B->getOperand(0), L, depth + 1), lin(B->getOperand(1), L, depth + 1), -1);
      if (B->getOpcode() == Instruction::Mul) if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1))) return addL(LinX(), lin(B->getOperand(0), L, depth + 1), C->getSExtValue());
    }
    if (isa<SExtInst>(I) || isa<ZExtInst>(I) || isa<FreezeInst>(I)) return lin(I->getOperand(0), L, depth + 1);
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) if (G->getNumIndices() == 1) { // pointers count in elements
      auto sz = F.getParent()->getDataLayout().getTypeAllocSize(G->getSourceElementType());
      return addL(lin(G->getPointerOperand(), L, depth + 1), lin(G->getOperand(1), L, depth + 1), sz.getFixedValue());
    }
    if (auto *P = dyn_cast<PHINode>(I)) {
      if (P->getParent() == L->getHeader()) { r.t[P] = 1; return r; }
      const Loop *IL = LI.getLoopFor(P->getParent());
      if (IL != L && IL->getHeader() == P->getParent()) { // what an inner loop adds to it
        LinX init; bool first = true; Iv d{0, 0};
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
          if (!IL->contains(P->getIncomingBlock(i))) { LinX x = lin(P->getIncomingValue(i), L, depth + 1); init = first ? x : join(init, x); first = false; }
          else { LinX x = lin(P->getIncomingValue(i), IL, depth + 1); if (x.bad || x.t.size() != 1 || !x.t.count(P) || x.t[P] != 1) { r.bad = true; return r; } if (x.k.lo < 0) d.lo = -INF; if (x.k.hi > 0) d.hi = INF; }
        }
        LinX q; q.k = d; return addL(init, q, 1);
      }
      return mergePhi(P, L, depth);
    }
    if (steady(I, L)) { r.t[I] = 1; return r; }
    if (auto *S = dyn_cast<SelectInst>(I)) return join(lin(S->getTrueValue(), L, depth + 1), lin(S->getFalseValue(), L, depth + 1));
    r.bad = true; return r;
  }
  // read from memory that the loop does not change: every store in it is of another type
  bool steady(const Value *v, const Loop *L, int depth = 0) {
    auto *I = dyn_cast<Instruction>(v);
    if (!I || !L->contains(I)) return true;
    if (depth > 20) return false;
    if (isa<CastInst>(I) || isa<GetElementPtrInst>(I) || isa<BinaryOperator>(I)) { for (auto &o : I->operands()) if (!steady(o, L, depth + 1)) return false; return true; }
    auto *X = dyn_cast<LoadInst>(I);
    if (!X || !steady(X->getPointerOperand(), L, depth + 1)) return false;
    for (auto *b : L->blocks()) for (auto &J : *b) {
      if (auto *C = dyn_cast<CallBase>(&J)) if (isa<DbgInfoIntrinsic>(C) || isMath(C)) continue;
      if (auto *S = dyn_cast<StoreInst>(&J)) if (newer(S->getPointerOperand(), X->getPointerOperand())) continue;
      if (J.mayWriteToMemory() && isModSet(AA.getModRefInfo(&J, MemoryLocation::get(X)))) return false;
    }
    return true;
  }
  // p points into memory allocated after the pointer q was obtained
  bool newer(const Value *p, const Value *q) {
    q = getUnderlyingObject(q, 0);
    SmallVector<const Value *, 4> os; getUnderlyingObjects(p, os, nullptr, 0);
    for (auto *o : os) {
      if (isa<ConstantPointerNull>(o)) continue;
      auto *M = dyn_cast<CallInst>(o);
      if (!M || !isAllocFn(M->getCalledFunction()) || LI.getLoopFor(M->getParent())) return false;
      if (isa<Argument>(q)) continue;
      auto *I = dyn_cast<Instruction>(q);
      if (!I || !DT.dominates(I, M)) return false;
    }
    return true;
  }
  static bool isMath(const CallBase *C) {
    static const std::set<StringRef> m{"sqrt", "sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "exp", "log", "log10", "floor", "ceil", "fabs", "pow", "fmod"};
    auto *G = C->getCalledFunction(); if (!G) return false;
    if (auto *II = dyn_cast<IntrinsicInst>(C)) return II->isLifetimeStartOrEnd();
    return G->isDeclaration() && m.count(G->getName());
  }
  LinX mergePhi(const PHINode *P, const Loop *L, int depth) {
    LinX r; bool first = true;
    for (auto &x : P->incoming_values()) { LinX y = lin(x, L, depth + 1); r = first ? y : join(r, y); first = false; }
    return r;
  }
  static LinX join(const LinX &a, const LinX &b) {
    LinX r = a; if (a.bad || b.bad || a.t != b.t) { r.bad = true; return r; }
    r.k.lo = std::min(a.k.lo, b.k.lo); r.k.hi = std::max(a.k.hi, b.k.hi); return r;
  }
  // how the value changes over one round
  bool delta(const LinX &x, const Loop *L, Iv &d) {
    LinX s; s.k = {0, 0};
    d = {0, 0};
    bool first = true;
    SmallVector<BasicBlock *, 4> latches; L->getLoopLatches(latches);
    for (auto *b : latches) {
      LinX q;
      for (auto &t : x.t) {
        auto *P = dyn_cast<PHINode>(t.first);
        if (!P || P->getParent() != L->getHeader()) { if (auto *I = dyn_cast<Instruction>(t.first)) if (L->contains(I) && !steady(I, L)) return false; continue; }
        LinX in = lin(P->getIncomingValueForBlock(b), L); LinX self; self.t[P] = 1;
        LinX ch = addL(in, self, -1);
        if (ch.bad) return false;
        q = addL(q, ch, t.second);
      }
      if (q.bad || !q.t.empty()) return false;
      if (first) d = q.k; else { d.lo = std::min(d.lo, q.k.lo); d.hi = std::max(d.hi, q.k.hi); }
      first = false;
    }
    return !first;
  }
  // does this test end the loop? Every round that is followed by another one has to pass it, in the same direction.
  bool ends(const Loop *L, const BranchInst *br) {
    SmallVector<BasicBlock *, 4> latches; L->getLoopLatches(latches);
    if (LI.getLoopFor(br->getParent()) != L || br->getSuccessor(0) == br->getSuccessor(1)) return false;
    for (unsigned k = 0; k < 2; k++) {
      BasicBlockEdge e(br->getParent(), br->getSuccessor(k));
      bool all = true;
      for (auto *b : latches) if (!(b == br->getParent() ? br->getSuccessor(k) == L->getHeader() && br->getSuccessor(1 - k) != L->getHeader() : DT.dominates(e, b))) all = false;
      if (all && endsIf(L, br->getCondition(), k == 0, 0)) return true;
    }
    return false;
  }
  // coming to this block within the round takes a test that ends the loop
  bool endsBefore(const Loop *L, const BasicBlock *b, int depth) {
    for (int n = 0; n < 8 && b != L->getHeader(); n++) {
      auto *p = b->getSinglePredecessor();
      if (!p || LI.getLoopFor(p) != L) return false;
      if (auto *br = dyn_cast<BranchInst>(p->getTerminator()); br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1) && endsIf(L, br->getCondition(), br->getSuccessor(0) == b, depth + 1)) return true;
      b = p;
    }
    return false;
  }
  // staying in the loop means the condition is `want`
  bool endsIf(const Loop *L, const Value *c, bool want, int depth) {
    if (depth > 10) return false;
    if (auto *B = dyn_cast<BinaryOperator>(c)) {
      if (B->getOpcode() == Instruction::And && want) return endsIf(L, B->getOperand(0), true, depth + 1) || endsIf(L, B->getOperand(1), true, depth + 1);
      if (B->getOpcode() == Instruction::Or && !want) return endsIf(L, B->getOperand(0), false, depth + 1) || endsIf(L, B->getOperand(1), false, depth + 1);
      if (B->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(B->getOperand(1)); k && k->isOne()) return endsIf(L, B->getOperand(0), !want, depth + 1);
    }
    if (auto *S = dyn_cast<SelectInst>(c)) { // a && b, a || b
      if (auto *k = dyn_cast<ConstantInt>(S->getFalseValue()); k && k->isZero() && want) return endsIf(L, S->getCondition(), true, depth + 1) || endsIf(L, S->getTrueValue(), true, depth + 1);
      if (auto *k = dyn_cast<ConstantInt>(S->getTrueValue()); k && k->isOne() && !want) return endsIf(L, S->getCondition(), false, depth + 1) || endsIf(L, S->getFalseValue(), false, depth + 1);
      return false;
    }
    if (auto *P = dyn_cast<PHINode>(c); P && L->contains(P) && LI.getLoopFor(P->getParent()) == L && P->getParent() != L->getHeader()) { // a && b, a || b in blocks of their own
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        auto *k = dyn_cast<ConstantInt>(P->getIncomingValue(i));
        if (k && k->isOne() != want) continue;
        auto *b = P->getIncomingBlock(i);
        if (!k && endsIf(L, P->getIncomingValue(i), want, depth + 1)) continue;
        if (auto *br = dyn_cast<BranchInst>(b->getTerminator()); br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1) && LI.getLoopFor(b) == L && endsIf(L, br->getCondition(), br->getSuccessor(0) == P->getParent(), depth + 1)) continue;
        if (!endsBefore(L, b, depth)) return false;
      }
      return true;
    }
    auto *C = dyn_cast<ICmpInst>(c);
    if (!C) return false;
    auto p = want ? C->getPredicate() : C->getInversePredicate();
    LinX d = addL(lin(C->getOperand(0), L), lin(C->getOperand(1), L), -1);
    if (d.bad) return false;
    Iv ch;
    if (!delta(d, L, ch)) return false;
    // the interval part of d has to be the same in every round to be compared with itself
    if (d.k.lo != d.k.hi) return false;
    switch (p) {
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return ch.lo >= 1;
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: return ch.hi <= -1;
    case CmpInst::ICMP_NE: return ch.lo == ch.hi && (ch.lo == 1 || ch.lo == -1);
    default: return false;
    }
  }
};
}
// what a call may lead to: for a call through a pointer, every function of that type whose address is taken
static std::vector<Function *> targets(Module &M, const CallBase *C) {
  std::vector<Function *> r;
  if (auto *F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) { r.push_back(F); return r; }
  if (C->isInlineAsm()) return r;
  for (auto &F : M)
    if (F.hasAddressTaken() && F.getFunctionType() == C->getFunctionType()) r.push_back(&F);
  return r;
}
void checkLoops(Ctx &cx) {
  TargetLibraryInfoImpl tlii(Triple(cx.M->getTargetTriple()));
  std::map<Function *, std::vector<std::pair<Function *, const Instruction *>>> calls;
  for (auto &F : *cx.M) {
    if (F.isDeclaration()) continue;
    cx.count("functions");
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I)) { 
        if (isa<IntrinsicInst>(C)) continue;
        for (auto *G : targets(*cx.M, C)) { if (!G->isDeclaration()) { calls[&F].push_back({G, &I}); cx.count("calls"); } }
        if (!C->getCalledFunction()) cx.count("calls_through_pointers");
      }
    DominatorTree DT(F); LoopInfo LI(DT);
    ReversePostOrderTraversal<Function *> RPO(&F);
    if (containsIrreducibleCFG<const BasicBlock *>(RPO, LI))
      cx.viol("endless", &F, F.getSubprogram() ? DebugLoc(DILocation::get(cx.C, F.getSubprogram()->getLine(), 0, F.getSubprogram())) : DebugLoc(), "jump into a loop", "a cycle that is entered in several places (jump into a loop): cannot be shown to end");
    TargetLibraryInfo TLI(tlii, &F); AAResults AA(TLI); TypeBasedAAResult TB; AA.addAAResult(TB);
    Rank R{F, LI, DT, AA};
    for (Loop *L : LI.getLoopsInPreorder()) {
      cx.count("loops");
      bool ok = false;
      for (auto *b : L->blocks()) if (auto *br = dyn_cast<BranchInst>(b->getTerminator())) if (br->isConditional() && R.ends(L, br)) ok = true;
      if (ok) { cx.count("ranked"); continue; }
      cx.viol("endless", &F, L->getStartLoc(), "loop", "this loop may go on for ever: in no test passed in every round does the distance to the limit get shorter in every round");
    }
  }
  // recursion: nothing may be called again while it is still running
  for (auto &x : calls) {
    std::set<Function *> seen; std::vector<std::pair<Function *, const Instruction *>> todo = x.second;
    while (!todo.empty()) {
      auto [g, at] = todo.back(); todo.pop_back();
      if (g == x.first) { cx.viol("recursion", const_cast<Function *>(at->getFunction()), at->getDebugLoc(), g->getName().str(), "calls " + g->getName().str() + " while it is running: the depth is not bounded"); break; }
      if (seen.insert(g).second) for (auto &y : calls[g]) todo.push_back(y);
    }
  }
}

// ---------------------------------------------------------------------------
// What a call may change: its outputs, the object it was given, memory of its own. Never the
// library's own variables and tables (except by the functions that exist to do that), never the inputs.
namespace {
struct Base { enum K { Own, Arg, Deep, Glob } k; unsigned arg = 0; const GlobalVariable *g = nullptr; bool operator<(const Base &o) const { return std::tie(k, arg, g) < std::tie(o.k, o.arg, o.g); } };
typedef std::set<Base> Bases;
struct Where { const Instruction *at; const GlobalVariable *g; Function *via; };
struct Eff {
  Ctx &cx;
  std::map<Function *, std::set<unsigned>> argW;                 // writes memory its argument points to
  std::map<Function *, std::map<unsigned, const Instruction *>> argAt;
  std::map<Function *, std::map<const GlobalVariable *, const Instruction *>> globW; // writes to library variables
  std::map<Function *, Bases> rets;                              // what it returns a pointer to
  std::map<Function *, std::map<std::pair<const Instruction *, Str>, int>> deepW; // writes to a type of the library's tables
  std::map<Str, uint64_t> tableTypes; // name, size
  bool changed = false;
  void bases(const Value *v, Bases &out, std::set<const Value *> &seen) {
    v = v->stripPointerCasts();
    if (!seen.insert(v).second) return;
    if (auto *G = dyn_cast<GEPOperator>(v)) return bases(G->getPointerOperand(), out, seen);
    if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) bases(x, out, seen); return; }
    if (auto *S = dyn_cast<SelectInst>(v)) { bases(S->getTrueValue(), out, seen); bases(S->getFalseValue(), out, seen); return; }
    if (auto *I = dyn_cast<IntToPtrInst>(v)) { if (auto *P = dyn_cast<PtrToIntInst>(I->getOperand(0))) return bases(P->getOperand(0), out, seen); out.insert({Base::Deep}); return; }
    if (auto *F = dyn_cast<FreezeInst>(v)) return bases(F->getOperand(0), out, seen);
    if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v) || isa<AllocaInst>(v)) { out.insert({Base::Own}); return; }
    if (auto *A = dyn_cast<Argument>(v)) { out.insert({Base::Arg, A->getArgNo()}); return; }
    if (auto *G = dyn_cast<GlobalVariable>(v)) { out.insert({Base::Glob, 0, G}); return; }
    if (auto *L = dyn_cast<LoadInst>(v)) {
      Bases b; bases(L->getPointerOperand(), b, seen);
      for (auto &x : b) {
        if (x.k == Base::Glob) out.insert(x);               // what a library variable points to
        else if (x.k == Base::Own) local(L, out, seen);
        else out.insert({Base::Deep});
      }
      return;
    }
    if (auto *C = dyn_cast<CallBase>(v)) {
      auto *F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
      if (isAllocFn(F)) { out.insert({Base::Own}); if (F->getName() == "realloc") bases(C->getArgOperand(0), out, seen); return; }
      if (F && !F->isDeclaration()) for (auto &x : rets[F]) subst(C, x, out, seen);
      else out.insert({Base::Deep});
      return;
    }
    out.insert({Base::Deep});
  }
  void subst(const CallBase *C, const Base &x, Bases &out, std::set<const Value *> &seen) {
    if (x.k == Base::Arg) { if (x.arg < C->arg_size()) bases(C->getArgOperand(x.arg), out, seen); }
    else out.insert(x);
  }
  // a pointer read back from a variable or block of this function: what was stored into it
  void local(const LoadInst *L, Bases &out, std::set<const Value *> &seen) {
    auto *o = getUnderlyingObject(L->getPointerOperand(), 0);
    bool all = isa<AllocaInst>(o);
    std::vector<const Value *> todo{o}; std::set<const Value *> vis;
    while (!todo.empty()) {
      auto *p = todo.back(); todo.pop_back();
      if (!vis.insert(p).second) continue;
      for (auto *U : p->users()) {
        if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == p && S->getValueOperand()->getType()->isPointerTy()) bases(S->getValueOperand(), out, seen); else if (S->getValueOperand() == p) all = false; }
        else if (isa<GetElementPtrInst>(U) || isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) todo.push_back(U);
        else if (auto *C = dyn_cast<CallBase>(U)) { if (!isa<IntrinsicInst>(C)) all = false; }
      }
    }
    out.insert({all ? Base::Own : Base::Deep});
  }
  Bases of(const Value *v) { Bases b; std::set<const Value *> s; bases(v, b, s); return b; }
  // the structure a store goes into, by its name in the source (types of equal layout are merged when modules are linked)
  static Str tbaa(const Instruction *I) {
    auto *m = I->getMetadata(LLVMContext::MD_tbaa);
    if (!m || m->getNumOperands() < 1) return "";
    if (auto *b = dyn_cast<MDNode>(m->getOperand(0))) if (b->getNumOperands()) if (auto *s = dyn_cast<MDString>(b->getOperand(0))) return s->getString().str();
    return "";
  }
  Str copied(const MemIntrinsic *M) { // struct assignment
    if (!M->getMetadata(LLVMContext::MD_tbaa_struct)) return "";
    auto *n = dyn_cast<ConstantInt>(M->getLength());
    for (auto &t : tableTypes) if (n && n->getZExtValue() == t.second) return t.first;
    return "";
  }
  void write(Function &F, const Instruction *I, const Bases &bs, const Str &st) {
    for (auto &b : bs) switch (b.k) {
    case Base::Own: break;
    case Base::Arg: if (argW[&F].insert(b.arg).second) { changed = true; argAt[&F][b.arg] = I; } break;
    case Base::Glob: if (globW[&F].insert({b.g, I}).second) changed = true; break;
    case Base::Deep: if (tableTypes.count(st)) if (deepW[&F].insert({{I, st}, 1}).second) changed = true; break;
    }
  }
  void scan(Function &F) {
    for (auto &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) write(F, S, of(S->getPointerOperand()), tbaa(S));
      else if (auto *R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy()) for (auto &b : of(R->getReturnValue())) if (rets[&F].insert(b).second) changed = true; }
      else if (auto *C = dyn_cast<CallBase>(&I)) {
        if (auto *M = dyn_cast<MemIntrinsic>(C)) { write(F, M, of(M->getRawDest()), copied(M)); continue; }
        if (isa<IntrinsicInst>(C)) continue;
        for (auto *G : targets(*cx.M, C)) {
          if (G->isDeclaration()) {
            if (G->getName() == "free") write(F, C, of(C->getArgOperand(0)), "");
            else if (G->getName() == "fread" || G->getName() == "memcpy" || G->getName() == "memmove" || G->getName() == "memset" || G->getName() == "strcpy" || G->getName() == "strncpy" || G->getName() == "sprintf" || G->getName() == "snprintf") write(F, C, of(C->getArgOperand(0)), "");
            continue;
          }
          for (auto a : std::set<unsigned>(argW[G])) if (a < C->arg_size()) write(F, C, of(C->getArgOperand(a)), argType(G, a));
        }
      }
    }
  }
  // the structure an argument points to, from its declaration
  Str argType(Function *G, unsigned a) {
    auto ps = paramInfo(G); if (a >= ps.size() || !ps[a].second) return "";
    auto *T = stripTypedef(ps[a].second);
    if (auto *D = dyn_cast_or_null<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_pointer_type) {
      const DIType *B = stripConst(D->getBaseType());
      if (B) return B->getName().str();
    }
    return "";
  }
  static const DIType *stripConst(const DIType *T) { T = T ? stripTypedef(T) : nullptr; if (auto *D = dyn_cast_or_null<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_const_type) return D->getBaseType() ? stripTypedef(D->getBaseType()) : nullptr; return T; }
  static bool constParam(const DIType *T) {
    T = stripTypedef(T);
    auto *D = dyn_cast_or_null<DIDerivedType>(T);
    if (!D || D->getTag() != dwarf::DW_TAG_pointer_type) return false;
    const DIType *B = D->getBaseType();
    while (auto *X = dyn_cast_or_null<DIDerivedType>(B)) { if (X->getTag() == dwarf::DW_TAG_const_type) return true; if (X->getTag() != dwarf::DW_TAG_typedef && X->getTag() != dwarf::DW_TAG_volatile_type) return false; B = X->getBaseType(); }
    return false;
  }
};
}
void checkEffects(Ctx &cx) {
  Module &M = *cx.M; Eff E{cx};
  std::set<const DIType *> seenT; // types of the library's own variables and tables, and of what they point to
  std::function<void(const DIType *, Str)> types = [&](const DIType *T, Str alias) {
    if (!T || !seenT.insert(T).second) return;
    if (auto *D = dyn_cast<DIDerivedType>(T)) return types(D->getBaseType(), D->getTag() == dwarf::DW_TAG_typedef ? D->getName().str() : Str());
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) return types(C->getBaseType(), "");
      if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) return;
      Str n = C->getName().str(); if (n.empty()) n = alias;
      if (!n.empty() && n[0] != '_') E.tableTypes[n] = C->getSizeInBits() / 8;
      for (auto *e : C->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) types(m->getBaseType(), "");
    }
  };
  for (auto &G : M.globals()) {
    if (G.isConstant()) cx.count("constants"); else cx.count("variables");
    SmallVector<DIGlobalVariableExpression *, 1> ge; G.getDebugInfo(ge);
    for (auto *e : ge) types(e->getVariable()->getType(), "");
  }
  do { E.changed = false; for (auto &F : M) if (!F.isDeclaration()) E.scan(F); } while (E.changed);
  for (auto &s : E.tableTypes) cx.lists["table_types"].insert(s.first);
  // reachable from the functions whose purpose is not to change the library
  auto changer = [](StringRef n) { return n == "TA_Initialize" || n == "TA_Shutdown" || n.starts_with("TA_Set") && n != "TA_SetRetCodeInfo" && !n.contains("Param") && !n.contains("Ptr") || n.starts_with("TA_RestoreCandle"); };
  std::map<Function *, Function *> from; std::vector<Function *> todo;
  for (auto &F : M) if (!F.isDeclaration() && cx.api.count(F.getName().str())) {
    if (changer(F.getName())) { cx.lists["changers"].insert(F.getName().str()); continue; }
    from[&F] = nullptr; todo.push_back(&F); cx.count("public_functions");
  }
  while (!todo.empty()) { auto *F = todo.back(); todo.pop_back();
    for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(C))
      for (auto *G : targets(M, C)) {
        if (G->isDeclaration()) {
          cx.lists["external"].insert(G->getName().str()); cx.count("external_calls");
          static const std::set<StringRef> pure{"malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "memcmp", "memchr", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strlen", "strchr", "strrchr", "strstr", "strcpy", "strncpy", "strcat", "strncat", "strdup", "strtol", "strtod", "atoi", "atof", "toupper", "tolower", "sprintf", "snprintf", "__ctype_tolower_loc", "__ctype_toupper_loc", "__ctype_b_loc", "fread", "fwrite", "abs", "labs", "fabs", "fabsf", "sqrt", "pow", "exp", "log", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "floor", "ceil", "fmod", "round", "rint", "trunc", "lround", "fmin", "fmax", "modf", "frexp", "ldexp", "copysign", "hypot", "cbrt", "exp2", "log2", "log1p", "expm1", "fma", "isnan", "isinf", "qsort", "bsearch", "__assert_fail", "sqrtf", "floorf", "ceilf"};
          if (!pure.count(G->getName())) cx.viol("outside", F, I.getDebugLoc(), G->getName().str(), "calls " + G->getName().str() + ": what it does or returns depends on or changes something outside the arguments and settings");
        } else if (!from.count(G)) { from[G] = F; todo.push_back(G); }
      }
  }
  auto path = [&](Function *F) { Str s; for (int n = 0; F && n < 12; F = from[F], n++) s = F->getName().str() + (s.empty() ? "" : " -> ") + s; return s; };
  for (auto &x : from) {
    Function *F = x.first; cx.count("functions");
    for (auto &w : E.globW[F]) cx.viol("library-state", F, w.second->getDebugLoc(), w.first->getName().str(), "changes the library variable " + w.first->getName().str() + " (reached by " + path(F) + ")");
    for (auto &w : E.deepW[F]) cx.viol("library-state", F, w.first.first->getDebugLoc(), w.first.second, "changes a description or setting (" + w.first.second + ") through a pointer (reached by " + path(F) + ")");
    cx.count("writes", 0);
    for (auto &I : instructions(*F)) { if (I.mayWriteToMemory() && (isa<StoreInst>(I) || isa<MemIntrinsic>(I))) cx.count("writes");
      if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isPointerTy())
        for (auto &b : E.of(S->getValueOperand())) if (b.k == Base::Glob && !b.g->isConstant()) {
          Type *T = b.g->getValueType(); while (auto *A = dyn_cast<ArrayType>(T)) T = A->getElementType();
          if (!T->isPointerTy() && !T->isStructTy() && isa<GlobalVariable>(getUnderlyingObject(S->getValueOperand(), 0))) cx.viol("library-state", F, S->getDebugLoc(), b.g->getName().str(), "hands out the address of the library variable " + b.g->getName().str());
        } }
    if (!cx.api.count(F->getName().str())) continue;
    auto ps = paramInfo(F);
    for (unsigned i = 0; i < ps.size() && i < F->arg_size(); i++) if (ps[i].second && E.constParam(ps[i].second)) {
      cx.count("input_parameters");
      if (E.argW[F].count(i)) cx.viol("input-changed", F, E.argAt[F][i]->getDebugLoc(), ps[i].first, "stores into its input " + ps[i].first);
    }
  }
}
