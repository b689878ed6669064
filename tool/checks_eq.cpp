// The single precision version of a calculation is the same program as the double precision one.
#include "common.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <functional>

namespace {
// Replaces single by double precision throughout a function, so that it can be compared with
// its double precision counterpart as a formula over the same numbers.
void widen(Function &F) {
  Type *D = Type::getDoubleTy(F.getContext()), *S = Type::getFloatTy(F.getContext());
  auto map = [&](Type *T) -> Type * {
    std::function<Type *(Type *)> m = [&](Type *t) -> Type * {
      if (t == S) return D;
      if (auto *A = dyn_cast<ArrayType>(t)) return ArrayType::get(m(A->getElementType()), A->getNumElements());
      return t;
    };
    return m(T);
  };
  std::vector<Instruction *> gone;
  for (auto &I : instructions(F)) {
    for (auto &o : I.operands())
      if (auto *C = dyn_cast<ConstantFP>(o)) if (C->getType() == S) { APFloat v = C->getValueAPF(); bool l; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); o.set(ConstantFP::get(D, v)); }
        else; else if (isa<UndefValue>(o) && o->getType() == S) o.set(isa<PoisonValue>(o) ? PoisonValue::get(D) : UndefValue::get(D));
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { G->setSourceElementType(map(G->getSourceElementType())); G->setResultElementType(map(G->getResultElementType())); }
    if (auto *A = dyn_cast<AllocaInst>(&I)) A->setAllocatedType(map(A->getAllocatedType()));
    if (auto *C = dyn_cast<CallInst>(&I)) if (auto *II = dyn_cast<IntrinsicInst>(C)) if (C->getType() == S && !C->arg_empty()) {
      C->setCalledFunction(Intrinsic::getDeclaration(F.getParent(), II->getIntrinsicID(), {D})); }
    if (I.getType() == S) I.mutateType(D);
  }
  for (auto &I : instructions(F))
    if (isa<FPExtInst>(I) || isa<FPTruncInst>(I)) if (I.getType() == I.getOperand(0)->getType()) gone.push_back(&I);
  for (auto *I : gone) { I->replaceAllUsesWith(I->getOperand(0)); I->eraseFromParent(); }
}
void plain(Function &F) {
  std::vector<Instruction *> gone;
  for (auto &I : instructions(F)) {
    if (isa<DbgInfoIntrinsic>(I)) gone.push_back(&I);
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
      if (II->getIntrinsicID() == Intrinsic::fmuladd) {
        IRBuilder<> B(II); auto *m = B.CreateFMul(II->getArgOperand(0), II->getArgOperand(1)); auto *a = B.CreateFAdd(m, II->getArgOperand(2));
        II->replaceAllUsesWith(a); gone.push_back(II);
      } else if (II->isLifetimeStartOrEnd()) gone.push_back(II);
    }
  }
  for (auto *I : gone) I->eraseFromParent();
  for (auto &I : instructions(F)) { I.setMetadata(LLVMContext::MD_tbaa_struct, nullptr); I.setMetadata(LLVMContext::MD_loop, nullptr); }
}
// all numbers count as one kind of memory
void tag(Function &F, MDNode *t) {
  for (auto &I : instructions(F)) {
    Type *T = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) T = L->getType(); else if (auto *S = dyn_cast<StoreInst>(&I)) T = S->getValueOperand()->getType();
    if (T && T->isDoubleTy()) I.setMetadata(LLVMContext::MD_tbaa, t);
  }
}
// Block copies of numbers become loops, as the other version may have them.
void copies(Function &F) {
  std::vector<MemTransferInst *> ms;
  for (auto &I : instructions(F)) if (auto *M = dyn_cast<MemTransferInst>(&I)) ms.push_back(M);
  auto &C = F.getContext();
  for (auto *M : ms) {
    // bytes = 8 * n
    Value *len = M->getLength(), *n = nullptr; const APInt *k;
    if (auto *K = dyn_cast<ConstantInt>(len)) { if (K->getZExtValue() % 8) continue; n = ConstantInt::get(K->getType(), K->getZExtValue() / 8); }
    else if (auto *B = dyn_cast<BinaryOperator>(len)) {
      for (int o = 0; o < 2; o++) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(o))) {
        if (B->getOpcode() == Instruction::Mul && K->getZExtValue() == 8) n = B->getOperand(1 - o);
        if (B->getOpcode() == Instruction::Shl && o == 1 && K->getZExtValue() == 3) n = B->getOperand(0);
      }
    }
    if (!n) continue;
    BasicBlock *pre = M->getParent(), *post = pre->splitBasicBlock(M, "after");
    BasicBlock *head = BasicBlock::Create(C, "copy", &F, post), *body = BasicBlock::Create(C, "copy.body", &F, post);
    pre->getTerminator()->setSuccessor(0, head);
    if (auto *X = dyn_cast<CastInst>(n)) n = X->getOperand(0);
    IRBuilder<> B(head); auto *P = B.CreatePHI(n->getType(), 2); P->addIncoming(ConstantInt::get(n->getType(), 0), pre);
    B.CreateCondBr(B.CreateICmpSLT(P, n), body, post);
    B.SetInsertPoint(body);
    auto *D = B.getDoubleTy(); auto *ix = B.CreateSExt(P, B.getInt64Ty());
    auto *v = B.CreateLoad(D, B.CreateInBoundsGEP(D, M->getRawSource(), ix)); B.CreateStore(v, B.CreateInBoundsGEP(D, M->getRawDest(), ix));
    P->addIncoming(B.CreateNSWAdd(P, ConstantInt::get(n->getType(), 1)), body); B.CreateBr(head);
    M->eraseFromParent();
  }
}
// Inputs against outputs: in the single precision version they are never the same array. in/out: the one pair taken to coincide.
bool apart(Function &F, int in, int out) {
  bool any = false;
  std::function<std::set<const Argument *>(const Value *, int)> args = [&](const Value *v, int d) {
    std::set<const Argument *> r;
    if (auto *A = dyn_cast<Argument>(v)) r.insert(A);
    return r;
  };
  std::vector<std::pair<ICmpInst *, bool>> fold;
  for (auto &I : instructions(F)) if (auto *C = dyn_cast<ICmpInst>(&I)) if (C->isEquality()) {
    auto *a = dyn_cast<Argument>(C->getOperand(0)), *b = dyn_cast<Argument>(C->getOperand(1));
    for (int o = 0; o < 2; o++) if (auto *K = dyn_cast<CallInst>(C->getOperand(o)); K && isAllocFn(K->getCalledFunction()) && isa<Argument>(C->getOperand(1 - o))) fold.push_back({C, false});
    if (!a || !b || !a->getType()->isPointerTy()) continue;
    any = true;
    int x = a->getArgNo(), y = b->getArgNo(); if (x > y) std::swap(x, y);
    fold.push_back({C, x == in && y == out});
  }
  any |= !fold.empty();
  for (auto &f : fold) f.first->replaceAllUsesWith(ConstantInt::get(f.first->getType(), (f.first->getPredicate() == CmpInst::ICMP_EQ) == f.second));
  return any;
}
// Everything that changes by a constant in every round is written as start + step * (rounds so far).
void counters(Function &F, FunctionAnalysisManager &FAM) {
  DominatorTree DT(F); LoopInfo LI(DT);
  for (Loop *L : LI.getLoopsInPreorder()) {
    auto *H = L->getHeader(); auto *latch = L->getLoopLatch(), *pre = L->getLoopPredecessor();
    if (!latch || !pre) continue;
    struct IV { PHINode *P; int64_t step; Value *init; };
    std::vector<IV> ivs; std::set<Type *> ts;
    for (auto &P : H->phis()) {
      if (!P.getType()->isIntegerTy() || P.getType()->isIntegerTy(1) || P.getNumIncomingValues() != 2) continue;
      auto *n = dyn_cast<BinaryOperator>(P.getIncomingValueForBlock(latch)); int64_t st = 0;
      if (!n) continue;
      // through several additions
      const Value *v = n; int d = 0; bool ok = true;
      while (v != &P && ok && d++ < 8) {
        auto *B = dyn_cast<BinaryOperator>(v); ok = false;
        if (B) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) {
          if (B->getOpcode() == Instruction::Add) { st += K->getSExtValue(); v = B->getOperand(0); ok = true; }
          else if (B->getOpcode() == Instruction::Sub) { st -= K->getSExtValue(); v = B->getOperand(0); ok = true; }
        }
      }
      if (!ok || v != &P || !st) continue;
      ivs.push_back({&P, st, P.getIncomingValueForBlock(pre)}); 
    }
    std::map<Type *, PHINode *> k;
    for (auto &x : ivs) {
      Type *T = x.P->getType(); auto &c = k[T];
      if (!c) {
        c = PHINode::Create(T, 2, "round", &*H->begin()); 
        auto *n = BinaryOperator::CreateNSWAdd(c, ConstantInt::get(T, 1), "round.next", latch->getTerminator());
        c->addIncoming(ConstantInt::get(T, 0), pre); c->addIncoming(n, latch);
      }
      IRBuilder<> B(&*H->getFirstInsertionPt()); B.SetCurrentDebugLocation(x.P->getDebugLoc());
      Value *m = x.step == 1 ? (Value *)c : B.CreateNSWMul(c, ConstantInt::get(T, x.step, true));
      Value *r = isa<ConstantInt>(x.init) && cast<ConstantInt>(x.init)->isZero() ? m : B.CreateNSWAdd(m, x.init);
      x.P->replaceAllUsesWith(r);
      x.P->eraseFromParent();
    }
  }
}
struct Sum { std::vector<std::pair<const Value *, int64_t>> t; int64_t k = 0; };
struct Lock {
  Function &A, &B; std::function<Str(const Function *)> name;
  std::map<const BasicBlock *, const BasicBlock *> m, back;
  std::set<const BasicBlock *> inv; // blocks of A whose branch is the other way round in B
  const Instruction *at = nullptr, *bt = nullptr; Str why; int64_t pairs = 0;
  int tolerant = 0; // 1: a comparison of the opposite direction is a difference; 2: it is the same condition the other way round
  typedef std::set<std::pair<const Value *, const Value *>> Asm;
  bool fail(const Instruction *a, const Instruction *b, const Str &w) { if (why.empty()) { at = a; bt = b; why = w; } return false; }
  static bool reversed(CmpInst::Predicate p, CmpInst::Predicate q, bool &inverted) {
    if (p == q || p == CmpInst::getSwappedPredicate(q)) { inverted = false; return true; }
    auto r = CmpInst::getInversePredicate(q);
    if (p == r || p == CmpInst::getSwappedPredicate(r)) { inverted = true; return true; }
    return false;
  }
  bool structure() {
    std::vector<std::pair<const BasicBlock *, const BasicBlock *>> todo{{&A.getEntryBlock(), &B.getEntryBlock()}};
    while (!todo.empty()) {
      auto [a, b] = todo.back(); todo.pop_back();
      if (m.count(a) || back.count(b)) { if (!m.count(a) || m[a] != b) return fail(a->getTerminator(), b->getTerminator(), "control flow differs"); continue; }
      m[a] = b; back[b] = a;
      auto *t = a->getTerminator(), *u = b->getTerminator();
      if (t->getOpcode() != u->getOpcode() || t->getNumSuccessors() != u->getNumSuccessors()) return fail(t, u, "control flow differs");
      if (auto *S = dyn_cast<SwitchInst>(t)) {
        auto *R = cast<SwitchInst>(u);
        todo.push_back({S->getDefaultDest(), R->getDefaultDest()});
        for (auto &c : S->cases()) { auto k = R->findCaseValue(c.getCaseValue()); if (k == R->case_default()) return fail(t, u, "control flow differs"); todo.push_back({c.getCaseSuccessor(), k->getCaseSuccessor()}); }
        continue;
      }
      auto *x = dyn_cast<BranchInst>(t), *y = dyn_cast<BranchInst>(u);
      if (x && x->isConditional()) {
        auto *p = dyn_cast<CmpInst>(x->getCondition()), *q = dyn_cast<CmpInst>(y->getCondition()); bool w = false;
        if (p && q) { if (!reversed(p->getPredicate(), q->getPredicate(), w) && !tolerant) return fail(p, q, "a comparison differs"); if (tolerant == 1) w = p->getPredicate() != q->getPredicate() && p->getPredicate() == q->getInversePredicate(); }
        if (w) inv.insert(a);
        todo.push_back({x->getSuccessor(0), y->getSuccessor(w)}); todo.push_back({x->getSuccessor(1), y->getSuccessor(!w)});
      } else for (unsigned i = 0; i < t->getNumSuccessors(); i++) todo.push_back({t->getSuccessor(i), u->getSuccessor(i)});
    }
    return true;
  }
  // integer sums and addresses: the same multiples of the same things
  static bool sum(const Value *v, int64_t c, Sum &r, int d = 0) {
    if (auto *K = dyn_cast<ConstantInt>(v)) { r.k += c * K->getSExtValue(); return false; }
    auto *I = dyn_cast<Operator>(v);
    if (I && d < 30) {
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(I)) {
        unsigned op = O->getOpcode();
        if (op == Instruction::Add) { sum(O->getOperand(0), c, r, d + 1); sum(O->getOperand(1), c, r, d + 1); return true; }
        if (op == Instruction::Sub) { sum(O->getOperand(0), c, r, d + 1); sum(O->getOperand(1), -c, r, d + 1); return true; }
        if (op == Instruction::Mul) if (auto *K = dyn_cast<ConstantInt>(O->getOperand(1))) { sum(O->getOperand(0), c * K->getSExtValue(), r, d + 1); return true; }
        if (op == Instruction::Shl) if (auto *K = dyn_cast<ConstantInt>(O->getOperand(1)); K && K->getZExtValue() < 32) { sum(O->getOperand(0), c << K->getZExtValue(), r, d + 1); return true; }
      }
      if (isa<SExtInst>(I) || isa<ZExtInst>(I) || isa<TruncInst>(I)) if (!I->getOperand(0)->getType()->isIntegerTy(1)) { sum(I->getOperand(0), c, r, d + 1); return true; }
      if (auto *G = dyn_cast<GEPOperator>(I)) {
        Type *T = G->getSourceElementType(); bool ok = true;
        if (G->getNumIndices() == 1 && !T->isStructTy()) {
          int64_t sz = T->isDoubleTy() || T->isPointerTy() || T->isIntegerTy(64) ? 8 : T->isIntegerTy() ? T->getIntegerBitWidth() / 8 : 0;
          if (sz) { sum(G->getPointerOperand(), c, r, d + 1); sum(G->getOperand(1), c * sz, r, d + 1); return true; }
        }
      }
    }
    for (auto &x : r.t) if (x.first == v) { x.second += c; return false; }
    r.t.push_back({v, c}); return false;
  }
  bool eqSum(const Value *v, const Value *w, Asm &s, int depth) {
    Sum a, b; sum(v, 1, a); sum(w, 1, b);
    return eqSums(a, b, s, depth);
  }
  bool eqSums(Sum a, Sum b, Asm &s, int depth) {
    auto clean = [](Sum &x) { x.t.erase(std::remove_if(x.t.begin(), x.t.end(), [](auto &p) { return !p.second; }), x.t.end()); };
    clean(a); clean(b);
    if (a.k != b.k || a.t.size() != b.t.size()) return false;
    std::vector<bool> used(b.t.size());
    for (auto &x : a.t) {
      bool ok = false;
      for (size_t j = 0; !ok && j < b.t.size(); j++) if (!used[j] && b.t[j].second == x.second && x.first->getType() == b.t[j].first->getType()) { Asm t = s; if (eq1(x.first, b.t[j].first, t, false, depth + 1)) { s = t; used[j] = true; ok = true; } }
      if (!ok) return false;
    }
    return true;
  }
  static bool summed(const Value *v) { Sum r; if (isa<ConstantInt>(v)) return false; return (v->getType()->isIntegerTy() && !v->getType()->isIntegerTy(1) || v->getType()->isPointerTy()) && sum(v, 1, r); }
  bool eq(const Value *v, const Value *w, Asm &s, bool inverted = false, int depth = 0) {
    if (depth > 400) return false;
    if (s.count({v, w}) && !inverted) return true;
    if (!inverted && (summed(v) || summed(w))) { Asm t = s; if (eqSum(v, w, t, depth)) { t.insert({v, w}); s = t; return true; } }
    return eq1(v, w, s, inverted, depth);
  }
  bool eq1(const Value *v, const Value *w, Asm &s, bool inverted = false, int depth = 0) {
    if (depth > 400) return false;
    if (!inverted) if (s.count({v, w})) return true;
    if (auto *c = dyn_cast<Constant>(v)) {
      auto *d = dyn_cast<Constant>(w); if (!d) return false;
      if (auto *f = dyn_cast<Function>(c)) return isa<Function>(d) && name(f) == name(cast<Function>(d));
      if (isa<UndefValue>(c) || isa<UndefValue>(d)) return isa<UndefValue>(c) && isa<UndefValue>(d);
      if (inverted) return c->getType()->isIntegerTy(1) && d->getType()->isIntegerTy(1) && c != d;
      return c == d;
    }
    if (auto *a = dyn_cast<Argument>(v)) return !inverted && isa<Argument>(w) && a->getArgNo() == cast<Argument>(w)->getArgNo();
    auto *I = dyn_cast<Instruction>(v), *J = dyn_cast<Instruction>(w);
    if (!I || !J || I->getOpcode() != J->getOpcode() || I->getType() != J->getType() || I->getNumOperands() != J->getNumOperands()) return false;
    if (inverted && !isa<CmpInst>(I)) return false;
    if (auto *P = dyn_cast<PHINode>(I)) {
      auto *Q = cast<PHINode>(J); auto f = m.find(P->getParent());
      if (f == m.end() || f->second != Q->getParent() || P->getNumIncomingValues() != Q->getNumIncomingValues()) return false;
      Asm t = s; t.insert({P, Q});
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        int k = Q->getBasicBlockIndex(m[P->getIncomingBlock(i)]);
        if (k < 0 || !eq(P->getIncomingValue(i), Q->getIncomingValue(k), t, false, depth + 1)) return false;
      }
      s = t; return true;
    }
    if (auto *C = dyn_cast<ICmpInst>(I); C && C->getOperand(0)->getType()->isIntegerTy() && (C->isSigned() || C->isEquality())) {
      // the difference of the operands, in the forms < 0, <= 0, == 0 and their opposites
      auto *D = cast<ICmpInst>(J); auto q = inverted ? D->getInversePredicate() : D->getPredicate();
      if (D->getOperand(0)->getType()->isIntegerTy() && (ICmpInst::isSigned(q) || ICmpInst::isEquality(q))) {
        auto norm = [](CmpInst::Predicate p, const Value *a, const Value *b, Sum &r) { // difference compared with zero: below
          switch (p) {
          case CmpInst::ICMP_SLE: sum(a, 1, r); sum(b, -1, r); r.k -= 1; return 0;
          case CmpInst::ICMP_SLT: sum(a, 1, r); sum(b, -1, r); return 0;
          case CmpInst::ICMP_SGE: sum(a, -1, r); sum(b, 1, r); r.k -= 1; return 0;
          case CmpInst::ICMP_SGT: sum(a, -1, r); sum(b, 1, r); return 0;
          case CmpInst::ICMP_EQ: sum(a, 1, r); sum(b, -1, r); return 1;
          default: sum(a, 1, r); sum(b, -1, r); return 2;
          }
        };
        for (int neg = 0; neg < 2; neg++) {
          Sum a, b; int ka = norm(C->getPredicate(), C->getOperand(0), C->getOperand(1), a), kb = norm(q, D->getOperand(0), D->getOperand(1), b);
          if (ka != kb || neg && ka == 0) return false;
          if (neg) { b.k = -b.k; for (auto &x : b.t) x.second = -x.second; }
          Asm t = s; if (eqSums(a, b, t, depth)) { s = t; return true; }
        }
        return false;
      }
    }
    if (auto *C = dyn_cast<CmpInst>(I)) {
      auto *D = cast<CmpInst>(J); auto q = inverted ? D->getInversePredicate() : D->getPredicate();
      if (C->getPredicate() == q) { Asm t = s; if (eq(C->getOperand(0), D->getOperand(0), t, false, depth + 1) && eq(C->getOperand(1), D->getOperand(1), t, false, depth + 1)) { s = t; return true; } }
      if (C->getPredicate() == CmpInst::getSwappedPredicate(q)) { Asm t = s; if (eq(C->getOperand(0), D->getOperand(1), t, false, depth + 1) && eq(C->getOperand(1), D->getOperand(0), t, false, depth + 1)) { s = t; return true; } }
      return false;
    }
    if (isa<AllocaInst>(I)) { auto *a = cast<AllocaInst>(I), *b = cast<AllocaInst>(J); if (a->getAllocatedType() != b->getAllocatedType()) return false; for (auto &x : s) if (x.second == J || x.first == I) return false; s.insert({I, J}); return true; }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) if (G->getSourceElementType() != cast<GetElementPtrInst>(J)->getSourceElementType()) return false;
    if (auto *E = dyn_cast<CallBase>(I); E || isa<LoadInst>(I)) if (E && !E->onlyReadsMemory()) { // paired as an effect
      auto f = m.find(I->getParent()); if (f == m.end() || f->second != J->getParent()) return false;
      for (auto &x : s) if (x.second == J || x.first == I) return false;
      s.insert({I, J}); return true;
    }
    // operands in order, or exchanged
    { Asm t = s; bool ok = true; for (unsigned i = 0; ok && i < I->getNumOperands(); i++) ok = eq(I->getOperand(i), J->getOperand(i), t, false, depth + 1); if (ok) { t.insert({I, J}); s = t; return true; } }
    if (I->isCommutative() && I->getNumOperands() >= 2 && !isa<CallBase>(I)) { Asm t = s; if (eq(I->getOperand(0), J->getOperand(1), t, false, depth + 1) && eq(I->getOperand(1), J->getOperand(0), t, false, depth + 1)) { t.insert({I, J}); s = t; return true; } }
    return false;
  }
  static bool effect(const Instruction &I) { if (isa<StoreInst>(I) || isa<ReturnInst>(I)) return true; if (auto *C = dyn_cast<CallBase>(&I)) return !C->onlyReadsMemory(); return false; }
  bool run() {
    if (!structure()) return false;
    Asm s;
    for (auto &F : A) { // conditions and effects, block by block in order
      auto f = m.find(&F); if (f == m.end()) continue;
      pairs++;
      std::vector<const Instruction *> x, y;
      for (auto &I : F) if (effect(I)) x.push_back(&I);
      for (auto &I : *f->second) if (effect(I)) y.push_back(&I);
      for (size_t i = 0; i < x.size(); i++) {
        bool ok = false;
        for (size_t j = 0; !ok && j < y.size(); j++) {
          if (!y[j] || y[j]->getOpcode() != x[i]->getOpcode() || y[j]->getNumOperands() != x[i]->getNumOperands()) { if (y[j] && !isa<StoreInst>(y[j])) break; continue; }
          Asm t = s; ok = true;
          if (isa<CallBase>(x[i])) { for (auto &q : t) if ((q.first == x[i]) != (q.second == y[j])) ok = false; t.insert({x[i], y[j]}); }
          for (unsigned k = 0; ok && k < x[i]->getNumOperands(); k++) ok = eq(x[i]->getOperand(k), y[j]->getOperand(k), t);
          if (ok) { s = t; y[j] = nullptr; } else if (!isa<StoreInst>(y[j])) break;
        }
        if (!ok) return fail(x[i], i < y.size() && y[i] ? y[i] : nullptr, "what is stored, passed on or returned differs");
        pairs++;
      }
      for (auto *j : y) if (j) return fail(F.getTerminator(), j, "something more is stored");
      auto *t = F.getTerminator(); const Value *c = nullptr, *d = nullptr;
      if (auto *b = dyn_cast<BranchInst>(t)) { if (b->isConditional()) { c = b->getCondition(); d = cast<BranchInst>(f->second->getTerminator())->getCondition(); } }
      else if (auto *w = dyn_cast<SwitchInst>(t)) { c = w->getCondition(); d = cast<SwitchInst>(f->second->getTerminator())->getCondition(); }
      if (c && !eq(c, d, s, inv.count(&F))) return fail(t, f->second->getTerminator(), "a condition differs");
    }
    return true;
  }

  // ---- When the two are not equal: are they the same program but for single operands? Only then is it certain
  // that they compute different things; two differently written versions are left undecided.
  struct Leaf { const Instruction *a, *b; Str what; };
  std::map<std::pair<const Value *, const Value *>, Leaf> leaves; // by the pair of users
  std::map<std::pair<const Value *, const Value *>, bool> seen;
  std::map<const Value *, bool> paired;
  int budget = 20000; bool others = true; // others: another variable in one place counts as a single difference
  bool counterpart(const Value *v, bool ofA) {
    if (isa<Constant>(v) || isa<Argument>(v)) return true;
    auto it = paired.find(v); if (it != paired.end()) return it->second;
    bool ok = false; Function &O = ofA ? B : A;
    for (auto &I : instructions(O)) if (I.getType() == v->getType()) { Asm t; if (budget-- < 0) break; if (ofA ? eq(v, &I, t) : eq(&I, v, t)) { ok = true; break; } }
    return paired[v] = ok;
  }
  bool leaf(const Value *v, const Value *w, const Instruction *ua, const Instruction *ub, const Str &what) {
    leaves.insert({{v, w}, Leaf{ua, ub, what}}); return true;
  }
  static bool atom(const Value *v) { return isa<Argument>(v) || isa<Constant>(v) || isa<LoadInst>(v) || isa<PHINode>(v) || isa<AllocaInst>(v); }
  // ua, ub: the instructions using v and w
  bool diff(const Value *v, const Value *w, const Instruction *ua, const Instruction *ub, int depth = 0) {
    if (depth > 60 || v->getType() != w->getType()) return false;
    if (seen.count({v, w})) return seen[{v, w}];
    { Asm t; if (eq(v, w, t)) return true; }
    seen[{v, w}] = true; // assumed within cycles
    if (isa<UndefValue>(v) != isa<UndefValue>(w)) return seen[{v, w}] = leaf(v, w, ua, ub, isa<UndefValue>(w) ? "a value is used that was never set" : "the other version uses a value that was never set");
    auto save = leaves; bool ok = diff1(v, w, ua, ub, depth);
    if (!ok) {
      leaves = save;
      // another value that the other version has as well
      auto plainValue = [](const Value *x) { return atom(x) || x->getType()->isFloatingPointTy() && (isa<BinaryOperator>(x) || isa<CastInst>(x)); };
      if (others && plainValue(v) && plainValue(w) && counterpart(v, true) && counterpart(w, false) && !isa<UndefValue>(v) && !isa<UndefValue>(w)) ok = leaf(v, w, ua, ub, "another value is used");
      else for (int o = 0; !ok && o < 2; o++) { // carried from round to round in one version only
        auto *P = dyn_cast<PHINode>(o ? w : v); auto *x = o ? v : w; if (!P || isa<PHINode>(x)) continue;
        if (P->getNumIncomingValues() != 2) continue;
        DominatorTree DT(o ? B : A); bool carried = false;
        for (unsigned i = 0; i < 2; i++) {
          Asm t; if (!(o ? eq(x, P->getIncomingValue(i), t) : eq(P->getIncomingValue(i), x, t))) continue;
          // the equal one is there before; the other one is calculated
          carried = !DT.dominates(P->getParent(), P->getIncomingBlock(i)) && isa<Instruction>(P->getIncomingValue(1 - i)); break;
        }
        if (carried) ok = leaf(v, w, ua, ub, o ? "a value is replaced during the calculation" : "a value is not replaced during the calculation");
      }
    }
    return seen[{v, w}] = ok;
  }
  bool diff1(const Value *v, const Value *w, const Instruction *ua, const Instruction *ub, int depth) {
    if (isa<Constant>(v) && isa<Constant>(w)) {
      if (isa<UndefValue>(v) || isa<UndefValue>(w)) return false;
      return leaf(v, w, ua, ub, "another constant is used");
    }
    auto *I = dyn_cast<Instruction>(v), *J = dyn_cast<Instruction>(w);
    if (summed(v) || summed(w)) {
      if (I && J && I->getOpcode() == J->getOpcode() && I->getNumOperands() == J->getNumOperands() && (isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<GetElementPtrInst>(I))) {
        auto save = leaves; auto keep = seen; bool ok = true;
        for (unsigned i = 0; ok && i < I->getNumOperands(); i++) ok = diff(I->getOperand(i), J->getOperand(i), I, J, depth + 1);
        if (ok && leaves.size() <= save.size() + 1) return true;
        leaves = save; seen = keep;
      }
      Sum a, b; sum(v, 1, a); sum(w, 1, b); Asm s;
      for (auto *x : {&a, &b}) x->t.erase(std::remove_if(x->t.begin(), x->t.end(), [](auto &p) { return !p.second; }), x->t.end());
      for (size_t i = 0; i < a.t.size();) {
        bool hit = false;
        for (size_t j = 0; j < b.t.size(); j++) if (a.t[i].second == b.t[j].second && a.t[i].first->getType() == b.t[j].first->getType()) { Asm t; if (eq1(a.t[i].first, b.t[j].first, t)) { a.t.erase(a.t.begin() + i); b.t.erase(b.t.begin() + j); hit = true; break; } }
        if (!hit) i++;
      }
      auto *x = I ? I : ua, *y = J ? J : ub;
      if (a.t.empty() && b.t.empty()) return a.k != b.k && leaf(v, w, x, y, v->getType()->isPointerTy() ? "another position is used" : "another number is used");
      if (a.t.size() == 1 && b.t.size() == 1 && a.k == b.k && a.t[0].second == b.t[0].second && (a.t[0].first != v || b.t[0].first != w)) return diff(a.t[0].first, b.t[0].first, x, y, depth + 1);
      if (a.k == b.k && a.t.size() + b.t.size() == 1 && v->getType()->isPointerTy() == false) { auto *e = a.t.empty() ? b.t[0].first : a.t[0].first; if (counterpart(e, !a.t.empty()) && atom(e)) return leaf(v, w, x, y, "a part of the sum is missing"); }
      if (!I || !J || I->getOpcode() != J->getOpcode()) return false;
      if (isa<GetElementPtrInst>(I) || isa<BinaryOperator>(I) || isa<CastInst>(I)) return false;
    }
    if (!I || !J) return false;
    if (I->getOpcode() != J->getOpcode()) {
      if (isa<BinaryOperator>(I) && isa<BinaryOperator>(J) && v->getType()->isFloatingPointTy()) {
        Asm t; if (eq(I->getOperand(0), J->getOperand(0), t) && eq(I->getOperand(1), J->getOperand(1), t)) return leaf(v, w, I, J, "another operation is used");
        auto *c = dyn_cast<ConstantFP>(I->getOperand(1)), *d = dyn_cast<ConstantFP>(J->getOperand(1));
        bool mul = I->getOpcode() == Instruction::FMul && J->getOpcode() == Instruction::FDiv || I->getOpcode() == Instruction::FDiv && J->getOpcode() == Instruction::FMul;
        if (c && d && mul && std::abs(c->getValueAPF().convertToDouble() * d->getValueAPF().convertToDouble() - 1) > 1e-9) { Asm u; if (eq(I->getOperand(0), J->getOperand(0), u)) return leaf(v, w, I, J, "another constant is used"); }
      }
      return false;
    }
    if (I->getNumOperands() != J->getNumOperands()) return false;
    if (auto *P = dyn_cast<PHINode>(I)) {
      auto *Q = cast<PHINode>(J); auto f = m.find(P->getParent());
      if (f == m.end() || f->second != Q->getParent() || P->getNumIncomingValues() != Q->getNumIncomingValues()) return false;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        int k = Q->getBasicBlockIndex(m[P->getIncomingBlock(i)]);
        if (k < 0 || isa<UndefValue>(P->getIncomingValue(i)) != isa<UndefValue>(Q->getIncomingValue(k)) || !diff(P->getIncomingValue(i), Q->getIncomingValue(k), P->getIncomingBlock(i)->getTerminator(), Q->getIncomingBlock(k)->getTerminator(), depth + 1)) return false;
      }
      return true;
    }
    if (auto *C = dyn_cast<CmpInst>(I)) {
      auto *D = cast<CmpInst>(J);
      if (C->isEquality() != D->isEquality()) return false;
      if (isa<FCmpInst>(C) && C->getPredicate() != D->getPredicate() && (C->getUnorderedPredicate() == D->getUnorderedPredicate() || C->getUnorderedPredicate() == CmpInst::getSwappedPredicate(D->getUnorderedPredicate()))) return false; // differs only for what is not a number
      { Asm t; if (C->getPredicate() != D->getPredicate() && eq(C->getOperand(0), D->getOperand(0), t) && eq(C->getOperand(1), D->getOperand(1), t)) return leaf(v, w, I, J, "another comparison is used"); }
      if (C->getPredicate() == CmpInst::getSwappedPredicate(D->getPredicate()) && C->getPredicate() != D->getPredicate()) return diff(C->getOperand(0), D->getOperand(1), I, J, depth + 1) && diff(C->getOperand(1), D->getOperand(0), I, J, depth + 1);
      if (C->getPredicate() != D->getPredicate() && C->getInversePredicate() != D->getPredicate()) return false;
      return diff(C->getOperand(0), D->getOperand(0), I, J, depth + 1) && diff(C->getOperand(1), D->getOperand(1), I, J, depth + 1);
    }
    if (auto *E = dyn_cast<CallBase>(I)) {
      auto f = m.find(I->getParent()); if (f == m.end() || f->second != J->getParent()) return false;
      if (!E->getCalledFunction() || !cast<CallBase>(J)->getCalledFunction() || name(E->getCalledFunction()) != name(cast<CallBase>(J)->getCalledFunction())) return false;
    } else if (!isa<LoadInst>(I) && !isa<BinaryOperator>(I) && !isa<CastInst>(I) && !isa<UnaryOperator>(I) && !isa<SelectInst>(I)) return false;
    auto save = leaves; auto keep = seen; bool best = true;
    for (unsigned i = 0; best && i < I->getNumOperands(); i++) best = diff(I->getOperand(i), J->getOperand(i), I, J, depth + 1);
    if (I->isCommutative() && I->getNumOperands() == 2 && (!best || leaves.size() > save.size() + 1)) {
      auto l1 = leaves; auto s1 = seen; leaves = save; seen = keep;
      bool o = diff(I->getOperand(0), J->getOperand(1), I, J, depth + 1) && diff(I->getOperand(1), J->getOperand(0), I, J, depth + 1);
      if (o && (!best || leaves.size() < l1.size())) best = true; else { leaves = l1; seen = s1; }
    }
    return best;
  }
  // true: the same program but for the operands in "leaves"
  bool local() { return local1(1) || local1(2); }
  bool local1(int mode) {
    tolerant = mode; m.clear(); back.clear(); inv.clear(); why.clear(); leaves.clear(); seen.clear(); paired.clear();
    if (!structure()) return false;
    int extra = 0; Asm s;
    for (auto &F : A) {
      auto f = m.find(&F); if (f == m.end()) continue;
      std::vector<const Instruction *> x, y;
      for (auto &I : F) if (effect(I)) x.push_back(&I);
      for (auto &I : *f->second) if (effect(I)) y.push_back(&I);
      // the equal ones first
      for (auto *&i : x) for (auto *&j : y) if (i && j && i->getOpcode() == j->getOpcode() && i->getNumOperands() == j->getNumOperands()) {
        Asm t; bool ok = true; for (unsigned k = 0; ok && k < i->getNumOperands(); k++) ok = eq(i->getOperand(k), j->getOperand(k), t);
        if (ok) { i = nullptr; j = nullptr; }
      }
      x.erase(std::remove(x.begin(), x.end(), nullptr), x.end()); y.erase(std::remove(y.begin(), y.end(), nullptr), y.end());
      if (x.size() + y.size() > 0 && (x.empty() || y.empty())) { if (++extra > 1) return false; auto *e = x.empty() ? y.back() : x.back(); if (!isa<StoreInst>(e)) return false; leaf(e, F.getTerminator(), x.empty() ? nullptr : e, x.empty() ? e : f->second->getTerminator(), x.empty() ? "something more is stored" : "something is not stored"); continue; }
      if (x.size() != y.size()) return false;
      for (size_t i = 0; i < x.size(); i++) {
        if (x[i]->getOpcode() != y[i]->getOpcode() || x[i]->getNumOperands() != y[i]->getNumOperands()) return false;
        if (auto *C = dyn_cast<CallBase>(x[i])) if (C->getCalledFunction() && cast<CallBase>(y[i])->getCalledFunction() && name(C->getCalledFunction()) != name(cast<CallBase>(y[i])->getCalledFunction())) return false;
        for (unsigned k = 0; k < x[i]->getNumOperands(); k++) if (!isa<Function>(x[i]->getOperand(k)) && !diff(x[i]->getOperand(k), y[i]->getOperand(k), x[i], y[i])) return false;
      }
      auto *t = F.getTerminator(); const Value *c = nullptr, *d = nullptr;
      if (auto *b = dyn_cast<BranchInst>(t)) { if (b->isConditional()) { c = b->getCondition(); d = cast<BranchInst>(f->second->getTerminator())->getCondition(); } }
      else if (auto *w = dyn_cast<SwitchInst>(t)) { c = w->getCondition(); d = cast<SwitchInst>(f->second->getTerminator())->getCondition(); }
      if (!c) continue;
      if (inv.count(&F)) { Asm q; if (eq(c, d, q, true)) continue; auto *C = dyn_cast<CmpInst>(c), *D = dyn_cast<CmpInst>(d); if (!C || !D) return false;
        if (!diff(C->getOperand(0), D->getOperand(C->getPredicate() == D->getInversePredicate() ? 0 : 1), C, D) || !diff(C->getOperand(1), D->getOperand(C->getPredicate() == D->getInversePredicate() ? 1 : 0), C, D)) return false; continue; }
      if (!diff(c, d, t, f->second->getTerminator())) return false;
    }
    // one place only
    std::set<const Value *> carried; std::set<Str> la, lb; int n = 0;
    for (auto &l : leaves) {
      if (StringRef(l.second.what).contains("during the calculation")) { carried.insert(isa<PHINode>(l.first.first) ? l.first.second : l.first.first); continue; }
      n++;
      la.insert(l.second.a && l.second.a->getDebugLoc() ? locStr(l.second.a->getDebugLoc()) : Str()); lb.insert(l.second.b && l.second.b->getDebugLoc() ? locStr(l.second.b->getDebugLoc()) : Str());
    }
    if (leaves.empty() || n && !carried.empty() || carried.size() > 1) return false;
    return n <= 1 || n <= 4 && (la.size() == 1 || lb.size() == 1);
  }
};
}
void checkFloatForms(Ctx &cx) {
  auto ind = collectIndicators(cx);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; FAM.registerPass([&] { return PB.buildDefaultAAPipeline(); }); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  Str pipe = getenv("EQPIPE") ? getenv("EQPIPE") : "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce";
  if (auto E = PB.parsePassPipeline(FPM, pipe)) { errs() << "talint: pipeline\n"; exit(3); }
  MDNode *fp = nullptr;
  for (auto &F : *cx.M) { for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isDoubleTy()) if (auto *m = L->getMetadata(LLVMContext::MD_tbaa)) if (m->getNumOperands() > 1 && m->getOperand(0) == m->getOperand(1)) { fp = m; break; } if (fp) break; }
  // counterpart names: TA_S_X is TA_X
  auto canon = [](const Function *F) { Str n = F->getName().str(); if (StringRef(n).starts_with("TA_S_")) n = "TA_" + n.substr(5); return n; };
  for (auto &e : ind) {
    if (!e.second.count(K_Batch) || !e.second.count(K_Float)) continue;
    if (getenv("EQONLY") && e.first != getenv("EQONLY")) continue;
    Function *A = e.second[K_Batch], *B = e.second[K_Float];
    cx.count("calculations");
    auto prepare = [&](Function *F) { copies(*F); FPM.run(*F, FAM); };
    for (auto &I : instructions(*B)) {
      if (isa<FPTruncInst>(I) && I.getType()->isFloatTy()) { cx.viol("precision", B, I.getDebugLoc(), e.first, "a double precision result is cut down to single precision"); break; }
      cx.count("widened", isa<FPExtInst>(I));
    }
    plain(*A); plain(*B); widen(*B); tag(*A, fp); tag(*B, fp);
    ValueToValueMapTy va, vb; Function *A0 = CloneFunction(A, va), *B0 = CloneFunction(B, vb);
    prepare(B); for (int n = 0; n < 4 && apart(*B, -1, -1); n++) prepare(B); counters(*B, FAM);
    cx.count("instructions", A->getInstructionCount() + B->getInstructionCount());
    // which arrays the double precision version finds to be the same: none, or one input with one output
    std::vector<std::pair<int, int>> same{{-1, -1}};
    { auto ps = paramInfo(A); for (unsigned i = 0; i < A->arg_size() && i < ps.size(); i++) for (unsigned j = 0; j < A->arg_size() && j < ps.size(); j++) if (StringRef(ps[i].first).starts_with("in") && StringRef(ps[j].first).starts_with("outReal") && A->getArg(i)->getType()->isPointerTy()) same.push_back({i, j}); }
    bool ok = false; Str why; DebugLoc at, bt; bool local = false; std::vector<std::pair<DebugLoc, Str>> where;
    for (auto &x : same) {
      ValueToValueMapTy vm; Function *C = CloneFunction(A, vm);
      bool any = apart(*C, x.first, x.second); prepare(C); for (int n = 0; any && n < 4 && apart(*C, x.first, x.second); n++) prepare(C); counters(*C, FAM);
      if (getenv("EQDUMP")) { errs() << *C << *B; }
      Lock L{*C, *B, canon}; 
      if (L.run()) { ok = true; cx.count("blocks", L.m.size()); cx.count("values_compared", L.pairs); if (x.first >= 0) cx.count("equal_in_place"); }
      if (!ok && why.empty()) { why = L.why; at = L.at ? L.at->getDebugLoc() : DebugLoc(); bt = L.bt ? L.bt->getDebugLoc() : DebugLoc(); }
      FAM.clear(*C, C->getName()); C->eraseFromParent();
      if (ok || !any) break;
    }
    // not equal: the same program but for one place? Compared as little transformed as possible.
    for (const char *light : {"sroa", "sroa,instsimplify,simplifycfg,adce", ""}) for (auto &x : same) {
      if (ok || local) break;
      FunctionPassManager LP; if (auto E = PB.parsePassPipeline(LP, *light ? Str(light) : pipe)) exit(3);
      ValueToValueMapTy wa, wb; Function *C = CloneFunction(A0, wa), *D = CloneFunction(B0, wb);
      for (auto *F : {C, D}) { copies(*F); LP.run(*F, FAM); for (int n = 0; n < 4 && apart(*F, F == C ? x.first : -1, F == C ? x.second : -1); n++) { copies(*F); LP.run(*F, FAM); if (Str(light) == "sroa") break; } counters(*F, FAM); }
      { Lock L{*C, *D, canon}; if (L.run()) { ok = true; cx.count("blocks", L.m.size()); cx.count("values_compared", L.pairs); if (x.first >= 0) cx.count("equal_in_place"); } }
      Lock N{*C, *D, canon}; N.others = *light; if (!ok) local = N.local();
      if (getenv("EQDBG")) { errs() << e.first << ": " << why << (local ? " local" : " undecided") << " " << N.leaves.size() << " leaves " << N.why << "\n"; if (getenv("EQDUMP2")) errs() << *C << *D;
        for (auto &l : N.leaves) errs() << "   " << *l.first.first << " / " << *l.first.second << " " << l.second.what << "\n"; }
      if (local) { where.clear(); for (auto &l : N.leaves) where.push_back({l.second.b ? l.second.b->getDebugLoc() : DebugLoc(), l.second.what + (l.second.a && l.second.a->getDebugLoc() ? " (" + locStr(l.second.a->getDebugLoc()) + ")" : Str())}); }
      for (auto *F : {C, D}) { FAM.clear(*F, F->getName()); F->eraseFromParent(); }
    }
    for (auto *F : {A0, B0}) F->eraseFromParent();
    if (ok) { cx.count("equal"); continue; }
    if (!local) { cx.lists["undecided"].insert(e.first + ": " + why); cx.count("undecided"); continue; }
    for (auto &w : where) cx.viol("differs", B, w.first ? w.first : bt, e.first, "the single precision version differs from the double precision one: " + w.second);
  }
}
