#pragma once
#include "common.h"
#include <deque>

struct Sim {
  Function &F;
  AP ap;
  // phis worth resolving path-sensitively (integers and pointers)
  std::function<bool(const PHINode *)> wantPhi = [](const PHINode *) { return true; };
  // return false to stop exploring this path
  std::function<bool(SimState &, Instruction *)> onInst;
  // called for a conditional edge with a literal (pred, lhs, rhs) that holds on it
  std::function<void(SimState &, ICmpInst::Predicate, const Value *, const Value *, Instruction *)> onLit;
  // the same for floating-point comparisons (NaN ignored on the negated edge)
  std::function<void(SimState &, FCmpInst::Predicate, const Value *, const Value *, Instruction *)> onFLit;
  std::function<void(SimState &, ReturnInst *, const Value *)> onRet;
  size_t maxStates = 200000;
  size_t explored = 0;
  bool overflow = false;
  std::set<Str> interesting; // condition keys evaluated more than once
  Sim(Function &f) : F(f), ap(&f) { prep(); }
  void prep();
  void run(SimState init);
  Str key(const SimState &S, const Value *V) {
    ap.env = &S.env;
    Str s = ap.of(V);
    ap.env = nullptr;
    return s;
  }
  bool edge(SimState &S, BasicBlock *from, BasicBlock *to, const Value *cond, bool truth, Instruction *T);
  // truth of a condition in state S: -1 unknown
  int evalCond(const SimState &S, const Value *C);
  std::set<const PHINode *> relevant;
private:
  void killFacts(SimState &S, Instruction *I);
};
