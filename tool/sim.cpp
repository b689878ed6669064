#include "sim.h"
#include "llvm/IR/ConstantRange.h"

static Str condKey(AP &ap, const ICmpInst *IC, bool &neg) {
  auto P = IC->getPredicate();
  Str a = ap.of(IC->getOperand(0)), b = ap.of(IC->getOperand(1));
  neg = false;
  switch (P) {
  case ICmpInst::ICMP_NE: neg = true; P = ICmpInst::ICMP_EQ; break;
  case ICmpInst::ICMP_SGE: neg = true; P = ICmpInst::ICMP_SLT; break;
  case ICmpInst::ICMP_SLE: neg = true; P = ICmpInst::ICMP_SGT; break;
  case ICmpInst::ICMP_UGE: neg = true; P = ICmpInst::ICMP_ULT; break;
  case ICmpInst::ICMP_ULE: neg = true; P = ICmpInst::ICMP_UGT; break;
  default: break;
  }
  if (P == ICmpInst::ICMP_EQ && b < a) std::swap(a, b);
  if (P == ICmpInst::ICMP_SGT) { std::swap(a, b); P = ICmpInst::ICMP_SLT; }
  if (P == ICmpInst::ICMP_UGT) { std::swap(a, b); P = ICmpInst::ICMP_ULT; }
  return CmpInst::getPredicateName(P).str() + ":" + a + "," + b;
}

void Sim::prep() {
  // phis relevant to control decisions, returned values, calls and stores of pointers
  SmallVector<const Value *, 32> wl;
  std::set<const Value *> seen;
  auto push = [&](const Value *V) { if (seen.insert(V).second) wl.push_back(V); };
  for (auto &I : instructions(F)) {
    if (auto *R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue()) push(R->getReturnValue()); }
    else if (auto *B = dyn_cast<BranchInst>(&I)) { if (B->isConditional()) push(B->getCondition()); }
    else if (auto *SW = dyn_cast<SwitchInst>(&I)) push(SW->getCondition());
    else if (auto *C = dyn_cast<CallBase>(&I)) { for (auto &A : C->args()) if (A->getType()->isPointerTy()) push(A); }
    else if (auto *L = dyn_cast<LoadInst>(&I)) push(L->getPointerOperand());
    else if (auto *St = dyn_cast<StoreInst>(&I)) { push(St->getPointerOperand()); if (St->getValueOperand()->getType()->isPointerTy() || St->getValueOperand()->getType()->isFloatingPointTy()) push(St->getValueOperand()); }
  }
  while (!wl.empty()) {
    const Value *V = wl.pop_back_val();
    if (V->getType()->isFloatingPointTy()) {
      // an option replaced by its default: phi over arguments and constants
      if (auto *P = dyn_cast<PHINode>(V)) {
        bool simple = true;
        for (auto &In : P->incoming_values()) if (!isa<Argument>(In) && !isa<Constant>(In) && !isa<PHINode>(In)) simple = false;
        if (simple) { relevant.insert(P); for (auto &In : P->incoming_values()) push(In); }
      } else if (auto *L = dyn_cast<FCmpInst>(V)) for (auto &O : L->operands()) push(O);
      continue;
    }
    if (auto *P = dyn_cast<PHINode>(V)) {
      relevant.insert(P);
      for (auto &In : P->incoming_values()) push(In);
    } else if (isa<CastInst>(V) || isa<CmpInst>(V) || isa<GetElementPtrInst>(V) || isa<FreezeInst>(V) || isa<SelectInst>(V)) {
      for (auto &O : cast<Instruction>(V)->operands()) push(O);
    }
  }
  // Only phis that can carry distinguishable values: drop loop counters (a phi
  // depending on itself through arithmetic) since they never resolve to a root.
  std::map<Str, int> n;
  for (auto &B : F)
    if (auto *BI = dyn_cast<BranchInst>(B.getTerminator()))
      if (BI->isConditional())
        if (auto *IC = dyn_cast<ICmpInst>(BI->getCondition())) {
          bool neg;
          n[condKey(ap, IC, neg)]++;
        }
  for (auto &k : n)
    if (k.second > 1) interesting.insert(k.first);
}

static bool tokenIn(const Str &s, const Str &t) {
  size_t p = 0;
  while ((p = s.find(t, p)) != Str::npos) {
    size_t e = p + t.size();
    bool lb = p == 0 || !isalnum((unsigned char)s[p - 1]);
    bool rb = e >= s.size() || !isalnum((unsigned char)s[e]);
    if (lb && rb) return true;
    p = e;
  }
  return false;
}
void Sim::killFacts(SimState &S, Instruction *I) {
  if (S.facts.empty()) return;
  if (auto *SI = dyn_cast<StoreInst>(I)) {
    Str a = "*(" + key(S, SI->getPointerOperand()) + ")";
    for (auto it = S.facts.begin(); it != S.facts.end();)
      if (it->first.find(a) != Str::npos) it = S.facts.erase(it); else ++it;
    return;
  }
  if (isa<CallInst>(I) || isa<PHINode>(I)) {
    Str t = (isa<PHINode>(I) ? "p" : "c") + std::to_string(ap.id(I));
    Str t2 = "v" + std::to_string(ap.id(I));
    for (auto it = S.facts.begin(); it != S.facts.end();)
      if (tokenIn(it->first, t) || tokenIn(it->first, t2)) it = S.facts.erase(it); else ++it;
    if (auto *C = dyn_cast<CallInst>(I)) {
      // a call may write memory reachable from pointer arguments
      for (auto &A : C->args())
        if (A->getType()->isPointerTy() && !C->onlyReadsMemory()) {
          Str a = "*(" + key(S, A);
          for (auto it = S.facts.begin(); it != S.facts.end();)
            if (it->first.find(a) != Str::npos) it = S.facts.erase(it); else ++it;
        }
    }
  }
}

int Sim::evalCond(const SimState &S, const Value *C) {
  C = resolve(S, C);
  if (auto *CI = dyn_cast<ConstantInt>(C)) return !CI->isZero();
  if (auto *IC = dyn_cast<ICmpInst>(C)) {
    const Value *a = resolve(S, IC->getOperand(0)), *b = resolve(S, IC->getOperand(1));
    while (auto *c = dyn_cast<CastInst>(a)) { if (!isa<ZExtInst>(c) && !isa<SExtInst>(c)) break; const Value *n = resolve(S, c->getOperand(0)); if (isa<ConstantInt>(n)) { a = n; break; } 
      if (n->getType()->isIntegerTy(1)) { // zext of a condition
        int t = evalCond(S, n);
        if (t >= 0) if (auto *bc = dyn_cast<ConstantInt>(b)) {
          int64_t x = t, y = bc->getSExtValue();
          if (IC->getPredicate() == ICmpInst::ICMP_NE) return x != y;
          if (IC->getPredicate() == ICmpInst::ICMP_EQ) return x == y;
        }
      }
      break; }
    auto *ac = dyn_cast<ConstantInt>(a), *bc = dyn_cast<ConstantInt>(b);
    if (ac && bc && ac->getBitWidth() <= 64 && bc->getBitWidth() <= 64) {
      unsigned w = std::max(ac->getBitWidth(), bc->getBitWidth());
      return ICmpInst::compare(ac->getValue().sext(w), bc->getValue().sext(w), IC->getPredicate());
    }
    if (isa<ConstantPointerNull>(a) && isa<ConstantPointerNull>(b)) {
      if (IC->getPredicate() == ICmpInst::ICMP_EQ) return 1;
      if (IC->getPredicate() == ICmpInst::ICMP_NE) return 0;
    }
    if (!S.facts.empty()) {
      ap.env = &S.env;
      bool neg; Str k = condKey(ap, IC, neg);
      ap.env = nullptr;
      auto it = S.facts.find(k);
      if (it != S.facts.end()) return it->second ^ neg;
    }
  }
  if (auto *FC = dyn_cast<FCmpInst>(C)) {
    auto *a = dyn_cast<ConstantFP>(resolve(S, FC->getOperand(0))), *b = dyn_cast<ConstantFP>(resolve(S, FC->getOperand(1)));
    if (a && b && a->getType() == b->getType()) return FCmpInst::compare(a->getValueAPF(), b->getValueAPF(), FC->getPredicate());
  }
  if (auto *B = dyn_cast<BinaryOperator>(C))
    if (B->getOpcode() == Instruction::Xor && C->getType()->isIntegerTy(1))
      if (auto *c1 = dyn_cast<ConstantInt>(B->getOperand(1)); c1 && c1->isOne()) {
        int t = evalCond(S, B->getOperand(0));
        return t < 0 ? t : !t;
      }
  return -1;
}

static void literal(Sim &sim, SimState &S, const Value *C, bool truth, Instruction *T, int depth = 0) {
  C = resolve(S, C);
  if (depth > 6) return;
  if (auto *IC = dyn_cast<ICmpInst>(C)) {
    auto P = truth ? IC->getPredicate() : IC->getInversePredicate();
    const Value *a = resolve(S, IC->getOperand(0)), *b = resolve(S, IC->getOperand(1));
    // (zext cond) != 0
    const Value *z = a;
    while (isa<ZExtInst>(z) || isa<SExtInst>(z)) z = resolve(S, cast<CastInst>(z)->getOperand(0));
    if (z->getType()->isIntegerTy(1) && z != a)
      if (auto *bc = dyn_cast<ConstantInt>(b); bc && bc->isZero() && IC->isEquality()) {
        literal(sim, S, z, P == ICmpInst::ICMP_NE, T, depth + 1);
      }
    {
      sim.ap.env = &S.env;
      bool neg; Str k = condKey(sim.ap, IC, neg);
      sim.ap.env = nullptr;
      if (sim.interesting.count(k)) S.facts[k] = truth ^ neg;
    }
    if (sim.onLit) sim.onLit(S, P, a, b, T);
    return;
  }
  if (auto *FC = dyn_cast<FCmpInst>(C)) {
    if (sim.onFLit) sim.onFLit(S, truth ? FC->getPredicate() : FC->getInversePredicate(), resolve(S, FC->getOperand(0)), resolve(S, FC->getOperand(1)), T);
    return;
  }
  if (auto *B = dyn_cast<BinaryOperator>(C)) {
    if (B->getOpcode() == Instruction::Xor)
      if (auto *c1 = dyn_cast<ConstantInt>(B->getOperand(1)); c1 && c1->isOne())
        return literal(sim, S, B->getOperand(0), !truth, T, depth + 1);
    if (B->getOpcode() == Instruction::And && truth) {
      literal(sim, S, B->getOperand(0), true, T, depth + 1);
      literal(sim, S, B->getOperand(1), true, T, depth + 1);
    }
    if (B->getOpcode() == Instruction::Or && !truth) {
      literal(sim, S, B->getOperand(0), false, T, depth + 1);
      literal(sim, S, B->getOperand(1), false, T, depth + 1);
    }
  }
  if (auto *SL = dyn_cast<SelectInst>(C); SL && C->getType()->isIntegerTy(1)) {
    // a && b  == select a, b, false ; a || b == select a, true, b
    if (auto *f = dyn_cast<ConstantInt>(SL->getFalseValue()); f && f->isZero() && truth) {
      literal(sim, S, SL->getCondition(), true, T, depth + 1);
      literal(sim, S, SL->getTrueValue(), true, T, depth + 1);
    }
    if (auto *t = dyn_cast<ConstantInt>(SL->getTrueValue()); t && t->isOne() && !truth) {
      literal(sim, S, SL->getCondition(), false, T, depth + 1);
      literal(sim, S, SL->getFalseValue(), false, T, depth + 1);
    }
  }
}

bool Sim::edge(SimState &S, BasicBlock *from, BasicBlock *to, const Value *cond, bool truth, Instruction *T) {
  if (cond) {
    int t = evalCond(S, cond);
    if (t >= 0 && (t != 0) != truth) return false;
    literal(*this, S, cond, truth, T);
    if (S.q.count("!dead")) return false;
  }
  // phi updates, simultaneous
  std::vector<std::pair<const Value *, const Value *>> upd;
  for (auto &P : to->phis()) {
    if (!relevant.count(&P) || !wantPhi(&P)) continue;
    const Value *V = resolve(S, P.getIncomingValueForBlock(from));
    if (V == &P) continue;
    // keep only values that are themselves roots (constants, calls, args, loads)
    upd.push_back({&P, V});
  }
  for (auto &P : to->phis()) { S.env.erase(&P); killFacts(S, &P); }
  for (auto &u : upd) {
    // do not let a chain refer to an instruction that depends on this phi (loop-carried)
    const Value *V = u.second->stripPointerCasts();
    bool root = isa<Constant>(V) || isa<Argument>(V) || isa<CallInst>(V) || isa<LoadInst>(V) || isa<AllocaInst>(V) || isa<CmpInst>(V) || (isa<BinaryOperator>(V) && cast<BinaryOperator>(V)->getOpcode() == Instruction::Or);
    if (auto *C = dyn_cast<CastInst>(u.second)) { const Value *o = resolve(S, C->getOperand(0)); root = isa<Constant>(o) || isa<Argument>(o) || isa<CallInst>(o) || isa<LoadInst>(o) || isa<CmpInst>(o); }
    if (root) S.env[u.first] = u.second;
  }
  return true;
}

void Sim::run(SimState init) {
  std::map<BasicBlock *, std::set<SimState>> in;
  std::deque<std::pair<BasicBlock *, SimState>> wl;
  auto add = [&](BasicBlock *B, SimState &&S) {
    if (in[B].insert(S).second) wl.push_back({B, std::move(S)});
  };
  add(&F.getEntryBlock(), std::move(init));
  while (!wl.empty()) {
    if (++explored > maxStates) { overflow = true; return; }
    auto [B, S] = std::move(wl.front());
    wl.pop_front();
    bool alive = true;
    for (auto &I : *B) {
      if (I.isTerminator()) break;
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (!isa<PHINode>(&I)) killFacts(S, &I);
      if (onInst && !onInst(S, &I)) { alive = false; break; }
    }
    if (!alive) continue;
    Instruction *T = B->getTerminator();
    if (auto *R = dyn_cast<ReturnInst>(T)) {
      if (onRet) onRet(S, R, R->getReturnValue() ? resolve(S, R->getReturnValue()) : nullptr);
    } else if (auto *BI = dyn_cast<BranchInst>(T)) {
      if (BI->isUnconditional()) {
        SimState N = S;
        if (edge(N, B, BI->getSuccessor(0), nullptr, true, T)) add(BI->getSuccessor(0), std::move(N));
      } else {
        for (int i = 0; i < 2; i++) {
          SimState N = S;
          if (edge(N, B, BI->getSuccessor(i), BI->getCondition(), i == 0, T)) add(BI->getSuccessor(i), std::move(N));
        }
      }
    } else if (auto *SW = dyn_cast<SwitchInst>(T)) {
      const Value *C = resolve(S, SW->getCondition());
      auto *CC = dyn_cast<ConstantInt>(C);
      for (auto c : SW->cases()) {
        if (CC && CC->getValue() != c.getCaseValue()->getValue()) continue;
        SimState N = S;
        if (onLit) onLit(N, ICmpInst::ICMP_EQ, C, c.getCaseValue(), T);
        if (N.q.count("!dead")) continue;
        if (edge(N, B, c.getCaseSuccessor(), nullptr, true, T)) add(c.getCaseSuccessor(), std::move(N));
      }
      bool hit = false;
      if (CC) for (auto c : SW->cases()) if (CC->getValue() == c.getCaseValue()->getValue()) hit = true;
      if (!hit) {
        SimState N = S;
        if (onLit) for (auto c : SW->cases()) onLit(N, ICmpInst::ICMP_NE, C, c.getCaseValue(), T);
        if (!N.q.count("!dead"))
          if (edge(N, B, SW->getDefaultDest(), nullptr, true, T)) add(SW->getDefaultDest(), std::move(N));
      }
    }
  }
}
