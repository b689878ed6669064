#include "sim.h"

static const Value *strip(const Value *V) {
  while (true) {
    V = V->stripPointerCasts();
    if (auto *C = dyn_cast<CastInst>(V)) { V = C->getOperand(0); continue; }
    return V;
  }
}
static const Value *stripR(const SimState &S, const Value *V) {
  for (int i = 0; i < 32; i++) {
    const Value *n = strip(resolve(S, V));
    if (n == V) break;
    V = n;
  }
  return V;
}

// offset of the lookback pointer inside the function definition record
static bool isLookbackSlot(Ctx &cx, CallInst *C) {
  auto *D = findStructOrTypedef(*cx.M, "TA_FuncDef");
  if (!D) { errs() << "talint: TA_FuncDef not found\n"; exit(3); }
  int64_t off = -1;
  for (auto &f : structFields(D)) if (f.name == "lookback") off = f.off;
  // the pointer may have travelled through a phi or select
  std::vector<const Value *> wl{C->getCalledOperand()};
  std::set<const Value *> seen;
  bool any = false, all = true;
  while (!wl.empty()) {
    const Value *V = wl.back()->stripPointerCasts(); wl.pop_back();
    if (!seen.insert(V).second) continue;
    if (isa<UndefValue>(V) || isa<ConstantPointerNull>(V)) continue;
    if (auto *P = dyn_cast<PHINode>(V)) { for (auto &u : P->incoming_values()) wl.push_back(u); continue; }
    if (auto *L = dyn_cast<LoadInst>(V)) {
      APInt o(64, 0);
      L->getPointerOperand()->stripAndAccumulateConstantOffsets(cx.dl(), o, true);
      any = true;
      if (o.getSExtValue() != off) all = false;
    } else all = false;
  }
  return any && all;
}

// All calls OR-ed together in V (the "ret1 | ret2" idiom), empty when V is not one.
static void orLeaves(const SimState &S, const Value *V, std::set<const Value *> &out, bool top = true) {
  V = stripR(S, V);
  if (auto *B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::Or) {
    orLeaves(S, B->getOperand(0), out, false);
    orLeaves(S, B->getOperand(1), out, false);
  } else if (!top) out.insert(V);
}

static bool parseStateFn(const Function *G, Str &X, Str &op);
// The call cannot fail: every exit of the callee reachable under its constant
// arguments returns success; or it releases a stream through a handle that is not NULL
// (release functions fail on a NULL handle only - decided by the release property).
static bool cannotFail(Ctx &cx, CallInst *C) {
  Function *G = calleeOf(C);
  if (!G || G->isDeclaration()) return false;
  Str X, op;
  if (parseStateFn(G, X, op) && op == "StateFree" && C->arg_size() == 1) {
    const Value *a = C->getArgOperand(0)->stripPointerCasts();
    return isa<GEPOperator>(a) || isa<AllocaInst>(a);
  }
  if (G->arg_empty()) return false;
  for (auto &A : C->args()) if (!isa<ConstantInt>(A)) return false;
  Sim sim(*G);
  bool ok = true;
  sim.onRet = [&](SimState &S, ReturnInst *, const Value *rv) {
    auto *k = dyn_cast_or_null<ConstantInt>(rv ? stripR(S, rv) : nullptr);
    if (!k || !k->isZero()) ok = false;
  };
  SimState init;
  for (unsigned i = 0; i < C->arg_size() && i < G->arg_size(); i++) init.env[G->getArg(i)] = C->getArgOperand(i);
  sim.run(init);
  return ok && !sim.overflow;
}

// ---------------------------------------------------------------- error propagation
// Rule: for every call to a TA_RetCode function, no path on which the callee may have
// failed (result neither success nor, for streaming updates, "need more data") reaches
// a return of success, is overwritten, or is dropped.
void checkErrorPropagation(Ctx &cx) {
  enum { Z = 1, NM = 2, OTH = 4 };
  int64_t SUCC = rc("TA_SUCCESS"), NEED = rc("TA_NEED_MORE_DATA");
  for (auto &F : *cx.M) {
    if (F.isDeclaration()) continue;
    std::vector<CallInst *> calls;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallInst>(&I)) {
        Function *G = calleeOf(C);
        if (G && !G->isDeclaration() && returnsRetCode(G)) {
          if (cannotFail(cx, C)) cx.count("cannot_fail"); else calls.push_back(C);
        }
        // calls through the function table: every slot but the lookback returns a code
        if (!C->getCalledFunction() && !C->isInlineAsm() && C->getType()->isIntegerTy(32) && returnsRetCode(&F) &&
            !isLookbackSlot(cx, C)) calls.push_back(C);
      }
    cx.count("functions");
    if (calls.empty()) continue;
    cx.count("callers");
    cx.count("call_sites", calls.size());
    std::set<const Value *> cs(calls.begin(), calls.end());
    Sim sim(F);
    sim.wantPhi = [](const PHINode *P) { return !P->getType()->isFloatingPointTy(); };
    auto qn = [&](const Value *V) { return "r" + std::to_string(sim.ap.id(V)); };
    std::map<Str, CallInst *> byName;
    for (auto *c : calls) byName[qn(c)] = c;
    bool retc = returnsRetCode(&F) || F.getReturnType()->isIntegerTy(32);
    auto report = [&](CallInst *c, const Str &how, const Str &where) {
      Function *G = calleeOf(c);
      Str cn = G ? G->getName().str() : "(function pointer)";
      cx.viol("error-dropped", &F, c->getDebugLoc(), cn, "error result of " + cn + " " + how + where);
    };
    sim.onInst = [&](SimState &S, Instruction *I) {
      if (cs.count(I)) {
        Str n = qn(I);
        auto it = S.q.find(n);
        if (it != S.q.end() && (it->second & OTH)) report(cast<CallInst>(I), "can be lost: the call is repeated before the result was examined", "");
        Function *G = calleeOf(I);
        int m = Z | OTH;
        if (!G || (G->getName().ends_with("_State") || G->getName().ends_with("_BatchState"))) m |= NM;
        S.q[n] = m;
      }
      return true;
    };
    sim.onLit = [&](SimState &S, ICmpInst::Predicate P, const Value *a, const Value *b, Instruction *) {
      a = stripR(S, a); b = stripR(S, b);
      if (isa<ConstantInt>(a)) { std::swap(a, b); P = ICmpInst::getSwappedPredicate(P); }
      auto *k = dyn_cast<ConstantInt>(b);
      if (!cs.count(a)) {
        std::set<const Value *> lv;
        orLeaves(S, a, lv);
        if (k && k->isZero() && P == ICmpInst::ICMP_EQ)
          for (auto *x : lv) if (cs.count(x)) S.q.erase(qn(x)); // all succeeded
        return;
      }
      auto it = S.q.find(qn(a));
      if (!k || it == S.q.end()) return;
      int64_t kv = k->getSExtValue();
      int keep = 0;
      // which classes can satisfy (x P kv)?
      auto sat = [&](int64_t x) { return ICmpInst::compare(APInt(64, x, true), APInt(64, kv, true), P); };
      if (sat(SUCC)) keep |= Z;
      if (sat(NEED)) keep |= NM;
      bool o = false;
      for (auto &e : RC) if (e.second != SUCC && e.second != NEED && sat(e.second)) o = true;
      for (int64_t x : {kv - 1, kv, kv + 1, (int64_t)5003}) if (x != SUCC && x != NEED && x >= 0 && sat(x)) o = true;
      if (o) keep |= OTH;
      it->second &= keep;
      if (!it->second) { S.q["!dead"] = 1; return; }
      if (!(it->second & OTH) && !(it->second & NM)) S.q.erase(it);
    };
    sim.onRet = [&](SimState &S, ReturnInst *R, const Value *rv) {
      cx.count("exits_examined");
      const Value *v = rv ? stripR(S, rv) : nullptr;
      bool nonzero = false;
      if (auto *k = dyn_cast_or_null<ConstantInt>(v)) nonzero = k->getSExtValue() != SUCC;
      if (v && cs.count(v)) {
        auto it = S.q.find(qn(v));
        if (it != S.q.end() && !(it->second & Z)) nonzero = true;
      }
      std::set<const Value *> lv;
      if (v) orLeaves(S, v, lv);
      for (auto &e : S.q) {
        auto bn = byName.find(e.first);
        if (bn == byName.end()) continue;
        if ((e.second & NM) && v && isa<ConstantInt>(v) && !nonzero) {
          Function *G = calleeOf(bn->second);
          if (G && G->getName().ends_with("_State") && F.getName().ends_with("_State"))
          cx.viol("needmore-swallowed", &F, bn->second->getDebugLoc(), G ? G->getName().str() : "(function pointer)",
                  "the nested stream may still need data but the update reports success (return at line " +
                      std::to_string(R->getDebugLoc() ? R->getDebugLoc().getLine() : 0) + ")");
        }
        if (!(e.second & OTH)) continue;
        if (v == bn->second || nonzero || lv.count(bn->second)) continue;
        if (!retc) { report(bn->second, "is dropped", ""); continue; }
        report(bn->second, "does not reach the caller", " (return at line " + std::to_string(R->getDebugLoc() ? R->getDebugLoc().getLine() : 0) + ")");
      }
    };
    sim.run(SimState());
    if (sim.overflow) { cx.lists["overflow"].insert(F.getName().str()); }
    cx.count("path_states", sim.explored);
  }
}

// ---------------------------------------------------------------- stream I/O failures
void checkIOFailures(Ctx &cx) {
  int64_t IOF = rc("TA_IO_FAILED");
  for (auto &F : *cx.M) {
    if (F.isDeclaration()) continue;
    std::vector<CallInst *> io;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallInst>(&I)) {
        Function *G = calleeOf(C);
        if (G && (G->getName() == "fread" || G->getName() == "fwrite")) io.push_back(C);
      }
    if (io.empty()) continue;
    cx.count("functions");
    cx.count("io_calls", io.size());
    Sim sim(F);
    sim.wantPhi = [](const PHINode *P) { return !P->getType()->isFloatingPointTy(); };
    std::map<Str, CallInst *> byName;
    std::map<const Value *, Str> nm;
    for (auto *c : io) { Str n = "io" + std::to_string(sim.ap.id(c)); byName[n] = c; nm[c] = n; }
    sim.onInst = [&](SimState &S, Instruction *I) {
      auto it = nm.find(I);
      if (it != nm.end()) S.q[it->second] = 1;
      return true;
    };
    sim.onLit = [&](SimState &S, ICmpInst::Predicate P, const Value *a, const Value *b, Instruction *) {
      a = stripR(S, a);
      const Value *b0 = stripR(S, b);
      if (!nm.count(a) && nm.count(b0)) { const Value *t = a; a = b0; b0 = t; P = ICmpInst::getSwappedPredicate(P); }
      if (!nm.count(a)) return;
      auto it = S.q.find(nm[a]);
      if (it == S.q.end()) return;
      const CallInst *C = cast<CallInst>(a);
      const Value *n = stripR(S, C->getArgOperand(2));
      bool shortOK = false, fullOK = false;
      auto *kc = dyn_cast<ConstantInt>(b0);
      auto *nc = dyn_cast<ConstantInt>(n);
      if (nc && kc) {
        int64_t N = nc->getSExtValue(), K = kc->getSExtValue();
        auto sat = [&](int64_t x) { return ICmpInst::compare(APInt(64, x, true), APInt(64, K, true), P); };
        for (int64_t x = 0; x < N && x < 4096; x++) if (sat(x)) shortOK = true;
        fullOK = sat(N);
      } else if (!kc && sim.key(S, n) == sim.key(S, b0)) {
        switch (P) {
        case ICmpInst::ICMP_EQ: case ICmpInst::ICMP_SGE: case ICmpInst::ICMP_UGE: shortOK = false; fullOK = true; break;
        case ICmpInst::ICMP_SGT: case ICmpInst::ICMP_UGT: shortOK = false; fullOK = false; break;
        case ICmpInst::ICMP_NE: case ICmpInst::ICMP_SLT: case ICmpInst::ICMP_ULT: shortOK = true; fullOK = false; break;
        default: shortOK = fullOK = true;
        }
      } else { shortOK = fullOK = true; }
      if (!shortOK && !fullOK) { S.q["!dead"] = 1; return; }
      if (!shortOK) S.q.erase(it);
      else if (!fullOK) it->second = 2;
    };
    sim.onRet = [&](SimState &S, ReturnInst *R, const Value *rv) {
      cx.count("exits_examined");
      const Value *v = rv ? stripR(S, rv) : nullptr;
      bool iof = false;
      if (auto *k = dyn_cast_or_null<ConstantInt>(v)) iof = k->getSExtValue() == IOF;
      for (auto &e : S.q) {
        auto bn = byName.find(e.first);
        if (bn == byName.end() || iof) continue;
        Function *G = calleeOf(bn->second);
        sim.ap.env = &S.env;
        Str what = sim.ap.of(bn->second->getArgOperand(0));
        sim.ap.env = nullptr;
        cx.viol(G->getName() == "fread" ? "short-read" : "short-write", &F, bn->second->getDebugLoc(), G->getName().str() + ":" + what,
                "a failed or short " + G->getName().str() + " is not reported as an I/O failure" +
                (e.second == 2 ? " (the failure branch returns another code)" : ""));
      }
    };
    sim.run(SimState());
    if (sim.overflow) cx.lists["overflow"].insert(F.getName().str());
    cx.count("path_states", sim.explored);
  }
}

// ---------------------------------------------------------------- allocation results
void checkAlloc(Ctx &cx) {
  int64_t AERR = rc("TA_ALLOC_ERR");
  for (auto &F : *cx.M) {
    if (F.isDeclaration()) continue;
    std::vector<CallInst *> al;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallInst>(&I))
        if (isAllocFn(calleeOf(C))) al.push_back(C);
    if (al.empty()) continue;
    cx.count("functions");
    cx.count("alloc_sites", al.size());
    Sim sim(F);
    sim.wantPhi = [](const PHINode *P) { return !P->getType()->isFloatingPointTy(); };
    std::map<const Value *, Str> nm;
    std::map<Str, CallInst *> byName;
    std::map<Str, Str> path;
    for (auto *c : al) {
      Str n = "al" + std::to_string(sim.ap.id(c));
      nm[c] = n; byName[n] = c; path[n] = sim.ap.of(c);
    }
    auto label = [&](const Str &n) {
      // name the destination by the source variable when known
      return path[n][0] == 'c' ? Str("local") : path[n];
    };
    bool retc = returnsRetCode(&F);
    auto within = [](const Str &a, const Str &p) {
      if (a.compare(0, p.size(), p) != 0) return false;
      return a.size() == p.size() || a[p.size()] == '+' || a[p.size()] == '[';
    };
    sim.onInst = [&](SimState &S, Instruction *I) {
      auto it = nm.find(I);
      if (it != nm.end()) { S.q[it->second] = 1; return true; }
      if (S.q.empty()) return true;
      std::vector<Str> acc;
      if (auto *L = dyn_cast<LoadInst>(I)) acc.push_back(sim.key(S, L->getPointerOperand()));
      else if (auto *St = dyn_cast<StoreInst>(I)) acc.push_back(sim.key(S, St->getPointerOperand()));
      else if (auto *C = dyn_cast<CallInst>(I)) {
        Function *G = calleeOf(C);
        if (G && G->isIntrinsic() && !isa<MemIntrinsic>(C)) return true;
        if (G && G->getName() == "free") return true;
        for (auto &A : C->args()) if (A->getType()->isPointerTy()) acc.push_back(sim.key(S, A));
      }
      for (auto &a : acc)
        for (auto &e : S.q)
          if (path.count(e.first) && within(a, path[e.first]))
            cx.viol("unchecked-allocation", &F, byName[e.first]->getDebugLoc(), label(e.first),
                    "memory is used (" + locStr(I->getDebugLoc()) + ") although the allocation may have failed");
      return true;
    };
    sim.onLit = [&](SimState &S, ICmpInst::Predicate P, const Value *a, const Value *b, Instruction *) {
      if (isa<ConstantPointerNull>(a)) std::swap(a, b);
      if (!isa<ConstantPointerNull>(b) || (P != ICmpInst::ICMP_EQ && P != ICmpInst::ICMP_NE)) return;
      Str k = sim.key(S, a);
      for (auto it = S.q.begin(); it != S.q.end();) {
        if (path.count(it->first) && path[it->first] == k) {
          if (P == ICmpInst::ICMP_NE) { if (it->second == 2) { S.q["!dead"] = 1; return; } it = S.q.erase(it); continue; }
          it->second = 2;
        }
        ++it;
      }
    };
    sim.onRet = [&](SimState &S, ReturnInst *R, const Value *rv) {
      cx.count("exits_examined");
      const Value *v = rv ? stripR(S, rv) : nullptr;
      bool ok = false;
      if (auto *k = dyn_cast_or_null<ConstantInt>(v)) ok = k->getSExtValue() == AERR || (S.q.empty());
      for (auto &e : S.q) {
        if (!path.count(e.first)) continue;
        if (e.second == 2 && retc && !ok)
          cx.viol("allocation-failure-misreported", &F, byName[e.first]->getDebugLoc(), label(e.first),
                  "a failed allocation does not return the allocation error code");
        if (e.second == 1 && retc && v && isa<ConstantInt>(v) && cast<ConstantInt>(v)->isZero())
          cx.viol("unchecked-allocation", &F, byName[e.first]->getDebugLoc(), label(e.first),
                  "success is reported although the allocation may have failed");
      }
    };
    sim.run(SimState());
    if (sim.overflow) cx.lists["overflow"].insert(F.getName().str());
    cx.count("path_states", sim.explored);
  }
}

// ---------------------------------------------------------------- ownership of a stream
static bool gDirect = false; // the stream object is a0 itself (Save, State)
static Str toS(Str s) {
  // the stream object is *(a0) for Init/Load/Free and a0 for Save/State
  size_t p;
  if (gDirect) {
    for (p = 0; (p = s.find("a0", p)) != Str::npos;) {
      bool lb = p == 0 || !isalnum((unsigned char)s[p - 1]), rb = p + 2 >= s.size() || !isalnum((unsigned char)s[p + 2]);
      if (lb && rb) s.replace(p, 2, "S"); else p += 2;
    }
    return s;
  }
  while ((p = s.find("*(a0)")) != Str::npos) s.replace(p, 5, "S");
  return s;
}
struct Owned { std::map<Str, Str> cells; /* cell -> "" (heap) or sub-indicator */ std::set<Str> delegates; };

static bool parseStateFn(const Function *G, Str &X, Str &op) {
  if (!G) return false;
  StringRef n = G->getName();
  if (!n.consume_front("TA_")) return false;
  n.consume_front("INT_");
  for (const char *o : {"StateInit", "StateLoad", "StateFree", "StateSave", "BatchState", "State"}) {
    Str suf = Str("_") + o;
    if (n.ends_with(suf)) { X = n.drop_back(suf.size()).str(); op = o; return true; }
  }
  return false;
}

// ---- guards: conjunctions of comparisons of option cells with constants ------------
struct Iv { double lo = -1e308, hi = 1e308; bool ls = false, hs = false; std::set<double> ne; };
typedef std::map<Str, Iv> Guards;
static void addG(Guards &g, const Str &k, int op, double c) {
  Iv &i = g[k];
  auto lo = [&](bool st) { if (c > i.lo || (c == i.lo && st)) { i.lo = c; i.ls = st; } };
  auto hi = [&](bool st) { if (c < i.hi || (c == i.hi && st)) { i.hi = c; i.hs = st; } };
  switch (op) {
  case 0: lo(false); hi(false); break; // ==
  case 1: i.ne.insert(c); break;       // !=
  case 2: hi(true); break;             // <
  case 3: hi(false); break;            // <=
  case 4: lo(true); break;             // >
  case 5: lo(false); break;            // >=
  }
}
static bool okG(const Guards &g) {
  for (auto &e : g) {
    const Iv &i = e.second;
    if (i.lo > i.hi) return false;
    if (i.lo == i.hi && (i.ls || i.hs || i.ne.count(i.lo))) return false;
  }
  return true;
}
static bool consistent(Guards a, const Guards &b) {
  for (auto &e : b) {
    if (e.second.lo > -1e308) addG(a, e.first, e.second.ls ? 4 : 5, e.second.lo);
    if (e.second.hi < 1e308) addG(a, e.first, e.second.hs ? 2 : 3, e.second.hi);
    for (double d : e.second.ne) addG(a, e.first, 1, d);
  }
  // small integer domains: exclude every value
  for (auto &e : a) {
    Iv &i = e.second;
    while (i.lo == (int64_t)i.lo && i.lo <= i.hi && (i.ne.count(i.lo)) ) { i.ne.erase(i.lo); i.lo += 1; }
    while (i.hi == (int64_t)i.hi && i.lo <= i.hi && (i.ne.count(i.hi)) ) { i.ne.erase(i.hi); i.hi -= 1; }
  }
  return okG(a);
}
static int opOf(ICmpInst::Predicate P) {
  switch (P) {
  case ICmpInst::ICMP_EQ: return 0; case ICmpInst::ICMP_NE: return 1;
  case ICmpInst::ICMP_SLT: return 2; case ICmpInst::ICMP_SLE: return 3;
  case ICmpInst::ICMP_SGT: return 4; case ICmpInst::ICMP_SGE: return 5;
  case ICmpInst::ICMP_UGT: return 4; case ICmpInst::ICMP_ULE: return 3; // counts: never negative
  case ICmpInst::ICMP_ULT: return 2; case ICmpInst::ICMP_UGE: return 5;
  default: return -1;
  }
}
static int opOfF(FCmpInst::Predicate P) {
  switch (P) {
  case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: return 0;
  case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: return 1;
  case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: return 2;
  case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: return 3;
  case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: return 4;
  case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: return 5;
  default: return -1;
  }
}
static int swapOp(int o) { static const int m[] = {0, 1, 4, 5, 2, 3}; return o < 0 ? o : m[o]; }
static bool constOf(const Value *V, double &d) {
  if (auto *C = dyn_cast<ConstantInt>(V)) { if (C->getBitWidth() > 64) return false; d = C->getSExtValue(); return true; }
  if (auto *C = dyn_cast<ConstantFP>(V)) { d = C->getValueAPF().convertToDouble(); return true; }
  return false;
}
static void noteG(SimState &S, const Str &k, int op, double c) {
  char b[64]; snprintf(b, sizeof b, "|%d|%.17g", op, c);
  S.q["g|" + k + b] = 1;
}
static void forgetG(SimState &S, const Str &k, const char *pre) {
  Str p = pre + k + "|";
  for (auto it = S.q.begin(); it != S.q.end();) if (StringRef(it->first).starts_with(p)) it = S.q.erase(it); else ++it;
}
static bool gAnyCell = false;
static bool isOptCell(const Str &k) {
  if (gAnyCell) return k[0] == '*' && k.find('S') != Str::npos && k.find_first_of("Lpvcf[", 0) == Str::npos;
  return StringRef(k).starts_with("*(S+#") && k.find_first_not_of("0123456789", 5) == k.size() - 1;
}
// attach guard tracking to a simulation
static void trackGuards(Sim &sim) {
  auto L = [&sim](SimState &S, int op, const Value *a, const Value *b) {
    double c;
    a = stripR(S, a); b = stripR(S, b);
    if (!constOf(b, c)) { if (!constOf(a, c)) return; std::swap(a, b); op = swapOp(op); }
    if (op < 0) return;
    Str k = toS(sim.key(S, a));
    if (!isOptCell(k) && !isa<Argument>(a)) return;
    noteG(S, k, op, c);
  };
  auto prev = sim.onLit;
  sim.onLit = [prev, L](SimState &S, ICmpInst::Predicate P, const Value *a, const Value *b, Instruction *I) {
    L(S, opOf(P), a, b);
    if (prev) prev(S, P, a, b, I);
  };
  sim.onFLit = [L](SimState &S, FCmpInst::Predicate P, const Value *a, const Value *b, Instruction *I) { L(S, opOfF(P), a, b); };
  auto pi = sim.onInst;
  sim.onInst = [pi, &sim](SimState &S, Instruction *I) {
    if (auto *St = dyn_cast<StoreInst>(I)) {
      Str k = "*(" + toS(sim.key(S, St->getPointerOperand())) + ")";
      if (isOptCell(k)) {
        forgetG(S, k, "f|"); forgetG(S, k, "g|");
        const Value *v = stripR(S, St->getValueOperand());
        double c;
        if (isa<Argument>(v)) S.q["f|" + k + "|a" + std::to_string(cast<Argument>(v)->getArgNo())] = 1;
        else if (constOf(v, c)) noteG(S, k, 0, c);
      }
    }
    return pi ? pi(S, I) : true;
  };
}
static Guards guardsOf(const SimState &S) {
  Guards g;
  std::map<Str, std::set<Str>> cellsOfArg;
  for (auto &e : S.q)
    if (e.first[0] == 'f' && e.first[1] == '|') {
      size_t p = e.first.rfind('|');
      cellsOfArg[e.first.substr(p + 1)].insert(e.first.substr(2, p - 2));
    }
  for (auto &e : S.q)
    if (e.first[0] == 'g' && e.first[1] == '|') {
      size_t p2 = e.first.rfind('|'), p1 = e.first.rfind('|', p2 - 1);
      Str k = e.first.substr(2, p1 - 2);
      int op = atoi(e.first.c_str() + p1 + 1);
      double c = atof(e.first.c_str() + p2 + 1);
      if (cellsOfArg.count(k)) { for (auto &cl : cellsOfArg[k]) addG(g, cl, op, c); }
      else if (k[0] == '*') addG(g, k, op, c);
    }
  return g;
}

struct Ctxt { Str type; Guards g; };
typedef std::map<Str, std::vector<Ctxt>> Creation; // cell -> contexts; "" -> success exits

// the function that really builds a Y stream (APO and PPO both delegate to INT_PO)
static Str builderOf(Ctx &cx, Str Y) {
  for (int i = 0; i < 5; i++) {
    Function *F = cx.M->getFunction("TA_" + Y + "_StateInit");
    if (!F || F->isDeclaration()) return Y;
    Str nx;
    for (auto &I : instructions(*F))
      if (auto *C = dyn_cast<CallInst>(&I)) {
        Str Z, op;
        if (parseStateFn(calleeOf(C), Z, op) && op == "StateInit" && C->arg_size() && isa<Argument>(C->getArgOperand(0)->stripPointerCasts())) nx = Z;
      }
    if (nx.empty() || nx == Y) return Y;
    Y = nx;
  }
  return Y;
}

static void creations(Ctx &cx, Function *F, Creation &out, std::set<Function *> &seen) {
  if (!F || F->isDeclaration() || !seen.insert(F).second) return;
  Sim sim(*F);
  sim.onInst = [&](SimState &S, Instruction *I) {
    if (auto *St = dyn_cast<StoreInst>(I)) {
      const Value *v = stripR(S, St->getValueOperand());
      if (auto *C = dyn_cast<CallInst>(v); C && isAllocFn(calleeOf(C))) {
        Str a = toS(sim.key(S, St->getPointerOperand()));
        if (a.find('S') != Str::npos) out[a].push_back({"", guardsOf(S)});
      }
    } else if (auto *C = dyn_cast<CallInst>(I)) {
      Str Y, op;
      if (!parseStateFn(calleeOf(C), Y, op) || C->arg_size() == 0 || (op != "StateInit" && op != "StateLoad")) return true;
      Str a = sim.key(S, C->getArgOperand(0));
      if (a == "a0") { out["^"].push_back({builderOf(cx, Y), guardsOf(S)}); creations(cx, calleeOf(C), out, seen); return true; }
      a = toS(a);
      if (a.find('S') != Str::npos) out[a].push_back({builderOf(cx, Y), guardsOf(S)});
    }
    return true;
  };
  sim.onRet = [&](SimState &S, ReturnInst *R, const Value *rv) {
    const Value *v = rv ? stripR(S, rv) : nullptr;
    auto *k = dyn_cast_or_null<ConstantInt>(v);
    if (!k || k->isZero()) out[""].push_back({"", guardsOf(S)});
  };
  trackGuards(sim);
  sim.run(SimState());
  if (sim.overflow) cx.lists["overflow"].insert(F->getName().str());
}

void checkStateFree(Ctx &cx) {
  Indicators ind = collectIndicators(cx);
  for (auto &e : ind) {
    auto &fs = e.second;
    if (!fs.count(K_Free)) continue;
    Owned own; std::set<Function *> seen;
    Creation cr, cl;
    creations(cx, fs.count(K_Init) ? fs[K_Init] : nullptr, cr, seen);
    creations(cx, fs.count(K_Load) ? fs[K_Load] : nullptr, cl, seen);
    // what a reloaded stream owns is what the saved one owned; cells only the load
    // function fills are owned unconditionally
    for (auto &c : cl) if (!c.first.empty() && c.first != "^" && !cr.count(c.first)) cr[c.first].push_back({c.second[0].type, Guards()});
    for (auto &c : cr) if (!c.first.empty() && c.first != "^") { Str t; for (auto &x : c.second) if (!x.type.empty()) t = x.type; own.cells[c.first] = t; }
    auto mayOwn = [&](SimState &S, const Str &cell, const Str &type, bool other) {
      Guards g = guardsOf(S);
      for (auto &x : cr[cell]) if ((type.empty() || (x.type != type) == other) && consistent(g, x.g)) return true;
      return false;
    };
    cx.count("indicators");
    cx.count("owned_resources", own.cells.size());
    Function &F = *fs[K_Free];
    Sim sim(F);
    // value name of a cell's content
    std::map<Str, Str> contentToCell;
    for (auto &c : own.cells) contentToCell["*(" + c.first + ")"] = c.first;
    auto within = [](const Str &a, const Str &p) {
      if (a.compare(0, p.size(), p) != 0) return false;
      return a.size() == p.size() || a[p.size()] == '+' || a[p.size()] == '[';
    };
    // parent content of a nested cell: "*(S+#32)+#8" -> "*(S+#32)"
    SimState init;
    init.q["A"] = 1;                            // handle pointer: 1 maybe null, 3 non-null, 2 null
    init.q["S"] = 1;                            // stream object: 1 maybe null, 3 non-null, 2 null, 4 freed
    init.q["Z"] = 0;                            // *_state was reset to NULL
    for (auto &c : own.cells) init.q["R" + c.first] = 1; // 1 live?, 3 live, 2 null, 4 freed, 5 reset while live
    auto nullable = [&](Str rname, SimState &S) { return 0; };
    sim.onInst = [&](SimState &S, Instruction *I) {
      auto derefS = [&](const Str &a, const char *how) {
        // a: address string in S-form
        if (a == "a0") {
          if (S.q["A"] == 1) { cx.viol("null-handle", &F, I->getDebugLoc(), "handle", "the handle pointer is dereferenced before it is checked for NULL"); S.q["A"] = 3; }
          return;
        }
        if (within(a, "S") ) {
          if (S.q["A"] == 1) { cx.viol("null-handle", &F, I->getDebugLoc(), "handle", "the handle pointer is dereferenced before it is checked for NULL"); S.q["A"] = 3; }
          if (S.q["S"] == 1) { cx.viol("null-stream", &F, I->getDebugLoc(), "stream", "a NULL (already freed) stream is dereferenced: releasing twice crashes"); S.q["S"] = 3; }
          if (S.q["S"] == 4) cx.viol("use-after-free", &F, I->getDebugLoc(), "stream", Str("the stream is ") + how + " after it was released");
        }
        for (auto &c : own.cells)
          if (c.second.empty() && within(a, "*(" + c.first + ")")) {
            int st = S.q["R" + c.first];
            if (st == 4) cx.viol("use-after-free", &F, I->getDebugLoc(), c.first, "a released buffer of the stream is accessed");
          }
      };
      if (auto *L = dyn_cast<LoadInst>(I)) {
        Str a = toS(sim.key(S, L->getPointerOperand()));
        derefS(a, "read");
        if (own.cells.count(a) && S.q["R" + a] == 5) S.q["nl" + std::to_string(sim.ap.id(L))] = 1;
      } else if (auto *St = dyn_cast<StoreInst>(I)) {
        Str a = toS(sim.key(S, St->getPointerOperand()));
        derefS(a, "written");
        bool nul = isa<ConstantPointerNull>(resolve(S, St->getValueOperand()));
        if (a == "a0" && nul) {
          if (S.q["S"] == 4 || S.q["S"] == 2) S.q["Z"] = 1;
          else { S.q["S"] = 5; S.q["Z"] = 1; }
        }
        if (own.cells.count(a) && nul) {
          int &st = S.q["R" + a];
          if (st == 1 || st == 3) st = 5; else if (st == 4) st = 2;
        }
      } else if (auto *C = dyn_cast<CallInst>(I)) {
        Function *G = calleeOf(C);
        if (!G) return true;
        Str Y, op;
        if (G->getName() == "free") {
          Str n = toS(sim.key(S, C->getArgOperand(0)));
          const Value *root = stripR(S, C->getArgOperand(0));
          if (S.q.count("nl" + std::to_string(sim.ap.id(root)))) return true;
          if (n == "S") {
            for (auto &c : own.cells) {
              int st = S.q["R" + c.first];
              if ((st == 1 || st == 3 || st == 5) && mayOwn(S, c.first, "", false)) {
                cx.viol("leak", &F, I->getDebugLoc(), c.first + (c.second.empty() ? "" : ":" + c.second),
                        "the stream is released while " + (c.second.empty() ? Str("a buffer") : "its nested " + c.second + " stream") + " it owns is not");
              }
            }
            if (S.q["S"] == 4) cx.viol("double-free", &F, I->getDebugLoc(), "stream", "the stream can be released twice");
            S.q["S"] = 4;
          } else if (contentToCell.count(n)) {
            Str c = contentToCell[n];
            int &st = S.q["R" + c];
            if (!own.cells[c].empty()) { cx.viol("leak", &F, I->getDebugLoc(), c + ":" + own.cells[c], "a nested stream is released with free() instead of its own release function"); }
            if (st == 4) cx.viol("double-free", &F, I->getDebugLoc(), c, "a buffer of the stream can be released twice");
            // releasing a record that still owns a buffer
            for (auto &c2 : own.cells)
              if (c2.first != c && within(c2.first, n)) {
                int s2 = S.q["R" + c2.first];
                if (s2 == 1 || s2 == 3 || s2 == 5) cx.viol("leak", &F, I->getDebugLoc(), c2.first, "a nested buffer is lost when its record is released");
              }
            st = 4;
          }
        } else if (parseStateFn(G, Y, op) && op == "StateFree" && C->arg_size()) {
          Str a = toS(sim.key(S, C->getArgOperand(0)));
          if (a == "a0") { // the whole release is delegated
            if (!mayOwn(S, "^", "", false) || mayOwn(S, "^", builderOf(cx, Y), true))
              cx.viol("wrong-release", &F, I->getDebugLoc(), "stream:" + Y, "the stream is released as a " + Y + " stream but was not created as one");
            S.q["A"] = 3; S.q["S"] = 4; S.q["Z"] = 1;
            for (auto &c : own.cells) S.q["R" + c.first] = 2;
            return true;
          }
          derefS(a, "used");
          auto it = own.cells.find(a);
          if (it != own.cells.end()) {
            if (!it->second.empty() && mayOwn(S, a, builderOf(cx, Y), true))
              cx.viol("wrong-release", &F, I->getDebugLoc(), a + ":" + it->second, "a nested " + it->second + " stream is released as a " + Y + " stream");
            S.q["R" + a] = 2; // released and reset by its own release function
          }
        } else if (auto *MI = dyn_cast<MemIntrinsic>(C)) {
          derefS(toS(sim.key(S, MI->getDest())), "written");
        }
      }
      return true;
    };
    sim.onLit = [&](SimState &S, ICmpInst::Predicate P, const Value *a, const Value *b, Instruction *) {
      {
        // a nested release of a cell inside the stream succeeds (rule refuses-release
        // is checked for every release function)
        const Value *x = stripR(S, a), *y = stripR(S, b);
        if (isa<ConstantInt>(x)) { std::swap(x, y); P = ICmpInst::getSwappedPredicate(P); }
        Str Y, op;
        if (auto *C = dyn_cast<CallInst>(x))
          if (auto *K = dyn_cast<ConstantInt>(y))
            if (parseStateFn(calleeOf(C), Y, op) && op == "StateFree" && toS(sim.key(S, C->getArgOperand(0))) != "a0" &&
                !ICmpInst::compare(APInt(32, 0), K->getValue(), P)) { S.q["!dead"] = 1; return; }
      }
      if (isa<ConstantPointerNull>(a)) std::swap(a, b);
      if (!isa<ConstantPointerNull>(b) || (P != ICmpInst::ICMP_EQ && P != ICmpInst::ICMP_NE)) return;
      Str k = toS(sim.key(S, a));
      bool isNull = P == ICmpInst::ICMP_EQ;
      Str q = k == "a0" ? "A" : k == "S" ? "S" : contentToCell.count(k) ? "R" + contentToCell[k] : "";
      if (q.empty()) return;
      int &st = S.q[q];
      if (st == 1) st = isNull ? 2 : 3;
      else if ((st == 2 && !isNull) || (st == 3 && isNull)) { S.q["!dead"] = 1; return; }
      if (isNull && (q == "A" || q == "S"))
        for (auto &c : own.cells) S.q["R" + c.first] = 2;
      if (isNull && q[0] == 'R')
        for (auto &c : own.cells) if (c.first != q.substr(1) && within(c.first, k)) S.q["R" + c.first] = 2;
    };
    sim.onRet = [&](SimState &S, ReturnInst *R, const Value *rv) {
      cx.count("exits_examined");
      const Value *v = rv ? stripR(S, rv) : nullptr;
      auto *k = dyn_cast_or_null<ConstantInt>(v);
      if (S.q["A"] == 2) {
        if (!k || k->getSExtValue() != rc("TA_BAD_PARAM"))
          cx.viol("null-handle", &F, R->getDebugLoc(), "handle", "a NULL handle is not answered with the bad-parameter code");
        return;
      }
      Str Y, op;
      bool nestedRes = false;
      if (auto *C = dyn_cast_or_null<CallInst>(v)) nestedRes = parseStateFn(calleeOf(C), Y, op) && op == "StateFree";
      if (!nestedRes && (!k || !k->isZero())) {
        Guards g = guardsOf(S);
        bool feas = cr[""].empty();
        for (auto &x : cr[""]) if (consistent(g, x.g)) feas = true;
        if (feas) cx.viol("refuses-release", &F, R->getDebugLoc(), "stream", "releasing a valid stream can report a failure");
        return;
      }
      if (S.q["S"] == 2) return;
      if (S.q["S"] != 4) cx.viol("leak", &F, R->getDebugLoc(), "stream", "success is returned without releasing the stream");
      else if (!S.q["Z"]) cx.viol("dangling-handle", &F, R->getDebugLoc(), "stream", "the caller's handle still points to released memory");
    };
    trackGuards(sim);
    sim.run(init);
    if (sim.overflow) cx.lists["overflow"].insert(F.getName().str());
    cx.count("path_states", sim.explored);
  }
}

// ---------------------------------------------------------------- saving and reloading
// Rule: on every pair of compatible successful paths the bytes written by the save
// function are, item by item and in order, the bytes the load function reads back into
// the same places; everything the update function depends on is among them.
struct SLPath { std::vector<Str> seq; Guards g; std::set<Str> raw; int line; };

static std::vector<SLPath> slPaths(Ctx &cx, Function &F, bool save, std::set<Str> *spans) {
  std::vector<SLPath> out;
  gDirect = save; gAnyCell = true;
  Sim sim(F);
  sim.wantPhi = [](const PHINode *P) { return !P->getType()->isFloatingPointTy(); };
  auto K = [&](SimState &S, const Value *V) { return toS(sim.key(S, V)); };
  auto push = [&](SimState &S, const Str &tok) {
    int n = S.q["#n"]++;
    char b[16]; snprintf(b, sizeof b, "T%03d|", n);
    S.q[b + tok] = 1;
    return n;
  };
  auto localName = [&](const Str &k) { return k.size() > 1 && k[0] == 'L' && k.find_first_not_of("0123456789", 1) == Str::npos; };
  auto subst = [&](SimState &S, Str k) { // *(L7) -> tok#i
    for (auto &e : S.q)
      if (e.first[0] == 'l' && e.first[1] == '|') {
        Str f = "*(" + e.first.substr(2) + ")", t = "tok#" + std::to_string(e.second);
        size_t p;
        while ((p = k.find(f)) != Str::npos) k.replace(p, f.size(), t);
      }
    return k;
  };
  auto scrub = [](Str k) { // variable indices
    size_t p;
    while ((p = k.find('[')) != Str::npos && k.compare(p, 3, "[*]") != 0) { size_t e = k.find(']', p); if (e == Str::npos) break; k.replace(p, e - p + 1, "{*}"); }
    return k;
  };
  sim.onInst = [&](SimState &S, Instruction *I) {
    if (auto *St = dyn_cast<StoreInst>(I)) {
      Str a = K(S, St->getPointerOperand());
      const Value *v = stripR(S, St->getValueOperand());
      if (save && a.find('S') != Str::npos && !localName(a) && spans)
        cx.viol("save-modifies-stream", &F, I->getDebugLoc(), a, "saving changes the stream it saves");
      if (!save && a.find('S') != Str::npos && !v->getType()->isPointerTy()) {
        Str k = subst(S, sim.key(S, v));
        if (k.compare(0, 4, "tok#") == 0) S.q.erase("o|" + a);
        else S.q["o|" + a] = I->getDebugLoc() ? I->getDebugLoc().getLine() : 0;
      }
      if (localName(a)) { // a local about to be written out
        if (!save) return true;
        for (auto it = S.q.begin(); it != S.q.end();) if (StringRef(it->first).starts_with("w|" + a + "|")) it = S.q.erase(it); else ++it;
        Str val;
        double c;
        if (auto *IC = dyn_cast<ICmpInst>(v); IC && IC->isEquality() && isa<ConstantPointerNull>(IC->getOperand(1)))
          val = Str(IC->getPredicate() == ICmpInst::ICMP_EQ ? "=" : "!") + K(S, IC->getOperand(0));
        else if (constOf(v, c)) val = "#" + std::to_string(c);
        else val = "@" + K(S, v);
        S.q["w|" + a + "|" + val] = 1;
      } else if (!save) {
        Str k = subst(S, sim.key(S, v));
        if (k.size() > 4 && k.compare(0, 4, "tok#") == 0 && a.find('S') != Str::npos) {
          char b[16]; snprintf(b, sizeof b, "T%03d|", atoi(k.c_str() + 4));
          Str old;
          for (auto &e : S.q) if (StringRef(e.first).starts_with(b)) old = e.first;
          if (!old.empty() && old[5] == 'V') { S.q.erase(old); S.q[b + ("F:" + a + ":" + old.substr(7))] = 1; }
        }
      }
      return true;
    }
    auto *C = dyn_cast<CallInst>(I);
    if (!C) return true;
    Function *G = calleeOf(C);
    if (!G) return true;
    Str me = "seen" + std::to_string(sim.ap.id(C));
    Str Y, op;
    if (G->getName() == (save ? "fread" : "fwrite")) { cx.viol("save-load-mixup", &F, I->getDebugLoc(), G->getName().str(), "wrong direction of file access"); return true; }
    if (G->getName() == "fwrite" || G->getName() == "fread") {
      if (S.q.count(me)) return true;
      S.q[me] = 1;
      if (spans) cx.count("io_calls");
      Str a = scrub(subst(S, K(S, C->getArgOperand(0))));
      const Value *sz = stripR(S, C->getArgOperand(1)), *n = stripR(S, C->getArgOperand(2));
      auto *szc = dyn_cast<ConstantInt>(sz), *nc = dyn_cast<ConstantInt>(n);
      if (szc && nc) {
        Str bytes = std::to_string(szc->getSExtValue() * nc->getSExtValue());
        if (localName(a)) {
          if (save) {
            Str val;
            for (auto &e : S.q) if (StringRef(e.first).starts_with("w|" + a + "|")) val = e.first.substr(3 + a.size());
            if (val[0] == '@' && val.find('S') != Str::npos) { push(S, "F:" + val.substr(3, val.size() - 4) + ":" + bytes); return true; }
            int i = push(S, "V:" + bytes);
            S.q["l|" + a] = i;
            S.q["m|" + std::to_string(i) + "|" + val] = 1;
          } else { int i = push(S, "V:" + bytes); S.q["l|" + a] = i;
            Str p = "g|tok#" + std::to_string(i) + "|"; (void)p; }
        } else {
          push(S, "F:" + a + ":" + bytes);
          int64_t n0 = atoll(bytes.c_str());
          auto sp = [](const Str &x, Str &b, int64_t &o) {
            b = x; o = 0;
            size_t q = x.rfind("+#");
            if (q != Str::npos && x.find_first_not_of("0123456789", q + 2) == Str::npos) { o = atoll(x.c_str() + q + 2); b = x.substr(0, q); }
          };
          Str b1, b2; int64_t o1, o2;
          sp(a, b1, o1);
          for (auto it = S.q.begin(); it != S.q.end();) {
            if (it->first[0] == 'o' && it->first[1] == '|') { sp(it->first.substr(2), b2, o2); if (b1 == b2 && o1 <= o2 && o2 < o1 + n0) { it = S.q.erase(it); continue; } }
            ++it;
          }
        }
      } else {
        Str s1 = szc ? std::to_string(szc->getSExtValue()) : subst(S, K(S, sz)), s2 = nc ? std::to_string(nc->getSExtValue()) : subst(S, K(S, n));
        if (szc == nullptr && nc) std::swap(s1, s2);
        push(S, "A:" + a + ":" + s1 + " x " + s2);
      }
      return true;
    }
    if (parseStateFn(G, Y, op) && C->arg_size()) {
      if (op == "StateInit" || op == "StateFree" || op == "State") return true;
      if (op != (save ? "StateSave" : "StateLoad")) { cx.viol("save-load-mixup", &F, I->getDebugLoc(), G->getName().str(), "unexpected call"); return true; }
      if (S.q.count(me)) return true;
      S.q[me] = 1;
      Str raw = sim.key(S, C->getArgOperand(0));
      if (raw == "a0") push(S, "D:" + builderOf(cx, Y));
      else {
        Str a = toS(raw);
        if (save && a.size() > 3 && a.compare(0, 2, "*(") == 0 && a.back() == ')') a = a.substr(2, a.size() - 3);
        else if (save) a = "?" + a;
        push(S, "N:" + scrub(a) + ":" + builderOf(cx, Y));
      }
      S.q["call|" + std::to_string(sim.ap.id(C))] = 1;
    }
    return true;
  };
  sim.onLit = [&](SimState &S, ICmpInst::Predicate P, const Value *a, const Value *b, Instruction *) {
    const Value *x = stripR(S, a), *y = stripR(S, b);
    double c;
    if (isa<ConstantPointerNull>(x)) std::swap(x, y);
    if (isa<ConstantPointerNull>(y) && (P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_NE)) {
      S.q[Str("z|") + (P == ICmpInst::ICMP_EQ ? "=" : "!") + K(S, x)] = 1;
      return;
    }
    if (!constOf(y, c)) { if (!constOf(x, c)) return; std::swap(x, y); P = ICmpInst::getSwappedPredicate(P); }
    if (auto *C = dyn_cast<CallInst>(x)) {
      Function *G = calleeOf(C);
      if (G && (G->getName() == "fread" || G->getName() == "fwrite")) {
        // a short transfer is the failure case
        auto *nc = dyn_cast<ConstantInt>(stripR(S, C->getArgOperand(2)));
        if (nc && !ICmpInst::compare(APInt(64, nc->getSExtValue(), true), APInt(64, (int64_t)c, true), P)) S.q["!fail"] = 1;
      } else if (G && returnsRetCode(G) && !ICmpInst::compare(APInt(64, 0), APInt(64, (int64_t)c, true), P)) S.q["!fail"] = 1;
      return;
    }
    Str k = subst(S, K(S, x));
    int op = opOf(P);
    if (op >= 0 && k.compare(0, 4, "tok#") == 0) noteG(S, k, op, c);
  };
  sim.onRet = [&](SimState &S, ReturnInst *R, const Value *rv) {
    if (S.q.count("!fail")) return;
    const Value *v = rv ? stripR(S, rv) : nullptr;
    if (auto *k = dyn_cast_or_null<ConstantInt>(v)) if (!k->isZero()) return;
    if (spans)
      for (auto &e : S.q)
        if (e.first[0] == 'o' && e.first[1] == '|')
          cx.viol("load-overrides", &F, R->getDebugLoc(), e.first.substr(2), "a reloaded stream carries a value (stored at line " + std::to_string(e.second) + ") that does not come from the file");
    SLPath p;
    p.line = R->getDebugLoc() ? R->getDebugLoc().getLine() : 0;
    for (auto &e : S.q) if (e.first[0] == 'T' && isdigit(e.first[1])) p.seq.push_back(e.first.substr(5));
    // guards, including those on the written locals
    p.g = guardsOf(S);
    for (auto &e : S.q) {
      if (e.first[0] == 'g' && e.first.compare(0, 6, "g|tok#") == 0) {
        size_t p2 = e.first.rfind('|'), p1 = e.first.rfind('|', p2 - 1);
        addG(p.g, e.first.substr(2, p1 - 2), atoi(e.first.c_str() + p1 + 1), atof(e.first.c_str() + p2 + 1));
      }
      if (e.first[0] == 'z' && e.first[1] == '|') p.raw.insert(e.first.substr(2));
    }
    for (auto &e : S.q)
      if (e.first[0] == 'm' && e.first[1] == '|') {
        size_t p1 = e.first.find('|', 2);
        Str t = "tok#" + e.first.substr(2, p1 - 2), val = e.first.substr(p1 + 1);
        if (val.empty()) continue;
        if (val[0] == '#') addG(p.g, t, 0, atof(val.c_str() + 1));
        if (val[0] == '=' || val[0] == '!') {
          Str o = val.substr(1);
          if (p.raw.count("=" + o)) addG(p.g, t, 0, val[0] == '=');
          if (p.raw.count("!" + o)) addG(p.g, t, 0, val[0] == '!');
          addG(p.g, t, 5, 0); addG(p.g, t, 3, 1);
          // and the other way round
          Guards &g = p.g;
          Iv &iv = g[t];
          bool nz = iv.ne.count(0) || iv.lo > 0, z = iv.hi <= 0;
          if (nz) p.raw.insert((val[0] == '=' ? "=" : "!") + o);
          if (z) p.raw.insert((val[0] == '=' ? "!" : "=") + o);
        }
      }
    if (!okG(p.g)) return;
    // resolve locals inside counts
    for (auto &t : p.seq) {
      size_t q;
      while ((q = t.find("tok#")) != Str::npos) {
        size_t e = q + 4; while (e < t.size() && isdigit(t[e])) e++;
        unsigned i = atoi(t.c_str() + q + 4);
        Str r = "?";
        if (i < p.seq.size() && p.seq[i].compare(0, 2, "F:") == 0) r = "*(" + p.seq[i].substr(2, p.seq[i].rfind(':') - 2) + ")";
        t.replace(q, e - q, r);
      }
    }
    // adjacent fields count as one span
    std::vector<Str> m;
    auto split = [](const Str &t, Str &b, int64_t &o, int64_t &n) {
      if (t.compare(0, 2, "F:") != 0) return false;
      size_t c = t.rfind(':'); n = atoll(t.c_str() + c + 1);
      b = t.substr(2, c - 2); o = 0;
      size_t q = b.rfind("+#");
      if (q != Str::npos && b.find_first_not_of("0123456789", q + 2) == Str::npos) { o = atoll(b.c_str() + q + 2); b = b.substr(0, q); }
      return true;
    };
    for (auto &t : p.seq) {
      Str b, b2; int64_t o, n, o2, n2;
      if (!m.empty() && split(m.back(), b, o, n) && split(t, b2, o2, n2) && b == b2 && o + n == o2)
        m.back() = "F:" + b + (o ? "+#" + std::to_string(o) : Str()) + ":" + std::to_string(n + n2);
      else m.push_back(t);
    }
    p.seq = m;
    if (getenv("TALINT_DEBUG") && F.getName() == getenv("TALINT_DEBUG")) {
      errs() << F.getName() << " line " << p.line << "\n  "; for (auto &t : p.seq) errs() << t << " ; ";
      errs() << "\n  "; for (auto &t : p.g) { errs() << t.first << " in " << t.second.lo << ".." << t.second.hi << " ne{"; for (double d : t.second.ne) errs() << d << ","; errs() << "} "; }
      for (auto &t : p.raw) errs() << t << " "; errs() << "\n";
    }
    out.push_back(p);
  };
  trackGuards(sim);
  sim.run(SimState());
  if (sim.overflow) cx.lists["overflow"].insert(F.getName().str());
  cx.count("path_states", sim.explored);
  gDirect = false; gAnyCell = false;
  return out;
}

// allocation sizes of the cells of a stream: cell -> (element bytes, count key)
static void allocSizes(Function &F, std::map<Str, std::set<std::pair<int64_t, Str>>> &out) {
  AP ap(&F);
  for (auto &I : instructions(F))
    if (auto *C = dyn_cast<CallInst>(&I))
      if (isAllocFn(calleeOf(C))) {
        Str a = toS(ap.of(C));
        if (a.compare(0, 2, "*(") != 0) continue;
        Str cell = a.substr(2, a.size() - 3);
        if (cell.find('S') == Str::npos) continue;
        const Value *n = nullptr, *s = nullptr;
        if (calleeOf(C)->getName() == "calloc") { n = C->getArgOperand(0); s = C->getArgOperand(1); }
        else {
          s = strip(C->getArgOperand(calleeOf(C)->getName() == "realloc"));
          if (auto *B = dyn_cast<BinaryOperator>(s); B && B->getOpcode() == Instruction::Mul) { n = B->getOperand(0); s = B->getOperand(1); }
        }
        auto *sc = dyn_cast<ConstantInt>(strip(s));
        auto *nc = n ? dyn_cast<ConstantInt>(strip(n)) : nullptr;
        if (!sc && nc) { std::swap(n, s); std::swap(sc, nc); }
        if (sc && (!n || nc)) out[cell].insert({sc->getSExtValue() * (nc ? nc->getSExtValue() : 1), ""});
        else if (sc) out[cell].insert({sc->getSExtValue(), toS(ap.of(n))});
      }
}

void checkSaveLoad(Ctx &cx) {
  Indicators ind = collectIndicators(cx);
  for (auto &e : ind) {
    auto &fs = e.second;
    if (!fs.count(K_Save) && !fs.count(K_Load)) continue;
    if (!fs.count(K_Save) || !fs.count(K_Load) || !fs.count(K_Init)) { cx.violAt("incomplete-stream-api", "TA_" + e.first, "", 0, "missing", "stream lacks a save, load or creation function"); continue; }
    cx.count("indicators");
    Function &FS = *fs[K_Save], &FL = *fs[K_Load];
    std::set<Str> dummy;
    auto ps = slPaths(cx, FS, true, &dummy), pl = slPaths(cx, FL, false, &dummy);
    cx.count("save_paths", ps.size()); cx.count("load_paths", pl.size());
    if (ps.empty() || pl.empty()) cx.viol("unsavable", &FS, DebugLoc(), "stream", "no successful path through the save or load function");
    auto onlyTok = [](const Guards &g) { Guards r; for (auto &x : g) if (x.first.compare(0, 4, "tok#") == 0 || x.first.compare(0, 3, "*(S") == 0 || x.first.compare(0, 4, "*(*(") == 0) r.insert(x); return r; };
    std::set<Str> said;
    for (auto &s : ps) {
      bool any = false;
      for (auto &l : pl) {
        if (!consistent(onlyTok(s.g), onlyTok(l.g))) continue;
        cx.count("path_pairs");
        any = true;
        size_t i = 0;
        while (i < s.seq.size() && i < l.seq.size() && s.seq[i] == l.seq[i]) i++;
        cx.count("items_matched", i);
        if (i == s.seq.size() && i == l.seq.size()) continue;
        Str a = i < s.seq.size() ? s.seq[i] : "(end)", b = i < l.seq.size() ? l.seq[i] : "(end)";
        if (said.insert(a + b).second)
          cx.viol("asymmetric-save-load", &FL, DebugLoc(), a + "/" + b, "item " + std::to_string(i) + " of the saved stream is " + a + " but the load function reads " + b);
      }
      if (!any) cx.viol("unloadable", &FS, DebugLoc(), "path:" + std::to_string(s.line), "a successfully saved stream has no matching load path");
    }
    // --- completeness: what the update function reads must be saved
    Creation cr; std::set<Function *> seen;
    creations(cx, fs[K_Init], cr, seen);
    bool delegated = cr.count("^");
    std::map<Str, std::set<std::pair<int64_t, Str>>> szI, szL;
    allocSizes(*fs[K_Init], szI); allocSizes(FL, szL);
    auto isHeader = [](const SLPath &p) { return p.seq.size() > 1 || (p.seq.size() == 1 && p.seq[0][0] == 'D'); };
    auto covers = [&](const SLPath &p, const Str &base, int64_t off, int64_t n) {
      for (auto &t : p.seq) {
        if (t[0] == 'D') return true;
        if (t.compare(0, 2 + base.size(), "F:" + base) != 0) continue;
        size_t c = t.rfind(':'); int64_t sz = atoll(t.c_str() + c + 1), o = 0;
        Str b = t.substr(2, c - 2);
        if (b.size() > base.size()) { if (b[base.size()] != '+') continue; o = atoll(b.c_str() + base.size() + 2); }
        if (o <= off && off + n <= o + sz) return true;
      }
      return false;
    };
    if (fs.count(K_State)) {
      gDirect = true;
      AP ap(fs[K_State]);
      typedef std::tuple<Str, int64_t, int64_t> Rd;
      std::map<Rd, DebugLoc> reads;
      std::set<Str> bases{"S"};
      for (auto &c : cr) if (c.first.find('S') != Str::npos && c.second.size() && c.second[0].type.empty() && (szI[c.first].size() && szI[c.first].begin()->second.empty())) bases.insert("*(" + c.first + ")");
      for (auto &I : instructions(*fs[K_State]))
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          if (L->getType()->isPointerTy()) continue;
          Str a = toS(ap.of(L->getPointerOperand()));
          int64_t n = cx.dl().getTypeStoreSize(L->getType());
          for (auto &b : bases) {
            if (a == b) reads[{b, 0, n}] = L->getDebugLoc();
            else if (a.compare(0, b.size() + 2, b + "+#") == 0 && a.find_first_not_of("0123456789", b.size() + 2) == Str::npos)
              reads[{b, atoll(a.c_str() + b.size() + 2), n}] = L->getDebugLoc();
          }
        }
      gDirect = false;
      for (auto &r : reads) {
        cx.count("state_fields_read");
        for (auto &p : ps) {
          auto &[b, o, n] = r.first;
          if (p.raw.count("=" + b)) continue;
          if (isHeader(p) && !covers(p, b, o, n)) {
            Str inst = (b == "S" ? Str() : b + "+") + std::to_string(o);
            cx.viol("state-not-saved", &FS, DebugLoc(), "offset:" + inst, "the update function depends on a field (offset " + inst + ", read at " + locStr(r.second) + ") that the save function does not write");
            break;
          }
        }
      }
    }
    if (delegated) continue;
    for (auto &c : cr) {
      if (c.first.empty() || c.first == "^" || c.first == "a0") continue;
      cx.count("owned_cells");
      for (auto &x : c.second) {
        for (auto &p : ps) {
          if (!isHeader(p)) continue;
          if (!consistent(p.g, x.g)) continue;
          Str content = "*(" + c.first + ")";
          bool ok = false;
          if (p.raw.count("=" + content)) ok = true;
          for (auto &t : p.seq) {
            if (t[0] == 'D') ok = true;
            if (t.compare(0, 2 + c.first.size() + 1, "N:" + c.first + ":") == 0 && (x.type.empty() || t.substr(3 + c.first.size()) == x.type)) ok = true;
            if (x.type.empty() && (t.compare(0, 2 + content.size(), "A:" + content) == 0 || t.compare(0, 2 + content.size(), "F:" + content) == 0)) {
              // the whole block, element by element
              if (t[0] == 'A' && t[2 + content.size()] == ':') {
                size_t sp = t.find(" x ");
                int64_t es = atoll(t.c_str() + 3 + content.size());
                Str n = t.substr(sp + 3);
                ok = szI[c.first].empty();
                for (auto &z : szI[c.first]) if (z.first == es) ok = true;
                for (auto &z : szI[c.first]) if (z.second.empty() && z.first % es == 0 && fs.count(K_State)) {
                  gDirect = true;
                  AP ap(fs[K_State]);
                  for (auto &I : instructions(*fs[K_State]))
                    if (auto *P = getLoadStorePointerOperand(&I))
                      if ((int64_t)cx.dl().getTypeStoreSize(getLoadStoreType(&I)) == es && toS(ap.of(P)).compare(0, content.size(), content) == 0) ok = true;
                  gDirect = false;
                }
                if (!ok) { cx.viol("partial-save", &FS, DebugLoc(), c.first, "elements of " + std::to_string(es) + " bytes are saved from a buffer with elements of another size"); ok = true; }
              } else if (t[0] == 'F' && t[2 + content.size()] == ':') {
                int64_t bytes = atoll(t.c_str() + 3 + content.size());
                ok = true;
                bool record = false; // holds other owned blocks: its fields are accounted for one by one
                for (auto &c2 : cr) if (c2.first.compare(0, content.size() + 1, content + "+") == 0) record = true;
                if (!record) for (auto &z : szI[c.first]) if (z.second.empty() && z.first != bytes) { cx.viol("partial-save", &FS, DebugLoc(), c.first, std::to_string(bytes) + " bytes are saved of a block of " + std::to_string(z.first)); }
              } else ok = true;
            }
          }
          if (!ok && x.type.empty()) // an empty block: the element count it is saved with is not positive
            for (auto &p2 : ps)
              for (auto &t : p2.seq)
                if (t.compare(0, 3 + content.size(), "A:" + content + ":") == 0) {
                  auto it = p.g.find(t.substr(t.find(" x ") + 3));
                  if (it != p.g.end() && it->second.hi <= 0) ok = true;
                }
          if (!ok && x.type.empty())
            for (auto &z : szI[c.first]) {
              auto it = p.g.find(z.second);
              if (it != p.g.end() && it->second.hi <= 0) ok = true;
            }
          if (!ok) { cx.viol("state-not-saved", &FS, DebugLoc(), c.first + (x.type.empty() ? "" : ":" + x.type), (x.type.empty() ? Str("a buffer") : "the nested " + x.type + " stream") + " the stream owns is not saved (path ending at line " + std::to_string(p.line) + ")"); goto next; }
        }
      }
    next:;
    }
    // --- a reloaded block is large enough for what is read into it
    for (auto &l : pl)
      for (auto &t : l.seq) {
        if (t[0] != 'A' && t[0] != 'F') continue;
        size_t c = t.rfind(':');
        Str a = t.substr(2, c - 2);
        if (a.compare(0, 2, "*(") != 0 || a.back() != ')') continue;
        Str cell = a.substr(2, a.size() - 3);
        cx.count("blocks_reloaded");
        if (!szL.count(cell)) { cx.viol("load-into-nothing", &FL, DebugLoc(), cell, "data is read into a block the load function did not create"); continue; }
        bool ok = false;
        for (auto &z : szL[cell]) {
          if (t[0] == 'F' && z.second.empty() && z.first >= atoll(t.c_str() + c + 1)) ok = true;
          if (t[0] == 'A') { size_t sp = t.find(" x "); if (z.first >= atoll(t.c_str() + c + 1) && !z.second.empty()) ok = true; (void)sp; }
        }
        if (!ok) cx.viol("load-overflow", &FL, DebugLoc(), cell, "more bytes are read than the block holds");
      }
  }
}
