#include "sim.h"
#include "registry.h"
#include <cmath>

// ---------------------------------------------------------------- option validation
// For every entry point that takes options: the set of values it lets through, computed
// from the path conditions up to the first use, must be the documented range plus the
// "default" marker; the marker must be replaced by the documented default before use.
namespace {
struct Iv { double lo = -INFINITY, hi = INFINITY; std::set<double> ne; };
typedef std::map<int, Iv> Box; // argument number -> interval
struct Accept {
  std::map<int, std::vector<Iv>> boxes;   // option -> accepted intervals
  struct Rej { int opt; bool rel; Iv iv; DebugLoc loc; };
  std::vector<Rej> rejects;               // rejections decided by a test of this option
  std::map<int, std::set<double>> defaults;
  std::map<int, std::pair<DebugLoc, Str>> rawUse; // used while it may still be the marker
  std::map<int, bool> real;
  bool overflow = false;
  size_t states = 0;
};
const double IDEF = INT32_MIN, RDEF = -4e37;

int opOf(ICmpInst::Predicate P) {
  switch (P) {
  case ICmpInst::ICMP_EQ: return 0; case ICmpInst::ICMP_NE: return 1; case ICmpInst::ICMP_SLT: return 2; case ICmpInst::ICMP_SLE: return 3;
  case ICmpInst::ICMP_SGT: return 4; case ICmpInst::ICMP_SGE: return 5; default: return -1;
  }
}
int opOfF(FCmpInst::Predicate P) {
  switch (P) {
  case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: return 0; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: return 1;
  case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: return 2; case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: return 3;
  case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: return 4; case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: return 5; default: return -1;
  }
}
int swapOp(int o) { static const int m[] = {0, 1, 4, 5, 2, 3}; return o < 0 ? o : m[o]; }
bool constOf(const Value *V, double &d) {
  if (auto *C = dyn_cast<ConstantInt>(V)) { if (C->getBitWidth() > 64) return false; d = C->getSExtValue(); return true; }
  if (auto *C = dyn_cast<ConstantFP>(V)) { APFloat f = C->getValueAPF(); bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); d = f.convertToDouble(); return true; }
  return false;
}
void meet(Iv &i, int op, double c, bool real) {
  // strict bounds: next integer, or next representable number
  auto up = [&](double x) { return real ? std::nextafter(x, INFINITY) : x + 1; };
  auto dn = [&](double x) { return real ? std::nextafter(x, -INFINITY) : x - 1; };
  switch (op) {
  case 0: i.lo = std::max(i.lo, c); i.hi = std::min(i.hi, c); break;
  case 1: i.ne.insert(c); break;
  case 2: i.hi = std::min(i.hi, dn(c)); break;
  case 3: i.hi = std::min(i.hi, c); break;
  case 4: i.lo = std::max(i.lo, up(c)); break;
  case 5: i.lo = std::max(i.lo, c); break;
  }
  while (i.ne.count(i.lo) && i.lo <= i.hi) { i.ne.erase(i.lo); i.lo = up(i.lo); }
  while (i.ne.count(i.hi) && i.lo <= i.hi) { i.ne.erase(i.hi); i.hi = dn(i.hi); }
}
bool has(const Iv &i, double v) { return i.lo <= v && v <= i.hi && !i.ne.count(v); }

struct Analyzer {
  Ctx &cx;
  std::map<Function *, Accept> memo;
  std::set<Function *> active;
  Analyzer(Ctx &c) : cx(c) {}
  static std::vector<int> optArgs(Function *F) {
    std::vector<int> r;
    auto ps = paramInfo(F);
    for (unsigned i = 0; i < ps.size() && i < F->arg_size(); i++)
      if (StringRef(ps[i].first).starts_with("optIn") && !F->getArg(i)->getType()->isPointerTy()) r.push_back(i);
    return r;
  }
  Accept &get(Function *F) {
    auto it = memo.find(F);
    if (it != memo.end()) return it->second;
    active.insert(F);
    Accept a = compute(F);
    active.erase(F);
    return memo[F] = a;
  }
  static const Value *strip(const SimState &S, const Value *V) {
    for (int i = 0; i < 32; i++) {
      const Value *n = resolve(S, V);
      if (auto *C = dyn_cast<CastInst>(n)) if (isa<SExtInst>(C) || isa<ZExtInst>(C) || isa<TruncInst>(C) || isa<BitCastInst>(C) || isa<FPExtInst>(C)) n = C->getOperand(0);
      if (auto *Fz = dyn_cast<FreezeInst>(n)) n = Fz->getOperand(0);
      if (n == V) return V;
      V = n;
    }
    return V;
  }
  Accept compute(Function *F) {
    Accept A;
    auto opts = optArgs(F);
    std::set<const Value *> ov;
    for (int i : opts) { ov.insert(F->getArg(i)); A.real[i] = F->getArg(i)->getType()->isFloatingPointTy(); }
    if (opts.empty()) return A;
    bool retc = returnsRetCode(F);
    int64_t BAD = rc("TA_BAD_PARAM");
    Sim sim(*F);
    // option phis (parameter replaced by its default)
    std::map<const PHINode *, int> dphi;
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &I : instructions(*F))
        if (auto *P = dyn_cast<PHINode>(&I)) {
          if (dphi.count(P)) continue;
          std::set<int> args; bool ok = true;
          for (auto &In : P->incoming_values()) {
            const Value *v = In; 
            while (auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0);
            if (auto *Ar = dyn_cast<Argument>(v)) { if (ov.count(Ar)) args.insert(Ar->getArgNo()); else ok = false; }
            else if (isa<ConstantInt>(v) || isa<ConstantFP>(v)) {}
            else if (auto *Q = dyn_cast<PHINode>(v); Q && dphi.count(Q)) args.insert(dphi[Q]);
            else ok = false;
          }
          if (ok && args.size() == 1) { dphi[P] = *args.begin(); ch = true; }
        }
    }
    for (auto &I : instructions(*F))
      if (auto *P = dyn_cast<PHINode>(&I)) {
        bool any = false;
        for (auto &In : P->incoming_values()) { const Value *v = In; while (auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); if (isa<Argument>(v)) any = true; if (auto *Q = dyn_cast<PHINode>(v)) if (dphi.count(Q)) any = true; }
        if (any || dphi.count(P)) sim.relevant.insert(P);
      }
    int cur = opts[0];
    sim.wantPhi = [&](const PHINode *P) { auto it = dphi.find(P); if (it != dphi.end()) return it->second == cur; return !P->getType()->isFloatingPointTy(); };
    DominatorTree DT(*F);
    std::set<BasicBlock *> headers;
    for (auto &B : *F) for (auto *Su : successors(&B)) if (DT.dominates(Su, &B)) headers.insert(Su);
    auto box = [&](const SimState &S) {
      Box b;
      for (int i : opts) b[i] = Iv();
      for (auto &e : S.q)
        if (e.first[0] == 'g') {
          int a = 0, op = 0; double c = 0;
          sscanf(e.first.c_str(), "g|%d|%d|%lg", &a, &op, &c);
          meet(b[a], op, c, A.real[a]);
        }
      return b;
    };
    auto accept = [&](const SimState &S, const Box &b) {
      for (auto &e : b) if (e.second.lo > e.second.hi) return;
      A.boxes[cur].push_back(b.at(cur));
      for (auto &d : dphi) {
        auto it = S.env.find(d.first);
        if (it == S.env.end()) continue;
        double c;
        if (d.second != cur) continue;
        auto bi = b.find(d.second);
        double def = A.real[d.second] ? RDEF : IDEF;
        if (bi != b.end() && bi->second.lo == bi->second.hi && bi->second.lo == def && constOf(strip(S, it->second), c)) A.defaults[d.second].insert(c);
      }
    };
    auto mayBeMarker = [&](const SimState &S, int a) {
      Iv i; bool touched = false;
      for (auto &e : S.q)
        if (e.first[0] == 'g') { int x, op; double c; sscanf(e.first.c_str(), "g|%d|%d|%lg", &x, &op, &c); if (x == a) { meet(i, op, c, A.real[a]); touched = true; } }
      (void)touched;
      return has(i, A.real[a] ? RDEF : IDEF);
    };
    auto raw = [&](const SimState &S, const Value *v, Instruction *I, const Str &how) {
      const Value *x = strip(S, v);
      if (!ov.count(x)) return;
      int a = cast<Argument>(x)->getArgNo();
      if (a != cur) return;
      if (!A.rawUse.count(a) && mayBeMarker(S, a)) A.rawUse[a] = {I->getDebugLoc(), how};
    };
    auto delegate = [&](const SimState &S, CallInst *C, Function *G, Box &b, bool &feas) {
      // values handed on: the callee's own validation applies to them
      if (active.count(G)) return;
      auto go = optArgs(G);
      if (go.empty()) return;
      Accept &GA = get(G);
      std::map<int, int> m;
      for (int g : go) {
        const Value *x = strip(S, C->getArgOperand(g));
        if (x == F->getArg(cur)) m[g] = cur;
      }
      for (auto &e : m) {
        auto it = GA.rawUse.find(e.first);
        if (it != GA.rawUse.end() && !A.rawUse.count(e.second) && mayBeMarker(S, e.second)) A.rawUse[e.second] = it->second;
        if (mayBeMarker(S, e.second)) for (double d : GA.defaults[e.first]) A.defaults[e.second].insert(d);
      }
      for (auto &e : m) {
        // union of the callee's intervals met with ours
        std::vector<Iv> parts;
        for (auto &g : GA.boxes[e.first]) {
          Iv i = b[e.second];
          meet(i, 5, g.lo, A.real[e.second]); meet(i, 3, g.hi, A.real[e.second]);
          for (double d : g.ne) i.ne.insert(d);
          meet(i, 1, 1e301, A.real[e.second]);
          if (i.lo <= i.hi) parts.push_back(i);
        }
        if (parts.empty()) { feas = false; return; }
        // keep the hull plus a separate box for the marker
        extra.clear();
        Iv main; main.lo = INFINITY; main.hi = -INFINITY; bool mk = false, any = false;
        double def = A.real[e.second] ? RDEF : IDEF;
        for (auto &p : parts) {
          if (p.lo == p.hi && p.lo == def) { mk = true; continue; }
          any = true;
          main.lo = std::min(main.lo, p.lo); main.hi = std::max(main.hi, p.hi);
        }
        if (any) b[e.second] = main;
        else { b[e.second].lo = b[e.second].hi = def; mk = false; }
        if (mk) markers.insert(e.second);
      }
    };
    auto finishDelegate = [&](const SimState &S, Box b) {
      accept(S, b);
      for (int m : markers) { Box b2 = b; double def = A.real[m] ? RDEF : IDEF; b2[m].lo = b2[m].hi = def; b2[m].ne.clear(); accept(S, b2); }
    };
    sim.onInst = [&](SimState &S, Instruction *I) {
      if (headers.count(I->getParent()) && I == I->getParent()->getFirstNonPHI()) { accept(S, box(S)); return false; }
      if (isa<DbgInfoIntrinsic>(I)) return true;
      if (isa<BinaryOperator>(I) || isa<SIToFPInst>(I) || isa<UIToFPInst>(I) || isa<UnaryOperator>(I)) { for (auto &O : I->operands()) raw(S, O, I, "used in a calculation"); return true; }
      if (auto *St = dyn_cast<StoreInst>(I)) { raw(S, St->getValueOperand(), I, "stored"); return true; }
      if (auto *C = dyn_cast<CallInst>(I)) {
        Function *G = calleeOf(C);
        if (G && G->isIntrinsic()) return true;
        if (G && isAllocFn(G)) { accept(S, box(S)); return false; }
        if (G && !G->isDeclaration() && G->getName().starts_with("TA_")) {
          if (returnsRetCode(G)) {
            Box b = box(S); bool feas = true;
            markers.clear();
            bool sets = StringRef(G->getName()).contains("_StateInit");
            (void)sets;
            delegate(S, C, G, b, feas);
            if (feas) finishDelegate(S, b);
            return false;
          }
          if (G->getName().ends_with("_Lookback")) {
            Box b = box(S); bool feas = true; markers.clear();
            delegate(S, C, G, b, feas);
            // a lookback that is returned directly validates for its caller
            bool ret = false;
            for (auto *U : C->users()) if (isa<ReturnInst>(U)) ret = true;
            if (!retc && (ret || true)) {
              if (feas) finishDelegate(S, b);
              return false;
            }
          }
          return true;
        }
        for (auto &Op : C->args()) raw(S, Op, I, "passed on");
      }
      return true;
    };
    auto lit = [&](SimState &S, int op, const Value *a, const Value *b, Instruction *T) {
      double c;
      const Value *x = strip(S, a), *y = strip(S, b);
      if (ov.count(y) && !ov.count(x)) { std::swap(x, y); op = swapOp(op); }
      if (!ov.count(x)) {
        if (isa<ConstantPointerNull>(y) || isa<ConstantPointerNull>(x)) S.q["null"] = 1;
        if (isa<Argument>(x) || isa<Argument>(y)) S.q["other"] = 1;
        return;
      }
      if (op < 0 || !constOf(y, c)) { raw(S, x, T, "compared with another value"); raw(S, y, T, "compared with another value"); if (x == F->getArg(cur) || y == F->getArg(cur)) S.q["rel"] = 1; else S.q["other"] = 1; return; }
      if (x != F->getArg(cur)) { S.q["other"] = 1; return; }
      char buf[64]; snprintf(buf, sizeof buf, "g|%u|%d|%.17g", cast<Argument>(x)->getArgNo(), op, c);
      S.q[buf] = 1;
      for (auto &e : box(S)) if (e.second.lo > e.second.hi) S.q["!dead"] = 1;
    };
    std::set<const Value *> argcmp;
    sim.onLit = [&](SimState &S, ICmpInst::Predicate P, const Value *a, const Value *b, Instruction *T) {
      S.q.erase("null"); S.q.erase("other"); S.q.erase("rel");
      lit(S, opOf(P), a, b, T);
      if (!ov.count(strip(S, a)) && !ov.count(strip(S, b))) S.q["other"] = 1;
    };
    sim.onFLit = [&](SimState &S, FCmpInst::Predicate P, const Value *a, const Value *b, Instruction *T) {
      S.q.erase("null"); S.q.erase("other"); S.q.erase("rel");
      lit(S, opOfF(P), a, b, T);
    };
    sim.onRet = [&](SimState &S, ReturnInst *R, const Value *rv) {
      auto *k = dyn_cast_or_null<ConstantInt>(rv ? strip(S, rv) : nullptr);
      bool rej = k && (retc ? k->getSExtValue() == BAD : k->getSExtValue() == -1);
      bool otherErr = k && retc && k->getSExtValue() != 0 && !rej;
      if (rej) { if (!S.q.count("other") && !S.q.count("null")) A.rejects.push_back({cur, S.q.count("rel") > 0, box(S)[cur], R->getDebugLoc()}); return; }
      if (otherErr) return;
      if (rv) raw(S, rv, R, "returned");
      accept(S, box(S));
    };
    for (int o : opts) {
      cur = o;
      sim.explored = 0;
      sim.run(SimState());
      A.overflow |= sim.overflow; A.states += sim.explored;
    }
    return A;
  }
  std::set<int> markers;
  std::vector<Box> extra;
};
Str num(double d) { char b[40]; snprintf(b, sizeof b, "%.9g", d); return b; }
} // namespace

void checkOptions(Ctx &cx) {
  auto reg = readRegistry(cx);
  auto ind = collectIndicators(cx);
  Analyzer an(cx);
  std::map<Str, FDef *> byName;
  for (auto &d : reg) byName[d.name] = &d;
  cx.count("definitions", reg.size());
  for (auto &e : ind) {
    auto it = byName.find(e.first);
    for (auto k : {K_Batch, K_Float, K_Lookback, K_Init}) {
      if (!e.second.count(k)) continue;
      Function *F = e.second[k];
      auto opts = an.optArgs(F);
      if (it == byName.end()) { cx.viol("no-definition", F, DebugLoc(), e.first, "no definition of this indicator's options in the function table"); continue; }
      FDef &d = *it->second;
      if (opts.size() != d.opt.size()) { cx.viol("option-count", F, DebugLoc(), kindName(k), "takes " + std::to_string(opts.size()) + " options, the function table describes " + std::to_string(d.opt.size())); continue; }
      if (opts.empty()) continue;
      cx.count("entry_points");
      Accept &A = an.get(F);
      cx.count("path_states", A.states);
      if (A.overflow) cx.lists["overflow"].insert(F->getName().str());
      if (A.boxes.empty()) { cx.viol("range-mismatch", F, DebugLoc(), "all", "no option values are accepted"); continue; }
      auto ps = paramInfo(F);
      for (size_t i = 0; i < opts.size(); i++) {
        OInfo &o = d.opt[i];
        int a = opts[i];
        Str nm = ps[a].first;
        cx.count("options_checked");
        bool other = false;
        for (size_t j = 0; j < d.opt.size(); j++) if (j != i && d.opt[j].name == nm) other = true;
        if (nm != o.name && other) cx.viol("option-order", F, DebugLoc(), nm, "parameter " + nm + " is described as " + o.name + " in the function table");
        double def = o.real ? RDEF : IDEF;
        std::vector<std::pair<double, double>> ivs;
        bool marker = false;
        for (auto &v : A.boxes[a]) {
          if (v.lo > v.hi) continue;
          if (v.lo <= def && def <= v.hi && !v.ne.count(def)) marker = true;
          if (v.lo == def && v.hi == def) continue;
          ivs.push_back({v.lo, v.hi});
        }
        std::sort(ivs.begin(), ivs.end());
        std::vector<std::pair<double, double>> u;
        for (auto &x : ivs) {
          if (!u.empty() && x.first <= (o.real ? std::nextafter(u.back().second, INFINITY) : u.back().second + 1)) u.back().second = std::max(u.back().second, x.second);
          else u.push_back(x);
        }
        Str acc;
        for (auto &x : u) acc += (acc.empty() ? "" : " and ") + num(x.first) + ".." + num(x.second);
        bool listOK = true;
        if (!o.list.empty()) { std::set<double> s(o.list.begin(), o.list.end()); if (s.size() != (size_t)(o.hi - o.lo + 1)) listOK = false; }
        if (!o.ok || !listOK) cx.viol("definition", F, DebugLoc(), nm, "the function table has no usable range for this option");
        else if (u.size() != 1 || u[0].first != o.lo || u[0].second != o.hi)
          cx.viol("range-mismatch", F, DebugLoc(), nm, "accepts " + (acc.empty() ? Str("nothing") : acc) + " but the documented range is " + num(o.lo) + ".." + num(o.hi));
        if (!marker) cx.viol("default-rejected", F, DebugLoc(), nm, "the \"use the default\" marker is not accepted");
        else {
          auto &ds = A.defaults[a];
          for (double x : ds) if (x != o.def) cx.viol("default-mismatch", F, DebugLoc(), nm, "the default marker is replaced by " + num(x) + " but the documented default is " + num(o.def));
          if (ds.empty() && !A.rawUse.count(a)) cx.count("default_unused");
          else if (ds.size()) cx.count("defaults_matched");
        }
        auto ru = A.rawUse.find(a);
        if (ru != A.rawUse.end()) cx.viol("default-not-substituted", F, ru->second.first, nm, nm + " is " + ru->second.second + " while it may still be the \"use the default\" marker");
        if (!o.admits(o.def)) cx.viol("definition", F, DebugLoc(), nm, "the documented default " + num(o.def) + " is outside the documented range");
      }
      for (auto &r : A.rejects)
        for (size_t i = 0; i < opts.size(); i++) {
          if (opts[i] != r.opt) continue;
          OInfo &o = d.opt[i];
          bool some = has(r.iv, o.real ? RDEF : IDEF) || std::max(r.iv.lo, o.lo) <= std::min(r.iv.hi, o.hi);
          if (some) cx.viol("in-range-rejected", F, r.loc, ps[r.opt].first, r.rel ? "documented option values are rejected depending on another value" : "documented option values are rejected");
        }
    }
  }
}
