#include "rai.h"
#include "registry.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>

// Calculations (TA_X and TA_S_X): what they write, read and report, for every range of
// positions and every admissible option.
namespace {
struct Piece { Poly P; Lin val; };
struct Job { Str ind; Kind kind; Function *F, *unrolled = nullptr; std::map<unsigned, unsigned> same; bool inPlace = false, allPairs = false, filled = false; }; // same: inputs that are also outputs
struct Calc {
  Ctx &cx;
  Indicators &ind;
  std::map<Str, FDef *> &defs;
  std::map<Function *, std::pair<Str, Kind>> &kindOf;
  json::Array viols; std::map<Str, int64_t> counts; std::set<Str> notes;
  std::set<Str> told;
  Str only;
  bool dbg = getenv("RAIDBG") != nullptr;
  std::map<Str, int64_t> gl; int64_t GS = 0, unstOff = -1, compatOff = -1, candOff = -1, candSz = 0; int64_t nUnst = 0, nCand = 0;
  GlobalVariable *gp = nullptr, *tg = nullptr;
  Calc(Ctx &c, Indicators &i, std::map<Str, FDef *> &d, std::map<Function *, std::pair<Str, Kind>> &k) : cx(c), ind(i), defs(d), kindOf(k) {
    gp = cx.M->getGlobalVariable("TA_Globals", true);
    if (!gp || !gp->hasInitializer()) { errs() << "talint: TA_Globals not found\n"; exit(3); }
    tg = dyn_cast<GlobalVariable>(gp->getInitializer()->stripPointerCasts());
    for (auto &f : structFields(findStruct(*cx.M, "TA_LibcPriv"))) { gl[f.name] = f.off; if (f.name == "unstablePeriod") { unstOff = f.off; nUnst = f.size / 4; } if (f.name == "candleSettings") { candOff = f.off; candSz = f.size; } if (f.name == "compatibility") compatOff = f.off; }
    auto cs = structFields(findStruct(*cx.M, "TA_CandleSetting"));
    int64_t sz = 0; for (auto &f : cs) sz = std::max<int64_t>(sz, f.off + f.size);
    csz = (sz + 7) / 8 * 8;
    for (auto &f : cs) if (f.name == "avgPeriod") avgOff = f.off;
  }
  int64_t csz = 24, avgOff = 8;
  static constexpr int NSTRAT = 6;
  void viol(const Str &rule, Function *F, const Instruction *I, const Str &inst, const Str &msg) {
    F = realF ? realF : F;
    int line = I && I->getDebugLoc() ? I->getDebugLoc().getLine() : 0;
    Str k = rule + F->getName().str() + std::to_string(line) + inst;
    if (cur) { cur->emplace(k, [=, this] { viol2(rule, F, I, inst, msg, k); }); return; }
    viol2(rule, F, I, inst, msg, k);
  }
  std::map<Str, std::function<void()>> *cur = nullptr;
  Function *realF = nullptr;
  void viol2(const Str &rule, Function *F, const Instruction *I, const Str &inst, const Str &msg, const Str &k) {
    int line = I && I->getDebugLoc() ? I->getDebugLoc().getLine() : 0;
    if (!told.insert(k).second) return;
    Str file = relFile(I && I->getDebugLoc() ? I->getDebugLoc()->getFilename().str() : F->getSubprogram()->getFilename().str());
    if (!line && F->getSubprogram()) line = F->getSubprogram()->getLine();
    viols.push_back(json::Object{{"rule", rule}, {"func", F->getName().str()}, {"file", file}, {"line", line}, {"instance", inst}, {"msg", msg}});
  }
  // symbols shared by an indicator's functions
  void common(Rai &A) {
    A.argVar = [&A](const Argument *a) -> int {
      auto ps = paramInfo(a->getParent());
      Str n = a->getArgNo() < ps.size() ? ps[a->getArgNo()].first : a->getName().str();
      return A.V(n);
    };
    A.onGlobalLoad = [this, &A](LoadInst *L, St &S) -> int {
      APInt off(64, 0);
      const Value *B = L->getPointerOperand()->stripAndAccumulateConstantOffsets(cx.dl(), off, true);
      bool base = B == tg;
      if (auto *BL = dyn_cast<LoadInst>(B)) base |= BL->getPointerOperand() == gp;
      if (!base) return -1;
      int64_t o = off.getSExtValue();
      if (o >= unstOff && o < unstOff + 4 * nUnst) { int v = A.V("unstablePeriod[" + std::to_string((o - unstOff) / 4) + "]"); S.P.addGe(Lin::var(v)); return v; }
      if (o == compatOff) { int v = A.V("compatibility"); S.P.addGe(Lin::var(v)); S.P.addGe(Lin(1) - Lin::var(v)); return v; }
      if (o >= candOff && o < candOff + candSz) {
        int64_t k = (o - candOff) / csz, f = (o - candOff) % csz;
        int v = A.V("candle[" + std::to_string(k) + "]." + std::to_string(f));
        if (f == avgOff) { S.P.addGe(Lin::var(v)); }
        return v;
      }
      return -1;
    };
  }
  void optionRanges(Rai &A, Function &F, const FDef &d, St &S) {
    Poly &P = S.P;
    auto ps = paramInfo(&F);
    int k = 0;
    for (unsigned i = 0; i < ps.size() && i < F.arg_size(); i++) {
      if (!StringRef(ps[i].first).starts_with("optIn") || F.getArg(i)->getType()->isPointerTy()) continue;
      if (k >= (int)d.opt.size()) break;
      auto &o = d.opt[k++];
      if (!F.getArg(i)->getType()->isIntegerTy()) { if (F.getArg(i)->getType()->isFloatingPointTy()) S.fl[F.getArg(i)] = FI{(double)o.lo, (double)o.hi}; continue; }
      int v = A.V(ps[i].first);
      if (!o.list.empty()) { P.addGe(Lin::var(v) - Lin((int64_t)o.list.front())); P.addGe(Lin((int64_t)o.list.back()) - Lin::var(v)); }
      else { P.addGe(Lin::var(v) - Lin((int64_t)o.lo)); P.addGe(Lin((int64_t)o.hi) - Lin::var(v)); }
    }
  }
  // canonical name of a lookback used inside another function
  int lookSym(Rai &A, St &S, Function *G, const std::vector<Lin> &args, const std::vector<Str> &extra) {
    Str n = "lookback " + G->getName().drop_front(3).drop_back(9).str() + "(";
    bool ok = true;
    for (size_t i = 0; i < args.size(); i++) {
      if (i) n += ", ";
      if (args[i].bad) { n += extra[i]; if (extra[i].empty()) ok = false; continue; }
      int64_t sc; Lin r = S.P.reduce(args[i], &sc);
      if (sc != 1) ok = false;
      for (auto &x : r.t) if (!A.canonical.count(x.first)) ok = false;
      n += A.show(r);
    }
    n += ")";
    if (!ok) return -1;
    int v = A.V(n);
    S.P.addGe(Lin::var(v));
    return v;
  }
  static Str canonArg(const Value *v) { // a non-integer argument passed through
    for (int i = 0; i < 16; i++) {
      if (auto *A = dyn_cast<Argument>(v)) { auto ps = paramInfo(A->getParent()); return A->getArgNo() < ps.size() ? ps[A->getArgNo()].first : A->getName().str(); }
      if (auto *C = dyn_cast<CastInst>(v)) { v = C->getOperand(0); continue; }
      if (auto *P = dyn_cast<PHINode>(v)) { const Value *a = nullptr; for (auto &x : P->incoming_values()) if (!isa<Constant>(x)) { if (a && a != x) return ""; a = x; } if (!a) return ""; v = a; continue; }
      if (auto *C = dyn_cast<ConstantFP>(v)) { SmallString<32> s; C->getValueAPF().toString(s); return s.str().str(); }
      break;
    }
    return "";
  }
  std::vector<Piece> lookback(Function *L, const FDef &d, std::vector<Str> &names, Rai &A) {
    std::vector<Piece> r;
    common(A);
    A.noJoin = true;
    Function *self = L;
    A.onCall = [&, self](std::vector<St> &Ss, CallInst *C, Function *G) { return callLookback(A, Ss, C, G); };
    A.onReturn = [&](St &S, const ReturnInst *R, const Lin &v) {
      if (!A.report) return;
      Piece p; p.P = S.P; p.val = v;
      int t = A.V("result"); p.P.addEq(Lin::var(t) - v); A.canonical.insert(t);
      p.P.keep([&](int x) { return A.canonical.count(x) > 0; });
      int64_t sc; 
      // the value over the shared symbols
      if (p.P.eq.count(t)) { Lin row = p.P.eq[t]; int64_t c = row.coef(t); if (c == 1 || c == -1) { Lin rest = row - Lin::var(t) * c; p.val = rest * (c == 1 ? -1 : 1); p.P.eq.erase(t); } else p.val = Lin::none(); }
      else { p.val = Lin::none(); for (auto &g : p.P.ge) if (g.coef(t)) {} }
      r.push_back(p);
    };
    St s; optionRanges(A, *L, d, s);
    A.run({s});
    return r;
  }
  bool callLookback(Rai &A, std::vector<St> &Ss, CallInst *C, Function *G) {
    if (!G || !G->getName().starts_with("TA_") || !G->getName().ends_with("_Lookback")) return false;
    for (auto &S : Ss) {
      std::vector<Lin> as; std::vector<Str> exx;
      for (auto &a : C->args()) { as.push_back(a->getType()->isIntegerTy() ? A.ex(a) : Lin::none()); exx.push_back(canonArg(a)); }
      int v = lookSym(A, S, G, as, exx);
      A.set(S, A.sv(C), v >= 0 ? Lin::var(v) : Lin::none());
      if (v >= 0) monoFacts(A, S);
      if (v < 0) S.P.addGe(Lin::var(A.sv(C)));
    }
    return true;
  }
  // a nested calculation
  bool callCalc(Rai &A, std::vector<St> &Ss, CallInst *C, Function *G, Function &F) {
    auto it = kindOf.find(G);
    if (it == kindOf.end() || (it->second.second != K_Batch && it->second.second != K_Float)) return false;
    Function *L = ind[it->second.first][K_Lookback];
    auto ps = paramInfo(G), lp = paramInfo(L);
    std::map<Str, const Value *> an;
    for (unsigned i = 0; i < ps.size() && i < C->arg_size(); i++) an[ps[i].first] = C->getArgOperand(i);
    std::vector<St> out;
    if (!an.count("startIdx") || !an.count("endIdx") || !an.count("outBegIdx") || !an.count("outNBElement")) return false;
    for (auto &S0 : Ss) {
      St S = S0;
      Lin s = A.ex(an["startIdx"]), e = A.ex(an["endIdx"]);
      std::vector<Lin> as; std::vector<Str> exx;
      for (auto &q : lp) { const Value *v = an.count(q.first) ? an[q.first] : nullptr; as.push_back(v && v->getType()->isIntegerTy() ? A.ex(v) : Lin::none()); exx.push_back(v ? canonArg(v) : ""); }
      Lin l = lookbackOf(A, S, L, as, exx, C);
      PtrV pb = A.pv(S, an["outBegIdx"]), pn = A.pv(S, an["outNBElement"]);
      auto finish = [&](St x, const Lin &b, const Lin &n, const Lin &rv, const Str &tag) {
        auto put = [&](PtrV p, const Lin &v, int which) {
          for (auto i = x.cell.begin(); i != x.cell.end();) if (i->first.first == p.r) i = x.cell.erase(i); else ++i;
          if (p.r <= 0 || !p.off.isConst()) return;
          int nvv; auto k = std::make_pair((const Value *)C, which); auto j = outv.find(k);
          if (j == outv.end()) nvv = outv[k] = A.nv(which ? "callNb" : "callBeg"); else nvv = j->second;
          for (auto i = x.cell.begin(); i != x.cell.end();) if (i->second.coef(nvv)) i = x.cell.erase(i); else ++i;
          A.set(x, nvv, v);
          x.cell[{p.r, p.off.k}] = Lin::var(nvv);
        };
        put(pb, b, 0); put(pn, n, 1);
        A.set(x, A.sv(C), rv);
        if (rv.bad) x.P.addGe(Lin::var(A.sv(C)) - Lin(1));
        if (tag == "f") { for (auto i = x.tag.begin(); i != x.tag.end();) if (i->first[0] == 'c') i = x.tag.erase(i); else ++i; x.tag["F"] = "1"; }
        else x.tag["c" + valueTag(C)] = tag;
        if (!x.P.bottom && !x.P.empty()) out.push_back(x);
      };
      // refused or failing
      { St x = S; finish(x, Lin::none(), Lin::none(), Lin::none(), "f"); }
      St ok = S;
      ok.P.addGe(s); ok.P.addGe(e - s);
      if (ok.P.bottom || ok.P.empty()) continue;
      // what the callee reads and writes
      Lin end = e + Lin(1);
      auto gps = paramInfo(G);
      for (unsigned i = 0; i < gps.size() && i < C->arg_size(); i++) {
        if (!C->getArgOperand(i)->getType()->isPointerTy()) continue;
        StringRef nm = gps[i].first;
        PtrV p = A.pv(ok, C->getArgOperand(i));
        int es = elemSize(gps[i].second);
        if (nm.starts_with("in")) { if (A.onAccess) A.onAccess(ok, C, p, -2, false, end * es); }
        if (inPlace && nm.starts_with("in")) for (unsigned k = 0; k < gps.size() && k < C->arg_size(); k++) { // the callee allows its result to replace an input, position by position
          StringRef on = gps[k].first;
          if (!on.starts_with("out") || on == "outBegIdx" || on == "outNBElement") continue;
          PtrV q = A.pv(ok, C->getArgOperand(k));
          if (p.r < 0 || q.r < 0 || !coincide(p.r, q.r)) continue;
          if (A.report) counts["shared_calls"]++;
          if (!p.off.bad && !q.off.bad && ok.P.entailsGe(p.off - q.off) && elemSize(gps[k].second) == es) continue;
          if (A.report) viol("in-place", realF, C, Str(G->getName()), "passes " + G->getName().str() + " an input and an output that overlap otherwise than position by position");
        }
      }
      auto reads = [&](St &x, const Lin &low) {
        if (!inPlace) return;
        for (unsigned i = 0; i < gps.size() && i < C->arg_size(); i++) if (StringRef(gps[i].first).starts_with("in") && C->getArgOperand(i)->getType()->isPointerTy()) { PtrV p = A.pv(x, C->getArgOperand(i)); placeRead(A, x, C, p, low.bad || p.off.bad ? p.off : p.off + low * elemSize(gps[i].second)); }
      };
      auto writes = [&](St &x, const Lin &n, bool exact = true) {
        for (unsigned i = 0; i < gps.size() && i < C->arg_size(); i++) {
          if (!C->getArgOperand(i)->getType()->isPointerTy()) continue;
          StringRef nm = gps[i].first;
          if (!nm.starts_with("out") || nm == "outBegIdx" || nm == "outNBElement") continue;
          PtrV p = A.pv(x, C->getArgOperand(i));
          if (filled) { fillWrite(A, x, C, p, exact ? n * elemSize(gps[i].second) : Lin::none()); continue; }
          if (A.onAccess) A.onAccess(x, C, p, -2, true, n * elemSize(gps[i].second));
        }
      };
      { St x = ok; if (!l.bad) x.P.addGe(s - l); if (!x.P.bottom && !x.P.empty()) { Lin n = l.bad ? Lin::none() : e - s + Lin(1); reads(x, l.bad ? Lin(0) : s - l); writes(x, e - s + Lin(1), !l.bad); finish(x, l.bad ? Lin::none() : s, n, Lin(0), "a"); } }
      if (l.bad) continue;
      { St x = ok; x.P.addGe(l - s - Lin(1)); x.P.addGe(e - l); if (!x.P.bottom && !x.P.empty()) { reads(x, Lin(0)); writes(x, e - l + Lin(1)); finish(x, l, e - l + Lin(1), Lin(0), "b"); } }
      { St x = ok; x.P.addGe(l - s - Lin(1)); x.P.addGe(l - e - Lin(1)); if (!x.P.bottom && !x.P.empty()) finish(x, Lin(0), Lin(0), Lin(0), "c"); }
    }
    Ss = out;
    return true;
  }
  std::map<std::pair<const Value *, int>, int> outv;
  // arrays that are both input and output: what has been written of each output
  struct Shared { int in, out, cell; };
  std::vector<Shared> shared; std::map<int, int> writtenCell; bool inPlace = false;
  bool coincide(int a, int b) { if (a == b) return true; for (auto &x : shared) if ((x.in == a && x.out == b) || (x.in == b && x.out == a)) return true; return false; }
  void placeRead(Rai &A, St &S, const Instruction *I, const PtrV &p, const Lin &low) {
    for (auto &x : shared) {
      if (x.in != p.r) continue;
      if (A.report) counts["shared_reads"]++;
      auto c = S.cell.find({x.cell, 0});
      if (c != S.cell.end() && !c->second.bad && !low.bad && (S.P.entailsGe(low - c->second) || S.P.entailsEq(c->second))) continue;
      if (!A.report) continue;
      if (dbg) errs() << *I << "\n  reads " << A.show(low) << " written " << (c == S.cell.end() ? Str("?") : A.show(c->second)) << "\n  " << A.show(S.P) << "\n";
      viol("in-place", realF, I, A.R[x.in].name + "=" + A.R[x.out].name, "when " + A.R[x.in].name + " and " + A.R[x.out].name + " are one array, it may read a position of it after having written its result there");
    }
  }
  // how far, from its beginning, each output has been set
  std::map<int, int> fillCell; bool filled = false;
  int fillOf(Rai &A, int r) {
    auto i = fillCell.find(r); if (i != fillCell.end()) return i->second;
    Region g; g.k = Region::Local; g.name = "set part of " + A.R[r].name; g.sized = true; g.size = Lin(8);
    A.R.push_back(g); return fillCell[r] = A.R.size() - 1;
  }
  void setFill(Rai &A, St &S, const Instruction *I, int c, const Lin &e) {
    if (e.isConst()) { S.cell[{c, 0}] = e; return; }
    int v; auto k = std::make_pair((const Value *)I, 10000 + c); auto j = outv.find(k);
    if (j == outv.end()) v = outv[k] = A.nv("set"); else v = j->second;
    Lin was = Lin::var(v); int v2 = -1;
    auto o = S.cell.find({c, 0}); bool own = o != S.cell.end() && o->second.coef(v);
    for (auto i = S.cell.begin(); i != S.cell.end();) if (i->second.coef(v) && i->first.first != c) i = S.cell.erase(i); else ++i;
    (void)was; (void)v2; (void)own;
    A.set(S, v, e);
    S.cell[{c, 0}] = Lin::var(v);
  }
  void fillWrite(Rai &A, St &S, const Instruction *I, const PtrV &p, const Lin &len) {
    auto w = fillCell.find(p.r); if (w == fillCell.end() || p.off.bad || len.bad) return;
    auto c = S.cell.find({w->second, 0}); if (c == S.cell.end() || c->second.bad) return;
    Lin W = c->second, e = p.off + len;
    if (!S.P.entailsGe(W - p.off) || !S.P.entailsGe(p.off)) return; // not adjoining: what was known stays true
    if (S.P.entailsGe(W - e) || !S.P.entailsGe(e - W)) return;
    setFill(A, S, I, w->second, e);
  }
  void fillRead(Rai &A, St &S, const Instruction *I, const PtrV &p, const Lin &len) {
    auto w = fillCell.find(p.r); if (w == fillCell.end() || !A.report) return;
    counts["buffer_reads"]++;
    auto c = S.cell.find({w->second, 0});
    if (c != S.cell.end() && !c->second.bad && !p.off.bad && !len.bad && (S.P.entailsGe(c->second - p.off - len) || S.P.entailsGe(len * -1))) return;
    if (dbg) errs() << *I << "\n  reads " << A.show(p.off) << " set " << (c == S.cell.end() ? Str("?") : A.show(c->second)) << "\n  " << A.show(S.P) << "\n";
    viol("unset", realF, I, A.R[p.r].name, "may use a position of " + A.R[p.r].name + " that has not been set");
  }
  void placeWrite(Rai &A, St &S, const Instruction *I, const PtrV &p, const Lin &len) {
    auto w = writtenCell.find(p.r); if (w == writtenCell.end()) return;
    auto c = S.cell.find({w->second, 0});
    if (c == S.cell.end()) return;
    if (p.off.bad || len.bad) { S.cell.erase(c); return; }
    Lin e = p.off + len, W = c->second;
    if (S.P.entailsGe(W - e)) return;
    bool above = S.P.entailsGe(e - W);
    int v; auto k = std::make_pair((const Value *)I, 100 + w->second); auto j = outv.find(k);
    if (j == outv.end()) v = outv[k] = A.nv("written"); else v = j->second;
    if (W.coef(v)) { // the count itself is what changes
      int v2; auto k2 = std::make_pair((const Value *)I, 1000 + w->second); auto j2 = outv.find(k2);
      if (j2 == outv.end()) v2 = outv[k2] = A.nv("writtenBefore"); else v2 = j2->second;
      A.set(S, v2, Lin::var(v)); W = W + (Lin::var(v2) - Lin::var(v)) * W.coef(v);
    }
    for (auto i = S.cell.begin(); i != S.cell.end();) if (i->second.coef(v)) i = S.cell.erase(i); else ++i;
    if (above) A.set(S, v, e);
    else { A.set(S, v, Lin::none()); S.P.addGe(Lin::var(v) - e); S.P.addGe(Lin::var(v) - W); }
    S.cell[{w->second, 0}] = Lin::var(v);
  }
  // value of a nested lookback: its formula when there is only one, else a symbol
  Lin lookbackOf(Rai &A, St &S, Function *L, const std::vector<Lin> &args, const std::vector<Str> &exx, const Value *site) {
    // try the formula
    auto &ps = pieces(L);
    auto lp = paramInfo(L);
    std::map<Str, Lin> bind;
    for (size_t i = 0; i < lp.size() && i < args.size(); i++) bind[lp[i].first] = args[i];
    auto conv = [&](const Lin &e, bool &ok) {
      Lin r(e.k); 
      for (auto &x : e.t) {
        Str n = lookNames[L][x.first];
        auto b = bind.find(n);
        if (b != bind.end()) r = r + b->second * x.second;
        else if (StringRef(n).starts_with("lookback ")) {
          // nested symbol: rename its arguments when they are plain
          Str m = rename(A, S, n, bind, ok);
          if (!ok) return Lin::none();
          int v = A.V(m); S.P.addGe(Lin::var(v)); r = r + Lin::var(v) * x.second;
        } else { int v = A.V(n); if (StringRef(n).starts_with("unstable") || StringRef(n).contains(".")) { if (StringRef(n).starts_with("unstable")) S.P.addGe(Lin::var(v)); } r = r + Lin::var(v) * x.second; }
      }
      return r;
    };
    std::vector<Lin> fits;
    for (auto &p : ps) {
      if (p.val.bad) { fits.clear(); fits.push_back(Lin::none()); break; }
      Poly q = S.P; bool ok = true;
      for (auto &c : p.P.all()) { bool o = true; Lin m = conv(c, o); if (o && !m.bad) q.addGe(m); }
      if (q.bottom || q.empty()) continue;
      Lin v = conv(p.val, ok);
      if (!ok) v = Lin::none();
      bool dup = false; for (auto &f : fits) dup |= f == v;
      if (!dup) fits.push_back(v);
    }
    if (fits.size() == 1 && !fits[0].bad) return fits[0];
    int v = lookSym(A, S, L, args, exx);
    if (v >= 0) { monoFacts(A, S); return Lin::var(v); }
    auto k = std::make_pair(site, 2); int nvv; auto j = outv.find(k);
    if (j == outv.end()) nvv = outv[k] = A.nv("lookback"); else nvv = j->second;
    S.P.forget(nvv); S.P.addGe(Lin::var(nvv));
    return Lin::var(nvv);
  }
  // Does the lookback never fall when parameter i grows, the others being equal? Decided on its pieces.
  std::map<std::pair<Function *, int>, bool> monoMemo;
  bool monotoneIn(Function *L, unsigned i) {
    auto k = std::make_pair(L, (int)i); auto m = monoMemo.find(k);
    if (m != monoMemo.end()) return m->second;
    auto lp = paramInfo(L);
    bool ok = i < lp.size();
    auto ps = pieces(L);
    int pv = -1, top = 0;
    for (auto &n : lookNames[L]) { if (ok && n.second == lp[i].first) pv = n.first; top = std::max(top, n.first + 1); if (StringRef(n.second).starts_with("lookback ")) ok = false; }
    if (pv < 0) ok = false;
    for (auto &p : ps) for (auto &x : p.val.t) top = std::max(top, x.first + 1);
    for (auto &p : ps) for (auto &x : p.P.vars()) top = std::max(top, x + 1);
    for (auto &p : ps) { if (!ok) break; if (p.val.bad) { ok = false; break; }
      for (auto &q : ps) {
        if (q.val.bad) { ok = false; break; }
        Poly a = p.P;
        for (auto &c : q.P.all()) a.addGe(c.coef(pv) ? c - Lin::var(pv) * c.coef(pv) + Lin::var(top) * c.coef(pv) : c);
        a.addGe(Lin::var(top) - Lin::var(pv));
        if (a.bottom || a.empty()) continue;
        Lin v2 = q.val - Lin::var(pv) * q.val.coef(pv) + Lin::var(top) * q.val.coef(pv);
        if (!a.entailsGe(v2 - p.val)) { ok = false; break; }
      } }
    return monoMemo[k] = ok;
  }
  // the arguments named in a lookback symbol, over the shared symbols
  bool argsOf(Rai &A, const Str &n, std::vector<Lin> &as) {
    size_t o = n.find('('); Str body = n.substr(o + 1, n.size() - o - 2);
    if (body.find('(') != Str::npos || body.find('.') != Str::npos) return false;
    SmallVector<StringRef> parts; StringRef(body).split(parts, ", ");
    for (auto p : parts) {
      Lin l; int sign = 1; SmallVector<StringRef> tk; p.split(tk, ' ', -1, false);
      for (auto t : tk) {
        if (t == "+") { sign = 1; continue; } if (t == "-") { sign = -1; continue; }
        int64_t c = 1, k; StringRef v = t;
        if (!t.getAsInteger(10, k)) { l = l + Lin(k * sign); sign = 1; continue; }
        auto st = t.split('*'); if (!st.second.empty()) { if (st.first.getAsInteger(10, c)) return false; v = st.second; }
        auto i = A.named.find(v.str()); if (i == A.named.end()) return false;
        l = l + Lin::var(i->second) * (c * sign); sign = 1;
      }
      as.push_back(l);
    }
    return true;
  }
  void monoFacts(Rai &A, St &S) {
    std::vector<std::pair<Str, int>> sy;
    for (auto &n : A.named) if (StringRef(n.first).starts_with("lookback ")) sy.push_back(n);
    for (auto &x : sy) {
      Str nm = x.first.substr(9, x.first.find('(') - 9);
      if (!ind.count(nm) || !ind[nm].count(K_Lookback)) continue;
      Function *L = ind[nm][K_Lookback];
      std::vector<Lin> xa; if (!argsOf(A, x.first, xa)) continue;
      for (auto &y : sy) if (x.second != y.second && y.first.substr(9, y.first.find('(') - 9) == nm) {
        std::vector<Lin> ya; if (!argsOf(A, y.first, ya) || xa.size() != ya.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < xa.size() && ok; i++) ok = S.P.entailsEq(xa[i] - ya[i]) || (S.P.entailsGe(ya[i] - xa[i]) && monotoneIn(L, i));
        if (ok) { Lin g = Lin::var(y.second) - Lin::var(x.second); if (!S.P.entailsGe(g)) { S.P.addGe(g); if (S.facts.size() < 40) S.facts.insert(g); } }
      }
    }
  }
  Str rename(Rai &A, St &S, const Str &n, std::map<Str, Lin> &bind, bool &ok) {
    size_t o = n.find('(');
    Str head = n.substr(0, o + 1), body = n.substr(o + 1, n.size() - o - 2), r = head;
    size_t i = 0; bool first = true;
    while (i <= body.size() && !body.empty()) {
      size_t j = body.find(", ", i); if (j == Str::npos) j = body.size();
      Str a = body.substr(i, j - i);
      if (!first) r += ", "; first = false;
      auto b = bind.find(a);
      if (b != bind.end()) { if (b->second.bad) { r += a; } else { int64_t sc; Lin l = S.P.reduce(b->second, &sc); if (sc != 1) ok = false; for (auto &x : l.t) if (!A.canonical.count(x.first)) ok = false; r += A.show(l); } }
      else if (a.find("opt") != Str::npos) { ok = false; r += a; }
      else r += a;
      i = j + 2;
    }
    return r + ")";
  }
  std::map<Function *, std::vector<Piece>> pieceMemo; std::map<Function *, std::map<int, Str>> lookNames;
  std::vector<Piece> &pieces(Function *L) {
    auto i = pieceMemo.find(L);
    if (i != pieceMemo.end()) return i->second;
    auto k = kindOf.find(L);
    Rai A(cx, *L); std::vector<Str> nm;
    auto r = lookback(L, *defs[k->second.first], nm, A);
    for (auto &e : A.named) lookNames[L][e.second] = e.first;
    return pieceMemo[L] = r;
  }
  static int elemSize(const DIType *T) {
    T = stripTypedef(T);
    if (auto *D = dyn_cast_or_null<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_pointer_type) { auto *e = stripTypedef(D->getBaseType()); if (e && e->getSizeInBits()) return e->getSizeInBits() / 8; }
    return 8;
  }
  // tests of one setting or option against a constant: each outcome is a case of its own
  struct Test { Str x, y; int64_t k; bool operator==(const Test &o) const { return x == o.x && y == o.y && k == o.k; } };
  std::vector<Test> testsOf(Function &F, const std::function<int(Rai &, const Argument *)> &av = nullptr) {
    std::vector<Test> tests;
    {
      Rai A0(cx, F); common(A0);
      if (av) A0.argVar = [&](const Argument *a) { return av(A0, a); };
      auto nameOf = [&](const Value *v) -> Str {
        Str nm;
        for (int i = 0; i < 4; i++) if (auto *P = dyn_cast<PHINode>(v)) { const Value *a = nullptr; bool one = true; for (auto &x : P->incoming_values()) if (!isa<Constant>(x)) { one &= !a || a == x; a = x; } if (!a || !one) break; v = a; } // the default marker is outside the range
        if (auto *L = dyn_cast<LoadInst>(v)) { St s0; int x = A0.onGlobalLoad(const_cast<LoadInst *>(L), s0); if (x >= 0) nm = A0.vname[x]; }
        else if (auto *a = dyn_cast<Argument>(v)) if (a->getType()->isIntegerTy()) nm = A0.vname[A0.argVar(a)];
        if (nm == "startIdx" || nm == "endIdx" || StringRef(nm).starts_with("candle")) nm.clear();
        return nm;
      };
      for (auto &I : instructions(F)) if (auto *C = dyn_cast<ICmpInst>(&I)) {
        Test t; t.k = 0; t.x = nameOf(C->getOperand(0)); if (t.x.empty()) continue;
        if (auto *k = dyn_cast<ConstantInt>(C->getOperand(1))) { if (!C->isEquality()) continue; t.k = k->getSExtValue(); if (t.k < -1000000) continue; }
        else { t.y = nameOf(C->getOperand(1)); if (t.y.empty()) continue; }
        if (std::find(tests.begin(), tests.end(), t) == tests.end() && tests.size() < 3) tests.push_back(t);
      }
    }
    return tests;
  }
  void run(const Job &j) {
    Function &F = *j.F; realF = j.F;
    FDef &d = *defs[j.ind];
    auto &ps = pieces(ind[j.ind][K_Lookback]);
    Function *L = ind[j.ind][K_Lookback];
    counts["functions"]++;
    counts["lookback_cases"] += ps.size();
    for (auto &p : ps) if (p.val.bad) notes.insert("lookback of " + j.ind + " has no closed form");
    auto params = paramInfo(&F);
    auto tests = testsOf(F);
    if (j.inPlace && j.unrolled && tests.empty() && ps.size() > 2) { // a few options that are put in order: a case per order
      std::vector<Str> os; for (unsigned i = 0; i < params.size() && i < F.arg_size(); i++) if (StringRef(params[i].first).starts_with("optIn") && F.getArg(i)->getType()->isIntegerTy()) os.push_back(params[i].first);
      if (os.size() == 3) for (int a = 0; a < 3; a++) for (int b = a + 1; b < 3; b++) tests.push_back({os[a], os[b], 0});
    }
    int combos = 1; for (size_t i = 0; i < tests.size(); i++) combos *= 3;
    for (auto &p : ps) {
      if (p.val.bad) continue;
      for (int cse0 = 0; cse0 < 3 * combos; cse0++) {
        int cse = cse0 % 3;
        if ((j.inPlace || j.filled) && cse == 2) continue;
        // every strategy is sound: an obligation is open only when none of them discharges it
        std::map<Str, std::function<void()>> openObl;
        for (int at = getenv("RAISTRAT") ? atoi(getenv("RAISTRAT")) : 0; at < NSTRAT; at++) {
        bool first4 = j.inPlace && j.unrolled && !getenv("RAISTRAT");
        int strat = !first4 ? at : at == 0 ? 4 : at <= 4 ? at - 1 : at;
        if (strat == 4 && !j.unrolled) continue;
        Function &F = strat == 4 ? *j.unrolled : *j.F;
        std::map<Str, std::function<void()>> mine; cur = &mine;
        struct Done { Calc *c; ~Done() { c->cur = nullptr; } } done{this};
        Rai A(cx, F);
        A.strategy = strat; A.peel = j.filled;
        outv.clear();
        common(A);
        inPlace = j.inPlace; filled = j.filled; shared.clear(); writtenCell.clear(); fillCell.clear();
        A.debug = dbg && !only.empty();
        int vs = A.V("startIdx"), ve = A.V("endIdx");
        St s;
        optionRanges(A, F, d, s);
        // the lookback's case, over this function's symbols
        auto tr = [&](const Lin &l) { Lin r(l.k); for (auto &x : l.t) r = r + Lin::var(A.V(lookNames[L][x.first])) * x.second; return r; };
        for (auto &c : p.P.all()) s.P.addGe(tr(c));
        Lin lb = tr(p.val), st = Lin::var(vs), en = Lin::var(ve), n, beg;
        if (cse == 0) { s.P.addGe(st - lb); n = en - st + Lin(1); beg = st; }
        else if (cse == 1) { s.P.addGe(lb - st - Lin(1)); s.P.addGe(en - lb); n = en - lb + Lin(1); beg = lb; }
        else { s.P.addGe(lb - st - Lin(1)); s.P.addGe(lb - en - Lin(1)); n = Lin(0); beg = Lin(0); }
        { int z = cse0 / 3; for (auto &t : tests) { Lin x = Lin::var(A.V(t.x)) - (t.y.empty() ? Lin(t.k) : Lin::var(A.V(t.y))); int w = z % 3; z /= 3; if (w == 0) s.P.addEq(x); else if (w == 1) s.P.addGe(x - Lin(1)); else s.P.addGe(x * -1 - Lin(1)); } }
        for (auto &nm : A.named) if (StringRef(nm.first).starts_with("unstablePeriod") || nm.first == "compatibility") s.P.addGe(Lin::var(nm.second));
        if (s.P.bottom || s.P.empty()) break;
        if (at == 0) counts["cases"]++; else counts["retries"]++;
        // regions
        int rb = -1, rn = -1;
        for (unsigned i = 0; i < params.size() && i < F.arg_size(); i++) {
          if (!F.getArg(i)->getType()->isPointerTy()) continue;
          int r = A.region(F.getArg(i));
          auto &g = A.R[r];
          g.k = Region::Arg; g.name = params[i].first; g.arg = i; g.sized = true; g.elem = elemSize(params[i].second);
          StringRef nm = params[i].first;
          if (nm == "outBegIdx" || nm == "outNBElement") { g.meta = true; g.size = Lin(4); s.status[r] = 'n'; (nm == "outBegIdx" ? rb : rn) = r; }
          else if (nm.starts_with("out")) { g.out = true; g.size = n * g.elem; }
          else { g.in = true; g.size = (en + Lin(1)) * g.elem; }
        }
        if (inPlace || filled) {
          std::vector<int> is, os;
          for (unsigned i = 0; i < params.size() && i < F.arg_size(); i++) if (F.getArg(i)->getType()->isPointerTy()) { int r = A.region(F.getArg(i)); if (A.R[r].meta || A.R[r].elem != 8) continue; (A.R[r].in ? is : os).push_back(r); }
          auto rel = [&](int a, int b, bool eq) { s.tag["a" + std::to_string(std::min(a, b)) + "=" + std::to_string(std::max(a, b))] = eq ? "1" : "0"; };
          for (int o : os) {
            if (inPlace) {
              Region g; g.k = Region::Local; g.name = "written of " + A.R[o].name; g.sized = true; g.size = Lin(8);
              A.R.push_back(g); writtenCell[o] = A.R.size() - 1; s.cell[{writtenCell[o], 0}] = Lin(0);
            }
            for (int q : os) if (q < o) rel(q, o, false);
            for (int i : is) { bool eq = j.same.count(A.R[i].arg) && j.same.at(A.R[i].arg) == (unsigned)A.R[o].arg; if (!j.allPairs) rel(i, o, eq); if (inPlace && (eq || j.allPairs)) shared.push_back({i, o, writtenCell[o]}); }
          }
          for (int i : is) for (int i2 : is) if (i < i2) { auto a = j.same.find(A.R[i].arg), b = j.same.find(A.R[i2].arg); if (a != j.same.end() && b != j.same.end()) rel(i, i2, a->second == b->second); }
        }
        if (filled) {
          for (unsigned i = 0; i < params.size() && i < F.arg_size(); i++) if (F.getArg(i)->getType()->isPointerTy()) { int r = A.region(F.getArg(i)); if (A.R[r].out) s.cell[{fillOf(A, r), 0}] = Lin(0); }
        }
        A.complain = [&](const Instruction *I, const Str &rule, const Str &inst, const Str &msg) { if (A.report && !inPlace && !filled) viol(rule, &F, I, inst, msg); };
        A.onAccess = [&](St &S, const Instruction *I, const PtrV &p, int64_t sz, bool store, const Lin &len) {
          if (filled) {
            if (A.report) { counts["accesses"]++; if (p.r < 0) viol("unset", &F, I, "pointer", "an access through a pointer that cannot be traced"); }
            if (store) fillWrite(A, S, I, p, len); else fillRead(A, S, I, p, len);
            return;
          }
          if (inPlace) {
            if (!store && sz != -2) placeRead(A, S, I, p, p.off);
            if (store) placeWrite(A, S, I, p, len);
            if (A.report) { counts["accesses"]++; if (p.r < 0) viol("in-place", &F, I, "pointer", "an access through a pointer that cannot be traced"); }
            return;
          }
          if (!A.report) return;
          counts["accesses"]++;
          if (p.r < 0) { counts["unresolved"]++; viol("unresolved", &F, I, "pointer", "an access through a pointer that cannot be traced"); return; }
          auto &g = A.R[p.r];
          if (p.r == 0) { viol("null", &F, I, "NULL", "uses a NULL pointer"); return; }
          if (g.k == Region::Global) { if (!(p.off.isConst() && p.off.k >= 0)) counts["global_indexed"]++; return; }
          if (g.k == Region::Arg && !(S.status.count(p.r) && S.status[p.r] == 'n') ) viol("null-argument", &F, I, g.name, g.name + " is used without having been checked for NULL");
          if (g.k == Region::Heap && !(S.status.count(p.r) && S.status[p.r] == 'L')) viol("freed", &F, I, g.name, "uses a buffer after its release");
          if (store && g.in) viol("input-written", &F, I, g.name, "writes to the input " + g.name);
          if (g.k == Region::Arg && !g.meta && !(S.P.entailsGe(st) && S.P.entailsGe(en - st))) viol("index-unchecked", &F, I, g.name, g.name + " is accessed although the positions have not been validated");
          Poly &P = S.P;
          if (len.bad || p.off.bad || g.size.bad) { viol("bounds", &F, I, g.name, Str(store ? "writes" : "reads") + " at a position of " + g.name + " that cannot be bounded"); return; }
          bool lo = P.entailsGe(p.off), hi = P.entailsGe(g.size - p.off - len);
          if (sz == -2 && !lo && P.entailsGe(len * -1)) lo = hi = true;
          if (!hi && (g.out || g.in)) for (auto &x : S.tag) if (x.first[0] == 'a' && x.second == "1") { // one array under two names
            int r1 = atoi(x.first.c_str() + 1), r2 = atoi(x.first.c_str() + x.first.find('=') + 1);
            int o = r1 == p.r ? r2 : r2 == p.r ? r1 : -1;
            if (o > 0 && !A.R[o].size.bad && P.entailsGe(A.R[o].size - p.off - len)) hi = true;
          }
          if (!lo || !hi) {
            if (sz < 0 && P.entailsGe(len * -1) && P.entailsGe(len)) return; // nothing is moved
            Str why = !lo ? "before the start" : "beyond the end";
            if (dbg) errs() << F.getName() << " case " << cse << " " << *I << "\n   off " << A.show(p.off) << " len " << A.show(len) << " size " << A.show(g.size) << "\n   " << A.show(P) << "\n";
            viol("bounds", &F, I, g.name, Str(store ? "may write " : "may read ") + why + " of " + g.name);
          }
        };
        A.onCall = [&](std::vector<St> &Ss, CallInst *C, Function *G) {
          if (!G) return false;
          if (callLookback(A, Ss, C, G)) return true;
          return callCalc(A, Ss, C, G, F);
        };
        A.onReturn = [&](St &S, const ReturnInst *R, const Lin &v) {
          if (!A.report) return;
          if (filled) {
            counts["returns"]++;
            int64_t lo, hi; if (v.bad || !S.P.boundMin(v, lo) || !S.P.boundMin(v * -1, hi) || lo != -hi || lo) { if (!v.bad && S.P.entailsGe(v - Lin(1))) return; if (!v.bad && S.P.boundMin(v, lo) && lo > 0) return; }
            counts["success_returns"]++;
            for (unsigned i = 0; i < params.size() && i < F.arg_size(); i++) if (F.getArg(i)->getType()->isPointerTy()) {
              int r = A.region(F.getArg(i)); if (!A.R[r].out) continue;
              counts["outputs"]++;
              auto c = S.cell.find({fillOf(A, r), 0});
              if (c != S.cell.end() && !c->second.bad && S.P.entailsGe(c->second - A.R[r].size)) continue;
              if (dbg) errs() << "  return: set " << (c == S.cell.end() ? Str("?") : A.show(c->second)) << " of " << A.show(A.R[r].size) << "\n  " << A.show(S.P) << "\n";
              viol("unset-output", &F, R, A.R[r].name, "may succeed without having set every announced position of " + A.R[r].name);
            }
            return;
          }
          if (inPlace) { // one array in both roles is no reason to refuse
            counts["returns"]++;
            int64_t lo, hi; if (v.bad || !S.P.boundMin(v, lo) || !S.P.boundMin(v * -1, hi) || lo != -hi || lo != rc("TA_BAD_PARAM")) return;
            for (auto &x : S.status) if (x.second == 'N') return;
            if (S.tag.count("F")) return;
            viol("in-place", &F, R, "refused", "refuses an input array that is also the output array");
            return;
          }
          counts["returns"]++;
          int64_t code = -1;
          if (!v.bad) { int64_t lo, hi; if (S.P.boundMin(v, lo) && S.P.boundMin(v * -1, hi) && lo == -hi) code = lo; }
          for (auto &x : S.status) if (x.second == 'L') viol("leak", &F, R, A.R[x.first].name, "returns without releasing the " + A.R[x.first].name);
          bool anyNull = false; for (auto &x : S.status) anyNull |= x.second == 'N';
          bool nested = false; nested = S.tag.count("F") > 0; bool alias = false; for (auto &x : S.tag) alias |= x.first[0] == 'a' && x.second == "1";
          bool noMem = false; for (auto &x : S.preg) noMem |= x.second == 0;
          auto sure = [&](const Lin &e) { return S.P.entailsGe(e); };
          if (v.bad) { viol("result", &F, R, "code", "the result code cannot be determined"); return; }
          if (code == -1 && nested && S.P.entailsGe(v - Lin(1))) return; // a nested failure handed on
          if (code == -1) { viol("result", &F, R, "code", "success and failure are not kept apart"); return; }
          if (code != 0) {
            if (nested) return;
            if (code == rc("TA_OUT_OF_RANGE_START_INDEX")) { if (!sure(st * -1 - Lin(1))) viol("refused", &F, R, "start", "refuses a valid start position"); }
            else if (code == rc("TA_OUT_OF_RANGE_END_INDEX")) { Poly q = S.P; q.addGe(en); q.addGe(en - st); if (!q.bottom && !q.empty()) viol("refused", &F, R, "end", "refuses a valid end position"); }
            else if (code == rc("TA_BAD_PARAM")) { if (!anyNull && !alias) viol("refused", &F, R, "param", "refuses valid arguments"); }
            else if (code == rc("TA_ALLOC_ERR")) {}
            else viol("refused", &F, R, "code", "fails with the code " + std::to_string(code) + " for valid arguments");
            return;
          }
          counts["success_returns"]++;
          if (anyNull) { Str w; for (auto &x : S.status) if (x.second == 'N') w = A.R[x.first].name; viol("accepted", &F, R, w, "succeeds although " + w + " is NULL"); }
          for (unsigned i = 0; i < params.size() && i < F.arg_size(); i++) if (F.getArg(i)->getType()->isPointerTy()) { int r = A.region(F.getArg(i)); if (!A.R[r].meta && !(S.status.count(r) && S.status[r] == 'n') ) viol("accepted", &F, R, A.R[r].name, "succeeds without checking " + A.R[r].name + " for NULL"); }
          if (!sure(st)) viol("accepted", &F, R, "start", "succeeds for a negative start position");
          if (!sure(en - st)) viol("accepted", &F, R, "end", "succeeds for an end position before the start position");
          if (!sure(st) || !sure(en - st)) return;
          auto get = [&](int r) { auto c = S.cell.find({r, 0}); return c == S.cell.end() ? Lin::none() : c->second; };
          Lin gb = get(rb), gn = get(rn);
          if (gb.bad || !S.P.entailsEq(gb - beg)) { viol("begin", &F, R, "outBegIdx", gb.bad ? "outBegIdx is not always set" : "outBegIdx is not the first position that can be calculated"); if (dbg) errs() << F.getName() << " case " << cse << " beg " << A.show(gb) << " want " << A.show(beg) << "\n  " << A.show(S.P) << "\n"; }
          if (gn.bad || !S.P.entailsEq(gn - n)) { viol("count", &F, R, "outNBElement", gn.bad ? "outNBElement is not always set" : "outNBElement is not the number of positions that can be calculated"); if (dbg) errs() << F.getName() << " case " << cse << " nb " << A.show(gn) << " want " << A.show(n) << "\n  " << A.show(S.P) << "\n"; }
        };
        A.run({s});
        counts["blocks"] += A.blocksRun;
        for (auto &g : A.gaveUp) notes.insert(g);
        if (at == 0 || getenv("RAISTRAT")) openObl = mine; else for (auto i = openObl.begin(); i != openObl.end();) if (mine.count(i->first)) ++i; else i = openObl.erase(i);
        if (openObl.empty()) break;
        if (getenv("RAISTRAT")) break;
        }
        cur = nullptr;
        for (auto &o : openObl) o.second();
      }
    }
  }
};
// loops over a few constants are written out
bool unrollSmall(Ctx &cx, Function &F) {
  bool did = false;
  for (int round = 0; round < 12; round++) {
    DominatorTree DT(F); LoopInfo LI(DT); AssumptionCache AC(F); TargetLibraryInfoImpl tli; TargetLibraryInfo TLI(tli); ScalarEvolution SE(F, TLI, AC, DT, LI);
    TargetTransformInfo TTI(cx.dl()); OptimizationRemarkEmitter ORE(&F);
    if (LI.empty()) break;
    bool any = false;
    for (Loop *L : LI.getLoopsInPreorder()) {
      if (!L->isInnermost()) continue;
      simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
      unsigned n = SE.getSmallConstantTripCount(L), sz = 0;
      if (n < 1 || n > 5) continue;
      for (auto *b : L->blocks()) sz += b->size();
      if (sz * n > 1500) continue;
      formLCSSA(*L, DT, &LI, &SE);
      UnrollLoopOptions o; o.Count = n; o.Force = true; o.Runtime = false; o.AllowExpensiveTripCount = false; o.UnrollRemainder = false; o.ForgetAllSCEV = true;
      if (UnrollLoop(L, o, &LI, &SE, &DT, &AC, &TTI, &ORE, false) == LoopUnrollResult::FullyUnrolled) { any = true; break; }
    }
    if (!any) break;
    did = true;
  }
  return did;
}
void inlineLookbacks(Ctx &cx, Indicators &ind, std::map<Str, FDef *> &defs) {
  for (int round = 0; round < 4; round++) {
    bool any = false;
    std::set<Function *> keepL;
    for (auto &e : ind) { auto *d = defs[e.first]; if (!d) continue; bool ma = false; for (auto &o : d->opt) ma |= !o.list.empty(); if (ma && e.second.count(K_Lookback)) keepL.insert(e.second[K_Lookback]); }
    for (auto &e : ind) {
      if (!e.second.count(K_Lookback)) continue;
      Function *L = e.second[K_Lookback];
      if (keepL.count(L) && e.first == "MA") continue;
      for (auto *U : L->users()) if (auto *C = dyn_cast<CallInst>(U)) if (C->getCalledFunction() == L) { C->addFnAttr(Attribute::AlwaysInline); any = true; }
    }
    if (!any) break;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, "always-inline,function(sroa<preserve-cfg>,instsimplify)")) exit(3);
    MPM.run(*cx.M, MAM);
    for (auto &F : *cx.M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
  }
}
void tidy(Ctx &cx) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto E = PB.parsePassPipeline(MPM, "function(sroa<preserve-cfg>,instsimplify)")) exit(3);
  MPM.run(*cx.M, MAM);
  for (auto &F : *cx.M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
}
} // namespace

// Streams: TA_X_StateInit followed by any number of updates with TA_X_State, as one program.
namespace {
struct Stream {
  bool phases = false;
  Ctx &cx; Calc C;
  std::map<Str, Function *> driver; std::set<Str> nullOk;
  std::map<int, Str> ghost; // nested streams by region
  static constexpr int64_t GCOUNT = 0, GLOOK = 8;
  Stream(Ctx &c, Indicators &i, std::map<Str, FDef *> &d, std::map<Function *, std::pair<Str, Kind>> &k) : cx(c), C(c, i, d, k) {}
  static Function *ext(Module &M, const Str &n, Type *R, ArrayRef<Type *> a) { return cast<Function>(M.getOrInsertFunction(n, FunctionType::get(R, a, false)).getCallee()); }
  // the program: open, then update for ever
  static Function *build(Ctx &cx, const Str &name, Function *init, Function *state) {
    auto &M = *cx.M; auto &X = M.getContext();
    auto ip = paramInfo(init), sp = paramInfo(state);
    std::vector<Type *> ts; std::vector<Str> ns;
    for (unsigned i = 1; i < init->arg_size(); i++) { ts.push_back(init->getArg(i)->getType()); ns.push_back(ip[i].first); }
    std::vector<int> om(state->arg_size(), -1);
    for (unsigned i = 1; i < state->arg_size(); i++) if (state->getArg(i)->getType()->isPointerTy()) { om[i] = ts.size(); ts.push_back(state->getArg(i)->getType()); ns.push_back(sp[i].first); }
    Function *D = Function::Create(FunctionType::get(Type::getVoidTy(X), ts, false), GlobalValue::InternalLinkage, "stream_" + name, M);
    for (unsigned i = 0; i < ns.size(); i++) D->getArg(i)->setName(ns[i]);
    Type *P = PointerType::get(X, 0), *i64 = Type::getInt64Ty(X), *i1 = Type::getInt1Ty(X), *V = Type::getVoidTy(X);
    auto *en = BasicBlock::Create(X, "entry", D), *lo = BasicBlock::Create(X, "update", D), *ex = BasicBlock::Create(X, "end", D);
    IRBuilder<> B(en);
    auto *h = B.CreateAlloca(P, nullptr, "handle");
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(P)), h);
    std::vector<Value *> a{h}; for (unsigned i = 1; i < init->arg_size(); i++) a.push_back(D->getArg(i - 1));
    auto *r = B.CreateCall(init, a); r->addFnAttr(Attribute::AlwaysInline);
    B.CreateCall(ext(M, "talint_opened", V, {r->getType()}), {r});
    B.CreateCondBr(B.CreateICmpEQ(r, ConstantInt::get(r->getType(), 0)), lo, ex);
    B.SetInsertPoint(lo);
    auto *n = B.CreatePHI(i64, 2, "n"); n->addIncoming(ConstantInt::get(i64, 0), en);
    auto *s = B.CreateLoad(P, h, "s");
    B.CreateCall(ext(M, "talint_begin", V, {}));
    std::vector<Value *> b{s};
    for (unsigned i = 1; i < state->arg_size(); i++) { auto *T = state->getArg(i)->getType(); if (om[i] >= 0) b.push_back(D->getArg(om[i])); else b.push_back(B.CreateCall(ext(M, T->isIntegerTy() ? "talint_int" : "talint_in", T, {}))); }
    auto *q = B.CreateCall(state, b); q->addFnAttr(Attribute::AlwaysInline);
    B.CreateCall(ext(M, "talint_update", V, {q->getType(), i64}), {q, n});
    auto *n1 = B.CreateAdd(n, ConstantInt::get(i64, 1));
    auto *c = B.CreateCall(ext(M, "talint_more", i1, {}));
    B.CreateCondBr(c, lo, ex);
    n->addIncoming(n1, B.GetInsertBlock());
    B.SetInsertPoint(ex); B.CreateRetVoid();
    return D;
  }
  static void inlineMarked(Ctx &cx) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, "always-inline,function(sroa<preserve-cfg>,instsimplify)")) exit(3);
    MPM.run(*cx.M, MAM);
    for (auto &F : *cx.M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
  }
  // nested streams the program looks into, or opened by other means than their public function, become part of it
  static bool absorb(Ctx &, Function *D, std::map<Function *, std::pair<Str, Kind>> &kindOf, Function *own) {
    std::set<Str> inits, states, open;
    for (auto &I : instructions(*D)) if (auto *C = dyn_cast<CallInst>(&I)) { auto k = kindOf.find(calleeOf(C)); if (k == kindOf.end()) continue;
      if (k->second.second == K_Init) inits.insert(k->second.first);
      if (k->second.second == K_State) { states.insert(k->second.first);
        for (auto *U : C->getArgOperand(0)->users()) if (isa<GetElementPtrInst>(U) || isa<LoadInst>(U) || (isa<StoreInst>(U) && U->getOperand(1) == C->getArgOperand(0))) open.insert(k->second.first); } }
    for (auto &s : states) if (!inits.count(s)) open.insert(s);
    if (open.empty()) return false;
    bool any = false;
    // their lookbacks are looked into as well
    for (Function *f : {D, own}) for (auto &I : instructions(*f)) if (auto *C = dyn_cast<CallInst>(&I)) { auto k = kindOf.find(calleeOf(C)); if (k != kindOf.end() && k->second.second == K_Lookback && open.count(k->second.first)) C->addFnAttr(Attribute::AlwaysInline); }
    for (auto &I : instructions(*D)) if (auto *C = dyn_cast<CallInst>(&I)) { auto k = kindOf.find(calleeOf(C)); if (k != kindOf.end() && (k->second.second == K_Init || k->second.second == K_State) && open.count(k->second.first)) { C->addFnAttr(Attribute::AlwaysInline); any = true; } }
    return any;
  }
  void zeroFields(Rai &A, St &S, int r, int64_t size) {
    auto &M = *cx.M;
    for (auto &e : C.ind) {
      auto *T = findStruct(M, "TA_" + e.first + "_State");
      if (!T || (int64_t)T->getSizeInBits() / 8 != size) continue;
      std::function<void(const DIType *, int64_t)> put = [&](const DIType *T0, int64_t off) {
        const DIType *t = stripTypedef(T0);
        if (!t) return;
        int64_t sz = t->getSizeInBits() / 8;
        if (auto *D = dyn_cast<DIDerivedType>(t)) { if (D->getTag() == dwarf::DW_TAG_pointer_type) { if (!S.pcell.count({r, off})) S.pcell[{r, off}] = PtrV{0, Lin(0)}; } else put(D->getBaseType(), off); return; }
        if (auto *B = dyn_cast<DIBasicType>(t)) {
          if (B->getEncoding() == dwarf::DW_ATE_float) { if (sz == 8) S.fcell[{r, off}] = {FI{0, 0}, false}; }
          else { if (!S.cell.count({r, off})) { S.cell[{r, off}] = Lin(0); A.cellW[{r, off}] = sz; } }
          return;
        }
        if (auto *CT = dyn_cast<DICompositeType>(t)) {
          if (CT->getTag() == dwarf::DW_TAG_enumeration_type) { S.cell[{r, off}] = Lin(0); A.cellW[{r, off}] = sz; }
          else if (CT->getTag() == dwarf::DW_TAG_structure_type) for (auto &f : structFields(CT)) put(f.type, off + f.off);
        }
      };
      for (auto &f : structFields(T)) put(f.type, f.off);
    }
  }
  static PtrV at(Rai &A, St &S, const Value *v) { PtrV p = A.pv(S, v); if (p.r > 0 && !p.off.bad && !p.off.isConst()) { int64_t sc; Lin r = S.P.reduce(p.off, &sc); if (r.isConst() && sc && r.k % sc == 0) p.off = Lin(r.k / sc); } return p; }
  int op(Rai &A, const Argument *a) { return A.V(a->getName().str()); }
  // the stream argument is NULL
  void nullStream(const Str &name) {
    for (auto k : {K_Init, K_State, K_BatchState, K_Free}) {
      auto it = C.ind[name].find(k); if (it == C.ind[name].end()) continue;
      Function &F = *it->second;
      C.counts["null_stream_functions"]++;
      Rai A(cx, F); A.strategy = 0;
      C.outv.clear(); C.realF = &F; C.common(A);
      St s;
      int r = A.region(F.getArg(0)); auto &g = A.R[r]; g.k = Region::Arg; g.name = "_state"; g.arg = 0; s.status[r] = 'N';
      A.onAccess = [&](St &, const Instruction *I, const PtrV &p, int64_t, bool, const Lin &) {
        if (A.report && p.r == r) C.viol("null-stream", &F, I, "_state", "reaches into the stream without having checked it for NULL"); };
      A.onCall = [&](std::vector<St> &Ss, CallInst *X, Function *G) {
        if (C.callLookback(A, Ss, X, G)) return true;
        auto k2 = C.kindOf.find(G);
        if (k2 == C.kindOf.end() || k2->second.second == K_Lookback) return false;
        // handed on to a function that refuses it
        for (auto &S : Ss) { PtrV p = X->arg_size() ? A.pv(S, X->getArgOperand(0)) : PtrV(); if (p.r == r && !p.off.bad && S.P.entailsEq(p.off) && (k2->second.second == K_Init || k2->second.second == K_State || k2->second.second == K_BatchState || k2->second.second == K_Free)) A.set(S, A.sv(X), Lin(rc("TA_BAD_PARAM"))); else S.P.forget(A.sv(X)); }
        return true;
      };
      A.onReturn = [&](St &S, const ReturnInst *R, const Lin &v) {
        if (A.report && (v.bad || !S.P.entailsEq(v - Lin(rc("TA_BAD_PARAM"))))) C.viol("null-stream", &F, R, "code", "does not refuse a stream that is NULL"); };
      A.run({s});
    }
  }
  // slice: this part of the cases only
  void run(const Str &name, int slice, int slices) {
    if (!slice) nullStream(name);
    Function &F = *driver[name]; FDef &d = *C.defs[name];
    Function *L = C.ind[name][K_Lookback], *SF = C.ind[name][K_State], *IF = C.ind[name][K_Init];
    auto &ps = C.pieces(L);
    if (!slice) { C.counts["streams"]++; C.counts["lookback_cases"] += ps.size(); }
    int unit = 0;
    auto ip = paramInfo(IF), lp = paramInfo(L);
    auto tests = C.testsOf(F, [&](Rai &A, const Argument *a) { return op(A, a); });
    { std::vector<Calc::Test> t2; for (auto &t : tests) if (StringRef(t.x).starts_with("opt") || StringRef(t.x).starts_with("unst") || t.x == "compatibility") t2.push_back(t); tests = t2; }
    int combos = 1; for (size_t i = 0; i < tests.size(); i++) combos *= 3;
    const int icombos = combos;
    std::vector<unsigned> signs; // real valued options of either sign: negative, zero, positive
    for (unsigned i = 1, k = 0; i < ip.size() && i < IF->arg_size() && k < d.opt.size(); i++, k++) if (F.getArg(i - 1)->getType()->isFloatingPointTy() && d.opt[k].lo < 0 && d.opt[k].hi > 0) { signs.push_back(i - 1); combos *= 3; }
    // a function that chooses among many nested streams: one case for every choice
    std::vector<std::pair<unsigned, std::vector<double>>> choices;
    { std::set<Str> kinds; for (auto &I : instructions(F)) if (auto *X = dyn_cast<CallInst>(&I)) { auto k = C.kindOf.find(calleeOf(X)); if (k != C.kindOf.end() && k->second.second == K_Init) kinds.insert(k->second.first); }
      if (kinds.size() >= 5) for (unsigned i = 1, k = 0; i < ip.size() && i < IF->arg_size() && k < d.opt.size(); i++, k++) if (d.opt[k].list.size() > 3) { choices.push_back({i - 1, std::vector<double>(d.opt[k].list.begin(), d.opt[k].list.end())}); combos *= d.opt[k].list.size(); } }
    for (auto &p : ps) {
      if (p.val.bad) { C.notes.insert("lookback of " + name + " has no closed form"); continue; }
      for (int cse = 0; cse < combos; cse++) {
        if (unit++ % slices != slice) continue;
        std::map<Str, std::function<void()>> openObl;
        for (int strat = getenv("RAISTRAT") ? atoi(getenv("RAISTRAT")) : 0; strat < Calc::NSTRAT + 1; strat++) {
          phases = strat > 0 && strat != 5; // whether what the stream and its nested streams answered last is kept apart
          static const int engine[] = {0, 0, 1, 2, 3, 5, 3};
          std::map<Str, std::function<void()>> mine; C.cur = &mine;
          struct Done { Calc *c; ~Done() { c->cur = nullptr; } } done{&C};
          Rai A(cx, F);
          A.strategy = engine[strat]; A.heapCells = true; A.boot = strat == 6;
          C.outv.clear(); ghost.clear();
          C.common(A);
          A.argVar = [&](const Argument *a) { return op(A, a); };
          A.debug = C.dbg && !C.only.empty();
          St s;
          { int k = 0;
            for (unsigned i = 1; i < ip.size() && i < IF->arg_size(); i++) {
              if (k >= (int)d.opt.size()) break;
              auto &o = d.opt[k++]; auto *a = F.getArg(i - 1);
              if (!a->getType()->isIntegerTy()) { if (a->getType()->isFloatingPointTy()) s.fl[a] = FI{(double)o.lo, (double)o.hi}; continue; }
              int v = op(A, a);
              if (!o.list.empty()) { s.P.addGe(Lin::var(v) - Lin((int64_t)o.list.front())); s.P.addGe(Lin((int64_t)o.list.back()) - Lin::var(v)); }
              else { s.P.addGe(Lin::var(v) - Lin((int64_t)o.lo)); s.P.addGe(Lin((int64_t)o.hi) - Lin::var(v)); }
            } }
          auto tr = [&](const Lin &l) { Lin r(l.k); for (auto &x : l.t) r = r + Lin::var(A.V(C.lookNames[L][x.first])) * x.second; return r; };
          for (auto &c : p.P.all()) s.P.addGe(tr(c));
          Lin lb = tr(p.val);
          { int z = cse; for (auto &t : tests) { Lin x = Lin::var(A.V(t.x)) - (t.y.empty() ? Lin(t.k) : Lin::var(A.V(t.y))); int w = z % 3; z /= 3; if (w == 0) s.P.addEq(x); else if (w == 1) s.P.addGe(x - Lin(1)); else s.P.addGe(x * -1 - Lin(1)); } }
          for (auto &nm : A.named) if (StringRef(nm.first).starts_with("unstablePeriod") || nm.first == "compatibility" || StringRef(nm.first).starts_with("lookback ")) s.P.addGe(Lin::var(nm.second));
          { int z = cse / icombos; for (unsigned a : signs) { auto &f = s.fl[F.getArg(a)]; int w = z % 3; z /= 3; if (w == 0) f = FI{0, 0}; else if (w == 1) f.lo = 4.9e-324; else f.hi = -4.9e-324; }
            for (auto &c : choices) { s.P.addEq(Lin::var(op(A, F.getArg(c.first))) - Lin((int64_t)c.second[z % c.second.size()])); z /= c.second.size(); } }
          if (s.P.bottom || s.P.empty()) break;
          if (strat == 0) C.counts["cases"]++; else C.counts["retries"]++;
          std::vector<int> outs;
          auto sp = paramInfo(SF);
          for (auto &a : F.args()) if (a.getType()->isPointerTy()) {
            int r = A.region(&a); auto &g = A.R[r]; g.k = Region::Arg; g.name = a.getName().str(); g.arg = a.getArgNo(); g.sized = true; g.out = true;
            g.elem = 8; for (auto &q : sp) if (q.first == g.name) g.elem = Calc::elemSize(q.second);
            g.size = Lin(g.elem); outs.push_back(r);
          }
          setup(A, F, outs, lb, IF, SF);
          A.run({s});
          C.counts["blocks"] += A.blocksRun;
          for (auto &g : A.gaveUp) C.notes.insert(g);
          if (strat == 0 || getenv("RAISTRAT")) openObl = mine; else for (auto i = openObl.begin(); i != openObl.end();) if (mine.count(i->first)) ++i; else i = openObl.erase(i);
          if (openObl.empty() || getenv("RAISTRAT")) break;
        }
        C.cur = nullptr;
        for (auto &o : openObl) o.second();
      }
    }
  }
  void setup(Rai &A, Function &F, const std::vector<int> &outs, const Lin &lb, Function *IF, Function *SF) {
    C.realF = SF;
    auto viol = [this, SF](const Str &rule, const Instruction *I, const Str &inst, const Str &msg) { C.viol(rule, SF, I, inst, msg); };
    A.complain = [&A, viol](const Instruction *I, const Str &rule, const Str &inst, const Str &msg) { if (A.report && rule != "leak") viol(rule, I, inst, msg); };
    A.onAlloc = [this, &A](St &S, CallInst *, int r) {
      auto k = S.P.reduce(A.R[r].size); if (k.isConst() && k.k >= 24 && k.k <= 8192) zeroFields(A, S, r, k.k); };
    A.onAccess = [this, &A, viol](St &S, const Instruction *I, const PtrV &p, int64_t sz, bool store, const Lin &len) {
      if (p.r > 0 && A.R[p.r].out && store && S.status.count(p.r) && S.status[p.r] == 'n') S.tag["w" + std::to_string(p.r)] = "1";
      if (!A.report) return;
      C.counts["accesses"]++;
      if (p.r < 0) { C.counts["unresolved"]++; viol("unresolved", I, "pointer", "an access through a pointer that cannot be traced"); return; }
      auto &g = A.R[p.r];
      if (p.r == 0) { viol("null", I, "NULL", "uses a NULL pointer"); return; }
      if (ghost.count(p.r)) { viol("unresolved", I, g.name, "reaches into a nested stream"); return; }
      if (g.k == Region::Arg && !(S.status.count(p.r) && S.status[p.r] == 'n')) viol("null-argument", I, g.name, g.name + " is used without having been checked for NULL");
      if (g.k == Region::Heap && !(S.status.count(p.r) && S.status[p.r] == 'L')) viol("freed", I, g.name, "uses a buffer after its release");
      Poly &P = S.P;
      if (len.bad || p.off.bad || g.size.bad) { viol("bounds", I, g.name, Str(store ? "writes" : "reads") + " at a position of " + g.name + " that cannot be bounded"); return; }
      bool lo = P.entailsGe(p.off), hi = P.entailsGe(g.size - p.off - len);
      if (!lo || !hi) {
        if (sz < 0 && P.entailsGe(len * -1) && P.entailsGe(len)) return;
        if (C.dbg) errs() << *I << "\n   off " << A.show(p.off) << " len " << A.show(len) << " size " << A.show(g.size) << "\n   " << S.key() << " " << A.show(P) << "\n";
        viol("bounds", I, g.name, Str(store ? "may write " : "may read ") + (!lo ? "before the start" : "beyond the end") + " of " + g.name);
        return;
      }
      // an array inside a structure
      const Value *ptr = isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I)->getPointerOperand() : nullptr;
      for (int k = 0; ptr && k < 8; k++) {
        auto *G = dyn_cast<GEPOperator>(ptr); if (!G) break;
        Type *T = G->getSourceElementType();
        for (unsigned i = 2; i <= G->getNumIndices(); i++) {
          auto *ix = G->getOperand(i);
          if (auto *AT = dyn_cast<ArrayType>(T)) {
            Lin e = A.ex(ix, &S); int64_t n = AT->getNumElements();
            C.counts["array_accesses"]++;
            if (e.bad || !P.entailsGe(e) || !P.entailsGe(Lin(n - 1) - e)) { viol("bounds", I, "array in " + g.name, Str(store ? "may write " : "may read ") + "outside an array of " + std::to_string(n) + " elements in " + g.name); return; }
            T = AT->getElementType();
          } else if (auto *ST = dyn_cast<StructType>(T)) T = ST->getElementType(cast<ConstantInt>(ix)->getZExtValue());
        }
        ptr = G->getPointerOperand();
      }
    };
    A.onCall = [this, &A, outs, lb, viol](std::vector<St> &Ss, CallInst *X, Function *G) { return call(A, Ss, X, G, outs, lb, viol); };
    A.onReturn = nullptr;
    for (auto &I : instructions(F)) if (auto *X = dyn_cast<CallInst>(&I)) if (auto *G = calleeOf(X)) if (G->getName() == "talint_update" || G->getName() == "talint_opened") A.extraRet.push_back(X->getArgOperand(0));
  }
  static bool sameInt(Rai &, St &S, const Lin &v, int64_t &k) { int64_t lo, hi; if (v.bad || !S.P.boundMin(v, lo) || !S.P.boundMin(v * -1, hi) || lo != -hi) return false; k = lo; return true; }
  template <class VF> bool call(Rai &A, std::vector<St> &Ss, CallInst *X, Function *G, const std::vector<int> &outs, const Lin &lb, VF viol) {
    if (!G) { if (A.report) viol("unresolved", X, "call", "a call that cannot be resolved"); return false; }
    StringRef nm = G->getName();
    auto clear = [&](St &S) { for (auto i = S.tag.begin(); i != S.tag.end();) if (StringRef("rcaFw").contains(i->first[0])) i = S.tag.erase(i); else ++i; for (int r : outs) S.status.erase(r); S.facts.clear(); };
    if (nm == "talint_begin") { for (auto &S : Ss) clear(S); return true; }
    if (nm == "talint_in") { for (auto &S : Ss) A.setF(S, X, FI{-HUGE_VAL, HUGE_VAL}, true); return true; }
    if (nm == "talint_int") { for (auto &S : Ss) S.P.forget(A.sv(X)); return true; }
    if (nm == "talint_more") { for (auto &S : Ss) { S.P.forget(A.sv(X)); S.P.addGe(Lin::var(A.sv(X))); S.P.addGe(Lin(1) - Lin::var(A.sv(X))); } return true; }
    if (nm == "talint_opened") {
      if (A.report) for (auto &S : Ss) {
        Lin v = A.ex(X->getArgOperand(0)); int64_t k;
        if (!sameInt(A, S, v, k)) { if (S.tag.count("F") && !v.bad && S.P.entailsGe(v - Lin(1))) continue; viol("open", X, "code", "success and failure of opening the stream are not kept apart"); continue; }
        if (k != 0 && k != rc("TA_ALLOC_ERR") && !S.tag.count("F")) viol("open", X, "code", "opening the stream fails with the code " + std::to_string(k) + " for admissible options");
      }
      return true;
    }
    if (nm == "talint_update") {
      std::vector<St> keep;
      for (auto &S : Ss) {
        Lin v = A.ex(X->getArgOperand(0)), n = A.ex(X->getArgOperand(1)); int64_t k = -1;
        bool anyNull = false, allOk = true; for (int r : outs) { char st = S.status.count(r) ? S.status[r] : 0; anyNull |= st == 'N'; allOk &= st == 'n'; }
        bool known = sameInt(A, S, v, k);
        if (A.report) {
          C.counts["update_returns"]++;
          if (C.dbg) errs() << "update " << (known ? k : -99) << " " << S.key() << " " << A.show(S.P) << "\n";
          if (!known) viol("code", X, "code", "the result of an update cannot be determined");
          else if (k == rc("TA_NEED_MORE_DATA")) { if (!S.P.entailsGe(lb - n - Lin(1))) viol("late", X, "code", "still asks for data at an update that can be answered (after as many values as the lookback)"); }
          else if (k == 0) {
            if (!S.P.entailsGe(n - lb)) viol("early", X, "code", "answers before as many values as the lookback were given");
            for (int r : outs) {
              if (!(S.status.count(r) && S.status[r] == 'n')) viol("accepted", X, A.R[r].name, "succeeds without having checked " + A.R[r].name + " for NULL");
              else if (!S.tag.count("w" + std::to_string(r))) viol("unwritten", X, A.R[r].name, "succeeds without having set " + A.R[r].name);
            }
          } else if (k == rc("TA_BAD_PARAM")) { if (!anyNull) viol("refused", X, "param", "refuses valid arguments"); }
          else viol("refused", X, "code", "fails with the code " + std::to_string(k) + " for valid arguments");
        }
        if (known && k == rc("TA_BAD_PARAM") && anyNull) continue; // the caller broke the rules: what follows is not followed up
        clear(S);
        if (phases) S.tag["h"] = known && k == 0 ? "s" : known ? "m" : "u"; // the phase of the stream: asking for data, answering
        keep.push_back(S);
      }
      Ss = keep;
      return true;
    }
    if (C.callLookback(A, Ss, X, G)) return true;
    auto k = C.kindOf.find(G);
    if (k == C.kindOf.end()) return false;
    if (k->second.second == K_Batch || k->second.second == K_Float) return C.callCalc(A, Ss, X, G, *X->getFunction());
    if (k->second.second == K_Init) return nestedInit(A, Ss, X, G, k->second.first);
    if (k->second.second == K_State) return nestedState(A, Ss, X, G, k->second.first, viol);
    if (k->second.second == K_Free) {
      for (auto &S : Ss) { PtrV p = at(A, S, X->getArgOperand(0)); if (p.r > 0 && p.off.isConst()) { auto c = S.pcell.find({p.r, p.off.k}); if (c != S.pcell.end() && ghost.count(c->second.r)) S.status[c->second.r] = 'F'; S.pcell[{p.r, p.off.k}] = PtrV{0, Lin(0)}; } A.set(S, A.sv(X), Lin(0)); }
      return true;
    }
    return false;
  }
  bool nestedInit(Rai &A, std::vector<St> &Ss, CallInst *X, Function *G, const Str &which) {
    Function *L = C.ind[which][K_Lookback];
    auto ps = paramInfo(G), lp = paramInfo(L);
    std::map<Str, const Value *> an;
    for (unsigned i = 0; i < ps.size() && i < X->arg_size(); i++) an[ps[i].first] = X->getArgOperand(i);
    std::vector<St> out;
    int r = A.region(X); if (!ghost.count(r)) { auto &g = A.R[r]; g.k = Region::Heap; g.name = "nested " + which + " stream"; g.sized = true; g.size = Lin(0); ghost[r] = which; }
    for (auto &S0 : Ss) {
      PtrV p = at(A, S0, X->getArgOperand(0));
      if (A.onAccess) A.onAccess(S0, X, p, 8, true, Lin(8));
      std::vector<Lin> as; std::vector<Str> exx;
      for (auto &q : lp) { const Value *v = an.count(q.first) ? an[q.first] : nullptr; as.push_back(v && v->getType()->isIntegerTy() ? A.ex(v) : Lin::none()); exx.push_back(v ? Calc::canonArg(v) : ""); }
      for (int t = 0; t < 2; t++) {
        St S = S0;
        auto drop = [&](auto &m) { for (auto i = m.begin(); i != m.end();) if (i->first.first == p.r && (!p.off.isConst() || std::abs(i->first.second - p.off.k) < 8)) i = m.erase(i); else ++i; };
        if (p.r > 0) { drop(S.cell); drop(S.pcell); drop(S.fcell); }
        if (t == 0) { if (p.r > 0 && p.off.isConst()) S.pcell[{p.r, p.off.k}] = PtrV{0, Lin(0)}; A.set(S, A.sv(X), Lin::none()); S.P.addGe(Lin::var(A.sv(X)) - Lin(1)); S.tag["F"] = "1"; }
        else {
          Lin l = C.lookbackOf(A, S, L, as, exx, X);
          if (p.r > 0 && p.off.isConst()) S.pcell[{p.r, p.off.k}] = PtrV{r, Lin(0)};
          for (auto i = S.cell.begin(); i != S.cell.end();) if (i->first.first == r) i = S.cell.erase(i); else ++i;
          S.tag.erase("h" + std::to_string(r));
          S.cell[{r, GCOUNT}] = Lin(0);
          if (!l.bad) S.cell[{r, GLOOK}] = l;
          S.status[r] = 'L';
          A.set(S, A.sv(X), Lin(0));
          S.tag["c" + valueTag(X)] = "1";
        }
        if (!S.P.bottom && !S.P.empty()) out.push_back(S);
      }
    }
    Ss = out;
    return true;
  }
  template <class VF> bool nestedState(Rai &A, std::vector<St> &Ss, CallInst *X, Function *G, const Str &which, VF viol) {
    auto ps = paramInfo(G);
    std::vector<St> out;
    auto refuse = [&](St S) { A.set(S, A.sv(X), Lin(rc("TA_BAD_PARAM"))); S.tag["c" + valueTag(X)] = "b"; out.push_back(S); };
    for (auto &S0 : Ss) {
      PtrV p = at(A, S0, X->getArgOperand(0));
      if (p.r == 0) { refuse(S0); continue; }
      if (p.r < 0 || !ghost.count(p.r) || ghost[p.r] != which || p.off.bad || !S0.P.entailsEq(p.off)) {
        if (A.report) viol("unresolved", X, "nested", "updates a nested " + which + " stream that cannot be traced to its opening");
        St S = S0; S.P.forget(A.sv(X)); out.push_back(S); continue; }
      if (A.report && !(S0.status.count(p.r) && S0.status[p.r] == 'L')) viol("freed", X, A.R[p.r].name, "uses a nested stream after its release");
      std::vector<St> cur{S0};
      // outputs the callee refuses when they are NULL
      for (unsigned i = 1; i < X->arg_size(); i++) if (X->getArgOperand(i)->getType()->isPointerTy()) {
        std::vector<St> nx;
        for (auto &S : cur) {
          PtrV o = at(A, S, X->getArgOperand(i));
          if (o.r == 0) { refuse(S); continue; }
          if (o.r > 0 && A.R[o.r].k == Region::Arg) {
            char st = S.status.count(o.r) ? S.status[o.r] : 0;
            if (st == 'N') { refuse(S); continue; }
            if (st != 'n') { St b = S; b.status[o.r] = 'N'; refuse(b); S.status[o.r] = 'n'; }
          }
          nx.push_back(S);
        }
        cur = nx;
      }
      for (auto &S1 : cur) {
        auto c = S1.cell.find({p.r, GCOUNT}), l = S1.cell.find({p.r, GLOOK});
        if (c == S1.cell.end() || l == S1.cell.end()) { if (A.report) viol("unresolved", X, "nested", "the progress of the nested " + which + " stream is not known"); 
          St S = S1; A.set(S, A.sv(X), Lin(rc("TA_NEED_MORE_DATA"))); S.tag["c" + valueTag(X)] = "m"; out.push_back(S); S = S1; A.set(S, A.sv(X), Lin(0)); S.tag["c" + valueTag(X)] = "s"; written(A, S, X, ps); out.push_back(S); continue; }
        Lin cnt = c->second, lk = l->second;
        for (int t = 0; t < 2; t++) {
          St S = S1;
          // once it has answered it always answers
          if (t == 0) { auto h = S.tag.find("h" + std::to_string(p.r)); if (h != S.tag.end() && h->second == "s") continue; }
          if (t == 0) S.P.addGe(lk - cnt - Lin(1)); else S.P.addGe(cnt - lk);
          if (S.P.bottom || S.P.empty()) continue;
          // one more value
          int v; auto kk = std::make_pair((const Value *)X, 7); auto j = C.outv.find(kk);
          if (j == C.outv.end()) v = C.outv[kk] = A.nv("count" + std::to_string(p.r)); else v = j->second;
          Lin nc = cnt + Lin(1);
          for (auto i = S.cell.begin(); i != S.cell.end();) if (i->first != std::make_pair(p.r, GCOUNT) && i->second.coef(v)) i = S.cell.erase(i); else ++i;
          A.set(S, v, nc);
          S.cell[{p.r, GCOUNT}] = Lin::var(v);
          S.tag["z" + std::to_string(p.r)] = "1";
          S.tag["c" + valueTag(X)] = t ? "s" : "m";
          if (phases) S.tag["h" + std::to_string(p.r)] = t ? "s" : "m";
          A.set(S, A.sv(X), Lin(t ? 0 : rc("TA_NEED_MORE_DATA")));
          if (t) written(A, S, X, ps);
          if (!S.P.bottom && !S.P.empty()) out.push_back(S);
        }
      }
    }
    Ss = out;
    return true;
  }
  void written(Rai &A, St &S, CallInst *X, const std::vector<std::pair<Str, const DIType *>> &ps) {
    for (unsigned i = 1; i < X->arg_size() && i < ps.size(); i++) if (X->getArgOperand(i)->getType()->isPointerTy()) {
      PtrV o = at(A, S, X->getArgOperand(i)); int es = Calc::elemSize(ps[i].second);
      if (A.onAccess) A.onAccess(S, X, o, es, true, Lin(es));
      auto drop = [&](auto &m) { for (auto q = m.begin(); q != m.end();) if (q->first.first == o.r && (!o.off.isConst() || (q->first.second < o.off.k + es && o.off.k < q->first.second + 8))) q = m.erase(q); else ++q; };
      if (o.r > 0) { drop(S.cell); drop(S.pcell); drop(S.fcell); }
    }
  }
};

// TA_X_BatchState: one update for every position of the range, in order, each answer at its place.
struct Batch {
  Ctx &cx; Calc C;
  Batch(Ctx &c, Indicators &i, std::map<Str, FDef *> &d, std::map<Function *, std::pair<Str, Kind>> &k) : cx(c), C(c, i, d, k) {}
  void run(const Str &name) {
    Function &F = *C.ind[name][K_BatchState], *SF = C.ind[name][K_State];
    C.counts["functions"]++;
    C.realF = &F;
    auto ps = paramInfo(&F), sp = paramInfo(SF);
    std::map<Str, std::function<void()>> open;
    for (int strat : {0, 1, 3}) {
      std::map<Str, std::function<void()>> mine; C.cur = &mine;
      struct Done { Calc *c; ~Done() { c->cur = nullptr; } } done{&C};
      Rai A(cx, F); A.strategy = strat;
      C.common(A);
      A.debug = C.dbg && !C.only.empty();
      auto viol = [&](const Str &rule, const Instruction *I, const Str &inst, const Str &msg) { C.viol(rule, &F, I, inst, msg); };
      Lin st = Lin::var(A.V("startIdx")), en = Lin::var(A.V("endIdx"));
      St s;
      s.P.addGe(st); // the range starts at a position of the array
      Region G0; G0.k = Region::Unknown; G0.name = "progress"; A.R.push_back(G0); const int G = A.R.size() - 1;
      s.cell[{G, 0}] = Lin(0);
      int nvar = A.nv("updates");
      int rb = -1, rn = -1, rs = -1; std::map<Str, int> reg; std::vector<int> outs, ins;
      for (unsigned i = 0; i < ps.size() && i < F.arg_size(); i++) if (F.getArg(i)->getType()->isPointerTy()) {
        int r = A.region(F.getArg(i)); auto &g = A.R[r];
        g.k = Region::Arg; g.name = ps[i].first; g.arg = i; g.sized = true; g.elem = Calc::elemSize(ps[i].second);
        StringRef nm = g.name; reg[g.name] = r;
        if (i == 0) { rs = r; g.size = Lin::none(); }
        else if (nm == "outBegIdx" || nm == "outNBElement") { g.meta = true; g.size = Lin(4); s.status[r] = 'n'; (nm == "outBegIdx" ? rb : rn) = r; }
        else if (nm.starts_with("out")) { g.out = true; g.size = (en - st + Lin(1)) * g.elem; outs.push_back(r); }
        else { g.in = true; g.size = (en + Lin(1)) * g.elem; ins.push_back(r); }
      }
      auto status = [](St &S, int r) { auto i = S.status.find(r); return i == S.status.end() ? (char)0 : i->second; };
      auto progress = [&](St &S) { auto c = S.cell.find({G, 0}); return c == S.cell.end() ? Lin::none() : c->second; };
      auto allSet = [&](St &S, const Instruction *I) {
        auto u = S.tag.find("hu"); if (u == S.tag.end() || u->second == "x") return;
        for (int r : outs) if (!S.tag.count("w" + std::to_string(r))) viol("place", I, A.R[r].name, "leaves the position of an update in " + A.R[r].name + " unset");
      };
      A.complain = [&](const Instruction *I, const Str &rule, const Str &inst, const Str &msg) { if (A.report) viol("bounds", I, inst, msg); };
      A.onAccess = [&](St &S, const Instruction *I, const PtrV &p, int64_t sz, bool store, const Lin &len) {
        if (A.report) C.counts["accesses"]++;
        auto bad = [&](const Str &rule, const Str &inst, const Str &msg) { if (A.report) viol(rule, I, inst, msg); };
        if (p.r < 0) { bad("unresolved", "pointer", "an access through a pointer that cannot be traced"); return; }
        if (p.r == 0) { bad("null", "NULL", "uses a NULL pointer"); return; }
        auto &g = A.R[p.r];
        if (p.r == rs) { if (status(S, rs) != 'n') bad("null", g.name, "uses the stream without having checked it for NULL"); return; }
        if (g.k != Region::Arg && g.k != Region::Local) return;
        if (g.k == Region::Arg && status(S, p.r) != 'n') bad("null", g.name, g.name + " is used without having been checked for NULL");
        if (store && g.in) bad("bounds", g.name, "writes to the input " + g.name);
        if (len.bad || p.off.bad || g.size.bad || !S.P.entailsGe(p.off) || !S.P.entailsGe(g.size - p.off - len)) { bad("bounds", g.name, Str(store ? "may write" : "may read") + " outside of " + g.name); return; }
        if (!store || !g.out) return;
        // an answer is put down
        Lin n = progress(S);
        auto u = S.tag.find("hu");
        if (u == S.tag.end() || u->second == "x") { bad("place", g.name, "writes to " + g.name + " without an answer to put there"); return; }
        if (n.bad || !S.P.entailsEq(p.off - (n - Lin(1)) * g.elem)) { bad("place", g.name, "puts the answer for a position at another position of " + g.name); return; }
        auto *X = dyn_cast<StoreInst>(I);
        if (!X) { bad("place", g.name, "does not set " + g.name + " from the answer of the update"); return; }
        const Value *v = X->getValueOperand();
        if (u->second == "s") {
          bool ok = false;
          if (auto *L = dyn_cast<LoadInst>(v)) { PtrV q = A.pv(S, L->getPointerOperand()); auto o = S.tag.find("ho" + g.name); ok = q.r > 0 && !q.off.bad && S.P.entailsEq(q.off) && o != S.tag.end() && o->second == std::to_string(q.r); }
          if (!ok) { bad("place", g.name, "does not set " + g.name + " from the same answer of the update"); return; }
        } else {
          auto *cf = dyn_cast<ConstantFP>(v); auto *ci = dyn_cast<ConstantInt>(v);
          if (!(cf && cf->isNaN()) && !(ci && ci->isMaxValue(true))) { bad("place", g.name, "does not mark a position without an answer in " + g.name + " as such"); return; }
        }
        S.tag["w" + std::to_string(p.r)] = "1";
      };
      A.onCall = [&](std::vector<St> &Ss, CallInst *X, Function *Fn) {
        if (Fn != SF) return false;
        std::vector<St> out;
        for (auto &S0 : Ss) {
          if (A.report) { C.counts["update_calls"]++; allSet(S0, X); }
          PtrV h = A.pv(S0, X->getArgOperand(0));
          if (A.report && (h.r != rs || h.off.bad || !S0.P.entailsEq(h.off))) viol("order", X, "_state", "updates another stream than the one given");
          Lin n = progress(S0);
          St S1 = S0;
          for (auto i = S1.tag.begin(); i != S1.tag.end();) if (i->first[0] == 'w' || i->first[0] == 'h') i = S1.tag.erase(i); else ++i;
          for (unsigned i = 1; i < X->arg_size() && i < sp.size(); i++) {
            const Value *a = X->getArgOperand(i);
            auto r = reg.find(sp[i].first);
            if (a->getType()->isPointerTy()) {
              PtrV q = A.pv(S1, a);
              if (q.r > 0 && A.R[q.r].k == Region::Local) { S1.tag["ho" + sp[i].first] = std::to_string(q.r); for (auto c = S1.cell.begin(); c != S1.cell.end();) if (c->first.first == q.r) c = S1.cell.erase(c); else ++c; }
              else if (q.r > 0 && r != reg.end() && q.r == r->second) { // straight to its place
                if (A.report && (n.bad || q.off.bad || !S1.P.entailsEq(q.off - n * A.R[q.r].elem))) viol("place", X, sp[i].first, "puts the answer for a position at another position of " + sp[i].first);
                S1.tag["w" + std::to_string(q.r)] = "1";
              } else if (A.report) viol("unresolved", X, sp[i].first, "the answer of an update goes to a place that cannot be traced");
              continue;
            }
            if (!A.report) continue;
            auto *L = dyn_cast<LoadInst>(a);
            PtrV q; if (L) q = A.pv(S1, L->getPointerOperand());
            if (!L || q.r < 0 || r == reg.end()) { viol("unresolved", X, sp[i].first, "the value given to an update for " + sp[i].first + " cannot be traced"); continue; }
            if (q.r != r->second) { viol("order", X, sp[i].first, "gives an update values of " + A.R[q.r].name + " for " + sp[i].first); continue; }
            if (n.bad || q.off.bad || !S1.P.entailsEq(q.off - (st + n) * A.R[q.r].elem)) viol("order", X, sp[i].first, "does not give the values of " + sp[i].first + " one position after the other");
          }
          char hs = status(S1, rs);
          for (int t = 0; t < 5; t++) {
            St S = S1;
            if (t == 4) { if (hs == 'n') continue; S.status[rs] = 'N'; A.set(S, A.sv(X), Lin(rc("TA_BAD_PARAM"))); S.tag["hu"] = "x"; }
            else {
              if (hs == 'N') continue;
              static const char *nm[] = {"s", "m", "x", "x"};
              A.set(S, A.sv(X), Lin(t == 0 ? 0 : t == 1 ? rc("TA_NEED_MORE_DATA") : t == 2 ? rc("TA_BAD_PARAM") : rc("TA_INTERNAL_ERROR")));
              S.tag["hu"] = nm[t]; S.tag["hx"] = std::to_string(t);
              if (t == 1) for (auto i = S.tag.begin(); i != S.tag.end();) if (i->first[0] == 'w') i = S.tag.erase(i); else ++i;
            }
            if (n.bad) S.cell.erase({G, 0});
            else { Lin nc = n + Lin(1); for (auto i = S.cell.begin(); i != S.cell.end();) if (i->first != std::make_pair(G, (int64_t)0) && i->second.coef(nvar)) i = S.cell.erase(i); else ++i; A.set(S, nvar, nc); S.cell[{G, 0}] = Lin::var(nvar); }
            out.push_back(S);
          }
        }
        Ss = out;
        return true;
      };
      A.onReturn = [&](St &S, const ReturnInst *R, const Lin &v) {
        if (!A.report) return;
        C.counts["returns"]++;
        int64_t lo, hi, code = -1;
        if (!v.bad && S.P.boundMin(v, lo) && S.P.boundMin(v * -1, hi) && lo == -hi) code = lo;
        if (code == -1) { viol("code", R, "code", "the result code cannot be determined"); return; }
        Lin n = progress(S);
        auto u = S.tag.find("hu");
        bool some = u != S.tag.end();
        bool anyNull = status(S, rs) == 'N'; for (int r : outs) anyNull |= status(S, r) == 'N'; for (int r : ins) anyNull |= status(S, r) == 'N';
        auto get = [&](int r) { auto c = S.cell.find({r, 0}); return c == S.cell.end() ? Lin::none() : c->second; };
        Lin gb = get(rb), gn = get(rn);
        if (!some) {
          if (code == rc("TA_BAD_PARAM")) { if (!anyNull) viol("code", R, "param", "refuses valid arguments"); return; }
          if (code != 0) { Poly q = S.P; q.addGe(en - st); if (!q.bottom && !q.empty()) viol("code", R, "code", "fails with the code " + std::to_string(code) + " without having updated the stream"); return; }
          Poly q = S.P; q.addGe(en - st);
          if (!q.bottom && !q.empty()) { viol("code", R, "nothing", "succeeds without having updated the stream although there are positions to answer"); return; }
          if (gn.bad || !S.P.entailsEq(gn)) viol("header", R, "outNBElement", "outNBElement is not 0 when there is nothing to answer");
          if (gb.bad || !S.P.entailsEq(gb)) viol("header", R, "outBegIdx", "outBegIdx is not 0 when there is nothing to answer");
          return;
        }
        if (code == rc("TA_BAD_PARAM") && anyNull) return;
        if (anyNull) { viol("null", R, "NULL", "goes on although an argument is NULL"); return; }
        allSet(S, R);
        bool x = u->second == "x";
        if (u->second == "s" ? code != 0 : u->second == "m" ? code != rc("TA_NEED_MORE_DATA") && code != 0 : code == 0 || code == rc("TA_NEED_MORE_DATA")) viol("code", R, "code", x ? "does not report the failure of an update" : "reports the code " + std::to_string(code) + " after an update that answered otherwise");
        if (!x && (n.bad || !S.P.entailsEq(n - (en - st + Lin(1))))) viol("order", R, "count", "does not update the stream once for every position of the range");
        if (gb.bad || !S.P.entailsEq(gb - st)) viol("header", R, "outBegIdx", "outBegIdx is not the position of the first value");
        if (gn.bad || n.bad || !S.P.entailsEq(gn - (x ? n - Lin(1) : n))) viol("header", R, "outNBElement", "outNBElement is not the number of positions set");
      };
      A.run({s});
      C.counts["blocks"] += A.blocksRun;
      for (auto &g : A.gaveUp) C.notes.insert(g);
      if (strat == 0) open = mine; else for (auto i = open.begin(); i != open.end();) if (mine.count(i->first)) ++i; else i = open.erase(i);
      if (open.empty()) break;
    }
    C.cur = nullptr;
    for (auto &o : open) o.second();
  }
};
} // namespace

static void farm(Ctx &cx, size_t njobs, int NW, const std::function<void(size_t)> &work, const std::function<Calc &()> &get, const std::function<Str(size_t)> &label, const std::function<void()> &start);
static void calculations(Ctx &cx, bool inPlace, bool filled = false);
void checkStream(Ctx &cx) {
  auto reg = readRegistry(cx);
  auto ind = collectIndicators(cx);
  std::map<Str, FDef *> defs;
  for (auto &d : reg) defs[d.name] = &d;
  inlineLookbacks(cx, ind, defs);
  std::map<Function *, std::pair<Str, Kind>> kindOf;
  for (auto &e : ind) for (auto &k : e.second) kindOf[k.second] = {e.first, k.first};
  const char *only = getenv("RAIONLY");
  std::map<Str, Function *> drv;
  for (auto &e : ind) if (e.second.count(K_Init) && e.second.count(K_State) && e.second.count(K_Lookback) && defs[e.first] && (!only || e.first == only)) drv[e.first] = Stream::build(cx, e.first, e.second[K_Init], e.second[K_State]);
  Stream::inlineMarked(cx);
  for (int r = 0; r < 6; r++) { bool any = false; for (auto &e : drv) any |= Stream::absorb(cx, e.second, kindOf, ind[e.first][K_Lookback]); if (!any) break; Stream::inlineMarked(cx); }
  std::vector<Str> jobs; for (auto &e : drv) jobs.push_back(e.first);
  std::sort(jobs.begin(), jobs.end(), [&](const Str &a, const Str &b) { return drv[a]->getInstructionCount() > drv[b]->getInstructionCount(); });
  struct Part { Str name; int slice, slices; };
  std::vector<Part> parts;
  for (auto &j : jobs) { int n = drv[j]->getInstructionCount() > 1000 ? 16 : drv[j]->getInstructionCount() > 500 ? 4 : 1; for (int k = 0; k < n; k++) parts.push_back({j, k, n}); }
  Stream *S = nullptr;
  farm(cx, parts.size(), only && !getenv("RAIPAR") ? 1 : 8, [&](size_t i) { S->run(parts[i].name, parts[i].slice, parts[i].slices); }, [&]() -> Calc & { return S->C; }, [&](size_t i) { return parts[i].name; }, [&] { S = new Stream(cx, ind, defs, kindOf); S->driver = drv; if (only) S->C.only = only; });
}

void checkBatchState(Ctx &cx) {
  auto reg = readRegistry(cx);
  auto ind = collectIndicators(cx);
  std::map<Str, FDef *> defs;
  for (auto &d : reg) defs[d.name] = &d;
  std::map<Function *, std::pair<Str, Kind>> kindOf;
  for (auto &e : ind) for (auto &k : e.second) kindOf[k.second] = {e.first, k.first};
  const char *only = getenv("RAIONLY");
  std::vector<Str> jobs;
  for (auto &e : ind) if (e.second.count(K_BatchState) && e.second.count(K_State) && defs[e.first] && (!only || e.first == only)) jobs.push_back(e.first);
  Batch *B = nullptr;
  farm(cx, jobs.size(), only ? 1 : 8, [&](size_t i) { B->run(jobs[i]); }, [&]() -> Calc & { return B->C; }, [&](size_t i) { return jobs[i]; }, [&] { B = new Batch(cx, ind, defs, kindOf); if (only) B->C.only = only; });
}

void checkCalc(Ctx &cx) { calculations(cx, false); }
void checkInPlace(Ctx &cx) { calculations(cx, true); }
void checkFilled(Ctx &cx) { calculations(cx, false, true); }
static void calculations(Ctx &cx, bool inPlace, bool filled) {
  auto reg = readRegistry(cx);
  auto ind = collectIndicators(cx);
  std::map<Str, FDef *> defs;
  for (auto &d : reg) defs[d.name] = &d;
  inlineLookbacks(cx, ind, defs);
  std::map<Function *, std::pair<Str, Kind>> kindOf;
  for (auto &e : ind) for (auto &k : e.second) kindOf[k.second] = {e.first, k.first};
  std::vector<Job> jobs;
  const char *only = getenv("RAIONLY");
  for (auto &e : ind) for (auto k : {K_Batch, K_Float}) if (e.second.count(k) && e.second.count(K_Lookback) && defs[e.first]) {
    if (inPlace && k == K_Float) continue;
    if (only && e.second[k]->getName() != only) continue;
    jobs.push_back({e.first, k, e.second[k], nullptr});
  }
  // a second form of the functions with loops over a few constants, those loops written out
  for (auto &j : jobs) {
    ValueToValueMapTy vm;
    Function *G = CloneFunction(j.F, vm);
    if (unrollSmall(cx, *G)) j.unrolled = G; else G->eraseFromParent();
  }
  tidy(cx);
  if (filled) for (auto &j : jobs) j.filled = true;
  if (inPlace || filled) {
    std::vector<Job> all;
    for (auto j : jobs) {
      auto ps = paramInfo(j.F);
      std::vector<unsigned> is, os;
      for (unsigned i = 0; i < ps.size() && i < j.F->arg_size(); i++) {
        if (!j.F->getArg(i)->getType()->isPointerTy() || ps[i].first == "outBegIdx" || ps[i].first == "outNBElement" || Calc::elemSize(ps[i].second) != 8) continue;
        (StringRef(ps[i].first).starts_with("in") ? is : os).push_back(i);
      }
      j.inPlace = inPlace;
      bool compares = false; // which arrays coincide matters to the code itself
      for (auto &B : *j.F) for (auto &I : B) if (auto *X = dyn_cast<ICmpInst>(&I)) compares |= X->getOperand(0)->getType()->isPointerTy() && !isa<ConstantPointerNull>(X->getOperand(1)) && !isa<ConstantPointerNull>(X->getOperand(0));
      if (!compares) { j.allPairs = true; all.push_back(j); continue; }
      if (filled && j.kind == K_Float) { all.push_back(j); continue; }
      size_t n = 1; for (size_t k = 0; k < is.size(); k++) n *= os.size() + 1;
      for (size_t z = 0; z < n; z++) { Job x = j; size_t q = z; for (unsigned i : is) { size_t o = q % (os.size() + 1); q /= os.size() + 1; if (o) x.same[i] = os[o - 1]; } all.push_back(x); }
    }
    jobs = all;
  }
  // biggest first, over worker processes
  std::sort(jobs.begin(), jobs.end(), [](const Job &a, const Job &b) { return a.F->getInstructionCount() > b.F->getInstructionCount(); });
  Calc *C = nullptr;
  farm(cx, jobs.size(), only ? 1 : 8, [&](size_t i) { C->run(jobs[i]); }, [&]() -> Calc & { return *C; }, [&](size_t i) { return jobs[i].F->getName().str(); }, [&] { C = new Calc(cx, ind, defs, kindOf); if (only) C->only = only; });
}
// the jobs, over worker processes
static void farm(Ctx &cx, size_t njobs, int NW, const std::function<void(size_t)> &work, const std::function<Calc &()> &get, const std::function<Str(size_t)> &label, const std::function<void()> &start) {
  std::vector<std::pair<pid_t, Str>> ws;
  Str tmp = "/tmp/talint-rai." + std::to_string(getpid());
  // work is handed out through a pipe holding the job numbers
  int pp[2]; if (pipe(pp)) exit(3);
  for (int w = 0; w < NW; w++) {
    Str f = tmp + "." + std::to_string(w);
    pid_t pid = fork();
    if (!pid) {
      close(pp[1]);
      start();
      Calc &C = get();
      json::Array times;
      uint16_t ix;
      while (read(pp[0], &ix, 2) == 2) {
        auto t0 = std::chrono::steady_clock::now();
        work(ix);
        double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (s > 2) times.push_back(label(ix) + " " + std::to_string(s));
      }
      json::Object o; o["viols"] = std::move(C.viols);
      json::Object cs; for (auto &x : C.counts) cs[x.first] = x.second; o["counts"] = std::move(cs);
      json::Array ns; for (auto &x : C.notes) ns.push_back(x); o["notes"] = std::move(ns); o["times"] = std::move(times);
      std::error_code ec; { raw_fd_ostream os(f, ec); os << json::Value(std::move(o)); }
      _exit(0);
    }
    ws.push_back({pid, f});
  }
  close(pp[0]);
  for (uint16_t i = 0; i < njobs; i++) if (write(pp[1], &i, 2) != 2) exit(3);
  close(pp[1]);
  for (auto &w : ws) {
    int st; waitpid(w.first, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { errs() << "talint: worker failed\n"; exit(3); }
    auto b = MemoryBuffer::getFile(w.second);
    auto v = json::parse((*b)->getBuffer());
    unlink(w.second.c_str());
    if (!v) exit(3);
    auto *o = v->getAsObject();
    for (auto &x : *o->getArray("viols")) cx.violations.push_back(x);
    for (auto &x : *o->getObject("counts")) cx.counts[x.first.str()] += *x.second.getAsInteger();
    for (auto &x : *o->getArray("notes")) cx.lists["notes"].insert(x.getAsString()->str());
    for (auto &x : *o->getArray("times")) cx.lists["slow"].insert(x.getAsString()->str());
  }
}
