#pragma once
#include "common.h"
#include "poly.h"
// Relational abstract interpretation of one function: integers and array positions as
// linear expressions in convex polyhedra, pointers as (region, offset).
struct Region {
  enum K { Arg, Local, Heap, Global, Null, Unknown } k = Unknown;
  Str name; const Value *V = nullptr; Lin size; bool sized = false; int elem = 8; int arg = -1;
  bool out = false, in = false, meta = false; // output array, input array, outBegIdx/outNBElement
};
struct PtrV { int r = -1; Lin off; };
struct FI { double lo, hi; bool operator==(const FI &o) const { return lo == o.lo && hi == o.hi; } }; // of the values that are not NaN
struct St {
  Poly P;
  std::set<const Value *> nan;                    // those that may also be NaN
  std::map<const Value *, FI> fl;                 // ranges of floating point values
  std::map<const Value *, int> preg;              // region of pointer values not derivable
  std::map<std::pair<int, int64_t>, Lin> cell;    // integer scalars in memory
  std::map<std::pair<int, int64_t>, PtrV> pcell;  // pointers in memory
  std::map<std::pair<int, int64_t>, std::pair<FI, bool>> fcell; // floating point scalars in memory; may be NaN
  std::map<int, char> status;                     // n non-null, N null, L live heap, F freed
  std::map<Str, Str> tag;
  std::set<Lin> facts;                            // what is known of the symbols that never change
  Str key() const;
};
Str valueTag(const Value *v);
struct Rai {
  Ctx &cx; Function &F; const DataLayout &DL;
  std::vector<Region> R; std::map<const Value *, int> rid;
  std::vector<Str> vname; std::map<Str, int> named; std::map<const Value *, int> ssa;
  std::set<int> canonical;
  bool boot = false; // a second run that starts from what the first one showed
  bool noJoin = false, report = false, debug = false;
  size_t maxStates = 24;
  int strategy = 0; // which joins are kept apart: 0 all, 1 no reset values, 2 nor equalities, 3 none
  bool peel = false;   // strategy 5: the first round of an innermost loop that stores is kept apart
  // hooks
  std::function<void(St &, const Instruction *, const PtrV &, int64_t sz, bool store, const Lin &len)> onAccess;
  std::function<void(St &, const ReturnInst *, const Lin &)> onReturn;
  std::function<bool(std::vector<St> &, CallInst *, Function *)> onCall; // models a call; true when handled
  std::function<void(const Instruction *, const Str &rule, const Str &inst, const Str &msg)> complain;
  std::function<int(LoadInst *, St &)> onGlobalLoad;
  std::function<int(const Argument *)> argVar;
  std::map<int, std::pair<int, int64_t>> loadCell; std::vector<Lin> cellConds; // loads by the scalar they read; conditions over them
  bool heapCells = false;                                     // scalars in allocated memory are followed too
  std::function<void(St &, CallInst *, int r)> onAlloc;       // a buffer was allocated
  std::vector<const Value *> extraRet;                        // other values whose constant alternatives are kept apart
  std::set<Str> gaveUp;
  std::map<std::pair<int, int64_t>, int64_t> cellW; // bytes a cell holds
  uint64_t steps = 0, blocksRun = 0;
  Rai(Ctx &c, Function &f);
  int nv(const Str &n) { vname.push_back(n); return vname.size() - 1; }
  int V(const Str &n) { auto i = named.find(n); if (i != named.end()) return i->second; int v = nv(n); named[n] = v; canonical.insert(v); return v; }
  int sv(const Value *v);
  Lin ex(const Value *v, const St *S = nullptr);
  PtrV pv(St &S, const Value *v);
  FI fi(const St &S, const Value *v);
  bool mayNan(const St &S, const Value *v);
  void setF(St &S, const Value *v, FI f, bool nan);
  FI evalFP(St &S, const Instruction *I);
  std::map<const BasicBlock *, std::vector<Lin>> upTo, phiConds; const std::set<Lin> *firstSeen = nullptr;
  std::vector<double> fth; // widening thresholds
  std::vector<Lin> always;     // entry facts over symbols that never change
  std::vector<Lin> canonConds; // conditions of the function over such symbols

  int region(const Value *v);
  int quotient(St &S, const Lin &x, int64_t c);
  void set(St &S, int var, const Lin &e); // var := e (e may mention var)
  void havoc(St &S, int var) { S.P.forget(var); }
  std::vector<St> assume(const St &S, const Value *c, bool truth);
  void run(std::vector<St> init);
  Str show(const Lin &e); Str show(const Poly &P);
  std::vector<St> execBlock(const BasicBlock *B, St S, std::vector<std::pair<const BasicBlock *, St>> &outs);
private:
  std::map<const BasicBlock *, std::set<const Value *>> live;
  std::map<const BasicBlock *, std::set<int>> liveVars;
  std::set<const Value *> retPhis;
  void computeLive();
  void edge(const BasicBlock *from, const BasicBlock *to, St S, std::vector<std::pair<const BasicBlock *, St>> &outs);
  void exec(std::vector<St> &Ss, const Instruction *I);
  void joinInto(St &A, const St &B, const BasicBlock *at, bool wid, bool keepOld);
  void project(St &S, const BasicBlock *at);
  std::map<std::pair<const BasicBlock *, std::pair<int, int64_t>>, int> cellVar;
  std::map<const BasicBlock *, Str> pathTag; // joins inside a loop kept apart by the way taken
  std::map<const Value *, Lin> memo; std::set<const Value *> memoBusy;
};
