#pragma once
#include "common.h"
// Guarded effect summaries: for the small control functions (abstract interface,
// settings, frames) every acyclic path (constant loops followed through) is described
// by the literals that guard it and its stores/calls in terms of the arguments. Pure
// dataflow over canonical value names: no solver, no execution.
struct Ev {
  enum K { Lit, Store, Load, Call, Copy } k;
  Str pred, a, b;          // Lit: pred a b ; Store: a=address b=value ; Copy: a=dst b=src
  int64_t size = 0;        // Store/Load/Copy bytes (-1 unknown)
  Str callee, res;         // Call
  std::vector<Str> args;
  const Instruction *I = nullptr;
};
struct Path {
  std::vector<Ev> ev;
  Str ret;
  const ReturnInst *R = nullptr;
  bool has(const Str &pred, const Str &a, const Str &b) const; // literal known on this path
};
struct PathEnum {
  Ctx &cx;
  Function &F;
  int maxVisit = 2;      // visits of a block whose branch is not decided by constants
  size_t maxPaths = 20000, maxSteps = 4000000;
  bool wantLoads = false;
  bool overflow = false;
  std::vector<Path> paths;
  std::function<bool(const Ev &)> prune; // return true to end the path at this event (recorded with ret "...")
  PathEnum(Ctx &c, Function &f) : cx(c), F(f) {}
  void run();
};
Str litKey(Str pred, Str a, Str b, bool &neg);
// address helpers on canonical names
Str plus(const Str &addr, int64_t off);
inline Str cellAt(const Str &addr) { return "*(" + addr + ")"; }
bool splitOff(const Str &addr, Str &base, int64_t &off);
inline bool isNum(const Str &s) { if (s.empty()) return false; size_t i = s[0] == '-'; if (i >= s.size()) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }

// canonical name of an operation (operands of commutative ones are ordered, constants folded)
Str canon(unsigned op, Str a, Str b, unsigned bits = 32);
// globals the library never writes after initialisation
bool neverWritten(GlobalVariable *G);
