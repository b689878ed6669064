// talint - repository specific static analyses for ta-lib-rt over LLVM IR.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;
typedef std::string Str;

// Return codes of the library (ta_common.h), read back from the debug info of the
// TA_RetCode enumeration so that a renumbering is followed, not assumed.
extern std::map<Str, int64_t> RC;
int64_t rc(const Str &name);

struct Ctx {
  LLVMContext C;
  std::unique_ptr<Module> M;
  std::set<Str> api;      // names declared by the public headers
  json::Array violations; // {rule, func, file, line, instance, msg}
  std::map<Str, int64_t> counts; // coverage counters
  std::map<Str, std::set<Str>> lists;
  std::map<Str, json::Value> extra;
  const DataLayout &dl() { return M->getDataLayout(); }
  void count(const Str &k, int64_t n = 1) { counts[k] += n; }
  void viol(const Str &rule, Function *F, const DebugLoc &L, const Str &instance,
            const Str &msg);
  void violAt(const Str &rule, const Str &func, const Str &file, int line,
              const Str &instance, const Str &msg);
};

Str relFile(const Str &f);
Str locStr(const DebugLoc &L);
Str locOf(Function *F);
DebugLoc firstLoc(Instruction *I);

// ---- names and debug info ------------------------------------------------
// suffix classification of an indicator entry point
enum Kind { K_None, K_Batch, K_Float, K_Lookback, K_Init, K_State, K_BatchState,
            K_Free, K_Save, K_Load };
struct Entry { Kind kind = K_None; Str name; Function *F = nullptr; };
// all indicator functions by indicator name: e.g. "SMA" -> kind -> function
typedef std::map<Str, std::map<Kind, Function *>> Indicators;
Indicators collectIndicators(Ctx &cx);
const char *kindName(Kind k);

const DIType *stripTypedef(const DIType *T, Str *firstName = nullptr);
Str diTypeName(const DIType *T);
bool returnsRetCode(const Function *F);
std::vector<std::pair<Str, const DIType *>> paramInfo(const Function *F);
struct FieldInfo { Str name; uint64_t off, size; const DIType *type; };
std::vector<FieldInfo> structFields(const DIType *T);
const DICompositeType *findStruct(Module &M, const Str &name);

inline const DICompositeType *findStructOrTypedef(Module &M, const Str &n) { return findStruct(M, n); }

// ---- access paths ----------------------------------------------------------
// Canonical textual name of an address/value relative to arguments, allocation
// sites and locals.
struct AP {
  Function *F;
  const DataLayout &DL;
  std::map<const Value *, Str> memo;
  std::map<const Value *, int> ids;
  std::map<const Value *, Str> alias; // alloc site -> path it was stored to
  AP(Function *f);
  Str of(const Value *V);
  Str addr(const Value *base, int64_t off);
  int id(const Value *V);
  const std::map<const Value *, const Value *> *env = nullptr; // phi resolution
};

// ---- path simulation ---------------------------------------------------------
// Property simulation (ESP style): the set of (automaton state, correlated facts)
// pairs at every block, no widening needed since the domain is finite.
struct SimState {
  std::map<const Value *, const Value *> env; // phi -> incoming value
  std::map<Str, int> facts;                   // condition string -> truth
  std::map<Str, int> q;                       // automaton variables
  bool operator<(const SimState &o) const {
    if (q != o.q) return q < o.q;
    if (facts != o.facts) return facts < o.facts;
    return env < o.env;
  }
};
const Value *resolve(const SimState &S, const Value *V);

void normalise(Ctx &cx, const std::set<Str> &keepExtra, bool inlineAll);
bool callee(const CallBase *CB, Function *&F);
inline Function *calleeOf(const Instruction *I) {
  if (auto *CB = dyn_cast<CallBase>(I))
    return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
  return nullptr;
}
inline bool isAllocFn(const Function *F) {
  return F && (F->getName() == "malloc" || F->getName() == "calloc" ||
               F->getName() == "realloc");
}
