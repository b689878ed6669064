#pragma once
#include "common.h"
// The function table of the abstract interface, read from the initialisers of the
// linked program.
struct PInfo { int64_t type = -1, flags = 0; Str name; };
struct OInfo : PInfo { double lo = 0, hi = 0, def = 0; std::vector<double> list; std::vector<Str> listNames; bool real = false; bool ok = false;
  bool admits(double v) const { if (!list.empty()) { for (double d : list) if (d == v) return true; return false; } return v >= lo && v <= hi; } };
struct FDef {
  GlobalVariable *G = nullptr, *info = nullptr;
  Str name, group, hint, camel;
  int64_t magic = 0, groupId = -1, flags = 0, nIn = 0, nOpt = 0, nOut = 0, nStruct = 0;
  std::vector<PInfo> in, out, sp; std::vector<OInfo> opt;
  std::map<Str, Function *> slot; // function, lookback, state_init, ...
  const Value *handle = nullptr;
};
Constant *cload(Ctx &cx, Constant *C, Type *T, int64_t off);
int64_t cint(Ctx &cx, Constant *C, int64_t off, int bytes = 4);
Constant *cptr(Ctx &cx, Constant *C, int64_t off);
Str cstr(Ctx &cx, Constant *P);
std::map<Str, int64_t> enumOf(Ctx &cx, const Str &typedefName);
std::vector<FDef> readRegistry(Ctx &cx);
