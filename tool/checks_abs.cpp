#include "paths.h"
#include "registry.h"

// Structure offsets from debug info.
static std::map<Str, uint64_t> OFF(Ctx &cx, const Str &s) {
  std::map<Str, uint64_t> R;
  auto *T = findStruct(*cx.M, s);
  if (!T) { errs() << "talint: type " << s << " not found\n"; exit(3); }
  for (auto &f : structFields(T)) R[f.name] = f.off;
  return R;
}
static uint64_t SIZE(Ctx &cx, const Str &s) {
  auto *T = findStruct(*cx.M, s);
  return T ? T->getSizeInBits() / 8 : 0;
}
enum { P_OPEN = 1, P_HIGH = 2, P_LOW = 4, P_CLOSE = 8, P_VOLUME = 0x10, P_OI = 0x20 };
static const std::pair<int, const char *> PRICE[] = {{P_OPEN, "open"}, {P_HIGH, "high"}, {P_LOW, "low"}, {P_CLOSE, "close"}, {P_VOLUME, "volume"}, {P_OI, "openInterest"}};

struct Expect { Str val; Str what; Str name; Str type; };

static Str up1(Str s) { if (!s.empty()) s[0] = toupper((unsigned char)s[0]); return s; }

// ---------------------------------------------------------------- registry
static void setOfArray(Ctx &cx, Constant *A, int64_t n, std::vector<GlobalVariable *> &v) {
  for (int64_t i = 0; i < n; i++) {
    Constant *p = cptr(cx, A, 8 * i);
    v.push_back(p ? dyn_cast<GlobalVariable>(p->stripPointerCasts()) : nullptr);
  }
}
void checkRegistry(Ctx &cx) {
  auto reg = readRegistry(cx);
  auto ind = collectIndicators(cx);
  std::map<GlobalVariable *, FDef *> byG;
  std::map<Str, std::vector<FDef *>> byN;
  for (auto &d : reg) { byG[d.G] = &d; byN[d.name].push_back(&d); }
  auto V = [&](const Str &rule, GlobalVariable *G, const Str &inst, const Str &msg) {
    SmallVector<DIGlobalVariableExpression *, 2> gv;
    if (G) G->getDebugInfo(gv);
    Str f = "ta-lib-rt/c/src/ta_abstract"; int l = 0;
    if (!gv.empty()) { auto *DV = gv[0]->getVariable(); f = relFile(DV->getDirectory().str() + "/" + DV->getFilename().str()); if (DV->getFilename().starts_with("/")) f = relFile(DV->getFilename().str()); l = DV->getLine(); }
    cx.violAt(rule, G ? G->getName().str() : "", f, l, inst, msg);
  };
  cx.count("definitions", reg.size());
  // --- alphabetical tables
  GlobalVariable *tabs = nullptr, *sizes = nullptr;
  for (auto &G : cx.M->globals()) {
    if (!G.hasInitializer()) continue;
    auto *AT = dyn_cast<ArrayType>(G.getValueType());
    if (!AT || AT->getNumElements() != 26 || !AT->getElementType()->isPointerTy()) continue;
    Constant *p = cptr(cx, &G, 8 * 2);
    auto *E = p ? dyn_cast<GlobalVariable>(p->stripPointerCasts()) : nullptr;
    if (!E) continue;
    if (E->getValueType()->isIntegerTy(32)) sizes = &G;
    else if (auto *ET = dyn_cast<ArrayType>(E->getValueType()); ET && ET->getElementType()->isPointerTy()) tabs = &G;
  }
  if (!tabs || !sizes) { errs() << "talint: alphabetical function tables not found\n"; exit(3); }
  std::map<FDef *, int> seen;
  for (int i = 0; i < 26; i++) {
    auto *T = dyn_cast_or_null<GlobalVariable>(cptr(cx, tabs, 8 * i)->stripPointerCasts());
    Constant *sz = cptr(cx, sizes, 8 * i);
    int64_t n = sz ? cint(cx, sz, 0) : -1;
    Str let(1, 'A' + i);
    if (!T || n < 0) { V("table", tabs, let, "no table or size for letter " + let); continue; }
    int64_t cap = cast<ArrayType>(T->getValueType())->getNumElements();
    cx.count("letters");
    if (n > cap) V("table-size", T, let, "declared size " + std::to_string(n) + " exceeds the table");
    std::vector<GlobalVariable *> v; setOfArray(cx, T, std::min(n, cap), v);
    for (int64_t k = 0; k < (int64_t)v.size(); k++) {
      FDef *d = v[k] && byG.count(v[k]) ? byG[v[k]] : nullptr;
      if (!d) { V("table-entry", T, let + std::to_string(k), "entry " + std::to_string(k) + " is not an indicator definition"); continue; }
      seen[d]++;
      if (d->name.empty() || toupper((unsigned char)d->name[0]) != 'A' + i) V("table-letter", T, d->name, d->name + " is listed under letter " + let + " and cannot be found by name");
    }
    for (int64_t k = n; k < cap; k++) if (cptr(cx, T, 8 * k)) V("table-size", T, let, "entries beyond the declared size " + std::to_string(n) + " cannot be found");
  }
  for (auto &d : reg) {
    if (!seen.count(&d)) V("unlisted", d.G, d.name, d.name + " is in no alphabetical table and cannot be found by name or enumerated");
    else if (seen[&d] > 1) V("duplicate", d.G, d.name, d.name + " is listed more than once");
  }
  for (auto &e : byN) if (e.second.size() > 1) V("duplicate", e.second[1]->G, e.first, "two definitions named " + e.first);
  for (auto &e : ind) {
    cx.count("indicators");
    if (!byN.count(e.first)) { Function *F = e.second.begin()->second; cx.viol("unregistered", F, DebugLoc(), e.first, "indicator " + e.first + " has no definition in the function table"); }
  }
  for (auto &d : reg) if (!ind.count(d.name)) V("unknown-name", d.G, d.name, "the definition's name " + d.name + " is not a public indicator");
  // --- groups
  auto *GF = cx.M->getGlobalVariable("TA_PerGroupFuncDef", true), *GS = cx.M->getGlobalVariable("TA_PerGroupSize", true), *GStr = cx.M->getGlobalVariable("TA_GroupString", true);
  if (!GF || !GS || !GStr) { errs() << "talint: group tables not found\n"; exit(3); }
  int64_t nG = cast<ArrayType>(GStr->getValueType())->getNumElements();
  auto ge = enumOf(cx, "TA_GroupId");
  if (ge.count("TA_NB_GROUP_ID") && ge["TA_NB_GROUP_ID"] != nG) V("group-count", GStr, "count", "the list of group names does not have one entry per group");
  if ((int64_t)cast<ArrayType>(GF->getValueType())->getNumElements() != nG || (int64_t)cast<ArrayType>(GS->getValueType())->getNumElements() != nG)
    V("group-count", GF, "count", "group tables do not have one entry per group");
  else {
    std::map<FDef *, std::vector<int>> in;
    std::set<Str> names;
    for (int64_t g = 0; g < nG; g++) {
      cx.count("groups");
      Str gn = cstr(cx, cptr(cx, GStr, 8 * g));
      if (gn.empty() || !names.insert(gn).second) V("group-name", GStr, std::to_string(g), "group " + std::to_string(g) + " has no name of its own");
      Constant *A = cptr(cx, GF, 8 * g); int64_t n = cint(cx, GS, 4 * g);
      auto *T = A ? dyn_cast<GlobalVariable>(A->stripPointerCasts()) : nullptr;
      if (!T) { V("group-table", GF, std::to_string(g), "no table for group " + gn); continue; }
      int64_t cap = cast<ArrayType>(T->getValueType())->getNumElements();
      if (n > cap) V("group-size", T, gn, "declared size exceeds the table");
      std::vector<GlobalVariable *> v; setOfArray(cx, T, std::min(n, cap), v);
      for (auto *x : v) {
        FDef *d = x && byG.count(x) ? byG[x] : nullptr;
        if (!d) { V("group-entry", T, gn, "an entry of group " + gn + " is not an indicator definition"); continue; }
        in[d].push_back(g);
        if (d->groupId != g) V("group-id", d->G, d->name, d->name + " is listed in group " + gn + " but its definition says group " + std::to_string(d->groupId));
        if (d->group != gn) V("group-id", d->G, d->name, d->name + " is listed in group \"" + gn + "\" but described as \"" + d->group + "\"");
      }
      for (int64_t k = n; k < cap; k++) if (cptr(cx, T, 8 * k)) V("group-size", T, gn, "entries of group " + gn + " beyond its declared size are never listed");
    }
    for (auto &d : reg) { if (in[&d].size() != 1) V("group-listing", d.G, d.name, d.name + " is listed " + std::to_string(in[&d].size()) + " times in the groups"); }
    if (auto *TN = cx.M->getGlobalVariable("TA_TotalNbFunction", true))
      if (cint(cx, TN, 0) != (int64_t)reg.size()) V("group-size", TN, "total", "the total number of functions is wrong");
  }
  // --- each definition describes its own functions
  auto it = enumOf(cx, "TA_InputParameterType"), ot = enumOf(cx, "TA_OptInputParameterType"), out = enumOf(cx, "TA_OutputParameterType");
  auto I = OFF(cx, "TA_FuncInfo");
  std::set<int64_t> magics;
  for (auto &d : reg) {
    magics.insert(d.magic);
    if (!d.info) { V("info", d.G, d.name, "definition without description"); continue; }
    if (d.handle != d.G) V("handle", d.G, d.name, "the description's handle does not lead back to the definition of " + d.name);
    if ((int64_t)d.in.size() != d.nIn || (int64_t)d.opt.size() != d.nOpt || (int64_t)d.out.size() != d.nOut || (int64_t)d.sp.size() != d.nStruct)
      V("counts", d.G, d.name, "the numbers of parameters differ from the parameter lists of " + d.name);
    if (d.hint.empty() || d.camel.empty()) V("info", d.G, d.name, d.name + " has no hint or camel case name");
    auto f = ind.find(d.name);
    if (f == ind.end()) continue;
    for (auto k : {K_Batch, K_Float, K_Lookback, K_Init, K_State, K_BatchState}) {
      if (!f->second.count(k)) { if (k != K_Float) V("missing-function", d.G, d.name, d.name + " has no " + kindName(k) + " function"); continue; }
      Function *F = f->second[k];
      bool scal = k == K_State, flt = k == K_Float, calc = k == K_Batch || k == K_Float || k == K_BatchState;
      std::vector<std::pair<Str, Str>> exp; // name, type
      Str R = flt ? "float" : "double";
      if (k == K_Init || k == K_State || k == K_BatchState) exp.push_back({"_state", k == K_Init ? "*state**" : "*state*"});
      if (calc) { exp.push_back({"startIdx", "int"}); exp.push_back({"endIdx", "int"}); }
      if (calc || scal)
        for (auto &p : d.in) {
          if (p.type == it["TA_Input_Price"]) { for (auto &q : PRICE) if (p.flags & q.first) exp.push_back({"in" + up1(q.second), scal ? R : "const " + R + "*"}); }
          else if (p.type == it["TA_Input_Integer"]) exp.push_back({p.name, scal ? "int" : "const int*"});
          else exp.push_back({p.name, scal ? R : "const " + R + "*"});
        }
      if (k == K_Batch || k == K_Float || k == K_Lookback || k == K_Init)
        for (auto &o : d.opt) exp.push_back({o.name, o.type == ot["TA_OptInput_RealRange"] || o.type == ot["TA_OptInput_RealList"] ? "double" : "*int*"});
      if (calc) { exp.push_back({"outBegIdx", "int*"}); exp.push_back({"outNBElement", "int*"}); }
      if (calc || scal) for (auto &p : d.out) exp.push_back({p.name, p.type == out["TA_Output_Integer"] ? "int*" : "double*"});
      auto ps = paramInfo(F);
      cx.count("signatures");
      cx.count("parameters", ps.size());
      if (ps.size() != exp.size()) { cx.viol("signature", F, DebugLoc(), "count", "takes " + std::to_string(ps.size()) + " parameters, the function table describes " + std::to_string(exp.size())); continue; }
      for (size_t i = 0; i < exp.size(); i++) {
        Str n = ps[i].first, t = diTypeName(ps[i].second);
        // array parameters of const elements print as such; strip the outer const
        if (StringRef(t).starts_with("const ") && !StringRef(t).ends_with("*")) t = t.substr(6);
        bool typeOK;
        if (exp[i].second == "*int*") { auto *u = stripTypedef(ps[i].second); typeOK = t == "int" || (u && isa<DICompositeType>(u) && cast<DICompositeType>(u)->getTag() == dwarf::DW_TAG_enumeration_type); }
        else if (exp[i].second == "*state*" || exp[i].second == "*state**") typeOK = F->getArg(i)->getType()->isPointerTy();
        else typeOK = t == exp[i].second;
        if (i == 0 && exp[0].first == "_state") continue;
        if (!typeOK) cx.viol("signature", F, DebugLoc(), n, "parameter " + n + " has type " + t + ", the function table says " + exp[i].second);
        // a renamed parameter is harmless, two exchanged ones are not
        bool other = false;
        for (size_t j = 0; j < exp.size(); j++) if (j != i && exp[j].first == n) other = true;
        if (n != exp[i].first && other) cx.viol("signature", F, DebugLoc(), n, "parameter " + std::to_string(i + 1) + " is " + n + ", the function table says " + exp[i].first);
      }
    }
  }
  if (magics.size() != 1) V("magic", reg[0].G, "magic", "definitions carry different magic numbers");
  else cx.extra.insert_or_assign("magic", json::Value(*magics.begin()));
  // --- option lists that enumerate an enumeration
  auto ma = enumOf(cx, "TA_MAType");
  for (auto &d : reg)
    for (auto &o : d.opt)
      if (!o.list.empty()) {
        cx.count("option_lists");
        for (size_t i = 0; i < o.list.size(); i++) {
          bool isMA = o.name.find("MAType") != Str::npos || StringRef(o.name).ends_with("_MAType");
          if (!isMA) continue;
          Str want = "TA_MAType_" + o.listNames[i];
          if (!ma.count(want) || ma[want] != (int64_t)o.list[i]) V("option-list", d.G, o.listNames[i], "option " + o.name + " offers \"" + o.listNames[i] + "\" for value " + std::to_string((int64_t)o.list[i]) + ", which is another moving average");
        }
      }
  // dump for the comparison with the XML description
  json::Array A;
  for (auto &d : reg) {
    json::Array in, op, ou;
    for (auto &p : d.in) in.push_back(json::Object{{"name", p.name}, {"type", p.type}, {"flags", p.flags}});
    for (auto &p : d.out) ou.push_back(json::Object{{"name", p.name}, {"type", p.type}, {"flags", p.flags}});
    for (auto &o : d.opt) op.push_back(json::Object{{"name", o.name}, {"real", o.real}, {"list", !o.list.empty()}, {"lo", o.lo}, {"hi", o.hi}, {"def", o.def}});
    A.push_back(json::Object{{"name", d.name}, {"group", d.group}, {"hint", d.hint}, {"camel", d.camel}, {"flags", d.flags}, {"in", std::move(in)}, {"opt", std::move(op)}, {"out", std::move(ou)}});
  }
  cx.extra.insert_or_assign("registry", json::Value(std::move(A)));
}

// ---------------------------------------------------------------- frames
void checkFrames(Ctx &cx) {
  auto reg = readRegistry(cx);
  auto PH = OFF(cx, "TA_ParamHolderPriv");
  auto it = enumOf(cx, "TA_InputParameterType"), ot = enumOf(cx, "TA_OptInputParameterType");
  uint64_t szIn = SIZE(cx, "TA_ParamHolderInput"), szOpt = SIZE(cx, "TA_ParamHolderOptInput"), szOut = SIZE(cx, "TA_ParamHolderOutput");
  auto oIn = OFF(cx, "TA_ParamHolderInput"), oOpt = OFF(cx, "TA_ParamHolderOptInput"), oOut = OFF(cx, "TA_ParamHolderOutput");
  auto PP = OFF(cx, "TA_PricePtrs");
  if (!szIn || !szOpt || !szOut) { errs() << "talint: parameter holder types not found\n"; exit(3); }
  struct SlotDef { const char *slot, *pre, *suf; Kind k; };
  static const SlotDef slots[] = {{"function", "TA_", "", K_Batch}, {"lookback", "TA_", "_Lookback", K_Lookback}, {"state_init", "TA_", "_StateInit", K_Init}, {"state_func", "TA_", "_State", K_State},
                                  {"batch_state_func", "TA_", "_BatchState", K_BatchState}, {"state_free", "TA_", "_StateFree", K_Free}, {"state_save", "TA_", "_StateSave", K_Save}, {"state_load", "TA_", "_StateLoad", K_Load}};
  auto D = OFF(cx, "TA_FuncDef");
  for (auto &s : slots) if (!D.count(s.slot)) { errs() << "talint: TA_FuncDef has no member " << s.slot << "\n"; exit(3); }
  std::map<Function *, Str> used;
  for (auto &d : reg)
    for (auto &s : slots) {
      Str want = Str(s.pre) + d.name + s.suf;
      Function *F = d.slot.count(s.slot) ? d.slot[s.slot] : nullptr;
      if (!F) { cx.violAt("no-frame", d.G->getName().str(), "ta-lib-rt/c/src/ta_abstract/tables", 0, s.slot, d.name + " has no " + Str(s.slot) + " entry"); continue; }
      cx.count("frames");
      if (F->isDeclaration()) { errs() << "talint: frame " << F->getName() << " has no body\n"; exit(3); }
      std::vector<std::pair<Str, Str>> exp;
      auto in = [&](bool sc) {
        for (size_t i = 0; i < d.in.size(); i++) {
          Str cell = plus(cellAt(plus("a0", PH["in"])), i * szIn + oIn["data"]);
          if (d.in[i].type == it["TA_Input_Price"]) {
            for (auto &q : PRICE) if (d.in[i].flags & q.first) { Str v = cellAt(plus(cell, PP[q.second])); exp.push_back({sc ? cellAt(v) : v, Str(q.second) + " prices"}); }
          } else exp.push_back({sc ? cellAt(cellAt(cell)) : cellAt(cell), "input " + std::to_string(i) + " (" + d.in[i].name + ")"});
        }
      };
      auto opt = [&]() { for (size_t i = 0; i < d.opt.size(); i++) exp.push_back({cellAt(plus(cellAt(plus("a0", PH["optIn"])), i * szOpt + oOpt["data"])), "option " + std::to_string(i) + " (" + d.opt[i].name + ")"}); };
      auto out = [&]() { for (size_t i = 0; i < d.out.size(); i++) exp.push_back({cellAt(plus(cellAt(plus("a0", PH["out"])), i * szOut + oOut["data"])), "output " + std::to_string(i) + " (" + d.out[i].name + ")"}); };
      Str stp = plus("a0", PH["_state"]), st = cellAt(stp);
      switch (s.k) {
      case K_Batch: exp = {{"a1", "startIdx"}, {"a2", "endIdx"}}; in(false); opt(); exp.push_back({"a3", "outBegIdx"}); exp.push_back({"a4", "outNbElement"}); out(); break;
      case K_Lookback: opt(); break;
      case K_Init: exp = {{stp, "the stream handle"}}; opt(); break;
      case K_State: exp = {{st, "the stream"}}; in(true); out(); break;
      case K_BatchState: exp = {{st, "the stream"}, {"a1", "startIdx"}, {"a2", "endIdx"}}; in(false); exp.push_back({"a3", "outBegIdx"}); exp.push_back({"a4", "outNbElement"}); out(); break;
      case K_Free: exp = {{stp, "the stream handle"}}; break;
      case K_Save: exp = {{st, "the stream"}, {"a1", "the file"}}; break;
      case K_Load: exp = {{stp, "the stream handle"}, {"a1", "the file"}}; break;
      default: break;
      }
      PathEnum pe(cx, *F);
      pe.run();
      if (pe.overflow || pe.paths.empty()) { cx.lists["overflow"].insert(F->getName().str()); continue; }
      for (auto &p : pe.paths) {
        cx.count("paths");
        const Ev *call = nullptr; int n = 0;
        for (auto &e : p.ev) if (e.k == Ev::Call && cx.api.count(e.callee)) { call = &e; n++; }
        DebugLoc L = call ? call->I->getDebugLoc() : DebugLoc();
        if (n == 0) { // a refusal: must report an error
          if (!isNum(p.ret) || p.ret == "0") cx.viol("frame-no-call", F, p.R ? p.R->getDebugLoc() : L, s.slot, "returns without calling " + want);
          continue;
        }
        if (n > 1 || call->callee != want) { cx.viol("frame-target", F, L, s.slot, "calls " + call->callee + " for " + want); continue; }
        if (p.ret != call->res) cx.viol("frame-result", F, p.R->getDebugLoc(), s.slot, "does not return the result of " + want);
        if (call->args.size() != exp.size()) { cx.viol("frame-args", F, L, s.slot, "passes " + std::to_string(call->args.size()) + " arguments to " + want + ", described are " + std::to_string(exp.size())); continue; }
        for (size_t i = 0; i < exp.size(); i++) {
          cx.count("arguments");
          if (call->args[i] != exp[i].first) cx.viol("frame-args", F, L, std::to_string(i), "argument " + std::to_string(i + 1) + " of " + want + " is not " + exp[i].second);
          // integer options are read as integers, real options as reals
        }
        auto *CB = cast<CallBase>(call->I);
        if (s.k == K_Batch || s.k == K_Lookback || s.k == K_Init) {
          size_t k = 0;
          for (auto &o : d.opt) {
            while (k < exp.size() && exp[k].second.find("(" + o.name + ")") == Str::npos) k++;
            if (k < CB->arg_size() && CB->getArgOperand(k)->getType()->isDoubleTy() != o.real) cx.viol("frame-args", F, L, std::to_string(k), "option " + o.name + " is passed with the wrong type");
            if (k < CB->arg_size()) if (auto *LI = dyn_cast<LoadInst>(CB->getArgOperand(k))) if (LI->getType()->isDoubleTy() != o.real) cx.viol("frame-args", F, L, std::to_string(k), "option " + o.name + " is read with the wrong type");
          }
        }
        for (auto &e : p.ev) if (e.k == Ev::Store && e.a[0] != 'L') cx.viol("frame-store", F, e.I->getDebugLoc(), s.slot, "changes the parameter holder while passing it on");
      }
    }
}

// ---------------------------------------------------------------- the abstract interface
namespace {
struct L3 { Str p, a, b; };
struct Guard { std::vector<L3> any; int64_t code; Str what; };
Str invp(const Str &p) {
  static const std::map<Str, Str> m = {{"eq", "ne"}, {"ne", "eq"}, {"slt", "sge"}, {"sge", "slt"}, {"sgt", "sle"}, {"sle", "sgt"}, {"ult", "uge"}, {"uge", "ult"}, {"ugt", "ule"}, {"ule", "ugt"}};
  return m.at(p);
}
struct API {
  Ctx &cx;
  std::map<Str, uint64_t> PH, HI, FD, FI;
  API(Ctx &c) : cx(c), PH(OFF(c, "TA_ParamHolderPriv")), HI(OFF(c, "TA_ParamHolder")), FD(OFF(c, "TA_FuncDef")), FI(OFF(c, "TA_FuncInfo")) {}
  Function *F = nullptr;
  Str cur;
  std::vector<Path> *ps = nullptr;
  std::unique_ptr<PathEnum> pe;
  bool open(const Str &n, int visits = 2) {
    cur = n;
    F = cx.M->getFunction(n);
    if (!F || F->isDeclaration()) { errs() << "talint: " << n << " not found\n"; exit(3); }
    pe = std::make_unique<PathEnum>(cx, *F);
    pe->wantLoads = true; pe->maxVisit = visits;
    pe->run();
    if (pe->overflow || pe->paths.empty()) cx.lists["overflow"].insert(n);
    cx.count("functions"); cx.count("paths", pe->paths.size());
    return true;
  }
  void V(const Str &rule, const Path &p, const Str &inst, const Str &msg) { cx.viol(rule, F, p.R ? p.R->getDebugLoc() : DebugLoc(), inst, msg); }
  // argument pointers are tested before they are followed
  void nullSafe(const Path &p) {
    std::set<Str> ok;
    for (auto &e : p.ev) {
      if (e.k == Ev::Lit) { if (e.pred == "ne" && e.b == "0") ok.insert(e.a); if (e.pred == "ne" && e.a == "0") ok.insert(e.b); continue; }
      if (e.k != Ev::Load && e.k != Ev::Store) continue;
      // root argument of the address
      size_t i = e.a.find_first_not_of("*(");
      if (i == Str::npos || e.a[i] != 'a' || i + 1 >= e.a.size() || !isdigit((unsigned char)e.a[i + 1])) continue;
      size_t j = i + 1; while (j < e.a.size() && isdigit((unsigned char)e.a[j])) j++;
      Str root = e.a.substr(i, j - i);
      cx.count("pointer_uses");
      if (!ok.count(root)) { cx.viol("null-argument", F, e.I->getDebugLoc(), root, "parameter " + paramName(root) + " is followed without a test for NULL"); ok.insert(root); }
    }
  }
  Str paramName(const Str &r) { auto ps = paramInfo(F); size_t i = atoi(r.c_str() + 1); return i < ps.size() ? ps[i].first : r; }
  bool success(const Path &p) { return p.ret == "0"; }
  // refusals only: paths for which ok holds are not examined
  void refusals(const std::vector<Guard> &gs, const std::function<bool(const Path &)> &ok) { guards(gs, ok, true); }
  void guards(const std::vector<Guard> &gs, const std::function<bool(const Path &)> &ok, bool onlyRefusals = false) {
    for (auto &p : pe->paths) {
      nullSafe(p);
      if (p.ret == "...") continue;
      cx.count("obligations", gs.size());
      if (ok(p)) {
        if (onlyRefusals) continue;
        for (auto &g : gs) {
          bool s = false;
          for (auto &l : g.any) if (p.has(l.p, l.a, l.b)) s = true;
          if (!s) V("unguarded", p, g.what, "succeeds although " + g.what);
        }
      } else if (isNum(p.ret)) {
        int64_t c = atoll(p.ret.c_str());
        if (c >= 5000 && c <= 5999) continue;
        bool expl = false;
        Str whats;
        for (auto &g : gs) {
          bool neg = true;
          for (auto &l : g.any) if (!p.has(invp(l.p), l.a, l.b)) neg = false;
          if (!neg) continue;
          whats += (whats.empty() ? "" : ", ") + g.what;
          if (g.code == c) expl = true;
        }
        if (!expl) V("wrong-code", p, std::to_string(c), whats.empty() ? "fails with code " + std::to_string(c) + " without one of its documented reasons" : "answers code " + std::to_string(c) + " when " + whats);
      }
    }
  }
  // the value an address holds at the end of a path ("" when never stored)
  static Str last(const Path &p, const Str &addr) {
    Str v;
    for (auto &e : p.ev) {
      if (e.k == Ev::Store && e.a == addr) v = e.b;
      if (e.k == Ev::Call && e.callee == "memset" && e.args.size() > 2 && e.args[1] == "0") {
        Str b, b2; int64_t o, o2; splitOff(addr, b, o); splitOff(e.args[0], b2, o2);
        if (b == b2 && isNum(e.args[2]) && o >= o2 && o < o2 + atoll(e.args[2].c_str())) v = "0";
        else if (b == b2 && !isNum(e.args[2])) v = "0";
      }
    }
    return v;
  }
  static std::vector<const Ev *> stores(const Path &p) { std::vector<const Ev *> r; for (auto &e : p.ev) if ((e.k == Ev::Store || e.k == Ev::Copy) && e.a[0] != 'L') r.push_back(&e); return r; }
};
} // namespace

void checkAbstractApi(Ctx &cx) {
  API A(cx);
  auto reg = readRegistry(cx);
  auto &PH = A.PH; auto &FI = A.FI; auto &FD = A.FD;
  const int64_t BAD = rc("TA_BAD_PARAM"), IH = rc("TA_INVALID_HANDLE"), IPH = rc("TA_INVALID_PARAM_HOLDER"), IPT = rc("TA_INVALID_PARAM_HOLDER_TYPE"),
                INI = rc("TA_INPUT_NOT_ALL_INITIALIZE"), ONI = rc("TA_OUTPUT_NOT_ALL_INITIALIZE"), AE = rc("TA_ALLOC_ERR"), FNF = rc("TA_FUNC_NOT_FOUND"), GNF = rc("TA_GROUP_NOT_FOUND"), BO = rc("TA_BAD_OBJECT");
  auto it = enumOf(cx, "TA_InputParameterType"), ot = enumOf(cx, "TA_OptInputParameterType"), out = enumOf(cx, "TA_OutputParameterType");
  uint64_t szIn = SIZE(cx, "TA_ParamHolderInput"), szOpt = SIZE(cx, "TA_ParamHolderOptInput"), szOut = SIZE(cx, "TA_ParamHolderOutput");
  auto oIn = OFF(cx, "TA_ParamHolderInput"), oOpt = OFF(cx, "TA_ParamHolderOptInput"), oOut = OFF(cx, "TA_ParamHolderOutput");
  auto PP = OFF(cx, "TA_PricePtrs"), II = OFF(cx, "TA_InputParameterInfo"), OI = OFF(cx, "TA_OptInputParameterInfo"), UI = OFF(cx, "TA_OutputParameterInfo");
  auto ST = OFF(cx, "TA_StringTable");
  Str defMagic = std::to_string((int32_t)reg.at(0).magic);
  auto ok0 = [&](const Path &p) { return A.success(p); };
  auto nn = [&](const Str &a, const Str &w) { return Guard{{{"ne", a, "0"}}, BAD, w + " is NULL"}; };
  // ---- magic of a parameter holder: what TA_ParamHolderAlloc writes
  Str hMagic, gMagic, fMagic;
  A.open("TA_ParamHolderAlloc", 3);
  {
    Str h = "a0", fi = cellAt(plus(h, FD["funcInfo"]));
    std::vector<Guard> gs = {nn("a0", "handle"), nn("a1", "allocatedParams"), {{{"eq", cellAt(plus(h, FD["magicNumber"])), defMagic}}, IH, "the handle is not a function handle"}, {{{"ne", fi, "0"}}, IH, "the handle has no description"}};
    // allocation failures
    std::set<Str> mallocs;
    for (auto &p : A.pe->paths) for (auto &e : p.ev) if (e.k == Ev::Call && e.callee == "malloc") mallocs.insert(e.res);
    auto gs2 = gs;
    for (auto &m : mallocs) gs2.push_back({{{"ne", m, "0"}}, AE, "memory is exhausted"});
    for (auto &p : A.pe->paths) {
      A.nullSafe(p);
      if (p.ret != "0") {
        if (!isNum(p.ret)) { A.V("result", p, "ret", "returns an unknown code"); continue; }
        int64_t c = atoll(p.ret.c_str());
        if (c >= 5000 && c <= 5999) continue;
        bool expl = false;
        for (auto &g : gs2) { bool neg = true; for (auto &l : g.any) if (!p.has(invp(l.p), l.a, l.b)) neg = false; if (neg && g.code == c) expl = true; }
        if (!expl) A.V("wrong-code", p, p.ret, "fails with code " + p.ret + " without one of its documented reasons");
        continue;
      }
      cx.count("alloc_paths");
      for (auto &g : gs) { bool s = false; for (auto &l : g.any) if (p.has(l.p, l.a, l.b)) s = true; if (!s) A.V("unguarded", p, g.what, "succeeds although " + g.what); }
      Str P = A.last(p, "a1"), Q = A.last(p, plus(P, A.HI["hiddenData"]));
      if (P.empty() || P == "0" || Q.empty() || Q == "0") { A.V("holder", p, "holder", "does not return a parameter holder"); continue; }
      Str m = A.last(p, plus(Q, PH["magicNumber"]));
      if (!isNum(m) || m == "0") A.V("holder", p, "magic", "the parameter holder is not marked as valid"); else if (hMagic.empty()) hMagic = m; else if (hMagic != m) A.V("holder", p, "magic", "parameter holders are marked differently");
      if (A.last(p, plus(Q, PH["funcInfo"])) != fi) A.V("holder", p, "funcInfo", "the parameter holder does not refer to the function it was made for");
      Str stv = A.last(p, plus(Q, PH["_state"]));
      if (stv != "0") A.V("holder", p, "_state", "a new parameter holder does not start without a stream");
      auto arr = [&](const char *cell, const char *defList, const char *cnt, uint64_t sz, uint64_t infoOff, const char *bitmap, const Str &w) -> int {
        Str B = A.last(p, plus(Q, PH[cell])), list = cellAt(plus("a0", FD[defList])), n = cellAt(plus(fi, FI[cnt]));
        int k = 0;
        if (!(B.empty() || B == "0"))
          while (k < 8 && !A.last(p, plus(B, k * sz + infoOff)).empty() && A.last(p, plus(B, k * sz + infoOff)) != "0") {
            Str v = A.last(p, plus(B, k * sz + infoOff)), want = cellAt(plus(list, 8 * k));
            if (v != want) A.V("holder", p, w, "the description of " + w + " " + std::to_string(k) + " is not the function's");
            k++;
          }
        Str ks = std::to_string(k);
        if (!p.has("uge", ks, n) && !p.has("eq", ks, n)) A.V("holder", p, w + "s", "not every " + w + " of the function is set up");
        if (bitmap) {
          Str bm = A.last(p, plus(Q, PH[bitmap]));
          Str want = std::to_string((1 << k) - 1);
          Str alt = canon(Instruction::Add, canon(Instruction::Shl, "1", n), "-1");
          if (bm != want && bm != alt) A.V("bitmap", p, w, "a new parameter holder does not mark exactly its " + w + "s as missing");
        }
        cx.count("holder_arrays");
        return k;
      };
      arr("in", "input", "nbInput", szIn, oIn["inputInfo"], "inBitmap", "input");
      int ko = arr("optIn", "optInput", "nbOptInput", szOpt, oOpt["optInputInfo"], nullptr, "option");
      arr("out", "output", "nbOutput", szOut, oOut["outputInfo"], "outBitmap", "output");
      Str B = A.last(p, plus(Q, PH["optIn"]));
      for (int k = 0; k < ko; k++) {
        Str info = cellAt(plus(cellAt(plus("a0", FD["optInput"])), 8 * k)), ty = cellAt(plus(info, OI["type"])), df = cellAt(plus(info, OI["defaultValue"]));
        Str v = A.last(p, plus(B, k * szOpt + oOpt["data"]));
        bool real = false;
        for (auto &t : {"TA_OptInput_RealRange", "TA_OptInput_RealList"}) if (p.has("eq", ty, std::to_string(ot[t]))) real = true;
        if (v != (real ? df : "(fptosi " + df + ")")) A.V("default", p, std::to_string(k), "option " + std::to_string(k) + " of a new parameter holder does not start with its documented default");
      }
    }
  }
  if (hMagic.empty()) { errs() << "talint: parameter holder magic not found\n"; exit(3); }
  Str priv = cellAt(plus("a0", A.HI["hiddenData"])), pfi = cellAt(plus(priv, PH["funcInfo"]));
  Guard gMag{{{"eq", cellAt(plus(priv, PH["magicNumber"])), hMagic}}, IPH, "the object is not a parameter holder"};
  Guard gInfo{{{"ne", pfi, "0"}}, IH, "the parameter holder has no function"};
  // ---- release of a parameter holder
  A.open("TA_ParamHolderFree");
  for (auto &p : A.pe->paths) {
    A.nullSafe(p);
    if (p.has("eq", "a0", "0")) { if (p.ret != "0") A.V("wrong-code", p, "null", "releasing NULL is not accepted"); continue; }
    if (p.ret != "0") { for (auto &e : p.ev) if (e.k == Ev::Call && e.callee == "free") A.V("free", p, "early", "memory is released although the holder is refused");
      if (!(atoll(p.ret.c_str()) == IPH && (p.has("eq", priv, "0") || p.has("ne", cellAt(plus(priv, PH["magicNumber"])), hMagic)))) A.V("wrong-code", p, p.ret, "fails with code " + p.ret + " without one of its documented reasons"); continue; }
    if (!p.has("eq", cellAt(plus(priv, PH["magicNumber"])), hMagic)) A.V("unguarded", p, "magic", "an object that is not a parameter holder is released");
    std::map<Str, int> fr; bool gone = false;
    for (auto &e : p.ev) {
      if (e.k == Ev::Call && e.callee == "free") { fr[e.args[0]]++; if (e.args[0] == "a0") gone = true; continue; }
      if (gone && (e.k == Ev::Load || e.k == Ev::Store) && e.a.find("a0") != Str::npos) A.V("free", p, "after", "the holder is accessed after its release");
    }
    for (auto &c : {"in", "optIn", "out"}) { Str v = cellAt(plus(priv, PH[c])); if (fr[v] != 1 && !(p.has("eq", v, "0") && fr[v] == 0)) A.V("free", p, c, Str("the ") + c + " array is not released exactly once"); cx.count("released"); }
    if (fr["a0"] != 1) A.V("free", p, "holder", "the parameter holder itself is not released exactly once");
  }
  // ---- descriptions of a function
  struct { const char *fn, *cnt, *list; } gets[] = {{"TA_GetInputParameterInfo", "nbInput", "input"}, {"TA_GetOptInputParameterInfo", "nbOptInput", "optInput"}, {"TA_GetOutputParameterInfo", "nbOutput", "output"}, {"TA_GetStructParameterInfo", "nbStructParams", "structParams"}};
  Str dfi = cellAt(plus("a0", FD["funcInfo"]));
  std::vector<Guard> hg = {nn("a0", "handle"), {{{"eq", cellAt(plus("a0", FD["magicNumber"])), defMagic}}, IH, "the handle is not a function handle"}, {{{"ne", dfi, "0"}}, IH, "the handle has no description"}};
  for (auto &g : gets) {
    A.open(g.fn);
    auto gs = hg; gs.push_back(nn("a2", "info"));
    if (!FI.count(g.cnt)) { errs() << "talint: no field " << g.cnt << "\n"; exit(3); }
    gs.push_back({{{"ult", "a1", cellAt(plus(dfi, FI[g.cnt]))}}, BAD, "the index is beyond the parameters"});
    A.guards(gs, ok0);
    for (auto &p : A.pe->paths) {
      if (p.ret == "0") {
        Str want = cellAt(cellAt(plus("a0", FD[g.list])) + "[a1*8]");
        if (A.last(p, "a2") != want) A.V("result", p, "info", "does not return the description of the parameter asked for");
      } else if (!p.has("eq", "a2", "0") && !p.has("eq", "a0", "0") && isNum(p.ret) && atoll(p.ret.c_str()) < 5000) {
        Str v = A.last(p, "a2"); if (!v.empty() && v != "0") A.V("result", p, "info", "hands out a description although it fails");
      }
    }
  }
  A.open("TA_GetFuncInfo");
  { auto gs = hg; gs.push_back(nn("a1", "funcInfo")); A.guards(gs, ok0); for (auto &p : A.pe->paths) if (p.ret == "0" && A.last(p, "a1") != dfi) A.V("result", p, "info", "does not return the description of the function asked for"); }
  // ---- setters
  struct Setter { const char *fn, *cell, *cnt; uint64_t sz, data, info, typeOff; std::vector<int64_t> types; const char *bitmap; bool ptr; const char *w; };
  std::vector<Setter> sets = {
      {"TA_SetInputParamIntegerPtr", "in", "nbInput", szIn, oIn["data"], oIn["inputInfo"], II["type"], {it["TA_Input_Integer"]}, "inBitmap", true, "input"},
      {"TA_SetInputParamRealPtr", "in", "nbInput", szIn, oIn["data"], oIn["inputInfo"], II["type"], {it["TA_Input_Real"]}, "inBitmap", true, "input"},
      {"TA_SetInputParamPricePtr", "in", "nbInput", szIn, oIn["data"], oIn["inputInfo"], II["type"], {it["TA_Input_Price"]}, "inBitmap", false, "input"},
      {"TA_SetOptInputParamInteger", "optIn", "nbOptInput", szOpt, oOpt["data"], oOpt["optInputInfo"], OI["type"], {ot["TA_OptInput_IntegerRange"], ot["TA_OptInput_IntegerList"]}, nullptr, false, "option"},
      {"TA_SetOptInputParamReal", "optIn", "nbOptInput", szOpt, oOpt["data"], oOpt["optInputInfo"], OI["type"], {ot["TA_OptInput_RealRange"], ot["TA_OptInput_RealList"]}, nullptr, false, "option"},
      {"TA_SetOutputParamIntegerPtr", "out", "nbOutput", szOut, oOut["data"], oOut["outputInfo"], UI["type"], {out["TA_Output_Integer"]}, "outBitmap", true, "output"},
      {"TA_SetOutputParamRealPtr", "out", "nbOutput", szOut, oOut["data"], oOut["outputInfo"], UI["type"], {out["TA_Output_Real"]}, "outBitmap", true, "output"}};
  for (auto &s : sets) {
    A.open(s.fn);
    bool price = Str(s.fn) == "TA_SetInputParamPricePtr";
    Str elem = cellAt(plus(priv, PH[s.cell])) + "[a1*" + std::to_string(s.sz) + "]", info = cellAt(plus(elem, s.info)), ty = cellAt(plus(info, s.typeOff)), fl = cellAt(plus(info, II["flags"]));
    std::vector<Guard> gs = {nn("a0", "the parameter holder"), gMag, gInfo, {{{"ult", "a1", cellAt(plus(pfi, FI[s.cnt]))}}, BAD, "the index is beyond the function's parameters"}};
    if (s.ptr) gs.push_back(nn("a2", "the array"));
    Guard tg; tg.code = IPT; tg.what = "the parameter is of another type";
    for (auto t : s.types) tg.any.push_back({"eq", ty, std::to_string(t)});
    gs.push_back(tg);
    auto gs2 = gs;
    if (price) for (int i = 0; i < 6; i++) gs2.push_back({{{"ne", "a" + std::to_string(2 + i), "0"}}, BAD, Str("the ") + PRICE[i].second + " array is NULL"});
    // a success must satisfy gs; a refusal may have any reason of gs2
    for (auto &p : A.pe->paths) {
      if (A.success(p)) for (auto &g : gs) { bool k = false; for (auto &l : g.any) if (p.has(l.p, l.a, l.b)) k = true; if (!k) A.V("unguarded", p, g.what, "succeeds although " + g.what); }
    }
    A.refusals(gs2, ok0);
    for (auto &p : A.pe->paths) {
      cx.count("setter_paths");
      Str bmA = s.bitmap ? plus(priv, PH[s.bitmap]) : "";
      Str clr = s.bitmap ? canon(Instruction::And, cellAt(bmA), canon(Instruction::Xor, canon(Instruction::Shl, "1", "a1"), "-1")) : "";
      std::set<Str> allowed;
      if (p.ret == "0") {
        if (s.bitmap) { if (A.last(p, bmA) != clr) A.V("bitmap", p, s.w, Str("does not mark exactly this ") + s.w + " as set"); allowed.insert(bmA); }
        if (!price) { Str d = plus(elem, s.data); if (A.last(p, d) != "a2") A.V("stored", p, s.w, Str("does not store the given ") + s.w); allowed.insert(d); }
        else
          for (int i = 0; i < 6; i++) {
            Str a = "a" + std::to_string(2 + i), c = plus(elem, s.data + PP[PRICE[i].second]), t = canon(Instruction::And, fl, std::to_string(PRICE[i].first));
            bool used = p.has("ne", t, "0"), unused = p.has("eq", t, "0");
            allowed.insert(c);
            if (!used && !unused) { A.V("price", p, PRICE[i].second, Str("does not look whether the function needs ") + PRICE[i].second); continue; }
            if (used && !p.has("ne", a, "0")) A.V("unguarded", p, PRICE[i].second, Str("accepts NULL for needed ") + PRICE[i].second);
            if (used && A.last(p, c) != a) A.V("stored", p, PRICE[i].second, Str("does not store the given ") + PRICE[i].second + " array");
          }
      } else if (price) {
        for (int i = 0; i < 6; i++) { allowed.insert(plus(elem, s.data + PP[PRICE[i].second]));
          // NULL for a component the function does not use is no reason to refuse
          Str a = "a" + std::to_string(2 + i), t = canon(Instruction::And, fl, std::to_string(PRICE[i].first));
          if (p.has("eq", a, "0") && p.has("eq", t, "0") && &p) {} }
        bool bad = atoll(p.ret.c_str()) == BAD && !p.has("eq", "a0", "0") && p.has("ult", "a1", cellAt(plus(pfi, FI[s.cnt])));
        if (bad) { bool why = false; for (int i = 0; i < 6; i++) if (p.has("eq", "a" + std::to_string(2 + i), "0") && p.has("ne", canon(Instruction::And, fl, std::to_string(PRICE[i].first)), "0")) why = true;
          if (!why) A.V("wrong-code", p, "price", "refuses a price input although all needed arrays are given"); }
      }
      for (auto *e : A.stores(p)) if (!allowed.count(e->a)) A.V("stored", p, "other", p.ret == "0" ? "changes something else of the parameter holder" : "changes the parameter holder although it refuses the value");
    }
  }
  // ---- calls
  struct CallDef { const char *fn, *slot; bool in; std::vector<Str> extra; std::vector<Str> nonnull; bool viaOut; };
  std::vector<CallDef> calls = {
      {"TA_GetLookback", "lookback", false, {}, {"a1"}, true}, {"TA_CallFunc", "function", true, {"a1", "a2", "a3", "a4"}, {"a3", "a4"}, false}, {"TA_InitNewState", "state_init", false, {}, {}, false},
      {"TA_CallFuncState", "state_func", true, {}, {}, false}, {"TA_CallFuncBatchState", "batch_state_func", true, {"a1", "a2", "a3", "a4"}, {"a3", "a4"}, false}, {"TA_FreeState", "state_free", false, {}, {}, false},
      {"TA_SaveState", "state_save", false, {"a1"}, {}, false}, {"TA_LoadState", "state_load", false, {"a1"}, {}, false}};
  Str def = cellAt(plus(pfi, FI["handle"]));
  for (auto &c : calls) {
    A.open(c.fn);
    std::vector<Guard> gs = {nn("a0", "the parameter holder"), gMag, gInfo};
    for (auto &n : c.nonnull) gs.push_back(nn(n, A.paramName(n)));
    if (c.in) { gs.push_back({{{"eq", cellAt(plus(priv, PH["inBitmap"])), "0"}}, INI, "an input is missing"}); gs.push_back({{{"eq", cellAt(plus(priv, PH["outBitmap"])), "0"}}, ONI, "an output is missing"}); }
    Str target = "*" + cellAt(plus(def, FD[c.slot]));
    auto called = [&](const Path &p) -> const Ev * { for (auto &e : p.ev) if (e.k == Ev::Call && e.callee[0] == '*') return &e; return nullptr; };
    A.guards(gs, [&](const Path &p) { return called(p) != nullptr; });
    for (auto &p : A.pe->paths) {
      const Ev *e = called(p);
      if (!e) { if (p.ret == "0") A.V("no-call", p, c.slot, "succeeds without calling the function"); continue; }
      cx.count("dispatches");
      if (e->callee != target) A.V("dispatch", p, c.slot, "does not call the function's " + Str(c.slot) + " entry");
      std::vector<Str> want = {priv}; want.insert(want.end(), c.extra.begin(), c.extra.end());
      if (e->args != want) A.V("dispatch", p, "arguments", "does not pass its arguments on unchanged");
      if (c.viaOut) { if (A.last(p, "a1") != e->res || p.ret != "0") A.V("result", p, "lookback", "does not hand out the computed lookback"); }
      else if (p.ret != e->res) A.V("result", p, "code", "does not return the function's result");
      for (auto *s : A.stores(p)) if (!(c.viaOut && s->a == "a1")) A.V("stored", p, "other", "changes the parameter holder");
    }
  }
  struct { const char *fn, *slot; } ptrs[] = {{"TA_GetInitNewStateFuncPtr", "state_init"}, {"TA_GetCallFuncStateFuncPtr", "state_func"}, {"TA_GetCallFuncBatchStateFuncPtr", "batch_state_func"}, {"TA_GetFreeStateFuncPtr", "state_free"}, {"TA_GetSaveStateFuncPtr", "state_save"}, {"TA_GetLoadStateFuncPtr", "state_load"}};
  for (auto &c : ptrs) {
    A.open(c.fn);
    A.guards({{{{"ne", "a0", "0"}}, IH, "the description is NULL"}, nn("a1", "func")}, ok0);
    for (auto &p : A.pe->paths) if (p.ret == "0" && A.last(p, "a1") != cellAt(plus(cellAt(plus("a0", FI["handle"])), FD[c.slot]))) A.V("result", p, c.slot, "does not hand out the function's " + Str(c.slot) + " entry");
  }
  A.open("TA_GetParamStatePtr");
  A.guards({nn("a0", "param"), nn("a1", "state"), gMag}, ok0);
  for (auto &p : A.pe->paths) if (p.ret == "0" && A.last(p, "a1") != cellAt(plus(priv, PH["_state"]))) A.V("result", p, "state", "does not hand out the holder's stream");
  A.open("TA_SetParamStatePtr");
  A.guards({nn("a0", "param"), gMag}, ok0);
  for (auto &p : A.pe->paths) if (p.ret == "0" && A.last(p, plus(priv, PH["_state"])) != "a1") A.V("stored", p, "state", "does not store the given stream");
  // ---- tables of names
  auto *GStr = cx.M->getGlobalVariable("TA_GroupString", true);
  int64_t nG = GStr ? cast<ArrayType>(GStr->getValueType())->getNumElements() : -1;
  for (auto &t : {"TA_GroupTable", "TA_FuncTable"}) {
    bool grp = Str(t) == "TA_GroupTable";
    A.open(Str(t) + "Alloc", 24);
    Str o = grp ? "a0" : "a1";
    Str &magic = grp ? gMagic : fMagic;
    std::set<int> groupsSeen;
    for (auto &p : A.pe->paths) {
      A.nullSafe(p);
      if (p.ret != "0") {
        int64_t c = isNum(p.ret) ? atoll(p.ret.c_str()) : -1;
        bool ok = (c == BAD && (p.has("eq", "a0", "0") || (!grp && p.has("eq", "a1", "0")))) || (!grp && c == GNF) || (c >= 5000 && c <= 5999);
        if (c == AE) for (auto &e : p.ev) if (e.k == Ev::Call && e.callee == "malloc" && p.has("eq", e.res, "0")) ok = true;
        if (!grp && c == GNF) { int n = 0; for (auto &e : p.ev) if (e.k == Ev::Call && e.callee == "strcmp" && p.has("ne", e.res, "0")) n++; if (n != nG) A.V("wrong-code", p, "group", "an existing group may not be found"); }
        if (!ok) A.V("wrong-code", p, p.ret, "fails with code " + p.ret + " without one of its documented reasons");
        Str v = A.last(p, o);
        if (c != BAD && v != "0") A.V("result", p, "table", "leaves a table pointer behind although it fails");
        continue;
      }
      Str T = A.last(p, o);
      Str hid = A.last(p, plus(T, ST["hiddenData"])), m = A.last(p, plus(hid, 0)), n = A.last(p, plus(T, ST["size"])), s = A.last(p, plus(T, ST["string"]));
      if (T.empty() || T == "0" || !isNum(m) || m == "0") { A.V("result", p, "table", "does not return a valid table"); continue; }
      if (magic.empty()) magic = m; else if (magic != m) A.V("result", p, "magic", "tables are marked differently");
      if (grp) { if (n != std::to_string(nG) || s != "@TA_GroupString") A.V("result", p, "groups", "the table does not list every group"); cx.count("tables"); continue; }
      int g = -1, k = 0;
      for (auto &e : p.ev) if (e.k == Ev::Call && e.callee == "strcmp") {
        if (p.has("eq", e.res, "0")) { for (int i = 0; i < nG; i++) for (int z = 0; z < 2; z++) if (auto *X = cptr(cx, GStr, 8 * i)) if (e.args[z] == "@" + X->stripPointerCasts()->getName().str() && e.args[1 - z] == "a0") g = i; }
        k++;
      }
      if (g < 0) { A.V("result", p, "group", "a table is returned for a name that matches no group"); continue; }
      groupsSeen.insert(g);
      std::multiset<Str> want, got;
      for (auto &d : reg) if (d.groupId == g) want.insert(d.name);
      for (int64_t i = 0; isNum(n) && i < atoll(n.c_str()) && i < 1000; i++) {
        Str v = A.last(p, plus(s, 8 * i));
        auto *X = v[0] == '@' ? cx.M->getNamedValue(v.substr(1)) : nullptr;
        got.insert(X ? cstr(cx, cast<Constant>(X)) : "?");
      }
      cx.count("tables");
      if (got != want) A.V("result", p, cstr(cx, cptr(cx, GStr, 8 * g)), "the table of group \"" + cstr(cx, cptr(cx, GStr, 8 * g)) + "\" does not list exactly its functions");
    }
    if (!grp && (int64_t)groupsSeen.size() != nG) cx.viol("result", A.F, DebugLoc(), "groups", "only " + std::to_string(groupsSeen.size()) + " of " + std::to_string(nG) + " groups can be listed");
    A.open(Str(t) + "Free");
    for (auto &p : A.pe->paths) {
      A.nullSafe(p);
      Str h = cellAt(plus("a0", ST["hiddenData"]));
      std::map<Str, int> fr; bool gone = false;
      for (auto &e : p.ev) { if (e.k == Ev::Call && e.callee == "free") { fr[e.args[0]]++; gone |= e.args[0] == "a0"; } else if (gone && (e.k == Ev::Load || e.k == Ev::Store) && e.a.find("a0") != Str::npos) A.V("free", p, "after", "the table is accessed after its release"); }
      if (p.has("eq", "a0", "0")) { if (p.ret != "0") A.V("wrong-code", p, "null", "releasing NULL is not accepted"); continue; }
      if (p.ret != "0") { if (!fr.empty()) A.V("free", p, "early", "memory is released although the table is refused"); if (isNum(p.ret) && atoll(p.ret.c_str()) < 5000 && !(atoll(p.ret.c_str()) == BO && p.has("ne", cellAt(h), magic))) A.V("wrong-code", p, p.ret, "fails with code " + p.ret + " without one of its documented reasons"); continue; }
      if (!p.has("eq", cellAt(h), magic)) A.V("unguarded", p, "magic", "an object that is not such a table is released");
      if (fr["a0"] != 1) A.V("free", p, "table", "the table is not released exactly once");
      Str s = cellAt(plus("a0", ST["string"]));
      if (!grp && fr[s] != 1 && !(p.has("eq", s, "0") && !fr[s])) A.V("free", p, "string", "the list of names is not released exactly once");
      if (grp && fr[s]) A.V("free", p, "string", "the library's own list of group names is released");
    }
  }
  if (gMagic == fMagic) cx.viol("magic", A.F, DebugLoc(), "magic", "group and function tables cannot be told apart");
  // ---- enumeration and search
  A.open("TA_ForEachFunc");
  for (auto &p : A.pe->paths) {
    A.nullSafe(p);
    if (p.ret != "0") { if (!(isNum(p.ret) && atoll(p.ret.c_str()) == BAD && p.has("eq", "a0", "0"))) A.V("wrong-code", p, p.ret, "fails without its documented reason"); continue; }
    if (!p.has("ne", "a0", "0")) A.V("unguarded", p, "null", "calls a NULL function");
    std::map<Str, int> seen;
    for (auto &e : p.ev) if (e.k == Ev::Call && e.callee == "*a0") { if (e.args.size() != 2 || e.args[1] != "a1") A.V("dispatch", p, "opaque", "does not pass the caller's data on"); seen[e.args[0]]++; }
    for (auto &d : reg) { Str n = d.info ? "@" + d.info->getName().str() : "?"; cx.count("enumerated"); if (seen[n] != 1) A.V("result", p, d.name, d.name + " is visited " + std::to_string(seen[n]) + " times"); seen.erase(n); }
    if (!seen.empty()) A.V("result", p, "others", "visits something that is not a function description");
  }
  A.open("TA_GetFuncHandle");
  for (auto &p : A.pe->paths) {
    A.nullSafe(p);
    std::vector<const Ev *> cmp; Str idx;
    for (auto &e : p.ev) {
      if (e.k == Ev::Call && e.callee == "strcmp") cmp.push_back(&e);
      if (e.k == Ev::Load && e.a[0] == '@') {
        size_t b = e.a.find("["), q = b;
        if (b == Str::npos) continue;
        for (int d = 0; q < e.a.size(); q++) { if (e.a[q] == '[') d++; if (e.a[q] == ']' && --d == 0) break; }
        if (q >= e.a.size() || e.a.compare(q - 2, 2, "*8")) continue;
        idx = e.a.substr(b + 1, q - 2 - b - 1);
        // the letter must have been found to be within the tables
        bool in = false;
        for (int64_t lo : {'a', 'A'}) {
          Str pre = "(add ", suf = " " + std::to_string(-lo) + ")";
          if (idx.size() < pre.size() + suf.size() || idx.compare(0, pre.size(), pre) || idx.compare(idx.size() - suf.size(), suf.size(), suf)) continue;
          Str x = idx.substr(pre.size(), idx.size() - pre.size() - suf.size());
          in = (p.has("sge", x, std::to_string(lo)) || p.has("sgt", x, std::to_string(lo - 1))) && (p.has("sle", x, std::to_string(lo + 25)) || p.has("slt", x, std::to_string(lo + 26)));
        }
        if (p.has("ult", idx, "26") || p.has("ule", idx, "25")) in = true;
        if (!in) cx.viol("letter", A.F, e.I->getDebugLoc(), "letter", "a table is looked up for something that may not be a letter");
        cx.count("letter_lookups");
      }
    }
    int64_t c = isNum(p.ret) ? atoll(p.ret.c_str()) : -1;
    Str v = A.last(p, "a1");
    if (c == 0) {
      bool found = false;
      for (auto *e : cmp) if (p.has("eq", e->res, "0"))
        for (int z = 0; z < 2; z++) if (e->args[1 - z] == "a0" && e->args[z] == cellAt(plus(cellAt(plus(v, FD["funcInfo"])), FI["name"]))) found = true;
      if (!found) A.V("result", p, "handle", "hands out a function whose name is not the one asked for");
      cx.count("search_paths");
    } else if (c == FNF) {
      if (v != "0") A.V("result", p, "handle", "hands out a handle although the name was not found");
      if (!idx.empty()) {
        // every entry compared and different
        int k = 0; for (auto *e : cmp) if (p.has("ne", e->res, "0")) k++;
        bool end = false;
        for (auto &e : p.ev) if (e.k == Ev::Lit) { bool ng; Str key = litKey(e.pred, e.a, e.b, ng); if ((key.compare(0, 4 + std::to_string(k).size() + 1, "ult:" + std::to_string(k) + ",") == 0 && ng) || (e.pred == "ult" && e.b == "1" && k == 0) || (e.pred == "eq" && k == 0 && (e.a == "0" || e.b == "0"))) end = true; }
        if (!end) A.V("result", p, "search", "gives up before every function of the letter was compared");
      } else {
        bool out = false;
        for (auto &e : p.ev) if (e.k == Ev::Lit) { bool ng; Str key = litKey(e.pred, e.a, e.b, ng);
          for (Str z : {"97", "65"}) if (!ng && key.compare(0, 4, "slt:") == 0 && key.size() > z.size() + 1 && key.compare(key.size() - z.size() - 1, Str::npos, "," + z) == 0) out = true;
          for (Str z : {"122", "90", "25"}) if (!ng && (key.compare(0, 4 + z.size() + 1, "slt:" + z + ",") == 0 || key.compare(0, 4 + z.size() + 1, "ult:" + z + ",") == 0)) out = true;
          if (ng && key.compare(0, 4, "ult:") == 0 && key.compare(key.size() - 3, 3, ",26") == 0) out = true; }
        if (!out) A.V("wrong-code", p, "letter", "a name starting with a letter is not looked up");
      }
      cx.count("search_paths");
    } else if (c == BAD) {
      if (!p.has("eq", "a0", "0") && !p.has("eq", "a1", "0") && !p.has("eq", "*(a0)", "0")) A.V("wrong-code", p, "bad", "refuses a valid name");
    } else if (!(c >= 5000 && c <= 5999)) A.V("wrong-code", p, p.ret, "fails with code " + p.ret + " without one of its documented reasons");
  }
}

// ---------------------------------------------------------------- described variables of streams
void checkStateDesc(Ctx &cx) {
  auto reg = readRegistry(cx);
  auto it = enumOf(cx, "TA_InputParameterType"); auto ot = enumOf(cx, "TA_OptInputParameterType");
  auto V = [&](const Str &name, GlobalVariable *G, const Str &inst, const Str &msg) {
    SmallVector<DIGlobalVariableExpression *, 1> ge; if (G) G->getDebugInfo(ge);
    if (ge.empty()) cx.violAt("state-variables", name, "", 0, inst, msg);
    else cx.violAt("state-variables", name, relFile(ge[0]->getVariable()->getFilename().str()), ge[0]->getVariable()->getLine(), inst, msg);
  };
  for (auto &d : reg) {
    auto *S = findStruct(*cx.M, "TA_" + d.name + "_State");
    if (!S) { V(d.name, d.G, "struct", "no stream structure of " + d.name); continue; }
    cx.count("streams");
    std::vector<FieldInfo> fs;
    for (auto &f : structFields(S)) if (f.name != "mem_size" && f.name != "mem_index" && f.name != "memory") fs.push_back(f);
    auto cls = [&](const DIType *T) -> Str {
      T = stripTypedef(T);
      if (auto *B = dyn_cast_or_null<DIBasicType>(T)) { if (B->getEncoding() == dwarf::DW_ATE_float) return "real"; return "integer"; }
      if (auto *C = dyn_cast_or_null<DICompositeType>(T)) return C->getTag() == dwarf::DW_TAG_enumeration_type ? "integer" : "pointer";
      return "pointer";
    };
    std::vector<std::pair<Str, Str>> exp;
    for (auto &p : d.sp) exp.push_back({p.name, p.type == it["TA_Input_Real"] ? "real" : p.type == it["TA_Input_Integer"] ? "integer" : p.type == it["TA_Input_Pointer"] ? "pointer" : "?"});
    size_t nsp = exp.size();
    for (auto &o : d.opt) exp.push_back({o.name, o.type == ot["TA_OptInput_RealRange"] || o.type == ot["TA_OptInput_RealList"] ? "real" : "integer"});
    for (size_t i = 0; i < std::max(exp.size(), fs.size()); i++) {
      cx.count("variables");
      Str have = i < fs.size() ? fs[i].name + " (" + cls(fs[i].type) + ")" : "nothing", want = i < exp.size() ? exp[i].first + " (" + exp[i].second + ")" : "nothing";
      bool same = i < fs.size() && i < exp.size() && cls(fs[i].type) == exp[i].second;
      bool other = false; // a variable renamed on one side is harmless, two exchanged ones are not
      if (same && fs[i].name != exp[i].first) { for (auto &f : fs) if (f.name == exp[i].first) other = true; for (auto &e : exp) if (e.first == fs[i].name) other = true; }
      if (!same || other) { V(d.name, d.G, "variable " + std::to_string(i), Str(i < nsp ? "described stream variable " : "option kept in the stream ") + std::to_string(i) + " of " + d.name + " is " + want + ", the stream has " + have + " there"); break; }
    }
  }
}
