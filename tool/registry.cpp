#include "registry.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/DebugInfo.h"

Constant *cload(Ctx &cx, Constant *C, Type *T, int64_t off) {
  if (!C) return nullptr;
  APInt o(64, 0);
  const Value *B = C->stripAndAccumulateConstantOffsets(cx.dl(), o, true);
  auto *G = dyn_cast<GlobalVariable>(B);
  if (!G || !G->hasInitializer()) return nullptr;
  return ConstantFoldLoadFromConst(const_cast<GlobalVariable *>(G)->getInitializer(), T, APInt(64, o.getSExtValue() + off, true), cx.dl());
}
int64_t cint(Ctx &cx, Constant *C, int64_t off, int bytes) {
  auto *K = dyn_cast_or_null<ConstantInt>(cload(cx, C, IntegerType::get(cx.C, bytes * 8), off));
  return K ? K->getSExtValue() : INT64_MIN;
}
Constant *cptr(Ctx &cx, Constant *C, int64_t off) {
  Constant *K = cload(cx, C, PointerType::get(cx.C, 0), off);
  if (!K || K->isNullValue()) return nullptr;
  return K;
}
static double cdbl(Ctx &cx, Constant *C, int64_t off) {
  auto *K = dyn_cast_or_null<ConstantFP>(cload(cx, C, Type::getDoubleTy(cx.C), off));
  return K ? K->getValueAPF().convertToDouble() : NAN;
}
Str cstr(Ctx &cx, Constant *P) {
  Str s;
  if (!P) return s;
  for (int i = 0; i < 4096; i++) {
    int64_t c = cint(cx, P, i, 1);
    if (c == 0 || c == INT64_MIN) break;
    s += (char)c;
  }
  return s;
}
std::map<Str, int64_t> enumOf(Ctx &cx, const Str &name) {
  std::map<Str, int64_t> R;
  DebugInfoFinder DF; DF.processModule(*cx.M);
  auto add = [&](const DICompositeType *CT) {
    for (auto *E : CT->getElements()) if (auto *DE = dyn_cast<DIEnumerator>(E)) R[DE->getName().str()] = DE->getValue().getSExtValue();
  };
  for (auto *T : DF.types()) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef && D->getName() == name)
        if (auto *CT = dyn_cast_or_null<DICompositeType>(stripTypedef(D)))
          if (CT->getTag() == dwarf::DW_TAG_enumeration_type) add(CT);
    } else if (auto *CT = dyn_cast<DICompositeType>(T))
      if (CT->getTag() == dwarf::DW_TAG_enumeration_type && CT->getName() == name) add(CT);
  }
  return R;
}
static std::map<Str, uint64_t> offs(Ctx &cx, const Str &s, bool opt = false) {
  std::map<Str, uint64_t> R;
  auto *T = findStructOrTypedef(*cx.M, s);
  if (!T && opt) return {{"data", 0}, {"nbElement", 8}, {"value", 0}, {"string", 8}}; // type not used anywhere
  if (!T) { errs() << "talint: type " << s << " not found\n"; exit(3); }
  for (auto &f : structFields(T)) R[f.name] = f.off;
  return R;
}
std::vector<FDef> readRegistry(Ctx &cx) {
  auto D = offs(cx, "TA_FuncDef"), I = offs(cx, "TA_FuncInfo"), IN = offs(cx, "TA_InputParameterInfo"), OP = offs(cx, "TA_OptInputParameterInfo"),
       OU = offs(cx, "TA_OutputParameterInfo"), IR = offs(cx, "TA_IntegerRange"), RR = offs(cx, "TA_RealRange"), IL = offs(cx, "TA_IntegerList", true), IP = offs(cx, "TA_IntegerDataPair", true),
       RL = offs(cx, "TA_RealList", true), RP = offs(cx, "TA_RealDataPair", true);
  auto OT = enumOf(cx, "TA_OptInputParameterType");
  std::vector<FDef> R;
  for (auto &G : cx.M->globals()) {
    if (!G.hasInitializer() || !G.hasName()) continue;
    SmallVector<DIGlobalVariableExpression *, 2> gv; G.getDebugInfo(gv);
    if (gv.empty()) continue;
    Str tn; stripTypedef(gv[0]->getVariable()->getType(), &tn);
    if (diTypeName(gv[0]->getVariable()->getType()).find("TA_FuncDef") == Str::npos || !isa<StructType>(G.getValueType())) continue;
    FDef d; d.G = &G;
    d.magic = (uint32_t)cint(cx, &G, D["magicNumber"]); d.groupId = cint(cx, &G, D["groupId"]);
    d.info = dyn_cast_or_null<GlobalVariable>(cptr(cx, &G, D["funcInfo"]));
    if (d.info) {
      d.name = cstr(cx, cptr(cx, d.info, I["name"])); d.group = cstr(cx, cptr(cx, d.info, I["group"]));
      d.hint = cstr(cx, cptr(cx, d.info, I["hint"])); d.camel = cstr(cx, cptr(cx, d.info, I["camelCaseName"]));
      d.flags = cint(cx, d.info, I["flags"]); d.nIn = cint(cx, d.info, I["nbInput"]); d.nOpt = cint(cx, d.info, I["nbOptInput"]);
      d.nOut = cint(cx, d.info, I["nbOutput"]);
      for (auto &e : I) if (StringRef(e.first).starts_with("nbStruct")) d.nStruct = cint(cx, d.info, e.second);
      d.handle = cptr(cx, d.info, I["handle"]);
      if (d.handle) d.handle = d.handle->stripPointerCasts();
    }
    auto list = [&](const Str &f) {
      std::vector<Constant *> v;
      Constant *A = cptr(cx, &G, D[f]);
      for (int i = 0; A && i < 64; i++) { Constant *p = cptr(cx, A, 8 * i); if (!p) break; v.push_back(p); }
      return v;
    };
    auto pin = [&](Constant *p, std::map<Str, uint64_t> &o) { PInfo x; x.type = cint(cx, p, o["type"]); x.flags = cint(cx, p, o["flags"]); x.name = cstr(cx, cptr(cx, p, o["paramName"])); return x; };
    for (auto *p : list("input")) d.in.push_back(pin(p, IN));
    for (auto *p : list("output")) d.out.push_back(pin(p, OU));
    for (auto *p : list("structParams")) d.sp.push_back(pin(p, IN));
    for (auto *p : list("optInput")) {
      OInfo x; (PInfo &)x = pin(p, OP);
      x.def = cdbl(cx, p, OP["defaultValue"]);
      Constant *ds = cptr(cx, p, OP["dataSet"]);
      if (ds && x.type == OT["TA_OptInput_IntegerRange"]) { x.lo = cint(cx, ds, IR["min"]); x.hi = cint(cx, ds, IR["max"]); x.ok = true; }
      else if (ds && x.type == OT["TA_OptInput_RealRange"]) { x.lo = cdbl(cx, ds, RR["min"]); x.hi = cdbl(cx, ds, RR["max"]); x.real = x.ok = true; }
      else if (ds && (x.type == OT["TA_OptInput_IntegerList"] || x.type == OT["TA_OptInput_RealList"])) {
        bool r = x.type == OT["TA_OptInput_RealList"];
        x.real = r;
        auto &L = r ? RL : IL; auto &Q = r ? RP : IP;
        Constant *da = cptr(cx, ds, L["data"]); int64_t n = cint(cx, ds, L["nbElement"]);
        x.lo = 1e300; x.hi = -1e300;
        for (int64_t i = 0; da && i < n && i < 1000; i++) {
          double v = r ? cdbl(cx, da, i * 16 + Q["value"]) : cint(cx, da, i * 16 + Q["value"]);
          x.list.push_back(v); x.lo = std::min(x.lo, v); x.hi = std::max(x.hi, v);
          x.listNames.push_back(cstr(cx, cptr(cx, da, i * 16 + Q["string"])));
        }
        x.ok = !x.list.empty();
      }
      d.opt.push_back(x);
    }
    for (auto &e : D) {
      Constant *p = cptr(cx, &G, e.second);
      if (p) if (auto *F = dyn_cast<Function>(p->stripPointerCasts())) d.slot[e.first] = F;
    }
    R.push_back(d);
  }
  return R;
}
