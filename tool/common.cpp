#include "common.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"

std::map<Str, int64_t> RC;
int64_t rc(const Str &n) {
  auto it = RC.find(n);
  if (it == RC.end()) {
    errs() << "talint: return code " << n << " not found in debug info\n";
    exit(3);
  }
  return it->second;
}

Str relFile(const Str &f) {
  size_t p = f.find("/ta-lib-rt/c/");
  if (p != Str::npos) return f.substr(p + 1);
  p = f.rfind("ta-lib-rt/");
  if (p != Str::npos) return f.substr(p);
  return f;
}
static void locParts(const DebugLoc &L, Str &file, int &line) {
  file = "?"; line = 0;
  if (!L) return;
  // report the outermost location: the site in the analysed function
  const DILocation *D = L.get();
  while (D->getInlinedAt()) D = D->getInlinedAt();
  file = D->getFilename().str();
  if (!file.empty() && file[0] != '/') file = D->getDirectory().str() + "/" + file;
  file = relFile(file);
  line = D->getLine();
}
Str locStr(const DebugLoc &L) {
  Str f; int l; locParts(L, f, l);
  return f + ":" + std::to_string(l);
}
Str locOf(Function *F) {
  if (auto *SP = F->getSubprogram()) {
    Str f = SP->getFilename().str();
    if (!f.empty() && f[0] != '/') f = SP->getDirectory().str() + "/" + f;
    return relFile(f) + ":" + std::to_string(SP->getLine());
  }
  return "?";
}
void Ctx::viol(const Str &rule, Function *F, const DebugLoc &L, const Str &inst,
               const Str &msg) {
  Str f; int l; locParts(L, f, l);
  if (l == 0 && F) {
    Str s = locOf(F);
    size_t c = s.rfind(':');
    f = s.substr(0, c); l = c == Str::npos ? 0 : atoi(s.c_str() + c + 1);
  }
  violAt(rule, F ? F->getName().str() : "", f, l, inst, msg);
}
void Ctx::violAt(const Str &rule, const Str &func, const Str &file, int line,
                 const Str &inst, const Str &msg) {
  for (auto &v : violations) {
    auto *o = v.getAsObject();
    if (*o->getString("rule") == rule && *o->getString("func") == func &&
        *o->getString("instance") == inst && *o->getInteger("line") == line)
      return;
  }
  violations.push_back(json::Object{{"rule", rule}, {"func", func}, {"file", file},
                                    {"line", line}, {"instance", inst}, {"msg", msg}});
}

const char *kindName(Kind k) {
  switch (k) {
  case K_Batch: return "batch"; case K_Float: return "float"; case K_Lookback: return "lookback";
  case K_Init: return "init"; case K_State: return "state"; case K_BatchState: return "batchstate";
  case K_Free: return "free"; case K_Save: return "save"; case K_Load: return "load"; default: return "?";
  }
}

Indicators collectIndicators(Ctx &cx) {
  Indicators R;
  // An indicator is any public TA_X having a public TA_X_Lookback.
  for (auto &n : cx.api) {
    StringRef s(n);
    if (!s.starts_with("TA_") || !s.ends_with("_Lookback")) continue;
    Str X = s.drop_front(3).drop_back(9).str();
    struct { Kind k; Str n; } parts[] = {
        {K_Batch, "TA_" + X}, {K_Float, "TA_S_" + X}, {K_Lookback, "TA_" + X + "_Lookback"},
        {K_Init, "TA_" + X + "_StateInit"}, {K_State, "TA_" + X + "_State"},
        {K_BatchState, "TA_" + X + "_BatchState"}, {K_Free, "TA_" + X + "_StateFree"},
        {K_Save, "TA_" + X + "_StateSave"}, {K_Load, "TA_" + X + "_StateLoad"}};
    for (auto &p : parts) {
      Function *F = cx.M->getFunction(p.n);
      if (F && !F->isDeclaration()) R[X][p.k] = F;
    }
  }
  return R;
}

const DIType *stripTypedef(const DIType *T, Str *first) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    if (D->getTag() == dwarf::DW_TAG_typedef) {
      if (first && first->empty()) *first = D->getName().str();
      T = D->getBaseType();
    } else if (D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_volatile_type)
      T = D->getBaseType();
    else break;
  }
  return T;
}
Str diTypeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: return D->getName().str();
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType());
    case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType()) + "*";
    default: return D->getName().str();
    }
  }
  if (auto *CT = dyn_cast<DICompositeType>(T)) {
    if (CT->getTag() == dwarf::DW_TAG_array_type) {
      Str s = diTypeName(CT->getBaseType());
      for (auto *E : CT->getElements())
        if (auto *SR = dyn_cast<DISubrange>(E)) {
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount()))
            s += "[" + std::to_string(CI->getSExtValue()) + "]";
        }
      return s;
    }
    return (CT->getTag() == dwarf::DW_TAG_structure_type ? "struct " : "") + CT->getName().str();
  }
  return T->getName().str();
}
bool returnsRetCode(const Function *F) {
  auto *SP = F->getSubprogram();
  if (!SP || !SP->getType()) return false;
  auto A = SP->getType()->getTypeArray();
  if (A.size() == 0 || !A[0]) return false;
  Str n;
  stripTypedef(A[0], &n);
  return n == "TA_RetCode";
}
std::vector<std::pair<Str, const DIType *>> paramInfo(const Function *F) {
  std::vector<std::pair<Str, const DIType *>> R;
  auto *SP = F->getSubprogram();
  if (!SP) return R;
  auto A = SP->getType()->getTypeArray();
  for (unsigned i = 1; i < A.size(); i++) R.push_back({"", A[i]});
  for (auto *N : SP->getRetainedNodes())
    if (auto *LV = dyn_cast<DILocalVariable>(N))
      if (LV->getArg() && LV->getArg() <= R.size()) R[LV->getArg() - 1].first = LV->getName().str();
  // unoptimised code keeps argument names in the dbg intrinsics / IR names
  unsigned i = 0;
  for (auto &a : F->args()) {
    if (i < R.size() && R[i].first.empty()) R[i].first = a.getName().str();
    i++;
  }
  return R;
}
std::vector<FieldInfo> structFields(const DIType *T) {
  std::vector<FieldInfo> R;
  T = stripTypedef(T);
  auto *CT = dyn_cast_or_null<DICompositeType>(T);
  if (!CT) return R;
  for (auto *E : CT->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member)
        R.push_back({D->getName().str(), D->getOffsetInBits() / 8,
                     D->getSizeInBits() / 8, D->getBaseType()});
  return R;
}
#include "llvm/IR/DebugInfo.h"
const DICompositeType *findStruct(Module &M, const Str &name) {
  static std::map<Str, const DICompositeType *> cache;
  static Module *cm = nullptr;
  if (cm != &M) {
    cm = &M; cache.clear();
    DebugInfoFinder DF;
    DF.processModule(M);
    for (auto *T : DF.types())
      if (auto *CT = dyn_cast<DICompositeType>(T))
        if (CT->getTag() == dwarf::DW_TAG_structure_type && CT->getElements().size())
          cache[CT->getName().str()] = CT;
    for (auto *T : DF.types())
      if (auto *D = dyn_cast<DIDerivedType>(T))
        if (D->getTag() == dwarf::DW_TAG_typedef)
          if (auto *CT = dyn_cast_or_null<DICompositeType>(stripTypedef(D)))
            if (!cache.count(D->getName().str()) && CT->getElements().size()) cache[D->getName().str()] = CT;
  }
  auto it = cache.find(name);
  return it == cache.end() ? nullptr : it->second;
}

// ---------------------------------------------------------------- access paths
AP::AP(Function *f) : F(f), DL(f->getParent()->getDataLayout()) {
  int n = 0;
  for (auto &a : F->args()) ids[&a] = n++;
  n = 0;
  for (auto &I : instructions(*F)) ids[&I] = n++;
  // allocation results stored into memory get the name of the cell they live in
  std::vector<std::pair<const CallInst *, const StoreInst *>> st;
  for (auto &I : instructions(*F))
    if (auto *SI = dyn_cast<StoreInst>(&I)) {
      const Value *V = SI->getValueOperand()->stripPointerCasts();
      if (auto *CI = dyn_cast<CallInst>(V))
        if (isAllocFn(calleeOf(CI)) && !alias.count(CI) && !isa<AllocaInst>(SI->getPointerOperand())) {
          alias[CI] = "*(" + of(SI->getPointerOperand()) + ")";
          st.push_back({CI, SI});
        }
    }
  // a second pass names cells inside blocks that were themselves named later
  for (auto &e : st) {
    alias.erase(e.first);
    alias[e.first] = "*(" + of(e.second->getPointerOperand()) + ")";
  }
}
int AP::id(const Value *V) {
  auto it = ids.find(V);
  return it == ids.end() ? -1 : it->second;
}
Str AP::addr(const Value *base, int64_t off) {
  Str b = of(base);
  if (off == 0) return b;
  // fold nested +off
  size_t p = b.rfind("+#");
  if (p != Str::npos && b.find_first_of("*()[] ", p) == Str::npos) {
    off += atoll(b.c_str() + p + 2);
    b = b.substr(0, p);
    if (off == 0) return b;
  }
  return b + "+#" + std::to_string(off);
}
Str AP::of(const Value *V) {
  V = V->stripPointerCasts();
  if (env) {
    auto it = env->find(V);
    if (it != env->end()) V = it->second->stripPointerCasts();
  }
  if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo());
  if (isa<ConstantPointerNull>(V)) return "null";
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    if (C->getBitWidth() > 64) return "big";
    return std::to_string(C->getSExtValue());
  }
  if (auto *G = dyn_cast<GlobalValue>(V)) return "@" + G->getName().str();
  if (V->getType()->isFloatingPointTy() && !isa<LoadInst>(V)) {
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s; C->getValueAPF().toString(s);
      return s.str().str();
    }
    return "f" + std::to_string(id(V));
  }
  if (auto *GO = dyn_cast<GEPOperator>(V)) {
    APInt off(64, 0);
    if (GO->accumulateConstantOffset(DL, off)) return addr(GO->getPointerOperand(), off.getSExtValue());
    Str s = of(GO->getPointerOperand());
    int64_t c = 0; Str var;
    for (auto GTI = gep_type_begin(GO), E = gep_type_end(GO); GTI != E; ++GTI) {
      const Value *Idx = GTI.getOperand();
      if (auto *ST = GTI.getStructTypeOrNull()) {
        c += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Idx)->getZExtValue());
        continue;
      }
      uint64_t sz = DL.getTypeAllocSize(GTI.getIndexedType());
      if (auto *CI = dyn_cast<ConstantInt>(Idx)) c += CI->getSExtValue() * (int64_t)sz;
      else var += "[" + of(Idx) + "*" + std::to_string(sz) + "]";
    }
    s += var;
    if (c) s += "+#" + std::to_string(c);
    return s;
  }
  if (auto *L = dyn_cast<LoadInst>(V)) return "*(" + of(L->getPointerOperand()) + ")";
  if (isa<AllocaInst>(V)) return "L" + std::to_string(id(V));
  if (auto *C = dyn_cast<CallInst>(V)) {
    auto it = alias.find(C);
    if (it != alias.end()) return it->second;
    return "c" + std::to_string(id(V));
  }
  if (auto *CI = dyn_cast<CastInst>(V)) return of(CI->getOperand(0));
  if (auto *FI = dyn_cast<FreezeInst>(V)) return of(FI->getOperand(0));
  if (auto *IC = dyn_cast<ICmpInst>(V)) {
    Str a = of(IC->getOperand(0)), b = of(IC->getOperand(1));
    return "(" + CmpInst::getPredicateName(IC->getPredicate()).str() + " " + a + " " + b + ")";
  }
  if (auto *B = dyn_cast<BinaryOperator>(V))
    return "(" + Str(B->getOpcodeName()) + " " + of(B->getOperand(0)) + " " + of(B->getOperand(1)) + ")";
  if (isa<PHINode>(V)) return "p" + std::to_string(id(V));
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    (void)CE;
    return "ce";
  }
  return "v" + std::to_string(id(V));
}
const Value *resolve(const SimState &S, const Value *V) {
  for (int i = 0; i < 64; i++) {
    auto it = S.env.find(V);
    if (it == S.env.end()) return V;
    V = it->second;
  }
  return V;
}

// ---------------------------------------------------------------- normalisation
void normalise(Ctx &cx, const std::set<Str> &keep, bool inlineAll) {
  Module &M = *cx.M;
  // A function stays a unit of analysis when it is public, kept by the caller, or
  // address taken (frames, callbacks). Everything else is a helper and is inlined,
  // so extracting or merging helpers does not change what the analyses see.
  for (auto &F : M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (F.isDeclaration()) continue;
    Str n = F.getName().str();
    if (cx.api.count(n) || keep.count(n)) continue;
    if (!inlineAll && !F.hasLocalLinkage()) {
      bool known = false;
      for (auto &k : keep)
        if (!k.empty() && k.back() == '*' && StringRef(n).starts_with(StringRef(k).drop_back())) known = true;
      if (known) continue;
    } else {
      bool known = false;
      for (auto &k : keep)
        if (!k.empty() && k.back() == '*' && StringRef(n).starts_with(StringRef(k).drop_back())) known = true;
      if (known) continue;
    }
    if (F.hasAddressTaken()) continue;
    F.addFnAttr(Attribute::AlwaysInline);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto E = PB.parsePassPipeline(MPM, "always-inline,function(sroa<preserve-cfg>,instsimplify)")) {
    errs() << "talint: pass pipeline error\n"; exit(3);
  }
  MPM.run(M, MAM);
  // value selects become branches: `x = c ? a : b` and `if (c) x = a; else x = b;` look alike
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::vector<SelectInst *> sel;
    DominatorTree DT(F);
    LoopInfo LI(DT); // inside loops they are per-element computation, not decisions about the call
    for (auto &I : instructions(F))
      if (auto *S = dyn_cast<SelectInst>(&I))
        if (!LI.getLoopFor(S->getParent()) && !S->getType()->isIntegerTy(1) && !S->getType()->isVectorTy() && S->getCondition()->getType()->isIntegerTy(1)) sel.push_back(S);
    for (auto *S : sel) {
      Instruction *T, *E;
      SplitBlockAndInsertIfThenElse(S->getCondition(), S, &T, &E);
      PHINode *P = PHINode::Create(S->getType(), 2, S->getName(), S);
      P->addIncoming(S->getTrueValue(), T->getParent());
      P->addIncoming(S->getFalseValue(), E->getParent());
      T->setDebugLoc(S->getDebugLoc()); E->setDebugLoc(S->getDebugLoc()); P->setDebugLoc(S->getDebugLoc());
      S->replaceAllUsesWith(P);
      S->eraseFromParent();
    }
  }
  for (auto &F : M)
    if (!F.isDeclaration()) removeUnreachableBlocks(F);
}
