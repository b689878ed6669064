#include "common.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/FileSystem.h"
#include <fstream>
#include "llvm/IR/DebugInfo.h"
#include <sys/personality.h>
#include <unistd.h>

void checkErrorPropagation(Ctx &);
void checkIOFailures(Ctx &);
void checkAlloc(Ctx &);
void checkStateFree(Ctx &);
void checkSaveLoad(Ctx &);
void checkOptions(Ctx &);
void checkRegistry(Ctx &);
void checkFrames(Ctx &);
void checkAbstractApi(Ctx &);
void checkSettings(Ctx &);
void checkRetCodes(Ctx &);
void checkCandleKinds(Ctx &);
void checkSettingUse(Ctx &);
void checkCalc(Ctx &);
void checkStream(Ctx &);
void checkBatchState(Ctx &);
void checkFilled(Ctx &);
void checkInPlace(Ctx &);
void checkLoops(Ctx &);
void checkFloatForms(Ctx &);
void checkCandleForms(Ctx &);
void checkStateDesc(Ctx &);
void checkEffects(Ctx &cx);
struct CheckDef { const char *name; std::set<Str> keep; bool inlineAll; void (*fn)(Ctx &); };
static CheckDef checks[] = {
    {"iofail", {"TA_INT_*", "TA_S_INT_*"}, false, checkIOFailures},
    {"alloc", {"TA_INT_*", "TA_S_INT_*"}, false, checkAlloc},
    {"sfree", {"TA_INT_*", "TA_S_INT_*"}, false, checkStateFree},
    {"saveload", {"TA_INT_*", "TA_S_INT_*"}, false, checkSaveLoad},
    {"options", {"TA_INT_*", "TA_S_INT_*"}, false, checkOptions},
    {"registry", {}, false, checkRegistry},
    {"absapi", {"TA_GroupTable*","TA_FuncTable*"}, false, checkAbstractApi},
    {"frames", {}, false, checkFrames},
    {"candlekinds", {}, false, checkCandleKinds},
    {"setuse", {}, false, checkSettingUse},
    {"calc", {}, false, checkCalc},
    {"stream", {}, false, checkStream},
    {"batchstate", {}, false, checkBatchState},
    {"filled", {}, false, checkFilled},
    {"inplace", {}, false, checkInPlace},
    {"loops", {}, false, checkLoops},
    {"floatforms", {}, false, checkFloatForms},
    {"candleforms", {}, false, checkCandleForms},
    {"statedesc", {}, false, checkStateDesc},
    {"effects", {}, false, checkEffects},
    {"settings", {}, false, checkSettings},
    {"retcodes", {}, false, checkRetCodes},
    {"errprop", {"TA_INT_*", "TA_S_INT_*"}, false, checkErrorPropagation},
};

int main(int argc, char **argv) {
  // the same addresses on every run, so that containers ordered by address are ordered alike
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("TALINT_REEXEC")) {
    setenv("TALINT_REEXEC", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc < 5) { errs() << "usage: talint check api.txt out.json files.bc...\n"; return 2; }
  Str which = argv[1];
  CheckDef *cd = nullptr;
  for (auto &c : checks) if (which == c.name) cd = &c;
  if (!cd) { errs() << "unknown check " << which << "\n"; return 2; }
  Ctx cx;
  { std::ifstream f(argv[2]); Str l; while (std::getline(f, l)) if (!l.empty()) cx.api.insert(l); }
  if (cx.api.size() < 1000) { errs() << "talint: public API list too small: " << cx.api.size() << "\n"; return 3; }
  SMDiagnostic Err;
  for (int i = 4; i < argc; i++) {
    auto m = parseIRFile(argv[i], Err, cx.C);
    if (!m) { Err.print("talint", errs()); return 3; }
    if (!cx.M) cx.M = std::move(m);
    else if (Linker::linkModules(*cx.M, std::move(m))) { errs() << "talint: link failed for " << argv[i] << "\n"; return 3; }
  }
  {
    DebugInfoFinder DF; DF.processModule(*cx.M);
    for (auto *T : DF.types())
      if (auto *CT = dyn_cast<DICompositeType>(T))
        if (CT->getTag() == dwarf::DW_TAG_enumeration_type)
          for (auto *E : CT->getElements())
            if (auto *DE = dyn_cast<DIEnumerator>(E))
              if (DE->getName().starts_with("TA_")) RC[DE->getName().str()] = DE->getValue().getSExtValue();
  }
  normalise(cx, cd->keep, cd->inlineAll);
  if (getenv("TALINT_DUMP")) { std::error_code ec; raw_fd_ostream o(getenv("TALINT_DUMP"), ec); cx.M->print(o, nullptr); }
  cd->fn(cx);
  json::Object out;
  out["check"] = which;
  out["violations"] = std::move(cx.violations);
  json::Object c;
  for (auto &k : cx.counts) c[k.first] = k.second;
  out["counts"] = std::move(c);
  json::Object l;
  for (auto &k : cx.lists) { json::Array a; for (auto &s : k.second) a.push_back(s); l[k.first] = std::move(a); }
  out["lists"] = std::move(l);
  json::Object x;
  for (auto &k : cx.extra) x[k.first] = std::move(k.second);
  out["extra"] = std::move(x);
  std::error_code ec;
  raw_fd_ostream o(argv[3], ec);
  o << formatv("{0:2}", json::Value(std::move(out)));
  return 0;
}
