// Library-wide settings and the description of result codes.
#include "paths.h"
#include "registry.h"

// ---- sets of 32-bit argument values --------------------------------------------
namespace {
struct ISet {
  std::vector<std::pair<int64_t, int64_t>> v; // sorted, disjoint, signed view
  static ISet all() { return {{{INT32_MIN, INT32_MAX}}}; }
  ISet meet(int64_t lo, int64_t hi) const { ISet r; for (auto &x : v) { int64_t a = std::max(lo, x.first), b = std::min(hi, x.second); if (a <= b) r.v.push_back({a, b}); } return r; }
  ISet join(const ISet &o) const { ISet r = *this; r.v.insert(r.v.end(), o.v.begin(), o.v.end()); std::sort(r.v.begin(), r.v.end()); return r; }
  bool empty() const { return v.empty(); }
  bool within(int64_t lo, int64_t hi) const { for (auto &x : v) if (x.first < lo || x.second > hi) return false; return true; }
  bool hits(int64_t lo, int64_t hi) const { return !meet(lo, hi).empty(); }
  bool single(int64_t &c) const { if (v.size() != 1 || v[0].first != v[0].second) return false; c = v[0].first; return true; }
};
// values of argument n compatible with the literals of the path
ISet argSet(const Path &p, const Str &n) {
  ISet s = ISet::all();
  for (auto &e : p.ev) {
    if (e.k != Ev::Lit) continue;
    Str pr = e.pred; int64_t c;
    if (e.a == n && isNum(e.b)) c = atoll(e.b.c_str());
    else if (e.b == n && isNum(e.a)) {
      c = atoll(e.a.c_str());
      static const std::map<Str, Str> sw = {{"slt", "sgt"}, {"sgt", "slt"}, {"sle", "sge"}, {"sge", "sle"}, {"ult", "ugt"}, {"ugt", "ult"}, {"ule", "uge"}, {"uge", "ule"}};
      if (sw.count(pr)) pr = sw.at(pr);
    } else continue;
    const int64_t L = INT32_MIN, H = INT32_MAX;
    auto uns = [&](int64_t a, int64_t b) -> ISet { // unsigned interval [a,b] of 0..2^32-1
      ISet r;
      if (a > b) return r;
      if (b > H) { int64_t x = std::max<int64_t>(a, H + 1LL) - (1LL << 32), y = b - (1LL << 32); if (x <= y) r = r.join(s.meet(x, y)); }
      if (a <= H) r = r.join(s.meet(a, std::min(b, H)));
      return r;
    };
    int64_t u = (int64_t)(uint32_t)c, UM = 0xffffffffLL;
    if (pr == "eq") s = s.meet((int32_t)c, (int32_t)c);
    else if (pr == "ne") s = s.meet(L, (int32_t)c - 1LL).join(s.meet((int32_t)c + 1LL, H));
    else if (pr == "slt") s = s.meet(L, c - 1); else if (pr == "sle") s = s.meet(L, c);
    else if (pr == "sgt") s = s.meet(c + 1, H); else if (pr == "sge") s = s.meet(c, H);
    else if (pr == "ult") s = uns(0, u - 1); else if (pr == "ule") s = uns(0, u);
    else if (pr == "ugt") s = uns(u + 1, UM); else if (pr == "uge") s = uns(u, UM);
  }
  return s;
}
struct SetCheck {
  Ctx &cx;
  Function *F = nullptr;
  std::unique_ptr<PathEnum> pe;
  const DICompositeType *LP, *CS;
  std::map<Str, uint64_t> L, C;
  uint64_t LSize, CSize;
  Str G;
  SetCheck(Ctx &c) : cx(c) {
    LP = findStruct(*cx.M, "TA_LibcPriv"); CS = findStruct(*cx.M, "TA_CandleSetting");
    auto *gp = cx.M->getGlobalVariable("TA_Globals", true);
    if (!LP || !CS || !gp || !gp->hasInitializer()) { errs() << "talint: settings object not found\n"; exit(3); }
    for (auto &f : structFields(LP)) L[f.name] = f.off;
    for (auto &f : structFields(CS)) C[f.name] = f.off;
    LSize = LP->getSizeInBits() / 8; CSize = CS->getSizeInBits() / 8;
    G = neverWritten(gp) ? "@" + gp->getInitializer()->stripPointerCasts()->getName().str() : "*(@TA_Globals)";
  }
  void open(const Str &n, int visits = 80) {
    F = cx.M->getFunction(n);
    if (!F || F->isDeclaration()) { errs() << "talint: " << n << " not found\n"; exit(3); }
    pe = std::make_unique<PathEnum>(cx, *F);
    pe->maxVisit = visits;
    pe->run();
    if (pe->overflow || pe->paths.empty()) cx.lists["overflow"].insert(n);
    cx.count("functions"); cx.count("paths", pe->paths.size());
  }
  void V(const Str &r, const Path &p, const Str &i, const Str &m) { cx.viol(r, F, p.R ? p.R->getDebugLoc() : DebugLoc(), i, m); }
  // final contents written on a path: address -> value (constant copies expanded into 4-byte words)
  std::map<Str, Str> image(const Path &p) {
    std::map<Str, Str> m;
    std::map<Str, std::pair<Str, int64_t>> alias; // local array initialised from a constant
    for (auto &e : p.ev) {
      if (e.k == Ev::Store && e.a[0] != 'L') m[e.a] = e.b;
      if (e.k == Ev::Copy) {
        Str sb; int64_t so; splitOff(e.b, sb, so);
        Str src = e.b;
        // look through a local copy of a constant
        size_t cut = sb.find('[');
        Str root = sb.substr(0, cut), rest = cut == Str::npos ? "" : sb.substr(cut);
        if (alias.count(root)) { src = alias[root].first + rest; src = plus(src, so); }
        if (e.a[0] == 'L') { Str b; int64_t o; splitOff(e.a, b, o); if (o == 0) alias[b] = {src, e.size}; continue; }
        m[e.a] = "copy " + src + " " + std::to_string(e.size);
      }
      if (e.k == Ev::Call && e.callee == "memset") m[e.args[0]] = "fill " + e.args[1] + " " + e.args[2];
    }
    return m;
  }
  // value of a field: written directly or inside a copied record; "" when not written
  Str field(std::map<Str, Str> &m, const Str &base, int64_t rec, int64_t off, Type *T) {
    auto it = m.find(plus(base, rec + off));
    if (it != m.end() && it->second.compare(0, 4, "copy")) return it->second;
    for (auto &x : m) {
      if (x.second.compare(0, 5, "copy ")) continue;
      Str b; int64_t o; splitOff(x.first, b, o);
      Str bb; int64_t bo; splitOff(base, bb, bo);
      if (b != bb) continue;
      size_t sp = x.second.rfind(' ');
      int64_t n = atoll(x.second.c_str() + sp + 1), at = bo + rec + off - o;
      if (at < 0 || at >= n) continue;
      return constAt(plus(x.second.substr(5, sp - 5), at), T);
    }
    return "";
  }
  Str constAt(const Str &addr, Type *T) {
    Str b; int64_t o; splitOff(addr, b, o);
    if (b[0] == '@' && b.find('[') == Str::npos)
      if (auto *g = cx.M->getGlobalVariable(b.substr(1), true); g && g->hasInitializer() && neverWritten(g))
        if (Constant *k = cload(cx, g, T, o)) {
          if (auto *I = dyn_cast<ConstantInt>(k)) return std::to_string(I->getSExtValue());
          if (auto *D = dyn_cast<ConstantFP>(k)) { SmallString<32> s; D->getValueAPF().toString(s); return "f" + s.str().str(); }
        }
    return cellAt(addr);
  }
};
Str fstr(double d) { SmallString<32> s; APFloat(d).toString(s); return "f" + s.str().str(); }
} // namespace

void checkSettings(Ctx &cx) {
  SetCheck S(cx);
  const int64_t BAD = rc("TA_BAD_PARAM");
  auto uid = enumOf(cx, "TA_FuncUnstId"), ct = enumOf(cx, "TA_CandleSettingType"), rt = enumOf(cx, "TA_RangeType");
  const int64_t N = uid.at("TA_FUNC_UNST_ALL"), NC = ct.at("TA_AllCandleSettings");
  const Str G = S.G;
  // ---- unstable periods
  S.open("TA_SetUnstablePeriod");
  ISet cover;
  for (auto &p : S.pe->paths) {
    ISet a = argSet(p, "a0");
    if (a.empty()) continue;
    auto m = S.image(p);
    cx.count("setting_paths");
    if (p.ret == std::to_string(BAD)) {
      if (a.hits(0, N)) S.V("refused", p, "id", "a valid indicator identifier is refused");
      if (!m.empty()) S.V("stored", p, "refused", "changes a setting although it refuses the identifier");
    } else if (p.ret == "0") {
      if (!a.within(0, N)) { S.V("accepted", p, "id", "an identifier that names no indicator is accepted"); continue; }
      cover = cover.join(a);
      if (a.hits(N, N)) {
        int64_t c;
        if (!a.single(c)) { S.V("stored", p, "all", "the identifier for all indicators is treated like a single one"); continue; }
        for (int64_t i = 0; i < N; i++) { cx.count("cells"); Str k = plus(G, S.L["unstablePeriod"] + 4 * i); if (m[k] != "a1") S.V("stored", p, "all " + std::to_string(i), "the unstable period of indicator " + std::to_string(i) + " is not set when all are"); m.erase(k); }
        if (!m.empty()) S.V("stored", p, "others", "changes something else when setting all unstable periods");
      } else {
        Str k = plus(G + "[a0*4]", S.L["unstablePeriod"]), k2; int64_t c;
        if (a.single(c)) k2 = plus(G, S.L["unstablePeriod"] + 4 * c);
        if (m.size() != 1 || m.begin()->second != "a1" || (m.begin()->first != k && m.begin()->first != k2)) S.V("stored", p, "one", "does not set exactly the unstable period asked for");
      }
    } else S.V("result", p, p.ret, "returns an unexpected code");
  }
  S.open("TA_GetUnstablePeriod");
  for (auto &p : S.pe->paths) {
    ISet a = argSet(p, "a0");
    if (a.empty()) continue;
    cx.count("setting_paths");
    if (!S.image(p).empty()) S.V("stored", p, "get", "reading an unstable period changes a setting");
    int64_t c; Str k2;
    if (a.single(c)) k2 = cellAt(plus(G, S.L["unstablePeriod"] + 4 * c));
    if (p.ret == cellAt(plus(G + "[a0*4]", S.L["unstablePeriod"])) || p.ret == k2) { if (!a.within(0, N - 1)) S.V("accepted", p, "get", "reads beyond the unstable periods"); }
    else if (p.ret == "0") { if (a.hits(0, N - 1)) S.V("result", p, "get", "the unstable period of a valid indicator is not returned"); }
    else S.V("result", p, "get", "does not return the unstable period asked for");
  }
  // ---- compatibility
  S.open("TA_SetCompatibility");
  for (auto &p : S.pe->paths) {
    auto m = S.image(p); cx.count("setting_paths");
    if (p.ret != "0" || m.size() != 1 || m[plus(G, S.L["compatibility"])] != "a0") S.V("stored", p, "compatibility", "does not store exactly the compatibility asked for");
  }
  S.open("TA_GetCompatibility");
  for (auto &p : S.pe->paths) { cx.count("setting_paths"); if (p.ret != cellAt(plus(G, S.L["compatibility"])) || !S.image(p).empty()) S.V("result", p, "compatibility", "does not return the compatibility in force"); }
  // ---- candlestick settings
  struct Def { const char *t, *r; int n; double f; };
  static const Def defs[] = {{"TA_BodyLong", "TA_RangeType_RealBody", 10, 1.0}, {"TA_BodyVeryLong", "TA_RangeType_RealBody", 10, 3.0}, {"TA_BodyShort", "TA_RangeType_RealBody", 10, 1.0},
    {"TA_BodyDoji", "TA_RangeType_HighLow", 10, 0.1}, {"TA_ShadowLong", "TA_RangeType_RealBody", 0, 1.0}, {"TA_ShadowVeryLong", "TA_RangeType_RealBody", 0, 2.0}, {"TA_ShadowShort", "TA_RangeType_Shadows", 10, 1.0},
    {"TA_ShadowVeryShort", "TA_RangeType_HighLow", 10, 0.1}, {"TA_Near", "TA_RangeType_HighLow", 5, 0.2}, {"TA_Far", "TA_RangeType_HighLow", 5, 0.6}, {"TA_Equal", "TA_RangeType_HighLow", 5, 0.05}};
  if ((int64_t)(sizeof defs / sizeof *defs) != NC) { errs() << "talint: unexpected number of candle settings\n"; exit(3); }
  for (auto &d : defs) if (!ct.count(d.t) || !rt.count(d.r)) { errs() << "talint: candle setting " << d.t << " not found\n"; exit(3); }
  auto *I32 = Type::getInt32Ty(cx.C); auto *DT = Type::getDoubleTy(cx.C);
  auto defaults = [&](const Path &p, std::map<Str, Str> &m, const Str &rule) {
    for (auto &d : defs) {
      int64_t at = S.L["candleSettings"] + ct[d.t] * S.CSize;
      cx.count("default_fields", 4);
      if (S.field(m, G, at, S.C["settingType"], I32) != std::to_string(ct[d.t])) S.V(rule, p, Str(d.t) + " type", Str("the default of ") + d.t + " does not name its own kind");
      if (S.field(m, G, at, S.C["rangeType"], I32) != std::to_string(rt[d.r])) S.V(rule, p, Str(d.t) + " range", Str("the default range type of ") + d.t + " is not restored");
      if (S.field(m, G, at, S.C["avgPeriod"], I32) != std::to_string(d.n)) S.V(rule, p, Str(d.t) + " period", Str("the default averaging period of ") + d.t + " is not restored");
      if (S.field(m, G, at, S.C["factor"], DT) != fstr(d.f)) S.V(rule, p, Str(d.t) + " factor", Str("the default factor of ") + d.t + " is not restored");
    }
  };
  auto onlyCandle = [&](const Path &p, std::map<Str, Str> &m) {
    for (auto &x : m) { Str b; int64_t o; splitOff(x.first, b, o);
      if (b.compare(0, G.size(), G) || o < (int64_t)S.L["candleSettings"] || o >= (int64_t)(S.L["candleSettings"] + NC * S.CSize)) S.V("stored", p, "others", "changes something other than the candle settings"); }
  };
  S.open("TA_SetCandleSettings");
  for (auto &p : S.pe->paths) {
    ISet a = argSet(p, "a0");
    if (a.empty()) continue;
    auto m = S.image(p);
    cx.count("setting_paths");
    if (p.ret == std::to_string(BAD)) {
      if (a.hits(0, NC - 1)) S.V("refused", p, "candle", "a valid kind of candle setting is refused");
      if (!m.empty()) S.V("stored", p, "refused", "changes a setting although it refuses the kind");
    } else if (p.ret == "0") {
      if (!a.within(0, NC - 1)) { S.V("accepted", p, "candle", "a kind of candle setting that does not exist is accepted"); continue; }
      int64_t c; bool one = a.single(c);
      std::vector<std::pair<Str, Str>> want = {{"settingType", "a0"}, {"rangeType", "a1"}, {"avgPeriod", "a2"}, {"factor", "a3"}};
      for (auto &w : want) {
        Str k = plus(G + "[a0*" + std::to_string(S.CSize) + "]", S.L["candleSettings"] + S.C[w.first]);
        Str k2 = one ? plus(G, S.L["candleSettings"] + c * S.CSize + S.C[w.first]) : k;
        Str v = m.count(k) ? m[k] : m.count(k2) ? m[k2] : "";
        if (v != w.second && !(one && w.first == "settingType" && v == std::to_string(c))) S.V("stored", p, w.first, "the " + w.first + " of the candle setting is not the one given");
        m.erase(k); m.erase(k2);
      }
      if (!m.empty()) S.V("stored", p, "others", "changes something else than the candle setting asked for");
    } else S.V("result", p, p.ret, "returns an unexpected code");
  }
  S.open("TA_RestoreCandleDefaultSettings");
  for (auto &p : S.pe->paths) {
    ISet a = argSet(p, "a0");
    if (a.empty()) continue;
    auto m = S.image(p);
    cx.count("setting_paths");
    if (p.ret == std::to_string(BAD)) {
      if (a.hits(0, NC)) S.V("refused", p, "candle", "a valid kind of candle setting is refused");
      if (!m.empty()) S.V("stored", p, "refused", "changes a setting although it refuses the kind");
    } else if (p.ret == "0") {
      if (!a.within(0, NC)) { S.V("accepted", p, "candle", "a kind of candle setting that does not exist is accepted"); continue; }
      onlyCandle(p, m);
      if (a.hits(NC, NC)) {
        int64_t c;
        if (!a.single(c)) { S.V("default", p, "all", "the kind for all candle settings is treated like a single one"); continue; }
        defaults(p, m, "default");
      } else {
        // one record, copied from the same place of a table of the defaults
        int64_t c; bool one = a.single(c);
        Str dst = one ? plus(G, S.L["candleSettings"] + c * S.CSize) : plus(G + "[a0*" + std::to_string(S.CSize) + "]", S.L["candleSettings"]);
        Str idx = "[a0*" + std::to_string(S.CSize) + "]";
        Str tab;
        bool ok = true;
        if (m.size() == 1 && m.count(dst) && m[dst].compare(0, 6, "copy @") == 0) {
          Str src = m[dst].substr(5, m[dst].rfind(' ') - 5);
          int64_t n = atoll(m[dst].c_str() + m[dst].rfind(' ') + 1);
          if (n != (int64_t)S.CSize) ok = false;
          if (src.size() > idx.size() && src.compare(src.size() - idx.size(), idx.size(), idx) == 0) tab = src.substr(0, src.size() - idx.size());
        }
        if (tab.empty()) {
          // field by field
          for (auto &f : S.C) {
            Str d = plus(dst, f.second), v = m.count(d) ? m[d] : "";
            Str pre = "*(@", suf = f.second ? idx + "+#" + std::to_string(f.second) + ")" : idx + ")";
            if (v.compare(0, 3, pre) == 0 && v.size() > suf.size() && v.compare(v.size() - suf.size(), suf.size(), suf) == 0) {
              Str t = v.substr(2, v.size() - 2 - suf.size());
              if (tab.empty()) tab = t; else if (tab != t) ok = false;
            } else if (!(one && !v.empty())) ok = false;
          }
          if (m.size() != S.C.size()) ok = false;
        }
        if (!ok || tab.empty()) { S.V("default", p, "one", "does not restore exactly the default of the kind asked for"); continue; }
        for (auto &d : defs) {
          int64_t at = ct[d.t] * S.CSize;
          cx.count("default_fields", 4);
          if (S.constAt(plus(tab, at + S.C["settingType"]), I32) != std::to_string(ct[d.t])) S.V("default", p, Str(d.t) + " type", Str("the default of ") + d.t + " does not name its own kind");
          if (S.constAt(plus(tab, at + S.C["rangeType"]), I32) != std::to_string(rt[d.r])) S.V("default", p, Str(d.t) + " range", Str("the default range type of ") + d.t + " is not restored");
          if (S.constAt(plus(tab, at + S.C["avgPeriod"]), I32) != std::to_string(d.n)) S.V("default", p, Str(d.t) + " period", Str("the default averaging period of ") + d.t + " is not restored");
          if (S.constAt(plus(tab, at + S.C["factor"]), DT) != fstr(d.f)) S.V("default", p, Str(d.t) + " factor", Str("the default factor of ") + d.t + " is not restored");
        }
      }
    } else S.V("result", p, p.ret, "returns an unexpected code");
  }
  // ---- initialisation and shutdown
  S.open("TA_Initialize");
  Str magic;
  for (auto &p : S.pe->paths) {
    auto m = S.image(p);
    cx.count("setting_paths");
    if (p.ret != "0") { S.V("result", p, "initialize", "initialisation fails"); continue; }
    for (auto &e : p.ev) if (e.k == Ev::Call && e.callee == "memset" && e.args[0] == G) m[G] = "fill " + e.args[1] + " " + e.args[2];
    if (m[G] != "fill 0 " + std::to_string(S.LSize)) S.V("init", p, "clear", "initialisation does not reset every setting");
    m.clear();
    for (auto &e : p.ev) if (e.k == Ev::Store && e.a[0] != 'L') m[e.a] = e.b; else if (e.k == Ev::Call && e.callee == "memset") m.clear();
    Path q = p; q.ev.clear(); for (auto &e : p.ev) if (!(e.k == Ev::Call && e.callee == "memset")) q.ev.push_back(e);
    for (auto &x : S.image(q)) if (!m.count(x.first)) m[x.first] = x.second;
    magic = m[plus(G, S.L["magicNb"])];
    if (!isNum(magic) || magic == "0") S.V("init", p, "magic", "initialisation does not mark the library as initialised");
    bool cleared = false, restored = false;
    for (auto &e : p.ev) {
      if (e.k == Ev::Call && e.callee == "memset" && e.args[0] == G) { cleared = true; restored = false; }
      if (e.k == Ev::Call && e.callee == "TA_RestoreCandleDefaultSettings" && e.args[0] == std::to_string(NC)) restored = cleared; // its own effect is decided above
    }
    if (!restored) defaults(p, m, "init");
    for (auto &x : m) { Str b; int64_t o; splitOff(x.first, b, o); if (b == G && x.second != "0" && x.second.compare(0, 4, "fill") && o != (int64_t)S.L["magicNb"] && (o < (int64_t)S.L["candleSettings"] || o >= (int64_t)(S.L["candleSettings"] + NC * S.CSize))) S.V("init", p, std::to_string(o), "initialisation leaves a setting other than zero"); }
  }
  S.open("TA_Shutdown");
  for (auto &p : S.pe->paths) {
    auto m = S.image(p);
    cx.count("setting_paths");
    Str mg = cellAt(plus(G, S.L["magicNb"]));
    if (p.ret == "0") { if (m.size() != 1 || m[G] != "fill 0 " + std::to_string(S.LSize)) S.V("init", p, "shutdown", "shutdown does not reset every setting"); if (!p.has("eq", mg, magic)) S.V("accepted", p, "shutdown", "shutdown succeeds although the library was not initialised"); }
    else { if (p.ret != std::to_string(rc("TA_LIB_NOT_INITIALIZE")) || !p.has("ne", mg, magic)) S.V("refused", p, "shutdown", "shutdown is refused although the library was initialised"); if (!m.empty()) S.V("stored", p, "shutdown", "changes a setting although it is refused"); }
  }
}

void checkRetCodes(Ctx &cx) {
  SetCheck S(cx);
  S.open("TA_SetRetCodeInfo", 200);
  auto fi = structFields(findStruct(*cx.M, "TA_RetCodeInfo"));
  std::map<Str, uint64_t> O; for (auto &f : fi) O[f.name] = f.off;
  std::map<int64_t, Str> name;
  auto en = enumOf(cx, "TA_RetCode");
  if (en.size() < 15) { errs() << "talint: result codes not found\n"; exit(3); }
  for (auto &e : en) name[(int32_t)e.second] = e.first;
  std::set<int64_t> seen;
  json::Array rows;
  auto str = [&](const Str &v) -> Str { if (v.empty() || v[0] != '@') return "?"; auto *g = cx.M->getNamedValue(v.substr(1)); return g ? cstr(cx, cast<Constant>(g)) : "?"; };
  bool unknown = false, internal = false;
  for (auto &p : S.pe->paths) {
    ISet a = argSet(p, "a0");
    if (a.empty()) continue;
    cx.count("code_paths");
    auto m = S.image(p);
    Str e = str(m[plus("a1", O["enumStr"])]), i = str(m[plus("a1", O["infoStr"])]);
    if (m.size() != 2) S.V("code-store", p, "others", "writes something else than the description");
    int64_t c;
    if (a.within(5000, 5999)) { if (!a.single(c)) internal = true; if (e != "TA_INTERNAL_ERROR") S.V("code-name", p, "5000", "internal errors are described as " + e); for (auto &x : a.v) if (x.first <= 5000 && x.second >= 5999) internal = true; continue; }
    if (a.hits(5000, 5999)) S.V("code-name", p, "5000", "some internal errors are described as " + e);
    if (a.single(c) && name.count(c)) { seen.insert(c); cx.count("codes"); if (e != name[c]) S.V("code-name", p, name[c], "code " + name[c] + " is described as " + e); rows.push_back(json::Object{{"code", c}, {"name", e}, {"info", i}}); continue; }
    for (auto &n : name) if ((n.first < 5000 || n.first > 5999) && n.second != "TA_UNKNOWN_ERR" && a.hits(n.first, n.first)) S.V("code-name", p, n.second, "code " + n.second + " has no description of its own");
    if (e != "TA_UNKNOWN_ERR") S.V("code-name", p, "unknown", "an undefined code is described as " + e); else unknown = true;
  }
  if (!unknown || !internal) cx.viol("code-name", S.F, DebugLoc(), "classes", "undefined codes or internal errors have no description");
  cx.extra.emplace("codes", json::Value(std::move(rows)));
}

// ---- which settings each indicator depends on -------------------------------------
void checkSettingUse(Ctx &cx) {
  SetCheck S(cx);
  auto uid = enumOf(cx, "TA_FuncUnstId"), ct = enumOf(cx, "TA_CandleSettingType");
  const int64_t N = uid.at("TA_FUNC_UNST_ALL"), NC = ct.at("TA_AllCandleSettings");
  std::map<int64_t, Str> un, cn;
  for (auto &u : uid) if (u.second >= 0 && u.second < N) un[u.second] = u.first.substr(Str("TA_FUNC_UNST_").size());
  for (auto &c : ct) if (c.second < NC) cn[c.second] = c.first.substr(3);
  std::map<uint64_t, Str> cf; for (auto &f : S.C) cf[f.second] = f.first;
  auto *gp = cx.M->getGlobalVariable("TA_Globals", true);
  auto *tg = cast<GlobalVariable>(gp->getInitializer()->stripPointerCasts());
  std::map<Function *, std::set<Str>> direct;
  std::map<Function *, std::set<Function *>> calls;
  for (auto &F : *cx.M) {
    if (F.isDeclaration()) continue;
    for (auto &I : instructions(F)) {
      if (auto *C = calleeOf(&I)) {
        if (C->isDeclaration()) continue;
        // with a period of one, directional movement is neither smoothed nor unstable
        if (C->getName().ends_with("S_DM") || C->getName().contains("S_DM_")) {
          bool one = false;
          auto ps = paramInfo(C);
          for (size_t i = 0; i < ps.size(); i++) if (ps[i].first == "optInTimePeriod") if (auto *k = dyn_cast<ConstantInt>(cast<CallBase>(I).getArgOperand(i))) one = k->isOne();
          if (one) { cx.count("period_one_calls"); continue; }
        }
        calls[&F].insert(C);
        continue;
      }
      auto *L = dyn_cast<LoadInst>(&I);
      if (!L) continue;
      APInt off(64, 0);
      const Value *B = L->getPointerOperand()->stripAndAccumulateConstantOffsets(cx.dl(), off, true);
      bool base = B == tg;
      if (auto *BL = dyn_cast<LoadInst>(B)) base |= BL->getPointerOperand() == gp;
      if (!base) {
        // variable index into the settings
        const Value *V = L->getPointerOperand(); bool var = false;
        for (int d = 0; d < 8; d++) { if (auto *G = dyn_cast<GEPOperator>(V)) { var |= !G->hasAllConstantIndices(); V = G->getPointerOperand(); } else break; }
        if (auto *BL = dyn_cast<LoadInst>(V); var && (V == tg || (BL && BL->getPointerOperand() == gp))) direct[&F].insert("?");
        continue;
      }
      int64_t o = off.getSExtValue(), U = S.L["unstablePeriod"], K = S.L["candleSettings"];
      if (o >= U && o < U + 4 * N) direct[&F].insert("unstable period " + un[(o - U) / 4]);
      else if (o >= K && o < K + NC * (int64_t)S.CSize) direct[&F].insert("candle " + cn[(o - K) / S.CSize] + "." + cf[(o - K) % S.CSize]);
      else if (o == (int64_t)S.L["compatibility"]) direct[&F].insert("compatibility");
      else direct[&F].insert("field " + std::to_string(o));
      cx.count("setting_reads");
    }
  }
  std::map<Function *, std::set<Str>> all = direct;
  for (bool ch = true; ch;) { ch = false; for (auto &c : calls) for (auto *g : c.second) for (auto &s : all[g]) ch |= all[c.first].insert(s).second; }
  auto reg = readRegistry(cx);
  std::map<Str, int64_t> flags; for (auto &d : reg) flags[d.name] = d.flags;
  auto Is = collectIndicators(cx);
  auto join = [](const std::set<Str> &s) { Str r; for (auto &x : s) r += (r.empty() ? "" : ", ") + x; return r.empty() ? Str("nothing") : r; };
  for (auto &I : Is) {
    cx.count("indicators");
    auto &E = I.second;
    if (!E.count(K_Batch) || !E.count(K_Lookback)) continue;
    auto pick = [&](Kind k, const Str &pre, bool part = false) { std::set<Str> r; if (E.count(k)) for (auto &s : all[E[k]]) if (s.compare(0, pre.size(), pre) == 0 && (!part || pre != "candle " || s.find(".avgPeriod") != Str::npos)) r.insert(s); return r; };
    // own unstable period only
    for (auto &e : E) for (auto &s : direct[e.second]) {
      if (s == "?") cx.viol("setting-index", e.second, DebugLoc(), "index", "a setting is read at a computed place");
      if (s.compare(0, 16, "unstable period ") == 0 && s.substr(16) != I.first) cx.viol("unstable-own", e.second, DebugLoc(), s.substr(16), "reads the unstable period of " + s.substr(16) + " as its own");
    }
    bool flagged = flags[I.first] & 0x08000000, id = uid.count("TA_FUNC_UNST_" + I.first), own = false, any = false;
    for (auto &e : E) { own |= direct[e.second].count("unstable period " + I.first) > 0; any |= !pick(e.first, "unstable period ").empty(); }
    cx.count("flags");
    if (flagged != id) cx.viol("unstable-flag", E[K_Batch], DebugLoc(), "flag", flagged ? "is described as having an unstable period but has no identifier for it" : "has an unstable period identifier but is not described so");
    if (own && !flagged) cx.viol("unstable-flag", E[K_Batch], DebugLoc(), "own", "has an unstable period that its description does not announce");
    if (flagged && !any) cx.viol("unstable-flag", E[K_Batch], DebugLoc(), "unused", "is described as having an unstable period but does not use one");
    if (own && !all[E[K_Lookback]].count("unstable period " + I.first)) cx.viol("unstable-lookback", E[K_Lookback], DebugLoc(), "lookback", "the lookback ignores the indicator's unstable period");
    for (Str pre : {"unstable period ", "compatibility", "candle "}) {
      auto B = pick(K_Batch, pre), Bp = pick(K_Batch, pre, true), F2 = pick(K_Float, pre), L = pick(K_Lookback, pre, true), Si = pick(K_Init, pre), St = pick(K_State, pre);
      cx.count("families");
      if (E.count(K_Float) && B != F2) cx.viol("float-settings", E[K_Float], DebugLoc(), pre, "depends on " + join(F2) + ", the double version on " + join(B));
      if (pre == "compatibility") {
        for (auto &x : L) if (!B.count(x)) cx.viol("lookback-settings", E[K_Lookback], DebugLoc(), pre, "the lookback depends on the compatibility although the calculation does not");
      } else if (L != Bp) cx.viol("lookback-settings", E[K_Lookback], DebugLoc(), pre, "the lookback depends on " + join(L) + ", the calculation on " + join(Bp));
      std::set<Str> X = Si; X.insert(St.begin(), St.end());
      if (E.count(K_State) && X != B) cx.viol("stream-settings", E[K_State], DebugLoc(), pre, "streaming depends on " + join(X) + ", the calculation on " + join(B));
    }
  }
}

// ---- kinds of candle measures (a dimension analysis) ---------------------------------
// Every average and running total of a candlestick indicator belongs to one kind of candle
// setting. Kinds flow from the settings' fields through arithmetic, indices, loads through
// those indices, state fields and local arrays; a double that depends on two kinds is an error.
#include "llvm/Analysis/PostDominators.h"
void checkCandleKinds(Ctx &cx) {
  SetCheck S(cx);
  auto ct = enumOf(cx, "TA_CandleSettingType");
  const int64_t NC = ct.at("TA_AllCandleSettings");
  std::map<int64_t, Str> cn; for (auto &c : ct) if (c.second < NC) cn[c.second] = c.first.substr(3);
  auto *gp = cx.M->getGlobalVariable("TA_Globals", true);
  auto *tg = cast<GlobalVariable>(gp->getInitializer()->stripPointerCasts());
  auto &DL = cx.dl();
  typedef unsigned Set; // bit per kind
  auto names = [&](Set s) { Str r; for (int i = 0; i < NC; i++) if (s >> i & 1) r += (r.empty() ? "" : " and ") + cn[i]; return r; };
  auto pop = [](Set s) { return __builtin_popcount(s); };
  // state fields keep their kind over all functions of an indicator
  std::map<Str, Set> field;
  std::map<Function *, std::map<const Value *, Set>> kinds;
  auto Is = collectIndicators(cx);
  for (auto &I : Is) {
    if (I.first.compare(0, 3, "CDL")) continue;
    cx.count("indicators");
    std::map<Str, Set> cell;
    std::set<Str> told;
    for (int round = 0; round < 2; round++)
    for (auto &en : I.second) {
      Kind kd = en.first;
      if (kd != K_Batch && kd != K_Float && kd != K_State && kd != K_Init) continue;
      Function &F = *en.second;
      if (F.isDeclaration()) continue;
      DominatorTree DT(F);
      std::map<const Value *, Set> K;
      auto settingKind = [&](const LoadInst *L) -> int {
        APInt off(64, 0);
        const Value *B = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
        bool base = B == tg;
        if (auto *BL = dyn_cast<LoadInst>(B)) base |= BL->getPointerOperand() == gp;
        int64_t o = off.getSExtValue() - (int64_t)S.L["candleSettings"];
        if (!base || o < 0 || o >= NC * (int64_t)S.CSize) return -1;
        return o / S.CSize;
      };
      // values a counter of a `for` loop with constant bounds takes at a place
      auto rangeOf = [&](const Value *V, const BasicBlock *at, int64_t &lo, int64_t &hi) {
        while (auto *X = dyn_cast<CastInst>(V)) V = X->getOperand(0);
        if (auto *C = dyn_cast<ConstantInt>(V)) { lo = hi = C->getSExtValue(); return true; }
        int64_t add = 0;
        if (auto *X = dyn_cast<BinaryOperator>(V)) if (auto *C = dyn_cast<ConstantInt>(X->getOperand(1))) {
          if (X->getOpcode() == Instruction::Add) add = C->getSExtValue(); else if (X->getOpcode() == Instruction::Sub) add = -C->getSExtValue(); else return false;
          V = X->getOperand(0);
        }
        auto *P = dyn_cast<PHINode>(V);
        if (!P) return false;
        bool init = false, up = false, down = false;
        int64_t c0 = 0;
        for (auto &v : P->incoming_values()) {
          if (auto *C = dyn_cast<ConstantInt>(v)) { if (init) return false; init = true; c0 = C->getSExtValue(); continue; }
          auto *X = dyn_cast<BinaryOperator>(v);
          auto *C = X && X->getOperand(0) == P ? dyn_cast<ConstantInt>(X->getOperand(1)) : nullptr;
          if (!C) return false;
          int64_t d = X->getOpcode() == Instruction::Add ? C->getSExtValue() : X->getOpcode() == Instruction::Sub ? -C->getSExtValue() : 0;
          if (d == 1) up = true; else if (d == -1) down = true; else return false;
        }
        if (!init || up == down) return false;
        for (auto *u : P->users()) if (auto *c = dyn_cast<ICmpInst>(u)) if (auto *C = dyn_cast<ConstantInt>(c->getOperand(1))) if (c->getOperand(0) == P)
          for (auto *bu : c->users()) if (auto *br = dyn_cast<BranchInst>(bu)) {
            if (!DT.dominates(BasicBlockEdge(br->getParent(), br->getSuccessor(0)), at)) continue;
            int64_t k = C->getSExtValue();
            auto pr = c->getPredicate();
            if (up && (pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_SLE || pr == CmpInst::ICMP_NE)) { lo = c0 + add; hi = k - (pr != CmpInst::ICMP_SLE) + add; return true; }
            if (down && (pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_SGE || pr == CmpInst::ICMP_NE)) { hi = c0 + add; lo = k + (pr != CmpInst::ICMP_SGE) + add; return true; }
          }
        return false;
      };
      // names of the memory cells behind a pointer: elements of local arrays and state fields
      auto cellOf = [&](const Value *P, const BasicBlock *at) -> std::vector<Str> {
        APInt off(64, 0);
        const Value *B = P->stripAndAccumulateConstantOffsets(DL, off, true);
        int64_t lo = 0, hi = 0; bool known = true; unsigned var = 0;
        while (auto *G = dyn_cast<GEPOperator>(B)) {
          if (known && rangeOf(G->getOperand(G->getNumOperands() - 1), at, lo, hi) && hi - lo < 64 && !var++) {} else known = false;
          B = G->getPointerOperand();
          APInt o2(64, 0); B = B->stripAndAccumulateConstantOffsets(DL, o2, true); off += o2;
        }
        Str base;
        if (isa<AllocaInst>(B)) base = F.getName().str() + ":" + std::to_string((uintptr_t)B);
        else if (auto *L = dyn_cast<LoadInst>(B)) { const Value *R = L->getPointerOperand(); if ((kd == K_State || kd == K_Init) && (isa<Argument>(R) || isa<AllocaInst>(R))) base = "state"; }
        else if (isa<Argument>(B) && (kd == K_State || kd == K_Init) && B->getName().contains("tate")) base = "state";
        if (base.empty()) return {};
        if (!known) { lo = 0; hi = 15; }
        std::vector<Str> r;
        for (int64_t e = lo; e <= hi; e++) r.push_back(base + "+" + std::to_string(off.getSExtValue() + 8 * e));
        return r;
      };
      // a counter that has left its warm-up loop (`while (i < startIdx)`) has the bound's kind
      auto kAt = [&](const Value *V, const BasicBlock *at) -> Set {
        if (!V->getType()->isIntegerTy()) return K[V];
        while (auto *X = dyn_cast<CastInst>(V)) V = X->getOperand(0);
        if (isa<PHINode>(V))
          for (auto *u : V->users())
            if (auto *c = dyn_cast<ICmpInst>(u))
              for (auto *bu : c->users())
                if (auto *br = dyn_cast<BranchInst>(bu)) {
                  bool lhs = c->getOperand(0) == V;
                  auto pr = lhs ? c->getPredicate() : c->getSwappedPredicate();
                  int leave = pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_SLE ? 1 : pr == CmpInst::ICMP_SGE || pr == CmpInst::ICMP_SGT ? 0 : -1;
                  if (leave < 0) continue;
                  if (DT.dominates(BasicBlockEdge(br->getParent(), br->getSuccessor(leave)), at)) return K[c->getOperand(lhs ? 1 : 0)];
                }
        return K[V];
      };
      auto idxKinds = [&](const Value *P, const BasicBlock *at) -> Set {
        Set s = 0;
        for (int d = 0; d < 8; d++) {
          auto *G = dyn_cast<GEPOperator>(P);
          if (!G) break;
          for (auto &x : G->indices()) s |= kAt(x.get(), at);
          P = G->getPointerOperand();
        }
        return s;
      };
      // direct comparison of a setting's field with a constant
      std::function<Set(const Value *, int)> direct = [&](const Value *C, int d) -> Set {
        if (d > 6) return 0;
        if (auto *L = dyn_cast<LoadInst>(C)) { int k = settingKind(L); return k < 0 ? 0 : 1u << k; }
        if (auto *X = dyn_cast<CastInst>(C)) return direct(X->getOperand(0), d + 1);
        if (auto *X = dyn_cast<CmpInst>(C)) return isa<Constant>(X->getOperand(1)) ? direct(X->getOperand(0), d + 1) : 0;
        return 0;
      };
      bool ch = true;
      for (int it = 0; ch && it < 50; it++) {
        ch = false;
        for (auto &B : F)
          for (auto &J : B) {
            Set s = K[&J];
            if (auto *L = dyn_cast<LoadInst>(&J)) {
              int k = settingKind(L);
              if (k >= 0) s |= 1u << k;
              else { s |= idxKinds(L->getPointerOperand(), &B); for (auto &c : cellOf(L->getPointerOperand(), &B)) s |= cell[c]; }
            } else if (auto *P = dyn_cast<PHINode>(&J)) {
              for (unsigned i = 0; i < P->getNumIncomingValues(); i++) s |= kAt(P->getIncomingValue(i), P->getIncomingBlock(i));
              bool header = false;
              for (auto *pr : predecessors(&B)) header |= DT.dominates(&B, pr);
              if (!header && P->getType()->isFloatingPointTy() && DT.getNode(&B)->getIDom()) {
                auto *top = DT.getNode(&B)->getIDom()->getBlock();
                std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w(pred_begin(&B), pred_end(&B));
                while (!w.empty()) {
                  auto *b = w.back(); w.pop_back();
                  if (!seen.insert(b).second) continue;
                  if (auto *br = dyn_cast<BranchInst>(b->getTerminator()); br && br->isConditional()) s |= direct(br->getCondition(), 0);
                  if (auto *sw = dyn_cast<SwitchInst>(b->getTerminator())) s |= direct(sw->getCondition(), 0);
                  if (b != top) for (auto *pr : predecessors(b)) w.push_back(pr);
                }
              }
            } else if (auto *X = dyn_cast<SelectInst>(&J)) { s |= K[X->getTrueValue()] | K[X->getFalseValue()] | direct(X->getCondition(), 0);
            } else if (isa<BinaryOperator>(&J) || isa<CastInst>(&J) || isa<CmpInst>(&J) || isa<UnaryOperator>(&J)) { if (isa<CmpInst>(&J) && (J.getOperand(0)->getType()->isFloatingPointTy())) continue; for (auto &o : J.operands()) s |= kAt(o.get(), &B);
            } else if (auto *II = dyn_cast<IntrinsicInst>(&J)) { if (J.getType()->isFloatingPointTy()) for (auto &o : II->args()) s |= K[o.get()];
            } else if (auto *C = dyn_cast<CallBase>(&J)) { if (J.getType()->isFloatingPointTy()) for (auto &o : C->args()) s |= K[o.get()];
            } else if (auto *X = dyn_cast<StoreInst>(&J)) {
              Set v = K[X->getValueOperand()];
              for (auto &c : cellOf(X->getPointerOperand(), &B)) if ((cell[c] | v) != cell[c]) { cell[c] |= v; ch = true; }
            }
            if (s != K[&J]) { K[&J] = s; ch = true; }
          }
      }
      if (round == 0) continue;
      for (auto &B : F)
        for (auto &J : B) {
          if (J.getType()->isFloatingPointTy() && K[&J]) {
            cx.count("measures");
            // report where two kinds meet
            if (pop(K[&J]) > 1) {
              bool fromOps = false;
              for (auto &o : J.operands()) fromOps |= isa<Instruction>(o.get()) && o->getType()->isFloatingPointTy() && pop(K[o.get()]) > 1;
              Str key = en.second->getName().str() + names(K[&J]);
              if (!fromOps && told.insert(key).second) cx.viol("mixed", &F, J.getDebugLoc(), names(K[&J]), "one measure combines the candle settings " + names(K[&J]));
            }
          }
          if (auto *X = dyn_cast<StoreInst>(&J)) {
            for (auto &c : cellOf(X->getPointerOperand(), &B)) if (pop(cell[c]) > 1 && X->getValueOperand()->getType()->isFloatingPointTy() && told.insert(c + names(cell[c])).second) cx.viol("mixed", &F, J.getDebugLoc(), names(cell[c]), "one running total combines the candle settings " + names(cell[c]));
            Set v = K[X->getValueOperand()];
            if (!v || !X->getValueOperand()->getType()->isFloatingPointTy()) continue;
            // guarded by a warm-up test of another kind
            if (kd == K_State) for (auto *n = DT.getNode(&B); n && n->getIDom(); n = n->getIDom()) {
              auto *D = n->getIDom()->getBlock();
              auto *br = dyn_cast<BranchInst>(D->getTerminator());
              if (!br || !br->isConditional()) continue;
              bool onEdge = false;
              for (auto *su : successors(D)) onEdge |= DT.dominates(BasicBlockEdge(D, su), &B);
              if (!onEdge) continue;
              auto *ic = dyn_cast<ICmpInst>(br->getCondition());
              if (!ic || direct(ic, 0)) continue;
              Set g = K[ic];
              cx.count("guards");
              if (pop(g) == 1 && (g & v) == 0 && told.insert(en.second->getName().str() + "g" + names(g | v)).second) cx.viol("mixed-guard", &F, J.getDebugLoc(), names(g | v), "a running total of " + names(v) + " is updated on a test of " + names(g));
            }
          }
        }
    }
  }
}
