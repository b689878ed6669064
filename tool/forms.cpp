#include "forms.h"
#include <cmath>

Forms::Forms() { nodes.reserve(1024); }
int Forms::base(const Str &key, bool isInt, bool nonneg) {
  auto it = baseIx.find(key); if (it != baseIx.end()) return it->second;
  Base b; b.key = key; b.isInt = isInt; b.nonneg = nonneg; bases.push_back(b); return baseIx[key] = bases.size() - 1;
}
Forms::Poly Forms::add(const Poly &a, const Poly &b, double m) {
  Poly r = a;
  for (auto &x : b) { double &c = r[x.first]; c += x.second * m; if (c == 0 || std::fabs(c) < 1e-13 * std::fabs(x.second * m)) r.erase(x.first); }
  return r;
}
Forms::Poly Forms::mul(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &x : a) for (auto &y : b) {
    std::vector<int> v = x.first; v.insert(v.end(), y.first.begin(), y.first.end()); std::sort(v.begin(), v.end());
    double &c = r[v]; c += x.second * y.second; if (c == 0) r.erase(v);
  }
  return r;
}
int Forms::pid(const Poly &p) { auto it = polyIx.find(p); if (it != polyIx.end()) return it->second; polys.push_back(p); return polyIx[p] = polys.size() - 1; }
Forms::Id Forms::term(const Poly &p) {
  int i = pid(p); auto it = termIx.find(i); if (it != termIx.end()) return it->second;
  nodes.push_back({TERM, -1, -1, i}); return termIx[i] = nodes.size() - 1;
}
// min(d, 0), of either sign of d in one way
Forms::Poly Forms::min0(const Poly &d0) {
  if (d0.empty()) return {};
  if (d0.size() == 1 && d0.begin()->first.empty()) return d0.begin()->second < 0 ? d0 : Poly();
  Poly d = d0; auto lead = d.begin(); if (lead->first.empty()) ++lead;
  double s = lead->second; Poly n; for (auto &x : d) n[x.first] = x.second / std::fabs(s);
  bool flip = s < 0;
  if (flip) { Poly m; for (auto &x : n) m[x.first] = -x.second; n = m; }
  if (allInt(n)) { if (atLeast0(n)) return flip ? d0 : Poly(); if (atLeast0(add({}, n, -1))) return flip ? Poly() : d0; }
  int id = pid(n); int b = base("min0:" + std::to_string(id), allInt(n)); bases[b].minOf = id;
  Poly m = sym(b); // min(n,0); min(-n,0) = min(n,0) - n
  if (flip) m = add(m, n, -1);
  Poly r; for (auto &x : m) r[x.first] = x.second * std::fabs(s);
  return r;
}
Forms::Id Forms::mk(int var, Id hi, Id lo) {
  if (hi == lo) return hi;
  if (atoms[var].k == LT && nodes[hi].var == var + 1) hi = nodes[hi].lo;
  if (atoms[var].k == IEQ && !isTerm(hi)) hi = others(var, hi); // x == c, and then x is no other constant
  if (hi == lo) return hi;
  if (isTerm(hi) && isTerm(lo)) { // a smaller-than test that chooses between what it compares
    Poly df = add(polyOf(hi), polyOf(lo), -1);
    const Atom A = atoms[var]; Poly d = polys[A.d];
    auto ratio = [&](const Poly &e, double &c) {
      if (e.empty() || df.size() != e.size()) return false;
      c = 0; auto y = e.begin();
      for (auto &x : df) { if (x.first != y->first) return false; double q = x.second / y->second; if (c == 0) c = q; else if (std::fabs(q - c) > 1e-12 * std::fabs(c)) return false; ++y; }
      return true;
    };
    double c;
    Poly l = polyOf(lo);
    if (A.k == LT && ratio(d, c)) return term(add(l, min0(d), c));
    if (A.k == GT && ratio(d, c)) return term(add(add(l, d, c), min0(d), -c));
    if (A.k == ILT && ratio(d, c)) return term(add(l, min0(d), c));
    if (A.k == ILT) { Poly e = add(d, konst(-1), -1); if (ratio(e, c)) return term(add(l, min0(e), c)); }
  }
  auto it = nodeIx.find({var, hi, lo}); if (it != nodeIx.end()) return it->second;
  limit();
  nodes.push_back({var, hi, lo, -1}); return nodeIx[{var, hi, lo}] = nodes.size() - 1;
}
// The same value without cases where the tests only choose the smaller of what they compare: the tests in another order
Forms::Id Forms::collapse(Id n, int depth) {
  if (isTerm(n) || depth > 6) return n;
  std::set<int> as, ps; support(n, as, ps);
  if (as.size() > 6) return n;
  for (int a : as) if (atoms[a].k != ILT) return n;
  std::vector<int> vs(as.begin(), as.end()); std::sort(vs.begin(), vs.end(), [&](int x, int y) { return atoms[x].d > atoms[y].d; });
  for (int v : vs) {
    std::function<Id(Id, bool)> with = [&](Id x, bool t) -> Id { if (isTerm(x) || nodes[x].var > v) return x; auto nd = nodes[x]; if (nd.var == v) return t ? nd.hi : nd.lo; Id h = with(nd.hi, t), l = with(nd.lo, t); return mk(nd.var, h, l); };
    Id h = collapse(with(n, true), depth + 1); if (!isTerm(h)) continue;
    Id l = collapse(with(n, false), depth + 1); if (!isTerm(l)) continue;
    Id r = mk(v, h, l); if (isTerm(r)) return r;
  }
  return n;
}
Forms::Id Forms::ite(Id c, Id a, Id b) {
  if (a == b) return a;
  double k; if (isConst(c, k)) return k != 0 ? a : b;
  auto it = iteMemo.find({c, a, b}); if (it != iteMemo.end()) return it->second;
  int v = nodes[c].var; if (nodes[a].var < v) v = nodes[a].var; if (nodes[b].var < v) v = nodes[b].var;
  if (v == TERM) throw FormFail{"a number used as a condition: " + show(polyOf(c))};
  auto co = [&](Id n, bool t) { return nodes[n].var == v ? (t ? nodes[n].hi : nodes[n].lo) : n; };
  Id c1 = co(c, true), a1 = co(a, true), b1 = co(b, true), c0 = co(c, false), a0 = co(a, false), b0 = co(b, false);
  Id h = ite(c1, a1, b1), l = ite(c0, a0, b0);
  Id r = mk(v, h, l); iteMemo[{c, a, b}] = r; return r;
}
Forms::Id Forms::apply(int op, Id a, Id b) {
  auto it = memo.find({op, a, b}); if (it != memo.end()) return it->second;
  Id r;
  if (isTerm(a) && isTerm(b)) { Poly x = polyOf(a), y = polyOf(b); r = leaf(op, x, y); }
  else {
    int v = std::min(nodes[a].var, nodes[b].var);
    auto co = [&](Id n, bool t) { return nodes[n].var == v ? (t ? nodes[n].hi : nodes[n].lo) : n; };
    Id a1 = co(a, true), b1 = co(b, true), a0 = co(a, false), b0 = co(b, false);
    Id h = apply(op, a1, b1), l = apply(op, a0, b0);
    // results of comparisons may test anything: put in order
    Id c = mk(v, num(1), num(0));
    r = ite(c, h, l);
  }
  memo[{op, a, b}] = r; return r;
}
bool Forms::allInt(const Poly &p) const {
  for (auto &t : p) { if (t.second != std::floor(t.second)) return false; for (int b : t.first) if (!bases[b].isInt) return false; }
  return true;
}
bool Forms::atLeast0(const Poly &p0, int depth) {
  auto plain = [&](const Poly &p) { for (auto &t : p) { if (t.second < 0) return false; for (int b : t.first) if (!bases[b].nonneg) return false; } return true; };
  auto with = [&](const Poly &p, int b, const Poly &v) { Poly r; for (auto &x : p) { Poly m = konst(x.second); for (int q : x.first) m = mul(m, q == b ? v : sym(q)); r = add(r, m); } return r; };
  std::map<Poly, bool> done;
  std::function<bool(const Poly &, int)> go = [&](const Poly &p, int d) -> bool {
    if (plain(p)) return true;
    if (d > 10) return false;
    auto it = done.find(p); if (it != done.end()) return it->second;
    done[p] = false; bool ok = false;
    // minima: one with a negative factor may be replaced by either of the two, one with a positive factor has to do for both
    for (int sign = 0; sign < 2 && !ok; sign++)
      for (auto &t : p) { if (t.first.size() != 1 || bases[t.first[0]].minOf < 0 || (t.second < 0) != (sign == 0)) continue;
        Poly d0 = polys[bases[t.first[0]].minOf]; int b = t.first[0];
        bool x = go(with(p, b, d0), d + 1); if (sign == 0 && x) { ok = true; break; } if (sign == 1 && !x) continue;
        bool y = go(with(p, b, {}), d + 1); if (y) { ok = true; break; } }
    return done[p] = ok;
  };
  std::vector<Poly> ps{p0};
  for (auto &f : facts) ps.push_back(add(p0, f, -1));
  for (size_t i = 0; i < facts.size(); i++) for (size_t j = i; j < facts.size(); j++) ps.push_back(add(add(p0, facts[i], -1), facts[j], -1));
  for (auto &p : ps) {
    if (go(p, 0)) return true;
    Poly q = p; bool ch = false;
    for (auto &df : defs) { for (auto &x : q) for (int b : x.first) if (b == df.first) ch = true; if (ch) q = with(q, df.first, df.second); }
    if (ch && go(q, 0)) return true;
  }
  return false;
}
// Are two values the same in every case that can happen? Descends into the cases in which they differ,
// with what the tests passed say about signs; a case that contradicts itself is left out.
bool Forms::same(Id a, Id b, const std::vector<Poly> &given, Str &why) {
  int64_t visits = 0;
  struct Known { Poly p; bool strict; }; // p >= 0, or p > 0
  std::vector<Known> ks; for (auto &g : given) ks.push_back({g, false});
  std::vector<std::pair<Str, bool>> path;
  auto simp = [&](Poly p) { // with what is known, minima are one of the two
    for (int n = 0; n < 10; n++) {
      bool ch = false;
      for (auto &t : p) { for (int x : t.first) if (bases[x].minOf >= 0) {
          const Poly d = polys[bases[x].minOf]; bool pos = false, negv = false;
          for (auto &k : ks) { if (k.p == d) pos = true; if (add(k.p, d).empty()) negv = true; }
          if (!pos && !negv) continue;
          Poly r; for (auto &y : p) { Poly m = konst(y.second); for (int q : y.first) m = mul(m, q == x ? (pos ? Poly() : d) : sym(q)); r = add(r, m); }
          p = r; ch = true; break; }
        if (ch) break; }
      if (!ch) break;
    }
    return p; };
  // what is known of p: 1 positive, -1 negative, 2 not negative, -2 not positive, 0 nothing
  auto norm = [&](Poly p) { if (p.empty()) return p; auto l = p.begin(); if (l->first.empty() && p.size() > 1) ++l; double s = std::fabs(l->second); for (auto &x : p) x.second /= s; return p; };
  auto implies = [&](const Poly &p, bool &ge, bool &gt) { // p >= 0, p > 0
    ge = gt = false; Poly n = norm(p);
    if (n.empty()) { ge = true; return; }
    if (n.size() == 1 && n.begin()->first.empty()) { ge = gt = n.begin()->second > 0; return; }
    for (auto &k : ks) { Poly kp = norm(simp(k.p)); Poly df = add(n, kp, -1); bool z = df.empty(), c = df.size() == 1 && df.begin()->first.empty() && df.begin()->second > 0; if (z || c) { ge = true; if (k.strict || c) gt = true; } }
    auto keep = facts; facts.clear(); if (!ge && atLeast0(n)) ge = true; if (!gt && allInt(p) && atLeast0(add(p, konst(-1)))) ge = gt = true; facts = keep;
    if (!gt) for (size_t i = 0; i < ks.size(); i++) for (size_t j = i + 1; j < ks.size(); j++) { // n = x*ki + y*kj for simple x, y
      Poly ki = simp(ks[i].p), kj = simp(ks[j].p); if (add(add(n, ki, -1), kj, -1).empty()) { ge = true; if (ks[i].strict || ks[j].strict) gt = true; } }
  };
  auto literal = [&](int v, bool t) {
    const Atom A = atoms[v]; Poly d = simp(polys[A.d]), nd = add({}, d, -1);
    if (A.k == LT) ks.push_back(t ? Known{nd, true} : Known{d, false});
    else if (A.k == GT) ks.push_back(t ? Known{d, true} : Known{nd, false});
    else if (A.k == ILT) { if (t) ks.push_back({add(nd, konst(-1)), false}); else ks.push_back({d, false}); }
    else if (t) { ks.push_back({d, false}); ks.push_back({nd, false}); }
  };
  auto truth = [&](int v) { // what is known of a test
    const Atom A = atoms[v]; Poly d = simp(polys[A.d]), nd = add({}, d, -1); bool ge, gt, le, lt;
    implies(d, ge, gt); implies(nd, le, lt);
    if (A.k == LT || A.k == ILT) { if (ge) return 0; if (lt) return 1; if (A.k == ILT) { bool g1, g2; implies(add(nd, konst(-1)), g1, g2); if (g1) return 1; } }
    else if (A.k == GT) { if (gt) return 1; if (le) return 0; }
    else { if (gt || lt) return 0; if (ge && le) return 1; }
    return -1;
  };
  // where the two differ: a diagram whose leaves are 0 or a pair of different values
  std::map<std::pair<Id, Id>, Id> ne; std::map<int, std::pair<Id, Id>> pairOf;
  std::function<Id(Id, Id)> differ = [&](Id x, Id y) -> Id {
    if (x == y) return num(0);
    auto it = ne.find({x, y}); if (it != ne.end()) return it->second;
    Id r;
    if (isTerm(x) && isTerm(y)) {
      const Poly &p = polyOf(x), d = add(p, polyOf(y), -1); double sc = 0; for (auto &t : p) sc = std::max(sc, std::fabs(t.second)); bool tiny = true; for (auto &t : d) if (std::fabs(t.second) > 1e-9 * (sc + 1e-30)) tiny = false;
      if (tiny) r = num(0); else { int q = base("differ:" + std::to_string(x) + ":" + std::to_string(y), false); pairOf[q] = {x, y}; r = term(sym(q)); }
    } else {
      int v = std::min(nodes[x].var, nodes[y].var);
      auto co = [&](Id n, bool t) { return nodes[n].var == v ? (t ? nodes[n].hi : nodes[n].lo) : n; };
      Id h = differ(co(x, true), co(y, true)), l = differ(co(x, false), co(y, false));
      r = ite(mk(v, num(1), num(0)), h, l);
    }
    return ne[{x, y}] = r;
  };
  Id D = differ(a, b);
  { // cases that two of the tests together rule out
    std::set<int> as, ps; support(D, as, ps); std::vector<int> vs(as.begin(), as.end());
    if (vs.size() <= 80)
      for (size_t i = 0; i < vs.size() && D != num(0); i++) for (int t = 1; t >= 0 && D != num(0); t--) {
        size_t n = ks.size(); std::vector<std::pair<int, int>> con;
        if (int k = truth(vs[i]); k >= 0 && k != t) { D = ite(mk(vs[i], num(1), num(0)), t ? num(0) : D, t ? D : num(0)); continue; }
        literal(vs[i], t);
        for (size_t j = 0; j < vs.size(); j++) if (j != i) if (int k = truth(vs[j]); k >= 0) con.push_back({vs[j], k});
        ks.resize(n);
        for (auto &c : con) { Id li = mk(vs[i], num(t), num(1 - t)), lj = mk(c.first, num(c.second), num(1 - c.second)); D = ite(li, ite(lj, D, num(0)), D); }
      }
  }
  std::function<bool(Id)> go = [&](Id x) -> bool {
    if (x == num(0)) return true;
    if (++visits > 100000) { why = "too many cases to compare"; return false; }
    if (isTerm(x)) {
      auto pr = pairOf[polyOf(x).begin()->first[0]];
      Poly p = simp(polyOf(pr.first)), q = simp(polyOf(pr.second));
      if (p == q) return true;
      Poly d = add(p, q, -1); double sc = 0; for (auto &t : p) sc = std::max(sc, std::fabs(t.second)); bool tiny = true; for (auto &t : d) if (std::fabs(t.second) > 1e-9 * (sc + 1e-30)) tiny = false;
      if (tiny) return true;
      // a contradiction among what is known?
      for (auto &k : ks) { Poly s = simp(k.p); if (s == k.p) continue; if (s.empty() && k.strict) return true; if (s.size() == 1 && s.begin()->first.empty() && s.begin()->second < 0) return true;
        for (auto &l : ks) { Poly t = add(norm(s), norm(simp(l.p))); if (t.empty() && (k.strict || l.strict)) return true; } }
      why = "gives " + show(p) + " where the other gives " + show(q); int n = 0; Str c; for (auto &t : path) if (n++ < 14) c += (c.empty() ? "" : ", ") + Str(t.second ? "" : "not ") + "(" + t.first + ")"; if (!c.empty()) why += " when " + c;
      return false;
    }
    int v = nodes[x].var; auto nd = nodes[x]; int known = truth(v);
    for (int t = 1; t >= 0; t--) {
      if (known >= 0 && known != t) continue;
      size_t n = ks.size();
      if (known < 0) { literal(v, t); path.push_back({showAtom(v), t == 1}); }
      bool ok = go(t ? nd.hi : nd.lo);
      ks.resize(n); if (known < 0) path.pop_back();
      if (!ok) return false;
    }
    return true;
  };
  if (getenv("FORMDBG")) { std::set<int> as, ps; support(D, as, ps); errs() << "difference: " << as.size() << " tests, " << ps.size() << " outcomes\n"; for (int a : as) errs() << "   " << showAtom(a) << "\n"; }
  return go(D);
}
Forms::Id Forms::others(int var, Id n) {
  Poly d = polys[atoms[var].d]; d.erase(std::vector<int>()); int key = pid(d);
  std::map<Id, Id> done;
  std::function<Id(Id)> go = [&](Id x) -> Id {
    if (isTerm(x)) return x;
    auto it = done.find(x); if (it != done.end()) return it->second;
    Node nd = nodes[x]; Id r;
    bool same = false;
    if (nd.var != var && atoms[nd.var].k == IEQ) { Poly e = polys[atoms[nd.var].d]; e.erase(std::vector<int>()); same = pid(e) == key; }
    if (same) r = go(nd.lo);
    else { Id h = go(nd.hi), l = go(nd.lo); r = h == nd.hi && l == nd.lo ? x : mk(nd.var, h, l); }
    return done[x] = r;
  };
  return go(n);
}
static void normSign(Forms::Poly &d, bool &flip, double &scale) {
  auto lead = d.begin(); if (lead->first.empty()) ++lead;
  double s = lead->second; flip = s < 0; scale = std::fabs(s);
}
Forms::Id Forms::atomInt(Poly d) {
  if (atLeast0(d)) return num(0);
  if (atLeast0(add(konst(-1), d, -1))) return num(1);
  if (d.empty() || (d.size() == 1 && d.begin()->first.empty())) return num(d.empty() ? 0 : d.begin()->second < 0);
  bool flip; double s; normSign(d, flip, s);
  bool inv = false;
  if (flip) { d = add(konst(-1), d, -1); inv = true; } // d < 0  <=>  !(-d-1 < 0)
  int p = pid(d); auto it = atomIx.find({ILT, p}); int v;
  if (it != atomIx.end()) v = it->second; else { v = atoms.size(); atoms.push_back({ILT, p}); atoms.push_back({ILT, p}); atomIx[{ILT, p}] = v; }
  return inv ? mk(v, num(0), num(1)) : mk(v, num(1), num(0));
}
Forms::Id Forms::atomIntEq(Poly d) {
  if (d.empty()) return num(1);
  if (d.size() == 1 && d.begin()->first.empty()) return num(0);
  if (atLeast0(add(d, konst(-1))) || atLeast0(add(konst(-1), d, -1))) return num(0);
  bool flip; double s; normSign(d, flip, s);
  if (flip) d = add({}, d, -1);
  int p = pid(d); auto it = atomIx.find({IEQ, p}); int v;
  if (it != atomIx.end()) v = it->second; else { v = atoms.size(); atoms.push_back({IEQ, p}); atoms.push_back({IEQ, p}); atomIx[{IEQ, p}] = v; }
  return mk(v, num(1), num(0));
}
Forms::Id Forms::atomReal(Poly d, bool gt) {
  if (d.empty()) return num(0);
  if (d.size() == 1 && d.begin()->first.empty()) return num(gt ? d.begin()->second > 0 : d.begin()->second < 0);
  if (allInt(d)) { if (gt) d = add({}, d, -1); return atomInt(d); }
  bool flip; double s; normSign(d, flip, s);
  Poly n; for (auto &x : d) n[x.first] = x.second / (flip ? -s : s);
  if (flip) gt = !gt;
  int p = pid(n); auto it = atomIx.find({LT, p}); int v;
  if (it != atomIx.end()) v = it->second; else { v = atoms.size(); atoms.push_back({LT, p}); atoms.push_back({GT, p}); atomIx[{LT, p}] = v; }
  return mk(gt ? v + 1 : v, num(1), num(0));
}
Forms::Id Forms::leaf(int op, const Poly &a, const Poly &b) {
  switch (op) {
  case ADD: return term(add(a, b));
  case SUB: return term(add(a, b, -1));
  case MUL: return term(mul(a, b));
  case DIV:
    if (b.size() == 1 && b.begin()->first.empty()) return term(mul(a, konst(1 / b.begin()->second)));
    if (a.empty()) return term(a);
    if (b.size() == 1) { Poly r = mul(a, konst(1 / b.begin()->second)); for (int x : b.begin()->first) r = mul(r, sym(base("inv:" + bases[x].key, false))); return term(r); }
    return term(mul(a, sym(base("inv:p" + std::to_string(pid(b)), false))));
  case CLT: return atomInt(add(a, b, -1));
  case CEQ: return atomIntEq(add(a, b, -1));
  case FLT: return atomReal(add(a, b, -1), false);
  case FGT: return atomReal(add(a, b, -1), true);
  case REM: {
    if (atLeast0(a) && atLeast0(add(add(b, a, -1), konst(-1)))) return term(a);
    Str k = "rem:" + std::to_string(pid(a)) + ":" + std::to_string(pid(b)); int x = base(k, true, true); return term(sym(x)); }
  case MIN0: return term(min0(a));
  }
  throw FormFail{"operation"};
}
Forms::Id Forms::substPoly(const Poly &p, const std::map<int, Id> &m) {
  Id r = num(0);
  for (auto &t : p) {
    Id x = num(t.second);
    for (int b : t.first) {
      Id v;
      if (auto it = m.find(b); it != m.end()) v = it->second;
      else if (bases[b].minOf >= 0) { Poly q = polys[bases[b].minOf]; std::set<int> bs; polysIn(q, bs); bool h = false; for (int y : bs) h |= m.count(y) || bases[y].minOf >= 0; if (h) { Id z = substPoly(q, m); v = apply(MIN0, z, num(0)); } else v = term(sym(b)); }
      else v = term(sym(b));
      x = apply(MUL, x, v);
    }
    r = apply(ADD, r, x);
  }
  return r;
}
Forms::Id Forms::subst(Id n, const std::map<int, Id> &m) {
  auto it = substMemo.find(n); if (it != substMemo.end()) return it->second;
  Id r;
  if (isTerm(n)) { Poly p = polyOf(n); r = substPoly(p, m); }
  else {
    Node nd = nodes[n]; Atom A = atoms[nd.var]; Poly d = polys[A.d];
    Id x = substPoly(d, m), z = num(0);
    Id c = A.k == LT ? apply(FLT, x, z) : A.k == GT ? apply(FGT, x, z) : A.k == ILT ? apply(CLT, x, z) : apply(CEQ, x, z);
    Id h = subst(nd.hi, m), l = subst(nd.lo, m);
    r = ite(c, h, l);
  }
  substMemo[n] = r; return r;
}
Str Forms::show(const Poly &p) const {
  if (p.empty()) return "0";
  Str r;
  for (auto &t : p) {
    char b[40]; snprintf(b, sizeof b, "%g", std::fabs(t.second));
    r += t.second < 0 ? (r.empty() ? "-" : " - ") : (r.empty() ? "" : " + ");
    bool k = t.first.empty() || std::fabs(t.second) != 1; if (k) r += b;
    for (int x : t.first) { if (k) r += "*"; k = true; r += bases[x].minOf >= 0 ? "min(0, " + show(polys[bases[x].minOf]) + ")" : bases[x].key; }
  }
  return r;
}
Str Forms::showAtom(int v) const { auto &A = atoms[v]; return show(polys[A.d]) + (A.k == LT || A.k == ILT ? " < 0" : A.k == GT ? " > 0" : " == 0"); }
Str Forms::differ(Id a, Id b) {
  Str r; int n = 0;
  while (!(isTerm(a) && isTerm(b))) {
    int v = std::min(nodes[a].var, nodes[b].var);
    auto co = [&](Id x, bool t) { return nodes[x].var == v ? (t ? nodes[x].hi : nodes[x].lo) : x; };
    bool t = co(a, true) != co(b, true) ;
    if (t && co(a, false) != co(b, false)) { // prefer the side that is decided sooner
      t = isTerm(co(a, true)) && isTerm(co(b, true));
    }
    if (n++ < 12) r += (r.empty() ? "" : ", ") + Str(t ? "" : "not ") + "(" + showAtom(v) + ")";
    a = co(a, t); b = co(b, t);
  }
  return "gives " + show(polyOf(a)) + " where the other gives " + show(polyOf(b)) + (r.empty() ? "" : " when " + r);
}
void Forms::support(Id n, std::set<int> &as, std::set<int> &ps) {
  std::set<Id> seen; std::vector<Id> st{n};
  while (!st.empty()) { Id x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (isTerm(x)) ps.insert(nodes[x].poly); else { as.insert(nodes[x].var); st.push_back(nodes[x].hi); st.push_back(nodes[x].lo); } }
}
