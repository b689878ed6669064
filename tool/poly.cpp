#include "poly.h"
#include <algorithm>
#include <cstdlib>
#include <numeric>
uint64_t polyLPs = 0;
namespace {
struct Ovf {};
int64_t mulx(int64_t a, int64_t b) { int64_t r; if (__builtin_mul_overflow(a, b, &r) || r > (1ll << 60) || r < -(1ll << 60)) throw Ovf(); return r; }
int64_t addx(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r) || r > (1ll << 60) || r < -(1ll << 60)) throw Ovf(); return r; }
int64_t gcdll(int64_t a, int64_t b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { int64_t t = a % b; a = b; b = t; } return a; }
Lin comb(const Lin &a, int64_t ca, const Lin &b, int64_t cb) {
  Lin r;
  r.bad = a.bad || b.bad;
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    int v; int64_t c;
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { v = a.t[i].first; c = mulx(a.t[i].second, ca); i++; }
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { v = b.t[j].first; c = mulx(b.t[j].second, cb); j++; }
    else { v = a.t[i].first; c = addx(mulx(a.t[i].second, ca), mulx(b.t[j].second, cb)); i++; j++; }
    if (c) r.t.push_back({v, c});
  }
  r.k = addx(mulx(a.k, ca), mulx(b.k, cb));
  return r;
}
int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }
// divide by the gcd of the coefficients; for >= rows the constant is rounded down (integers)
void norm(Lin &e, bool eq) {
  int64_t g = 0;
  for (auto &x : e.t) g = gcdll(g, x.second);
  if (g > 1) {
    if (eq) { if (e.k % g) return; for (auto &x : e.t) x.second /= g; e.k /= g; }
    else { for (auto &x : e.t) x.second /= g; e.k = fdiv(e.k, g); }
  }
}
// ---- exact rationals for the simplex ----
struct Q {
  int64_t n = 0, d = 1;
  Q() {}
  Q(int64_t a) : n(a) {}
  Q(int64_t a, int64_t b) { if (b < 0) { a = -a; b = -b; } int64_t g = gcdll(a, b); if (g > 1) { a /= g; b /= g; } n = a; d = b; }
  bool zero() const { return n == 0; }
};
Q operator*(const Q &a, const Q &b) { if (!a.n || !b.n) return Q(); int64_t g1 = gcdll(a.n, b.d), g2 = gcdll(b.n, a.d); Q r; r.n = mulx(a.n / g1, b.n / g2); r.d = mulx(a.d / g2, b.d / g1); return r; }
Q operator/(const Q &a, const Q &b) { Q c; c.n = b.n < 0 ? -b.d : b.d; c.d = b.n < 0 ? -b.n : b.n; return a * c; }
Q operator+(const Q &a, const Q &b) { if (!a.n) return b; if (!b.n) return a; if (a.d == 1 && b.d == 1) return Q(addx(a.n, b.n)); return Q(addx(mulx(a.n, b.d), mulx(b.n, a.d)), mulx(a.d, b.d)); }
Q neg(Q a) { a.n = -a.n; return a; }
bool lt(const Q &a, const Q &b) { return mulx(a.n, b.d) < mulx(b.n, a.d); }

enum LPRes { LP_Opt, LP_Unb, LP_Inf };
// minimise obj subject to rows >= 0 over free variables
LPRes lp(const std::vector<Lin> &rows, const Lin &obj, Q &val) {
  polyLPs++;
  std::map<int, int> ix;
  for (auto &r : rows) for (auto &x : r.t) ix.emplace(x.first, 0);
  for (auto &x : obj.t) if (!ix.count(x.first)) return LP_Unb;
  int n = 0; for (auto &e : ix) e.second = n++;
  int m = rows.size();
  // slack s_i = k_i + sum a_ij x_j ; express everything over nonbasic columns
  // columns: n originally free variables; a pivot swaps a free variable with a slack row
  std::vector<std::vector<Q>> T(m + 1, std::vector<Q>(n + 1));
  for (int i = 0; i <= m; i++) {
    const Lin &r = i < m ? rows[i] : obj;
    for (auto &x : r.t) T[i][ix[x.first]] = Q(x.second);
    T[i][n] = Q(r.k);
  }
  std::vector<char> colFree(n, 1), rowFree(m, 0); // free = unrestricted variable
  auto pivot = [&](int r, int c) { // row variable r leaves, column variable c enters
    Q p = T[r][c];
    // x_c = (s_r - rest)/p
    std::vector<Q> nr(n + 1);
    for (int j = 0; j <= n; j++) if (j != c) nr[j] = neg(T[r][j] / p);
    nr[c] = Q(1) / p;
    for (int i = 0; i <= m; i++) {
      if (i == r || T[i][c].zero()) continue;
      Q f = T[i][c];
      for (int j = 0; j <= n; j++) { if (j == c) T[i][j] = f * nr[j]; else if (!nr[j].zero()) T[i][j] = T[i][j] + f * nr[j]; }
    }
    T[r] = nr;
    std::swap(rowFree[r], colFree[c]);
  };
  for (int c = 0; c < n; c++) {
    int best = -1;
    for (int i = 0; i < m; i++) if (!rowFree[i] && !T[i][c].zero()) { if (best < 0 || (std::abs(T[i][c].n) == 1 && T[i][c].d == 1)) { best = i; if (std::abs(T[i][c].n) == 1) break; } }
    if (best >= 0) pivot(best, c);
  }
  // remaining free columns do not occur in restricted rows
  std::vector<int> id(n), rid(m); // Bland identifiers
  for (int j = 0; j < n; j++) id[j] = j;
  for (int i = 0; i < m; i++) rid[i] = n + i;
  auto piv = [&](int r, int c) { pivot(r, c); std::swap(id[c], rid[r]); };
  // phase 1: repair negative constants, Bland's rule on the dual-free scheme
  for (int it = 0;; it++) {
    if (it > 400) throw Ovf();
    int r = -1;
    for (int i = 0; i < m; i++) if (!rowFree[i] && T[i][n].n < 0 && (r < 0 || rid[i] < rid[r])) r = i;
    if (r < 0) break;
    int c = -1;
    for (int j = 0; j < n; j++) if (!colFree[j] && T[r][j].n > 0 && (c < 0 || id[j] < id[c])) c = j;
    if (c < 0) return LP_Inf;
    piv(r, c);
  }
  for (int j = 0; j < n; j++) if (colFree[j] && !T[m][j].zero()) return LP_Unb;
  for (int it = 0;; it++) {
    if (it > 400) throw Ovf();
    int c = -1;
    for (int j = 0; j < n; j++) if (!colFree[j] && T[m][j].n < 0 && (c < 0 || id[j] < id[c])) c = j;
    if (c < 0) { val = T[m][n]; return LP_Opt; }
    int r = -1; Q br;
    for (int i = 0; i < m; i++) {
      if (rowFree[i] || T[i][c].n >= 0) continue;
      Q q = neg(T[i][n] / T[i][c]);
      if (r < 0 || lt(q, br) || (!lt(br, q) && rid[i] < rid[r])) { r = i; br = q; }
    }
    if (r < 0) return LP_Unb;
    piv(r, c);
  }
}
std::vector<Lin> component(const std::vector<Lin> &rows, const Lin &e) {
  std::set<int> vs; for (auto &x : e.t) vs.insert(x.first);
  std::vector<char> in(rows.size(), 0);
  std::vector<Lin> r;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < rows.size(); i++) {
      if (in[i]) continue;
      bool hit = false; for (auto &x : rows[i].t) if (vs.count(x.first)) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1; ch = true; r.push_back(rows[i]);
      for (auto &x : rows[i].t) vs.insert(x.first);
    }
  }
  return r;
}
} // namespace

Lin operator+(const Lin &a, const Lin &b) { if (a.bad || b.bad) return Lin::none(); try { return comb(a, 1, b, 1); } catch (Ovf) { return Lin::none(); } }
Lin operator-(const Lin &a, const Lin &b) { if (a.bad || b.bad) return Lin::none(); try { return comb(a, 1, b, -1); } catch (Ovf) { return Lin::none(); } }
Lin operator*(const Lin &a, int64_t c) { if (a.bad) return a; try { return comb(a, c, Lin(), 0); } catch (Ovf) { return Lin::none(); } }
// row: pivot row  p*v + rest == 0 ; returns |p|*e with v eliminated
static Lin elim(const Lin &e, int v, const Lin &row) {
  int64_t c = e.coef(v);
  if (!c) return e;
  int64_t p = row.coef(v);
  int64_t ap = p < 0 ? -p : p, sg = p < 0 ? -1 : 1;
  int64_t g = gcdll(ap, c);
  return comb(e, ap / g, row, -sg * (c / g));
}
Lin Poly::reduce(const Lin &e, int64_t *scale) const {
  Lin r = e; int64_t s = 1;
  for (auto &x : e.t) {
    auto it = eq.find(x.first);
    if (it == eq.end()) continue;
    int64_t c = r.coef(x.first), p = it->second.coef(x.first);
    if (!c) continue;
    int64_t ap = p < 0 ? -p : p;
    s = mulx(s, ap / gcdll(ap, c));
    r = elim(r, x.first, it->second);
  }
  if (scale) *scale = s;
  return r;
}
void Poly::addEq(Lin e) {
  if (bottom || e.bad) return;
  try {
    e = reduce(e);
    norm(e, true);
    if (e.t.empty()) { if (e.k) bottom = true; return; }
    { int64_t g = 0; for (auto &x : e.t) g = gcdll(g, x.second); if (g > 1 && e.k % g) { bottom = true; return; } }
    // pivot: prefer unit coefficients, newest symbol
    int pv = -1;
    for (auto &x : e.t) if (std::abs(x.second) == 1) pv = x.first;
    if (pv < 0) pv = e.t.back().first;
    for (auto &q : eq) if (q.second.coef(pv)) { q.second = elim(q.second, pv, e); norm(q.second, true); }
    std::vector<Lin> old; old.swap(ge);
    eq[pv] = e;
    for (auto &g : old) addGe(g);
  } catch (Ovf) {}
}
void Poly::addGe(Lin e) {
  if (bottom || e.bad) return;
  try { e = reduce(e); } catch (Ovf) { return; }
  norm(e, false);
  if (e.t.empty()) { if (e.k < 0) bottom = true; return; }
  for (auto &g : ge) {
    if (g.t == e.t) { if (e.k < g.k) g.k = e.k; 
      return; }
  }
  // the opposite row: equality or contradiction
  for (size_t i = 0; i < ge.size(); i++) {
    auto &g = ge[i];
    if (g.t.size() != e.t.size()) continue;
    bool opp = true;
    for (size_t j = 0; j < g.t.size() && opp; j++) opp = g.t[j].first == e.t[j].first && g.t[j].second == -e.t[j].second;
    if (!opp) continue;
    int64_t s; if (__builtin_add_overflow(g.k, e.k, &s)) return;
    if (s < 0) { bottom = true; return; }
    if (s == 0) { ge.erase(ge.begin() + i); addEq(e); return; }
  }
  ge.push_back(e);
}
bool Poly::boundMin(const Lin &e0, int64_t &lo) const {
  if (e0.bad) return false;
  try {
    int64_t s; Lin e = reduce(e0, &s);
    if (e.t.empty()) { lo = e.k >= 0 ? (e.k + s - 1) / s : -((-e.k) / s); return true; }
    for (auto &x : e.t) { bool f = false; for (auto &g : ge) if (g.coef(x.first)) { f = true; break; } if (!f) return false; }
    Q v;
    LPRes r = lp(component(ge, e), e, v);
    if (r == LP_Unb) return false;
    if (r == LP_Inf) { lo = 0; return true; }
    // e >= v ; e0 = e/s
    Q w = v / Q(s);
    lo = -fdiv(-w.n, w.d);
    return true;
  } catch (Ovf) { return false; }
}
bool Poly::entailsGe(const Lin &e0) const {
  if (bottom) return true;
  if (e0.bad) return false;
  try {
    Lin e = reduce(e0);
    if (e.t.empty()) return e.k >= 0;
    norm(e, false);
    for (auto &g : ge) if (g.t == e.t) { if (g.k <= e.k) return true; }
    for (auto &x : e.t) { bool f = false; for (auto &g : ge) { int64_t c = g.coef(x.first); if (c && (c > 0) == (x.second > 0)) { f = true; break; } } if (!f) { break; } }
    // infeasibility of the negation is slightly stronger on integers
    std::vector<Lin> rows = component(ge, e);
    Q v;
    LPRes r = lp(rows, e, v);
    if (r == LP_Inf) return true;
    if (r == LP_Opt && v.n > -v.d) return true; // e integral: e > -1
    return false;
  } catch (Ovf) { return false; }
}
bool Poly::entailsEq(const Lin &e) const {
  if (bottom) return true;
  if (e.bad) return false;
  try { Lin r = reduce(e); if (r.t.empty()) return r.k == 0; } catch (Ovf) { return false; }
  return entailsGe(e) && entailsGe(e * -1);
}
bool Poly::empty() const {
  if (bottom) return true;
  // each variable component
  try {
    std::vector<Lin> rest = ge;
    while (!rest.empty()) {
      std::vector<Lin> comp = component(rest, rest[0]);
      Q v; Lin z;
      z = Lin(0);
      if (lp(comp, z, v) == LP_Inf) return true;
      std::vector<Lin> r2;
      for (auto &g : rest) { bool in = false; for (auto &c : comp) if (c == g) { in = true; break; } if (!in) r2.push_back(g); }
      rest.swap(r2);
    }
  } catch (Ovf) {}
  return false;
}
bool Poly::feasibleWith(const Lin &e) const { if (bottom) return false; Poly p = *this; p.addGe(e); return !p.empty(); }
std::vector<Lin> Poly::all() const {
  std::vector<Lin> r = ge;
  for (auto &q : eq) { r.push_back(q.second); r.push_back(q.second * -1); }
  return r;
}
std::set<int> Poly::vars() const {
  std::set<int> s;
  for (auto &q : eq) for (auto &x : q.second.t) s.insert(x.first);
  for (auto &g : ge) for (auto &x : g.t) s.insert(x.first);
  return s;
}
void Poly::simplify() {
  if (bottom || ge.size() < 2) return;
  // the longer rows are given up first: short facts survive later projections
  std::stable_sort(ge.begin(), ge.end(), [](const Lin &a, const Lin &b) { return a.t.size() > b.t.size(); });
  for (size_t i = 0; i < ge.size();) {
    Poly p; p.ge = ge; p.ge.erase(p.ge.begin() + i);
    bool red = false;
    try {
      Q v; LPRes r = lp(component(p.ge, ge[i]), ge[i], v);
      red = r == LP_Opt && v.n > -v.d;
      if (r == LP_Inf) { bottom = true; return; }
    } catch (Ovf) {}
    if (red) ge.erase(ge.begin() + i); else i++;
  }
  std::reverse(ge.begin(), ge.end());
}
void Poly::forget(int v) {
  if (bottom) return;
  auto it = eq.find(v);
  if (it != eq.end()) { eq.erase(it); return; }
  // non-pivot: re-pivot an equality on v when there is one (unit coefficient preferred)
  int best = -1; int64_t bc = 0;
  for (auto &q : eq) { int64_t c = q.second.coef(v); if (c && (best < 0 || std::abs(c) < std::abs(bc))) { best = q.first; bc = c; } }
  if (best >= 0) {
    Lin row = eq[best];
    eq.erase(best);
    try {
      for (auto &q : eq) if (q.second.coef(v)) { q.second = elim(q.second, v, row); norm(q.second, true); }
      std::vector<Lin> old; old.swap(ge);
      for (auto &g : old) { Lin x = g.coef(v) ? elim(g, v, row) : g; addGe(x); if (bottom) return; }
    } catch (Ovf) { // drop everything that mentions v
      for (auto i = eq.begin(); i != eq.end();) { if (i->second.coef(v)) i = eq.erase(i); else ++i; }
      std::vector<Lin> o2; for (auto &g : ge) if (!g.coef(v)) o2.push_back(g); ge = o2;
    }
    return;
  }
  std::vector<Lin> pos, ngs, rest;
  for (auto &g : ge) { int64_t c = g.coef(v); if (c > 0) pos.push_back(g); else if (c < 0) ngs.push_back(g); else rest.push_back(g); }
  if (pos.empty() && ngs.empty()) return;
  ge = rest;
  if (pos.size() * ngs.size() > 80) return;
  bool grew = pos.size() * ngs.size() > pos.size() + ngs.size();
  for (auto &p : pos) for (auto &n : ngs) {
    try { int64_t a = p.coef(v), b = -n.coef(v), g = gcdll(a, b); Lin x = comb(p, b / g, n, a / g); addGe(x); if (bottom) return; } catch (Ovf) {}
  }
  if (grew && ge.size() > 12) simplify();
}
void Poly::keep(const std::function<bool(int)> &want) {
  if (bottom) return;
  while (true) {
    std::set<int> vs = vars();
    int pick = -1; long cost = -1;
    for (int v : vs) {
      if (want(v)) continue;
      long c = 0;
      if (eq.count(v)) c = 0;
      else { bool inEq = false; for (auto &q : eq) if (q.second.coef(v)) inEq = true; if (inEq) c = 1; else { long p = 0, n = 0; for (auto &g : ge) { int64_t k = g.coef(v); if (k > 0) p++; else if (k < 0) n++; } c = 2 + p * n; } }
      if (pick < 0 || c < cost) { pick = v; cost = c; }
    }
    if (pick < 0) return;
    forget(pick);
    if (bottom) return;
  }
}
// equalities valid in both: intersection of the row spaces (Zassenhaus)
static std::vector<Lin> commonEq(const Poly &a, const Poly &b) {
  std::vector<Lin> out;
  if (a.eq.empty() || b.eq.empty()) return out;
  std::map<int, int> ix;
  for (auto *p : {&a, &b}) for (auto &q : p->eq) for (auto &x : q.second.t) ix.emplace(x.first, 0);
  int n = 0; std::vector<int> names; for (auto &e : ix) { e.second = n++; names.push_back(e.first); }
  int W = n + 1;
  std::vector<std::vector<int64_t>> M;
  for (auto &q : a.eq) { std::vector<int64_t> r(2 * W, 0); for (auto &x : q.second.t) r[ix[x.first]] = r[W + ix[x.first]] = x.second; r[n] = r[W + n] = q.second.k; M.push_back(r); }
  for (auto &q : b.eq) { std::vector<int64_t> r(2 * W, 0); for (auto &x : q.second.t) r[ix[x.first]] = x.second; r[n] = q.second.k; M.push_back(r); }
  size_t row = 0;
  try {
    for (int c = 0; c < W && row < M.size(); c++) {
      size_t p = row; int64_t best = 0;
      size_t bi = M.size();
      for (p = row; p < M.size(); p++) if (M[p][c] && (bi == M.size() || std::abs(M[p][c]) < best)) { bi = p; best = std::abs(M[p][c]); }
      if (bi == M.size()) continue;
      std::swap(M[row], M[bi]);
      for (size_t i = 0; i < M.size(); i++) {
        if (i == row || !M[i][c]) continue;
        int64_t g = gcdll(M[row][c], M[i][c]), f1 = M[row][c] / g, f2 = M[i][c] / g;
        int64_t gg = 0;
        for (int j = 0; j < 2 * W; j++) { M[i][j] = addx(mulx(M[i][j], f1), -mulx(M[row][j], f2)); gg = gcdll(gg, M[i][j]); }
        if (gg > 1) for (auto &x : M[i]) x /= gg;
      }
      row++;
    }
  } catch (Ovf) { return out; }
  for (size_t i = row; i < M.size(); i++) {
    Lin l;
    for (int j = 0; j < n; j++) if (M[i][W + j]) l.t.push_back({names[j], M[i][W + j]});
    l.k = M[i][W + n];
    if (!l.t.empty()) { std::sort(l.t.begin(), l.t.end()); norm(l, true); out.push_back(l); }
  }
  return out;
}
// other forms of x's half spaces: each equality that r does not keep may rewrite them
static void rewritten(const Poly &x, const Poly &r, const std::function<void(const Lin &)> &f) {
  std::vector<Lin> lost;
  for (auto &q : x.eq) { Lin red; try { red = r.reduce(q.second); } catch (Ovf) { continue; } if (!red.t.empty()) lost.push_back(red); }
  if (lost.empty() || lost.size() > 8) return;
  auto base = x.ge;
  for (auto &q : lost) { base.push_back(q); base.push_back(q * -1); }
  std::set<Lin> seen;
  for (auto &g0 : base) {
    Lin g; try { g = r.reduce(g0); } catch (Ovf) { continue; }
    for (auto &e : lost) for (auto &v : g.t) {
      if (!e.coef(v.first) || e.t == g.t) continue;
      Lin c; try { c = elim(g, v.first, e); } catch (Ovf) { continue; }
      norm(c, false);
      if (!c.t.empty() && seen.insert(c).second) f(c);
    }
    for (auto &e : lost) {
      bool shared = false; for (auto &v : g.t) if (e.coef(v.first)) shared = true;
      if (shared) continue;
      for (int sg : {1, -1}) { Lin c; try { c = comb(g, 1, e, sg); } catch (Ovf) { continue; } norm(c, false); if (seen.insert(c).second) f(c); }
    }
  }
}
// half spaces that meet their opposite are equalities
static Poly tightened(const Poly &p) {
  Poly r = p;
  for (bool again = true; again;) {
    again = false;
    auto g = r.ge;
    for (auto &c : g) if (!c.t.empty() && r.entailsGe(c * -1)) { r.addEq(c); again = true; break; }
  }
  return r;
}
Poly Poly::join(const Poly &a0, const Poly &b0, bool shift) {
  if (a0.bottom) return b0;
  if (b0.bottom) return a0;
  Poly a = tightened(a0), b = tightened(b0), r;
  for (auto &e : commonEq(a, b)) r.addEq(e);
  auto half = [&](const Poly &x, const Poly &y) {
    for (auto &c : x.all()) {
      Lin red; try { red = r.reduce(c); } catch (Ovf) { continue; }
      if (red.t.empty()) continue;
      if (y.entailsGe(c)) r.addGe(c);
      else if (shift) { int64_t lo; if (y.boundMin(c, lo)) { Lin s = c; s.k -= lo; if (lo < 0) r.addGe(s); } }
    }
    rewritten(x, r, [&](const Lin &c) { if (!r.entailsGe(c) && y.entailsGe(c)) r.addGe(c); });
  };
  half(a, b); half(b, a);
  r.simplify();
  return r;
}
Poly Poly::widen(const Poly &a, const Poly &b, const std::set<int64_t> *) {
  if (a.bottom) return b;
  if (b.bottom) return a;
  Poly r;
  for (auto &e : commonEq(a, b)) r.addEq(e);
  for (auto &c : a.all()) if (b.entailsGe(c)) r.addGe(c);
  rewritten(a, r, [&](const Lin &c) { if (b.entailsGe(c)) r.addGe(c); });
  r.simplify();
  return r;
}
bool Poly::leq(const Poly &o) const {
  if (bottom) return true;
  if (o.bottom) return false;
  for (auto &q : o.eq) if (!entailsEq(q.second)) return false;
  for (auto &g : o.ge) if (!entailsGe(g)) return false;
  return true;
}
Poly renamed(const Poly &p, const std::map<int, int> &m) {
  auto r = [&](const Lin &l) { Lin x = l; for (auto &t : x.t) { auto i = m.find(t.first); if (i != m.end()) t.first = i->second; } std::sort(x.t.begin(), x.t.end()); return x; };
  Poly o; o.bottom = p.bottom;
  for (auto &q : p.eq) { auto i = m.find(q.first); o.eq[i == m.end() ? q.first : i->second] = r(q.second); }
  for (auto &g : p.ge) o.ge.push_back(r(g));
  return o;
}
