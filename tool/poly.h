#pragma once
// Convex polyhedra in constraint form over integer valued symbols: affine equalities
// (kept solved) and inequalities, with projection (substitution / Fourier-Motzkin), a
// constraint-based join (affine hull plus mutually valid half spaces), and entailment
// by linear programming inside the domain. Coefficients are exact; an overflow makes the
// operation give up information, never invent it.
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
struct Lin {
  std::vector<std::pair<int, int64_t>> t; // sorted by variable, no zero coefficients
  int64_t k = 0;
  bool bad = false;                       // not a linear expression of known symbols
  Lin() {}
  Lin(int64_t c) : k(c) {}
  static Lin var(int v) { Lin l; l.t.push_back({v, 1}); return l; }
  static Lin none() { Lin l; l.bad = true; return l; }
  bool isConst() const { return !bad && t.empty(); }
  int64_t coef(int v) const { for (auto &x : t) if (x.first == v) return x.second; return 0; }
  bool operator==(const Lin &o) const { return t == o.t && k == o.k && bad == o.bad; }
  bool operator<(const Lin &o) const { if (t != o.t) return t < o.t; if (k != o.k) return k < o.k; return bad < o.bad; }
};
Lin operator+(const Lin &a, const Lin &b);
Lin operator-(const Lin &a, const Lin &b);
Lin operator*(const Lin &a, int64_t c);
Lin subst(const Lin &e, int v, const Lin &num, int64_t den); // den*e[v := num/den], den > 0

struct Poly {
  bool bottom = false;
  std::map<int, Lin> eq;       // pivot -> row, meaning row == 0 (row includes the pivot)
  std::vector<Lin> ge;         // row >= 0, over non-pivot symbols
  void addEq(Lin e);
  void addGe(Lin e);
  Lin reduce(const Lin &e, int64_t *scale = nullptr) const; // over non-pivots; equals scale*e
  bool entailsGe(const Lin &e) const; // e >= 0
  bool entailsEq(const Lin &e) const;
  bool feasibleWith(const Lin &e) const; // some point with e >= 0
  bool boundMin(const Lin &e, int64_t &lo) const; // lo <= e, the best integer known
  bool empty() const;
  void keep(const std::function<bool(int)> &want);
  void forget(int v);
  void simplify();
  std::vector<Lin> all() const; // every constraint as row >= 0
  std::set<int> vars() const;
  static Poly join(const Poly &a, const Poly &b, bool shift = true);
  static Poly widen(const Poly &a, const Poly &b, const std::set<int64_t> *th = nullptr);
  bool leq(const Poly &o) const; // this is included in o
};
extern uint64_t polyLPs;
Poly renamed(const Poly &p, const std::map<int, int> &m);
