// Formulas: functions of symbols by cases. A value is a decision diagram over comparisons, with
// polynomials over symbols at its leaves; equal diagrams are equal values (as real arithmetic).
#pragma once
#include "common.h"
#include <stdexcept>

struct FormFail { Str why; const Instruction *at = nullptr; bool hard = false; }; // hard: the code does something it should not, not only something that is not understood
struct Forms {
  typedef int Id;
  typedef std::map<std::vector<int>, double> Poly; // products of symbols -> factor
  struct Base { Str key; bool isInt = false, nonneg = false; int in = -1; int age = -1; int minOf = -1; }; // in: input symbol name index, age/minOf: polynomial
  std::vector<Base> bases; std::map<Str, int> baseIx;
  std::vector<Poly> polys; std::map<Poly, int> polyIx;
  struct Node { int var; Id hi, lo; int poly; };
  std::vector<Node> nodes; std::map<std::array<int, 3>, Id> nodeIx; std::map<int, Id> termIx;
  enum AtomK { LT, GT, ILT, IEQ };
  struct Atom { AtomK k; int d; };
  std::vector<Atom> atoms; std::map<std::pair<int, int>, int> atomIx;
  std::vector<Poly> facts; // known not to be negative
  std::set<int> lower;     // symbols with a definition to be used for comparisons
  std::map<int, Poly> defs;
  enum { TERM = 1 << 30 };
  std::map<std::array<int, 3>, Id> memo; std::map<std::array<int, 3>, Id> iteMemo;
  Forms();
  int base(const Str &key, bool isInt, bool nonneg = false);
  static Poly konst(double k) { Poly p; if (k) p[{}] = k; return p; }
  Poly sym(int b) const { Poly p; p[{b}] = 1; return p; }
  static Poly add(const Poly &a, const Poly &b, double m = 1);
  static Poly mul(const Poly &a, const Poly &b);
  int pid(const Poly &p);
  Id term(const Poly &p);
  Id num(double k) { return term(konst(k)); }
  bool isTerm(Id n) const { return nodes[n].var == TERM; }
  const Poly &polyOf(Id n) const { return polys[nodes[n].poly]; }
  bool isConst(Id n, double &k) const { if (!isTerm(n)) return false; auto &p = polyOf(n); if (p.empty()) { k = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { k = p.begin()->second; return true; } return false; }
  Id mk(int var, Id hi, Id lo);
  Id others(int var, Id n);
  Id collapse(Id n, int depth = 0);
  Id ite(Id c, Id a, Id b);
  enum Op { ADD, SUB, MUL, DIV, CLT, CEQ, FLT, FGT, REM, MIN0, CALL };
  Id apply(int op, Id a, Id b);
  Id leaf(int op, const Poly &a, const Poly &b);
  Id neg(Id a) { return ite(a, num(0), num(1)); }
  Id andI(Id a, Id b) { return ite(a, b, num(0)); }
  Id orI(Id a, Id b) { return ite(a, num(1), b); }
  bool allInt(const Poly &p) const;
  bool atLeast0(const Poly &p, int depth = 0);
  Id atomInt(Poly d);                     // d < 0
  Id atomIntEq(Poly d);                   // d == 0
  Id atomReal(Poly d, bool gt);           // d < 0, d > 0
  Poly min0(const Poly &d);
  Id subst(Id n, const std::map<int, Id> &m);
  Id substPoly(const Poly &p, const std::map<int, Id> &m);
  std::map<int, Id> substMemo;
  Str show(const Poly &p) const;
  Str showAtom(int var) const;
  bool same(Id a, Id b, const std::vector<Poly> &given, Str &why);
  Str differ(Id a, Id b);                 // a case in which the two differ
  void support(Id n, std::set<int> &atomsOut, std::set<int> &polysOut);
  void polysIn(const Poly &p, std::set<int> &bs) const { for (auto &t : p) for (int b : t.first) bs.insert(b); }
  void clearMemo() { memo.clear(); iteMemo.clear(); }
  void limit() { if (nodes.size() > 3000000) throw FormFail{"too many cases"}; }
};
