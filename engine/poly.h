// Relational numeric domain: conjunctions of linear equalities (kept in solved
// form) and linear inequalities over integer-valued dimensions.  Entailment and
// bounds are decided by an exact (integer-tableau) simplex on the dual problem:
// every bound returned is certified by non-negative multipliers, and arithmetic
// overflow makes a query answer "unknown", never a wrong bound.
#pragma once
#include <vector>
#include <map>
#include <set>
#include <string>
#include <cstdint>
#include <algorithm>
#include <functional>
#include <cassert>
#include <optional>
#include <unordered_map>
typedef int64_t i64;
typedef __int128 i128;
static const i64 INF = (i64)1 << 62;

struct Ovf {};
static inline i64 nar(i128 x) { if (x > (i128)INF || x < -(i128)INF) throw Ovf(); return (i64)x; }
static inline i64 gcd64(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
static inline i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
static inline i64 cdiv(i64 a, i64 b) { return -fdiv(-a, b); }

struct Lin {
  std::vector<std::pair<int, i64>> t; // sorted by dim, non-zero coefficients
  i64 c = 0;
  Lin() {}
  Lin(i64 k) : c(k) {}
  static Lin var(int d, i64 k = 1) { Lin l; if (k) l.t.push_back({d, k}); return l; }
  bool isConst() const { return t.empty(); }
  i64 coef(int d) const {
    for (auto &p : t) { if (p.first == d) return p.second; if (p.first > d) break; }
    return 0;
  }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator<(const Lin &o) const { return t < o.t || (t == o.t && c < o.c); }
};
// a*x + b*y
static inline Lin comb(const Lin &x, i64 a, const Lin &y, i64 b) {
  Lin r; r.c = nar((i128)x.c * a + (i128)y.c * b);
  size_t i = 0, j = 0;
  r.t.reserve(x.t.size() + y.t.size());
  while (i < x.t.size() || j < y.t.size()) {
    if (j == y.t.size() || (i < x.t.size() && x.t[i].first < y.t[j].first)) {
      i64 k = nar((i128)x.t[i].second * a); if (k) r.t.push_back({x.t[i].first, k}); i++;
    } else if (i == x.t.size() || y.t[j].first < x.t[i].first) {
      i64 k = nar((i128)y.t[j].second * b); if (k) r.t.push_back({y.t[j].first, k}); j++;
    } else {
      i64 k = nar((i128)x.t[i].second * a + (i128)y.t[j].second * b);
      if (k) r.t.push_back({x.t[i].first, k}); i++; j++;
    }
  }
  return r;
}
static inline Lin operator+(const Lin &a, const Lin &b) { return comb(a, 1, b, 1); }
static inline Lin operator-(const Lin &a, const Lin &b) { return comb(a, 1, b, -1); }
static inline Lin operator*(const Lin &a, i64 k) { return comb(a, k, Lin(), 0); }

struct LPStats { long solves = 0, pivots = 0, ovf = 0; };
extern LPStats lpstats;

// minimise f over { g >= 0 : g in G } (G assumed feasible).  Result: status 0 =
// bounded (num/den is the minimum of the variable part + f.c), 1 = unbounded below
// or unknown, 2 = G infeasible.
struct LPRes { int st; i128 num; i128 den; };
LPRes lpMin(const Lin &f, const std::vector<const Lin *> &G);

struct Poly {
  bool bot = false;
  std::vector<std::pair<int, Lin>> eqs;  // (pivot, e) : e == 0, pivot only here
  std::vector<Lin> ineqs;                // e >= 0

  int eqIndex(int d) const { for (size_t i = 0; i < eqs.size(); i++) if (eqs[i].first == d) return (int)i; return -1; }
  // substitute solved dims; result times positive factor `mul`
  bool reduce(Lin &f, i64 *mul = nullptr) const;
  void addEq(Lin e);
  bool addIneq(Lin e, bool check = true);      // e >= 0
  // lower bound of e ; false if unbounded/unknown
  bool minOf(const Lin &e, i64 &lo, bool rational = false) const;      // integer lower bound (ceil)
  bool maxOf(const Lin &e, i64 &hi) const { Lin m; try { m = e * -1; } catch (Ovf &) { return false; } i64 l; if (!minOf(m, l)) return false; hi = -l; return true; }
  bool lit(const Lin &e) const { for (auto &x : ineqs) if (x.c <= e.c && x.t == e.t) return true; return false; } // one of the constraints as written
  bool entGe(const Lin &e) const { if (bot) return true; if (lit(e)) return true; i64 l; return minOf(e, l) && l >= 0; }
  bool entEq(const Lin &e) const;
  bool isConst(const Lin &e, i64 &v) const;     // by equalities only
  void forget(int d);
  void forget(const std::vector<int> &ds) { for (int d : ds) forget(d); }
  // keep only dims satisfying pred
  void keep(const std::function<bool(int)> &pred);
  void assign(int d, const Lin &e);             // d := e (e may contain d)
  void rename(int from, int to);                // to must be absent
  void dims(std::set<int> &out) const;
  bool has(int d) const;
  void prune();
  std::string str(const std::function<std::string(int)> &nm) const;
  bool leq(const Poly &o) const;                // this entails o
  static std::vector<Lin> cands;
  static bool hard; // plain widening: only what both sides already state
  static Poly join(const Poly &a, const Poly &b, bool widen, const std::vector<i64> *thr = nullptr, bool tmpl = false, const std::vector<Lin> *hints = nullptr);
private:
  void component(const Lin &f, std::vector<const Lin *> &G) const;
  bool normEq(Lin &e);
  bool normIneq(Lin &e);
};
