#include "poly.h"
LPStats lpstats;

#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::signed_magnitude, boost::multiprecision::checked, void>, boost::multiprecision::et_off> Wide;
template <class W, class V> static W narT(const V &v);
template <> i64 narT<i64, i128>(const i128 &v) { return nar(v); }
template <> Wide narT<Wide, Wide>(const Wide &v) { return v; }
static LPRes lpOut(i128 num, i128 den) { return {0, num, den}; }
static LPRes lpOut(Wide num, Wide den) {
  Wide g = boost::multiprecision::gcd(num, den); if (g != 0) { num /= g; den /= g; }
  static const Wide lim = Wide(1) << 120; if (num > lim || num < -lim || den > (Wide(1) << 60)) return {3, 0, 1};
  return {0, num.convert_to<i128>(), den.convert_to<i128>()};
}
// Dual simplex problem: maximise -sum y_i b_i  s.t.  sum_i y_i a_i = f, y >= 0.
// Integer-preserving tableau (common denominator D).
template <class W, class WW> static LPRes lpMinT(const Lin &f, const std::vector<const Lin *> &G) {
  lpstats.solves++;
  std::vector<int> dims;
  for (auto &p : f.t) dims.push_back(p.first);
  for (auto g : G) for (auto &p : g->t) dims.push_back(p.first);
  std::sort(dims.begin(), dims.end());
  dims.erase(std::unique(dims.begin(), dims.end()), dims.end());
  int n = dims.size(), m = G.size();
  if (n == 0) return {0, f.c, 1};
  auto idx = [&](int d) { return (int)(std::lower_bound(dims.begin(), dims.end(), d) - dims.begin()); };
  // columns 0..m-1 = y ; m..m+n-1 artificial ; last = rhs
  int C = m + 1;
  // artificials never re-enter: keep them implicit (basis index >= m)
  std::vector<std::vector<W>> T(n + 2, std::vector<W>(C, W(0)));
  for (auto &p : f.t) T[idx(p.first)][m] = p.second;
  for (int i = 0; i < m; i++) for (auto &p : G[i]->t) T[idx(p.first)][i] = p.second;
  for (int r = 0; r < n; r++) if (T[r][m] < 0) for (int j = 0; j < C; j++) T[r][j] = -T[r][j];
  std::vector<int> basis(n);
  for (int r = 0; r < n; r++) basis[r] = m + r;
  // phase-1 cost row (n): minimise sum of artificials -> reduced cost = -sum rows
  // phase-2 cost row (n+1): minimise sum y_i b_i
  try {
    for (int j = 0; j < C; j++) { WW s = 0; for (int r = 0; r < n; r++) s += T[r][j]; T[n][j] = narT<W>(WW(-s)); }
    for (int i = 0; i < m; i++) T[n + 1][i] = G[i]->c;
    T[n + 1][m] = 0;
    W D = 1;
    auto pivot = [&](int pr, int pc) {
      lpstats.pivots++;
      W pv = T[pr][pc];
      for (int r = 0; r < n + 2; r++) {
        if (r == pr) continue;
        W k = T[r][pc];
        if (k == 0) {
          if (pv == D) continue;
          for (int j = 0; j < C; j++) if (T[r][j]) T[r][j] = narT<W>(WW(WW(T[r][j]) * pv / D));
          continue;
        }
        for (int j = 0; j < C; j++) {
          if (T[r][j] == 0 && T[pr][j] == 0) continue;
          WW v = WW(T[r][j]) * pv - WW(T[pr][j]) * k;
          if (D != 1) v /= D;
          T[r][j] = narT<W>(v);
        }
      }
      D = pv; basis[pr] = pc;
      if (D < 0) { // keep denominator positive
        D = -D;
        for (int r = 0; r < n + 2; r++) for (int j = 0; j < C; j++) T[r][j] = -T[r][j];
      }
    };
    auto run = [&](int costRow, bool phase1) -> int {
      int it = 0;
      for (;;) {
        if (++it > 400) return 3;
        bool bland = it > 60;
        int pc = -1; W best = 0;
        for (int j = 0; j < m; j++) {
          if (T[costRow][j] < 0) {
            if (bland) { pc = j; break; }
            if (T[costRow][j] < best) { best = T[costRow][j]; pc = j; }
          }
        }
        if (pc < 0) return 0;
        int pr = -1;
        for (int r = 0; r < n; r++) {
          if (basis[r] >= m && !phase1) {
            // artificial at zero level in basis: must stay zero; pivot it out if possible
            if (T[r][pc] != 0) { pr = r; break; }
            continue;
          }
          if (T[r][pc] > 0) {
            if (pr < 0) pr = r;
            else {
              WW l = WW(T[r][m]) * T[pr][pc], q = WW(T[pr][m]) * T[r][pc];
              if (l < q || (l == q && basis[r] < basis[pr])) pr = r;
            }
          }
        }
        if (pr < 0) return 1; // unbounded
        pivot(pr, pc);
      }
    };
    int s = run(n, true);
    if (s == 3) return {3, 0, 1};
    // sum of artificials
    WW inf = 0;
    for (int r = 0; r < n; r++) if (basis[r] >= m) inf += T[r][m];
    if (inf != 0) return {1, 0, 1}; // dual infeasible: primal unbounded below
    s = run(n + 1, false);
    if (s == 3) return {3, 0, 1};
    if (s == 1) return {2, 0, 1};
    // value: T[n+1][m] = -(sum y b)*D  ; min f = -sum y b
    WW num = WW(T[n + 1][m]) + WW(f.c) * D;
    return lpOut(num, WW(D));
  } catch (Ovf &) { return {3, 0, 1}; }
  catch (std::overflow_error &) { return {3, 0, 1}; }
}
LPRes lpMin(const Lin &f, const std::vector<const Lin *> &G) {
  LPRes r = lpMinT<i64, i128>(f, G);
  if (r.st == 3) { lpstats.ovf++; r = lpMinT<Wide, Wide>(f, G); }
  return r;
}

bool Poly::reduce(Lin &f, i64 *mul) const {
  i64 M = 1;
  bool any = true;
  // pivots do not occur in other equations, one pass suffices
  (void)any;
  std::vector<std::pair<int, i64>> todo;
  for (auto &p : f.t) {
    int k = eqIndex(p.first);
    if (k >= 0) todo.push_back({k, p.first});
  }
  for (auto &td : todo) {
    const Lin &e = eqs[td.first].second;
    i64 b = f.coef((int)td.second); if (!b) continue;
    i64 a = e.coef((int)td.second);
    i64 g = gcd64(a, b);
    i64 fa = a / g, fb = b / g; // f*fa - e*fb
    if (fa < 0) { fa = -fa; fb = -fb; }
    f = comb(f, fa, e, -fb);
    M = nar((i128)M * fa);
  }
  if (mul) *mul = M;
  return true;
}
bool Poly::normEq(Lin &e) {
  i64 g = 0; for (auto &p : e.t) g = gcd64(g, p.second);
  if (g == 0) { if (e.c != 0) bot = true; return false; }
  if (e.c % g) { bot = true; return false; }
  if (g > 1) { for (auto &p : e.t) p.second /= g; e.c /= g; }
  return true;
}
bool Poly::normIneq(Lin &e) {
  i64 g = 0; for (auto &p : e.t) g = gcd64(g, p.second);
  if (g == 0) { if (e.c < 0) bot = true; return false; }
  if (g > 1) { for (auto &p : e.t) p.second /= g; e.c = fdiv(e.c, g); }
  return true;
}
void Poly::addEq(Lin e) {
  if (bot) return;
  try {
    reduce(e);
    if (!normEq(e)) return;
    // feasibility w.r.t. inequalities
    { i64 lo, hi; if (minOf(e, lo) && lo > 0) { bot = true; return; }
      if (bot) return;
      if (maxOf(e, hi) && hi < 0) { bot = true; return; } }
    int pv = -1;
    for (auto &p : e.t) if (p.second == 1 || p.second == -1) pv = p.first; // highest dim with unit coef
    if (pv < 0) { i64 best = 0; for (auto &p : e.t) { i64 k = std::abs(p.second); if (pv < 0 || k < best) { pv = p.first; best = k; } } }
    i64 a = e.coef(pv);
    auto elim = [&](Lin &x) -> bool {
      i64 b = x.coef(pv); if (!b) return true;
      i64 g = gcd64(a, b), fa = a / g, fb = b / g;
      if (fa < 0) { fa = -fa; fb = -fb; }
      try { x = comb(x, fa, e, -fb); } catch (Ovf &) { return false; }
      return true;
    };
    for (size_t i = 0; i < eqs.size();) {
      if (!elim(eqs[i].second)) { eqs.erase(eqs.begin() + i); continue; }
      Lin t = eqs[i].second; if (!normEq(t)) { if (bot) return; eqs.erase(eqs.begin() + i); continue; }
      eqs[i].second = t; i++;
    }
    std::vector<Lin> ni; ni.reserve(ineqs.size());
    for (auto &x : ineqs) {
      if (!x.coef(pv)) { ni.push_back(std::move(x)); continue; }
      if (!elim(x)) continue;
      if (!normIneq(x)) { if (bot) return; continue; }
      ni.push_back(x);
    }
    ineqs.swap(ni);
    eqs.push_back({pv, e});
    // dedupe same normals
    prune();
  } catch (Ovf &) {}
}
void Poly::prune() {
  if (ineqs.size() < 2) return;
  std::sort(ineqs.begin(), ineqs.end());
  std::vector<Lin> out; out.reserve(ineqs.size());
  for (auto &x : ineqs) { if (!out.empty() && out.back().t == x.t) continue; out.push_back(std::move(x)); } // sorted by c: smallest c is tightest
  ineqs.swap(out);
}
void Poly::component(const Lin &f, std::vector<const Lin *> &G) const {
  std::set<int> S; for (auto &p : f.t) S.insert(p.first);
  std::vector<char> used(ineqs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < ineqs.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto &p : ineqs[i].t) if (S.count(p.first)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; G.push_back(&ineqs[i]); for (auto &p : ineqs[i].t) S.insert(p.first); }
    }
  }
}
bool Poly::minOf(const Lin &e0, i64 &lo, bool rational) const {
  if (bot) { lo = INF; return true; }
  try {
    Lin e = e0; i64 M = 1; reduce(e, &M);
    if (e.t.empty()) { lo = cdiv(e.c, M); return true; }
    if (!rational && M == 1) { // the variable part is a multiple of its content
      i64 g = 0; for (auto &t : e.t) g = gcd64(g, t.second);
      if (g > 1) {
        i64 c = e.c; Lin f = e; f.c = 0; for (auto &t : f.t) t.second /= g;
        i64 l; if (!minOf(f, l)) return false;
        if (l >= INF) { lo = INF; return true; }
        lo = nar((i128)l * g + c); return true;
      }
    }
    // quick syntactic hit
    std::vector<const Lin *> G; component(e, G);
    if (G.empty()) return false;
    LPRes r = lpMin(e, G);
    if (r.st == 1) return false;
    if (r.st == 3) {
      // the arithmetic overflowed: propagate bounds of single dimensions, with at most one constraint used whole
      bool hit = false; i64 best = 0;
      std::map<int, i64> L, U;
      auto low = [&](const Lin &f, int skip, i128 &r) { // least value of f without the dimension skip
        i128 acc = f.c;
        for (auto &t : f.t) { if (t.first == skip) continue; auto &m = t.second > 0 ? L : U; auto it = m.find(t.first); if (it == m.end()) return false; acc += (i128)t.second * it->second; if (acc > ((i128)1 << 100) || acc < -((i128)1 << 100)) return false; }
        r = acc; return true; };
      auto high = [&](const Lin &f, int skip, i128 &r) { Lin g = f; for (auto &t : g.t) t.second = -t.second; g.c = -g.c; if (!low(g, skip, r)) return false; r = -r; return true; };
      for (int round = 0; round < 4; round++) {
        bool ch = false;
        for (auto *g : G) for (auto &t : g->t) { // t.second*d + rest >= 0
          i128 h; if (!high(*g, t.first, h)) continue; // t.second*d >= -rest >= -h
          i128 k = t.second, n = -h; if (k < 0) { k = -k; n = -n; } // k > 0: d >= n/k; k < 0: d <= (h)/|k|
          i128 q = n / k; if (t.second > 0) { if (n % k != 0 && n > 0) q++; } else { if (n % k != 0 && n < 0) q--; }
          if (q > INF || q < -INF) continue;
          if (t.second > 0) { auto it = L.find(t.first); if (it == L.end() || it->second < (i64)q) { L[t.first] = (i64)q; ch = true; } }
          else { auto it = U.find(t.first); if (it == U.end() || it->second > (i64)q) { U[t.first] = (i64)q; ch = true; } }
        }
        if (!ch) break;
      }
      auto cand = [&](i128 v) { if (v >= INF || v <= -INF) return; if (!hit || (i64)v > best) best = (i64)v; hit = true; };
      i128 v; if (low(e, -1, v)) cand(v);
      for (auto *g : G) {
        std::set<i64> ks;
        for (auto &t : g->t) { i64 c = e.coef(t.first); if (c && t.second && c % t.second == 0 && c / t.second > 0) ks.insert(c / t.second); }
        for (i64 k : ks) { try { Lin rem = e - *g * k; if (low(rem, -1, v)) cand(v); } catch (Ovf &) {} }
      }
      if (!hit) return false;
      lo = cdiv(best, M); return true;
    }
    if (r.st == 2) { lo = INF; return true; }
    i128 den = r.den * M, num = r.num;
    i128 q = num / den; if (num % den != 0) { if (rational) { if ((num > 0) != (den > 0)) q--; } else if ((num > 0) == (den > 0)) q++; }
    if (q > INF || q < -INF) return false;
    lo = (i64)q; return true;
  } catch (Ovf &) { return false; }
}
bool Poly::entEq(const Lin &e) const {
  if (bot) return true;
  try { Lin f = e; reduce(f); if (f.t.empty()) return f.c == 0; } catch (Ovf &) { return false; }
  i64 l, h; return minOf(e, l) && l >= 0 && maxOf(e, h) && h <= 0;
}
bool Poly::isConst(const Lin &e, i64 &v) const {
  try { Lin f = e; i64 M = 1; reduce(f, &M); if (!f.t.empty()) return false; v = f.c / M; return true; } catch (Ovf &) { return false; }
}
bool Poly::addIneq(Lin e, bool check) {
  if (bot) return false;
  try { reduce(e); } catch (Ovf &) { return true; }
  if (!normIneq(e)) return !bot;
  for (auto &x : ineqs) if (x.t == e.t) { if (x.c <= e.c) return true; }
  if (check) {
    i64 lo, hi;
    if (minOf(e, lo, true) && lo >= 0) return true; // redundant (over the rationals: rounding must not cost facts)
    if (maxOf(e, hi)) {
      if (hi < 0) { bot = true; return false; }
      if (hi == 0) { addEq(e); return !bot; }
    }
  }
  for (auto &x : ineqs) if (x.t == e.t) { x.c = std::min(x.c, e.c); return true; }
  // opposite normal with same constant -> equality
  ineqs.push_back(e);
  return true;
}
bool Poly::has(int d) const {
  for (auto &q : eqs) if (q.second.coef(d)) return true;
  for (auto &x : ineqs) if (x.coef(d)) return true;
  return false;
}
void Poly::dims(std::set<int> &out) const {
  for (auto &q : eqs) for (auto &p : q.second.t) out.insert(p.first);
  for (auto &x : ineqs) for (auto &p : x.t) out.insert(p.first);
}
void Poly::forget(int d) {
  if (bot) return;
  int k = eqIndex(d);
  if (k >= 0) { eqs.erase(eqs.begin() + k); return; }
  // occurs as non-pivot in some equality: use it to eliminate d everywhere
  int best = -1; i64 bc = 0;
  for (size_t i = 0; i < eqs.size(); i++) {
    i64 c = std::abs(eqs[i].second.coef(d));
    if (c && (best < 0 || c < bc)) { best = i; bc = c; }
  }
  if (best >= 0) {
    Lin e = eqs[best].second;
    eqs.erase(eqs.begin() + best);
    i64 a = e.coef(d);
    auto elim = [&](Lin &x) -> bool {
      i64 b = x.coef(d); if (!b) return true;
      i64 g = gcd64(a, b), fa = a / g, fb = b / g;
      if (fa < 0) { fa = -fa; fb = -fb; }
      try { x = comb(x, fa, e, -fb); } catch (Ovf &) { return false; }
      return true;
    };
    // the other equations (their pivots are untouched: e's old pivot may now appear as non-pivot)
    for (size_t i = 0; i < eqs.size();) {
      if (!elim(eqs[i].second)) { eqs.erase(eqs.begin() + i); continue; }
      Lin t = eqs[i].second; if (!normEq(t)) { if (bot) return; eqs.erase(eqs.begin() + i); continue; }
      eqs[i].second = t; i++;
    }
    std::vector<Lin> ni;
    for (auto &x : ineqs) {
      if (!x.coef(d)) { ni.push_back(std::move(x)); continue; }
      if (!elim(x)) continue;
      if (!normIneq(x)) { if (bot) return; continue; }
      ni.push_back(x);
    }
    ineqs.swap(ni); prune();
    return;
  }
  std::vector<Lin> pos, neg, rest;
  for (auto &x : ineqs) { i64 c = x.coef(d); if (c > 0) pos.push_back(x); else if (c < 0) neg.push_back(x); else rest.push_back(std::move(x)); }
  if (pos.empty() && neg.empty()) { ineqs.swap(rest); return; }
  bool big = pos.size() * neg.size() > 40;
  std::vector<Lin> add;
  for (auto &p : pos) for (auto &q : neg) {
    i64 a = p.coef(d), b = -q.coef(d), g = gcd64(a, b);
    try {
      Lin r = comb(p, b / g, q, a / g);
      if (!normIneq(r)) { if (bot) return; continue; }
      if (big && r.t.size() > 3) continue;
      add.push_back(r);
    } catch (Ovf &) {}
  }
  ineqs.swap(rest);
  size_t base = ineqs.size();
  for (auto &r : add) ineqs.push_back(r);
  prune();
  if (ineqs.size() > base && add.size() > 3) {
    // remove LP-redundant members
    for (size_t i = 0; i < ineqs.size();) {
      Lin r = ineqs[i];
      ineqs.erase(ineqs.begin() + i);
      i64 lo;
      if (minOf(r, lo, true) && lo >= 0) continue;
      ineqs.insert(ineqs.begin() + i, r); i++;
    }
  }
}
void Poly::keep(const std::function<bool(int)> &pred) {
  if (bot) return;
  std::set<int> ds; dims(ds);
  std::vector<int> out;
  for (int d : ds) if (!pred(d)) out.push_back(d);
  // pivots first (free), then those in equalities, then fewest FM products
  std::vector<int> rest;
  for (int d : out) { if (eqIndex(d) >= 0) forget(d); else rest.push_back(d); }
  while (!rest.empty() && !bot) {
    int bi = -1; long bc = 0;
    for (size_t i = 0; i < rest.size(); i++) {
      int d = rest[i]; long c;
      bool ineq = false; for (auto &q : eqs) if (q.second.coef(d)) { ineq = true; break; }
      if (ineq) c = -1;
      else { long p = 0, n = 0; for (auto &x : ineqs) { i64 k = x.coef(d); if (k > 0) p++; else if (k < 0) n++; } c = p * n; }
      if (bi < 0 || c < bc) { bi = i; bc = c; }
    }
    int d = rest[bi]; rest.erase(rest.begin() + bi);
    // eliminating through an equality can turn its pivot free: handled by forget
    forget(d);
  }
}
void Poly::assign(int d, const Lin &e) {
  if (bot) return;
  i64 k = e.coef(d);
  if (k == 0) { forget(d); try { addEq(Lin::var(d) - e); } catch (Ovf &) {} return; }
  // via a temporary
  int tmp = 2000000000;
  try {
    addEq(Lin::var(tmp) - e); forget(d); rename(tmp, d);
  } catch (Ovf &) { forget(d); }
}
void Poly::rename(int from, int to) {
  auto ren = [&](Lin &x) {
    bool f = false; for (auto &p : x.t) if (p.first == from) { p.first = to; f = true; }
    if (f) std::sort(x.t.begin(), x.t.end());
  };
  for (auto &q : eqs) { if (q.first == from) q.first = to; ren(q.second); }
  for (auto &x : ineqs) ren(x);
}
bool Poly::leq(const Poly &o) const {
  if (bot) return true;
  if (o.bot) return false;
  for (auto &q : o.eqs) if (!entEq(q.second)) return false;
  for (auto &x : o.ineqs) if (!entGe(x)) return false;
  return true;
}
static bool parIneq(const Poly &P, const Lin &f, i64 &m) { return P.minOf(f, m); }

bool Poly::hard = false; std::vector<Lin> Poly::cands;
Poly Poly::join(const Poly &a, const Poly &b, bool widen, const std::vector<i64> *thr, bool tmpl, const std::vector<Lin> *hints) {
  if (a.bot) return b;
  if (b.bot) return a;
  Poly r;
  // ---- affine hull: combinations of a's equalities valid in b
  struct Row { Lin e; Lin res; }; // e (valid in a), res = e reduced in b (scaled consistently)
  std::vector<Row> rows;
  for (auto &q : a.eqs) {
    Lin x = q.second; i64 M = 1;
    try { b.reduce(x, &M); Row w; w.e = q.second * M; w.res = x; rows.push_back(w); } catch (Ovf &) {}
  }
  std::vector<Lin> lostA;      // equalities of a not valid in b (echelonised)
  Lin ind; bool haveInd = false; i64 delta = 0; // indicator: 0 in a, delta in b
  // Gaussian elimination on residuals (variable part first, then constants)
  std::vector<Row> ech;
  std::vector<Lin> good;
  for (auto &w0 : rows) {
    Row w = w0; bool ok = true;
    try {
      for (auto &p : ech) {
        int d = p.res.t.empty() ? -1 : p.res.t[0].first;
        if (d < 0) continue;
        i64 kb = w.res.coef(d); if (!kb) continue;
        i64 ka = p.res.coef(d), g = gcd64(ka, kb);
        w.res = comb(w.res, ka / g, p.res, -(kb / g));
        w.e = comb(w.e, ka / g, p.e, -(kb / g));
      }
      i64 g = 0; for (auto &t : w.e.t) g = gcd64(g, t.second);
      g = gcd64(g, w.e.c); for (auto &t : w.res.t) g = gcd64(g, t.second); g = gcd64(g, w.res.c);
      if (g > 1) { for (auto &t : w.e.t) t.second /= g; w.e.c /= g; for (auto &t : w.res.t) t.second /= g; w.res.c /= g; }
      if (w.res.t.empty()) {
        if (w.res.c == 0) { good.push_back(w.e); continue; }
        if (!haveInd) { haveInd = true; ind = w.e; delta = w.res.c; lostA.push_back(w.e); }
        else { // combine with the indicator to cancel
          i64 gg = gcd64(delta, w.res.c);
          Lin e2 = comb(w.e, delta / gg, ind, -(w.res.c / gg));
          good.push_back(e2);
        }
      } else { ech.push_back(w); lostA.push_back(w.e); }
    } catch (Ovf &) { ok = false; }
    (void)ok;
  }
  for (auto &e : good) r.addEq(e);
  if (widen && hard) {
    for (auto &e : lostA) { try { if (b.entGe(e)) r.addIneq(e); else if (b.entGe(e * -1)) r.addIneq(e * -1); } catch (Ovf &) {} }
    for (auto &x : a.ineqs) { try { if (b.entGe(x)) r.addIneq(x); } catch (Ovf &) {} }
    for (auto &x : cands) { try { if (a.entGe(x) && b.entGe(x) && !r.entGe(x)) r.addIneq(x); } catch (Ovf &) {} }
    if (r.bot) { r = Poly(); for (auto &e : good) r.addEq(e); }
    r.prune(); return r;
  }
  if (haveInd && delta < 0) { try { ind = ind * -1; delta = -delta; } catch (Ovf &) { haveInd = false; } }
  // ---- inequalities
  std::vector<Lin> cand;
  struct Cnd { Lin f; int from; };
  std::vector<Cnd> cs;
  for (auto &x : a.ineqs) cs.push_back({x, 0});
  for (auto &e : lostA) { cs.push_back({e, 0}); try { cs.push_back({e * -1, 0}); } catch (Ovf &) {} }
  // b's equalities that are lost
  for (auto &q : b.eqs) { if (!r.entEq(q.second)) { cs.push_back({q.second, 1}); try { cs.push_back({q.second * -1, 1}); } catch (Ovf &) {} } }
  for (auto &x : b.ineqs) cs.push_back({x, 1});
  // the same inequalities written over other dimensions, using each side's equalities
  for (int sd = 0; sd < (widen ? 1 : 2); sd++) { // (each use while widening loses an equality, so it ends)
    const Poly &q = sd ? b : a; const Poly &o = sd ? a : b;
    for (auto &x : q.ineqs) for (auto &e : q.eqs) {
      if (r.entEq(e.second)) continue;
      for (auto &t : e.second.t) {
        if (t.first == e.first) continue;
        i64 k = x.coef(t.first); if (!k) continue;
        try { i64 g = gcd64(k, t.second); i64 mx = t.second / g, me = -(k / g); if (mx < 0) { mx = -mx; me = -me; } cs.push_back({comb(x, mx, e.second, me), sd}); } catch (Ovf &) {}
      }
    }
    (void)o;
  }
  // simple bounds of variables constant on one side come from lost equalities already
  std::set<Lin> seen;
  std::vector<Lin> adds;
  for (auto &c : cs) {
    try {
      if (!seen.insert(c.f).second) continue;
      const Poly &other = c.from == 0 ? b : a;
      i64 m;
      if (!haveInd && !(widen && c.from == 1) && other.lit(c.f)) { adds.push_back(c.f); continue; }
      bool bounded = parIneq(other, c.f, m);
      if (widen && c.from == 1 && !(bounded && m == 0 && thr && !thr->empty())) continue;
      if (widen && c.from == 0 && haveInd && m != 0 && bounded && !(thr && !thr->empty())) { if (m >= 0) adds.push_back(c.f); continue; }
      if (bounded && m >= 0) { adds.push_back(c.f); if (!(haveInd && m > 0)) continue; }
      
      if (haveInd && bounded && m != 0) {
        // f - (m/delta)*ind >= 0 holds in a (ind=0) and in b (f>=m, ind=delta)   [c.from==0]
        // f - m*(1 - ind/delta) >= 0 holds in b (ind=delta) and a (f>=m, ind=0)  [c.from==1]
        if (c.from == 0) adds.push_back(comb(c.f, delta, ind, nar(-(i128)m)));
        else { Lin g = comb(c.f, delta, ind, m); g.c = nar((i128)g.c - (i128)m * delta); adds.push_back(g); }
      }
      if (bounded && m >= 0) continue;
      if (!bounded) continue;
      if (widen) {
        if (c.from == 1) continue;
        // threshold widening on constants
        if (thr) {
          // f >= 0 relaxed to f + t >= 0 with the smallest threshold t >= -m
          if (c.f.t.size() == 1 && (c.f.t[0].second == -1 || c.f.c <= 0)) {
            // bound of a single dimension: the thresholds are absolute
            if (c.f.t[0].second == -1) { for (i64 t : *thr) if (t >= c.f.c - m) { Lin g = c.f; g.c = t; adds.push_back(g); break; } }
            else { for (auto it = thr->rbegin(); it != thr->rend(); ++it) if (-*it >= c.f.c - m) { Lin g = c.f; g.c = -*it; adds.push_back(g); break; } }
          } else
          for (i64 t : *thr) if (t >= -m) { Lin g = c.f; g.c = nar((i128)g.c + t); adds.push_back(g); break; }
        }
        continue;
      }
      Lin g = c.f; g.c = nar((i128)g.c - m); adds.push_back(g);
    } catch (Ovf &) {}
  }
  // relations worth keeping wherever they hold
  if (hints) for (auto &h : *hints) try { if (a.entGe(h) && b.entGe(h)) adds.push_back(h); } catch (Ovf &) {}
  std::set<Lin> own(adds.begin(), adds.end());
  if (tmpl || !widen) {
    // difference and sum templates over pairs of dimensions
    std::set<int> ds; a.dims(ds); b.dims(ds);
    std::vector<int> dv(ds.begin(), ds.end());
    // dimensions that no constraint ties together on either side have no interesting difference
    std::map<int, int> up[2]; std::function<int(int, int)> root = [&](int k, int d) { int x = d; for (auto it = up[k].find(x); it != up[k].end() && it->second != x; it = up[k].find(x)) x = it->second; return x; };
    if (tmpl) for (int k = 0; k < 2; k++) { const Poly &q = k ? b : a; auto tie = [&](const Lin &f) { for (size_t i = 1; i < f.t.size(); i++) { int x = root(k, f.t[0].first), y = root(k, f.t[i].first); if (x != y) up[k][x] = y; } }; for (auto &x : q.ineqs) tie(x); for (auto &x : q.eqs) tie(x.second); }
    auto tied = [&](int x, int y) { return root(0, x) == root(0, y) || root(1, x) == root(1, y); };
    auto tryF = [&](const Lin &f) {
      try {
        i64 ma, mb;
        if (!a.minOf(f, ma) || !b.minOf(f, mb)) return;
        if (widen && mb < ma) return;
        Lin g = f; g.c = nar(-(i128)std::min(ma, mb)); adds.push_back(g);
      } catch (Ovf &) {}
    };
    if (dv.size() <= 40) for (size_t i = 0; i < dv.size(); i++) {
      if (r.eqIndex(dv[i]) >= 0) continue;
      tryF(Lin::var(dv[i])); tryF(Lin::var(dv[i], -1));
      if (tmpl) for (size_t j = i + 1; j < dv.size(); j++) {
        if (r.eqIndex(dv[j]) >= 0 || !tied(dv[i], dv[j])) continue;
        for (int s1 = -1; s1 <= 1; s1 += 2) for (int s2 = -1; s2 <= 1; s2 += 2) tryF(Lin::var(dv[i], s1) + Lin::var(dv[j], s2));
      }
    }
  }
  // short constraints first so that redundant long ones are dropped
  std::stable_sort(adds.begin(), adds.end(), [](const Lin &x, const Lin &y) { return x.t.size() < y.t.size(); });
  const i64 lim = tmpl ? 127 : 70000;
  auto huge = [lim](const Lin &f) { if (f.t.size() < 2) return false; for (auto &t : f.t) if (t.second > lim || t.second < -lim) return true; return false; }; // such slopes only make later queries overflow
  for (auto &f : adds) { if (huge(f)) continue; if (r.ineqs.size() > 200 && !own.count(f)) continue; if (r.ineqs.size() > 400) break; else r.addIneq(f, true); if (r.bot) break; }
  if (r.bot) { // cannot happen for a sound join; be safe
    r = Poly(); for (auto &e : good) r.addEq(e);
  }
  r.prune();
  return r;
}
std::string Poly::str(const std::function<std::string(int)> &nm) const {
  if (bot) return "BOT";
  auto ls = [&](const Lin &l) {
    std::string s;
    for (auto &p : l.t) { if (!s.empty() && p.second > 0) s += "+"; if (p.second == -1) s += "-"; else if (p.second != 1) s += std::to_string(p.second) + "*"; s += nm(p.first); }
    if (l.c || s.empty()) { if (l.c >= 0 && !s.empty()) s += "+"; s += std::to_string(l.c); }
    return s;
  };
  std::string o;
  for (auto &q : eqs) o += "  " + ls(q.second) + " = 0\n";
  for (auto &x : ineqs) o += "  " + ls(x) + " >= 0\n";
  return o;
}
