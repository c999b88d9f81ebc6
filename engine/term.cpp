// Termination: every loop has measures, taken in order, that decrease on every way back to its start.
//
// A loop is restarted from the states found at its start, with a copy (ghost) of every quantity of the state.  Each
// state that comes back relates the quantities to their copies one round earlier.  Starts kept apart by the fixpoint
// are the nodes of a graph, the ways back its edges.  An edge is removed when some quantity strictly decreases along it,
// is bounded from below by quantities no edge of the strongly connected part changes, and never increases on the other
// edges of that part.  What remains without cycles terminates.
#include "absint.h"
using namespace llvm;
struct Quant { int kind; const void *p; int reg; long off; bool operator<(const Quant &o) const { return std::tie(kind, p, reg, off) < std::tie(o.kind, o.p, o.reg, o.off); } };
typedef std::map<Quant, Lin> Quants;
static Quants quantsOf(const State &S) {
  Quants q;
  auto num = [](const AV &a) { return (a.k == AV::Int && !a.un) || (a.k == AV::Ptr && a.reg > 0); };
  for (auto &p : S.env) if (num(p.second)) q[{0, p.first, p.second.k == AV::Ptr, 0}] = p.second.e;
  for (auto &rp : S.regs) {
    const Region &R = *rp.second; int id = rp.first;
    if (!R.isGlobal) q[{1, nullptr, id, 0}] = R.size;
    if (R.hasZ) q[{2, nullptr, id, 0}] = R.Z;
    if (!R.isGlobal) { q[{3, nullptr, id, 0}] = R.ilo; q[{4, nullptr, id, 0}] = R.ihi; }
    for (auto &c : R.cells) if (num(c.second.v)) q[{5, nullptr, id, c.first}] = c.second.v.e;
    if (R.et) { q[{6, nullptr, id, 0}] = R.LO; q[{7, nullptr, id, 0}] = R.HI; }
    if (R.hasF) { q[{8, nullptr, id, 0}] = R.F; for (auto &c : R.fcells) if (num(c.second.v)) q[{9, nullptr, id, c.first}] = c.second.v.e; }
  }
  for (auto &g : S.ghosts) if (g.first < 1000 && g.first != 3 && g.first != 4 && g.first < 60) q[{10, nullptr, (int)g.first, 0}] = g.second.second;
  auto f = S.ghosts.find(900); if (f != S.ghosts.end()) q[{10, nullptr, 900, 0}] = f->second.second;
  return q;
}
static std::string quantName(const Quant &q) {
  switch (q.kind) {
  case 0: { auto *v = (const Value *)q.p; if (v->hasName()) return v->getName().str(); return "value"; }
  case 10: return q.reg == 900 ? "unread file contents" : "monitor" + std::to_string(q.reg);
  default: { static const char *n[] = {"", "size of ", "end of text in ", "unset start of ", "set part of ", "", "first entry of ", "entries of ", "entry of ", ""}; return n[q.kind] + regionName(q.reg) + (q.kind == 5 || q.kind == 9 ? "[" + std::to_string(q.off) + "]" : ""); }
  }
}
namespace {
struct Edge { int from, to; State S; Quants old, now; bool gone = false; std::string by; };
}
// strongly connected parts of the edges still there
static std::vector<int> sccs(int n, const std::vector<Edge> &es) {
  std::vector<int> comp(n, -1), low(n), num(n, 0), st; int t = 0, nc = 0; std::vector<bool> on(n);
  std::function<void(int)> go = [&](int v) {
    low[v] = num[v] = ++t; st.push_back(v); on[v] = true;
    for (auto &e : es) if (!e.gone && e.from == v) { if (!num[e.to]) { go(e.to); low[v] = std::min(low[v], low[e.to]); } else if (on[e.to]) low[v] = std::min(low[v], num[e.to]); }
    if (low[v] == num[v]) { for (;;) { int w = st.back(); st.pop_back(); on[w] = false; comp[w] = nc; if (w == v) break; } nc++; }
  };
  for (int v = 0; v < n; v++) if (!num[v]) go(v);
  return comp;
}
// f is bounded from below when the quantities in `fixed` keep their values
static bool boundedBy(const Poly &P, const Lin &f0, const std::vector<Lin> &fixed) {
  try {
    Lin f = f0; if (!P.reduce(f)) return false; f.c = 0;
    if (f.t.empty()) return true;
    std::vector<Lin> own; own.reserve(P.ineqs.size() + 2 * fixed.size());
    for (auto &x : P.ineqs) { Lin y = x; y.c = 0; own.push_back(y); }
    for (auto &x : fixed) { Lin y = x; if (!P.reduce(y)) continue; y.c = 0; if (y.t.empty()) continue; own.push_back(y); own.push_back(y * -1); }
    std::vector<const Lin *> G; for (auto &x : own) if (!x.t.empty()) G.push_back(&x);
    LPRes r = lpMin(f, G); return r.st == 0 && r.num >= 0;
  } catch (Ovf &) { return false; }
}
static void blocksOf(const Interp::Comp &C, std::vector<const BasicBlock *> &o) { o.push_back(C.head); for (auto &c : C.body) blocksOf(c, o); }
// pairs of values compared inside the loop that have a value at its start
static std::vector<std::pair<const Value *, const Value *>> headTests(const Interp::Comp &C, const std::set<const BasicBlock *> &in) {
  std::vector<std::pair<const Value *, const Value *>> r;
  auto atHead = [&](const Value *v) -> const Value * {
    for (int i = 0; i < 8; i++) {
      if (isa<Constant>(v) || isa<Argument>(v)) return v;
      auto *I = dyn_cast<Instruction>(v); if (!I) return nullptr;
      if (!in.count(I->getParent()) || (isa<PHINode>(I) && I->getParent() == C.head)) return v;
      if (auto *Z = dyn_cast<CastInst>(I)) { v = Z->getOperand(0); continue; }
      auto *P = dyn_cast<PHINode>(I); if (!P) return nullptr;
      const Value *n = nullptr; // the value it starts with: one that is not computed from it
      for (auto &u : P->incoming_values()) { auto *x = dyn_cast<Instruction>(&*u); if (!x || !in.count(x->getParent()) || (isa<PHINode>(x) && x->getParent() == C.head)) n = u; }
      if (!n) return nullptr; v = n;
    }
    return nullptr;
  };
  for (auto *b : in) for (auto &i : *b) if (auto *c = dyn_cast<ICmpInst>(&i)) if (c->getOperand(0)->getType()->isIntegerTy()) {
    auto *x = atHead(c->getOperand(0)), *y = atHead(c->getOperand(1)); if (!x || !y || x == y || (isa<Constant>(x) && isa<Constant>(y))) continue;
    std::pair<const Value *, const Value *> p{x, y}; if (std::find(r.begin(), r.end(), p) == r.end()) r.push_back(p);
  }
  return r;
}
void Interp::termination() {
  if (broken) return;
  record = false; warmOK = false; warm.clear();
  auto heads0 = inSt; auto coarse0 = coarse;
  std::vector<const Comp *> loops;
  std::function<void(const std::vector<Comp> &)> walk = [&](const std::vector<Comp> &cs) { for (auto &c : cs) { if (c.isLoop) loops.push_back(&c); walk(c.body); } };
  walk(wto);
  for (auto *C : loops) {
    const Instruction *at = C->head->getTerminator(); for (auto &i : *C->head) if (i.getDebugLoc() && !isa<PHINode>(i)) { at = &i; break; }
    std::string loc = locOf(at, true);
    std::vector<const BasicBlock *> bl; blocksOf(*C, bl); std::set<const BasicBlock *> in(bl.begin(), bl.end());
    std::map<std::string, int> idx; std::vector<std::string> keys; for (auto &p : heads0[C->head]) { idx[p.first] = keys.size(); keys.push_back(p.first); }
    if (keys.empty()) continue;
    std::vector<Edge> es; std::set<std::string> why;
    // first with the ways through the body merged where they meet, then with each kept apart
    for (int level = 0; level < 3; level++) {
    es.clear(); why.clear(); viaBlocks.clear();
    if (level) { std::set<const BasicBlock *> own; for (auto &c : C->body) if (!c.isLoop) own.insert(c.head); for (auto *b : own) if (b->hasNPredecessorsOrMore(2)) viaBlocks.insert(b); }
    auto pairs = level == 2 ? headTests(*C, in) : std::vector<std::pair<const Value *, const Value *>>();
    if (level == 2 && pairs.empty()) break;
    for (size_t k = 0; k < keys.size(); k++) {
      States start{heads0[C->head][keys[k]]};
      for (auto &pr : pairs) { // by the outcome the tests of the loop would have now
        if (start.size() > 30) break;
        States nx;
        for (auto &S : start) {
          AV a = val(S, pr.first), b = val(S, pr.second); if (a.k != AV::Int || b.k != AV::Int) { nx.push_back(S); continue; }
          for (int o = 0; o < 3; o++) { State T = S; try { if (o == 0) T.P.addIneq(b.e - a.e - Lin(1)); else if (o == 1) T.P.addEq(a.e - b.e); else T.P.addIneq(a.e - b.e - Lin(1)); } catch (Ovf &) {} if (!T.P.bot) nx.push_back(T); }
        }
        start.swap(nx);
      }
      for (auto &S : start) {
      edge.clear(); coarse = coarse0;
      S.ghosts[900] = {0, fresh(S, 0, INF)};
      Quants q = quantsOf(S); std::vector<Quant> order; int g = 1000;
      for (auto &x : q) { S.ghosts[g++] = {0, x.second}; order.push_back(x.first); }
      inSt[C->head].clear(); inSt[C->head].emplace(keys[k], std::move(S));
      transfer(C->head); for (auto &c : C->body) stabilise(c);
      if (broken) return;
      for (auto &ed : edge) if (ed.first.second == C->head && in.count(ed.first.first)) for (auto &p : ed.second) {
        std::string key = p.first; if (level) { State Q; Q = p.second; for (auto it = Q.flags.begin(); it != Q.flags.end();) it = it->compare(0, 4, "via:") == 0 ? Q.flags.erase(it) : std::next(it); key = keyOf(Q, C->head); }
        auto t = idx.find(key);
        Edge e; e.from = k; e.to = t == idx.end() ? -1 : t->second; e.S = p.second; e.now = quantsOf(e.S);
        for (size_t i = 0; i < order.size(); i++) { auto gi = e.S.ghosts.find(1000 + i); if (gi != e.S.ghosts.end()) e.old[order[i]] = gi->second.second; }
        if (e.to < 0) for (size_t j = 0; j < keys.size(); j++) { Edge f = e; f.to = j; es.push_back(f); }
        else es.push_back(std::move(e));
      }
      }
    }
    bool proved = false;
    for (;;) {
      auto comp = sccs(keys.size(), es); bool any = false, open = false;
      std::map<int, std::vector<Edge *>> part;
      for (auto &e : es) if (!e.gone && comp[e.from] == comp[e.to]) part[comp[e.from]].push_back(&e);
      for (auto &pt : part) {
        auto &E = pt.second; open = true;
        std::vector<Quant> cand, inv; // quantities all these edges speak of
        for (auto &x : E[0]->now) { bool ok = true; for (auto *e : E) if (!e->old.count(x.first) || !e->now.count(x.first)) ok = false; if (!ok) continue;
          bool same = true; for (auto *e : E) if (!e->S.P.entEq(e->old[x.first] - e->now[x.first])) { same = false; break; }
          (same ? inv : cand).push_back(x.first); }
        auto tryF = [&](const std::function<Lin(const Quants &)> &f, const std::string &nm) {
          std::vector<Edge *> dec;
          for (auto *e : E) {
            Lin d; try { d = f(e->old) - f(e->now); } catch (Ovf &) { return false; }
            i64 lo; if (!e->S.P.minOf(d, lo) || lo < 0) return false;
            if (lo < 1) continue;
            std::vector<Lin> fx; for (auto &q : inv) fx.push_back(e->now[q]);
            if (boundedBy(e->S.P, f(e->old), fx)) dec.push_back(e);
          }
          for (auto *e : dec) { e->gone = true; e->by = nm; }
          if (dec.size()) why.insert(nm);
          return dec.size() > 0;
        };
        bool done = false;
        for (auto &q : cand) for (int s = -1; s <= 1 && !done; s += 2) done = tryF([&](const Quants &v) { return v.at(q) * s; }, (s < 0 ? "limit - " : "") + quantName(q));
        for (size_t i = 0; i < cand.size() && !done; i++) for (size_t j = 0; j < cand.size() && !done; j++) if (i != j) done = tryF([&](const Quants &v) { return v.at(cand[i]) - v.at(cand[j]); }, quantName(cand[i]) + " - " + quantName(cand[j]));
        any |= done;
      }
      if (!open) { proved = true; break; }
      if (!any) {
        if (level < 2 && !(level == 1 && headTests(*C, in).empty())) break;
        if (getenv("ABS_TERM")) for (auto &pt : part) for (auto *e : pt.second) { errs() << "EDGE " << e->from << "->" << e->to << "\n"; for (auto &x : e->now) { auto o = e->old.find(x.first); if (o != e->old.end() && !(o->second == x.second) && !e->S.P.entEq(o->second - x.second)) errs() << "   " << quantName(x.first) << "\n"; } dump(e->S); }
        record = true; cur = at; alarm("loop", "no measure of this loop is seen to decrease in every round"); record = false; break;
      }
    }
    if (proved) break;
    }
    viaBlocks.clear();
    record = true; cur = at; ob("loop"); for (auto &e : es) { (void)e; oblig["loop-round"]++; } record = false;
    std::string s = loc + ":"; if (es.empty()) s += " no round returns"; else if (why.empty()) s += " no start is reached again;"; for (auto &w : why) s += " " + w + ";"; measures.push_back(s);
    inSt[C->head] = heads0[C->head];
  }
  record = true;
}
