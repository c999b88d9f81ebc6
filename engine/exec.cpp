// Abstract interpreter: instruction semantics.
#include "absint.h"
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/ConstantFolding.h>
using namespace llvm;

static i64 pow2(unsigned b) { return (i64)1 << b; }
Lin Interp::fresh(State &S, i64 lo, i64 hi) {
  int d = newTmp(); Lin l = Lin::var(d);
  if (lo > -INF) S.P.addIneq(l - Lin(lo), false);
  if (hi < INF) S.P.addIneq(Lin(hi) - l, false);
  return l;
}
AV Interp::freshInt(State &S, unsigned bits) {
  if (bits == 1) { AV a = AV::mkInt(fresh(S, 0, 1), 1); return a; }
  return AV::mkInt(fresh(S, 0, bits >= 62 ? INF : pow2(bits) - 1), 1);
}
AV Interp::val(State &S, const Value *v) {
  if (auto *C = dyn_cast<Constant>(v)) {
    if (auto *i = dyn_cast<ConstantInt>(C)) {
      if (i->getBitWidth() > 64) return AV();
      i64 s = i->getBitWidth() == 1 ? (i64)i->getZExtValue() : i->getSExtValue();
      return AV::mkInt(Lin(s), s >= 0 ? 3 : 2);
    }
    if (isa<ConstantPointerNull>(C)) return AV::mkPtr(0);
    if (isa<UndefValue>(C)) { AV a; a.un = true; if (C->getType()->isIntegerTy()) { a = freshInt(S, w(C)); a.un = true; } return a; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) return AV::mkPtr(regionOfGlobal(S, G));
    if (isa<Function>(C)) return AV::mkPtr(-1);
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
      APInt off(64, 0);
      if (auto *B = dyn_cast<GlobalVariable>(const_cast<ConstantExpr *>(E)->stripAndAccumulateConstantOffsets(DL, off, true))) return AV::mkPtr(regionOfGlobal(S, B), Lin(off.getSExtValue()));
    }
    if (C->getType()->isPointerTy()) return AV::mkPtr(-1);
    if (C->getType()->isIntegerTy()) return freshInt(S, w(C));
    return AV();
  }
  auto it = S.env.find(v);
  if (it != S.env.end()) return it->second;
  if (v->getType()->isIntegerTy()) return freshInt(S, w(v));
  if (v->getType()->isPointerTy()) return AV::mkPtr(-1);
  return AV();
}
// resolve to canonical form without forking, if the bounds already decide it
static bool fastCanon(Interp &I, State &S, const AV &a, unsigned bits, bool sgn, Lin &o) {
  if (a.k != AV::Int) { o = sgn ? I.fresh(S, bits >= 62 ? -INF : -pow2(bits - 1), bits >= 62 ? INF : pow2(bits - 1) - 1) : I.fresh(S, 0, bits >= 62 ? INF : pow2(bits) - 1); return true; }
  if (a.canon & (sgn ? 2 : 1)) { o = a.e; return true; }
  i64 lo, hi; bool hl = S.P.minOf(a.e, lo), hh = S.P.maxOf(a.e, hi);
  if (S.P.bot) { o = a.e; return true; }
  i64 L = sgn ? (bits >= 62 ? -INF : -pow2(bits - 1)) : 0, H = bits >= 62 ? INF : sgn ? pow2(bits - 1) - 1 : pow2(bits) - 1;
  if (bits >= 62) {
    if (hl && (sgn || lo >= 0) && (hh || (a.canon & 1))) { o = a.e; return true; }
    if (sgn && (hl && hh)) { o = a.e; return true; }
    if (!hl || !hh) { // unbounded: anything of that type
      if (hl && lo >= 0 && (a.canon & 1) && !sgn) { o = a.e; return true; }
      o = I.fresh(S, sgn ? -INF : 0, INF); return true;
    }
    return false;
  }
  if (hl && hh && lo >= L && hi <= H) { o = a.e; return true; }
  if (!hl || !hh) { o = I.fresh(S, L, H); return true; }
  return false;
}
void Interp::canon(State S, AV a, unsigned bits, bool sgn, const std::function<void(State, Lin)> &k) {
  Lin o;
  if (fastCanon(*this, S, a, bits, sgn, o)) { if (!S.P.bot) k(std::move(S), o); return; }
  i64 lo, hi; S.P.minOf(a.e, lo); S.P.maxOf(a.e, hi);
  if (bits >= 62) { // unsigned, possibly negative
    { State T = S; if (T.P.addIneq(a.e) && !T.P.bot) { applyFacts(T); if (!T.P.bot) k(std::move(T), a.e); } }
    if (lo < 0) { State T = S; T.P.addIneq(Lin(-1) - a.e); if (!T.P.bot) { applyFacts(T); Lin f = fresh(T, pow2(52), INF); if (!T.P.bot) k(std::move(T), f); } }
    return;
  }
  i64 L = sgn ? -pow2(bits - 1) : 0, M = pow2(bits);
  i64 q0 = fdiv(lo - L, M), q1 = fdiv(hi - L, M);
  if (q1 - q0 > 3) { State T = S; Lin f = fresh(T, L, L + M - 1); k(std::move(T), f); return; }
  for (i64 q = q0; q <= q1; q++) {
    State T = S; Lin e = a.e - Lin(q * M);
    T.P.addIneq(e - Lin(L)); if (T.P.bot) continue;
    T.P.addIneq(Lin(L + M - 1) - e); if (T.P.bot) continue;
    applyFacts(T); if (T.P.bot) continue;
    k(std::move(T), e);
  }
}
// ---- conditions
static CondP mkCmp(int pred, Lin a, Lin b) { auto c = std::make_shared<Cond>(); c->k = Cond::Cmp; c->pred = pred; c->a = a; c->b = b; return c; }
static CondP mkNot(CondP s) { auto c = std::make_shared<Cond>(); c->k = Cond::Not; c->sub = s; return c; }
CondP Interp::condOf(State &S, const AV &a) {
  if (a.cond) return a.cond;
  if (a.k == AV::Int) return mkCmp(1, a.e, Lin(0));
  return std::make_shared<Cond>();
}
int Interp::decide(State &S, const CondP &c) {
  switch (c->k) {
  case Cond::Not: { int d = decide(S, c->sub); return d < 0 ? -1 : 1 - d; }
  case Cond::Null: { if (!S.has(c->reg)) return 0; return S.R(c->reg).maybeNull ? -1 : 0; }
  case Cond::Ctype: {
    i64 lo, hi; if (!S.P.minOf(c->a, lo) || !S.P.maxOf(c->a, hi)) return -1;
    extern int ctypeDecide(long, i64, i64); return ctypeDecide(c->mask, lo, hi);
  }
  case Cond::Cmp: {
    Lin d; try { d = c->a - c->b; } catch (Ovf &) { return -1; }
    if (c->pred <= 1) {
      if (S.P.entEq(d)) return c->pred == 0;
      i64 l; if (S.P.minOf(d, l) && l > 0) return c->pred == 1;
      if (S.P.maxOf(d, l) && l < 0) return c->pred == 1;
      return -1;
    }
    if (c->pred == 2) { if (S.P.entGe(Lin(-1) - d)) return 1; if (S.P.entGe(d)) return 0; return -1; }
    if (S.P.entGe(Lin(0) - d)) return 1; if (S.P.entGe(d - Lin(1))) return 0; return -1;
  }
  default: return -1;
  }
}
void Interp::nullRegion(State &S, int reg) {
  // the pointer to `reg` turned out to be null
  if (S.R(reg).alloc) S.flags.insert("oom");
  for (auto &p : S.env) if (p.second.k == AV::Ptr && p.second.reg == reg) p.second = AV::mkPtr(0);
  for (auto &r : S.regs) {
    bool any = false;
    for (auto &c : r.second->cells) if (c.second.v.k == AV::Ptr && c.second.v.reg == reg) any = true;
    for (auto &c : r.second->fcells) if (c.second.v.k == AV::Ptr && c.second.v.reg == reg) any = true;
    if (!any) continue;
    auto &W = S.W(r.first);
    for (auto &c : W.cells) if (c.second.v.k == AV::Ptr && c.second.v.reg == reg) c.second.v = AV::mkPtr(0);
    for (auto &c : W.fcells) if (c.second.v.k == AV::Ptr && c.second.v.reg == reg) c.second.v = AV::mkPtr(0);
  }
  for (auto &g : S.ghosts) if (g.second.first == reg) g.second.first = 0;
  if (S.R(reg).nullEmpty) { S.P.addEq(S.R(reg).size); }
  S.regs.erase(reg);
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == reg; }), S.facts.end());
}
void Interp::applyFacts(State &S) {
  for (auto &f : S.facts) {
    if (S.P.bot) return;
    if (f.kind != 0 || f.sz != 1 || !S.has(f.reg)) continue;
    const Region &R = S.R(f.reg);
    if (!R.hasZ) { // an octet known to be NUL ends a string here
      if (f.reg > 0 && !R.ro) try { i64 l0, h0; if (S.P.minOf(f.val, l0) && S.P.maxOf(f.val, h0) && l0 == 0 && h0 == 0) { auto &W = S.W(f.reg); W.hasZ = true; W.Z = f.off; W.zExact = false; W.term = 0; W.zfrom = 0; } } catch (Ovf &) {}
      continue;
    }
    try {
      i64 lo, hi; bool hl = S.P.minOf(f.val, lo), hh = S.P.maxOf(f.val, hi);
      if (S.P.bot) return;
      if ((hl && lo > R.term) || (hh && hi < R.term)) { if (S.P.entGe(R.Z - f.off)) S.P.addIneq(R.Z - f.off - Lin(1)); }
      else if (R.zExact && hl && hh && lo == R.term && hi == R.term) { if (S.P.entGe(R.Z - f.off) && S.P.entGe(f.off - Lin(R.zfrom))) S.P.addEq(R.Z - f.off); }
    } catch (Ovf &) {}
  }
}
bool Interp::refine(State &S, const CondP &c, bool truth) {
  switch (c->k) {
  case Cond::Not: return refine(S, c->sub, !truth);
  case Cond::Null:
    if (!S.has(c->reg)) return !truth;
    if (!S.R(c->reg).maybeNull) return !truth;
    if (truth) nullRegion(S, c->reg); else S.W(c->reg).maybeNull = false;
    return !S.P.bot;
  case Cond::Ctype: {
    extern void ctypeHull(long, bool, i64 &, i64 &);
    i64 lo = -128, hi = 255, v; if (S.P.minOf(c->a, v)) lo = std::max(lo, v); if (S.P.maxOf(c->a, v)) hi = std::min(hi, v);
    i64 l2 = lo, h2 = hi; ctypeHull(c->mask, truth, l2, h2);
    if (l2 > h2) return false;
    if (l2 > lo) S.P.addIneq(c->a - Lin(l2)); if (h2 < hi) S.P.addIneq(Lin(h2) - c->a);
    applyFacts(S); return !S.P.bot;
  }
  case Cond::Cmp: {
    int p = c->pred; Lin a = c->a, b = c->b;
    try {
      if (!truth) { if (p == 0) p = 1; else if (p == 1) p = 0; else { std::swap(a, b); p = p == 2 ? 3 : 2; } }
      Lin d = a - b;
      if (p == 0) { S.P.addEq(d); }
      else if (p == 2) S.P.addIneq(Lin(-1) - d);
      else if (p == 3) S.P.addIneq(Lin(0) - d);
      else {
        if (S.P.entEq(d)) return false;
        i64 l; 
        if (S.P.minOf(d, l) && l == 0) S.P.addIneq(d - Lin(1));
        else if (S.P.maxOf(d, l) && l == 0) S.P.addIneq(Lin(-1) - d);
        for (auto &f : S.facts) if (!S.P.bot && f.kind == 0 && f.sz == 1 && S.has(f.reg)) {
          const Region &R = S.R(f.reg); if (!R.hasZ) continue;
          Lin x = f.val - Lin(R.term);
          if (S.P.entEq(x - d) || S.P.entEq(x + d)) if (S.P.entGe(R.Z - f.off)) S.P.addIneq(R.Z - f.off - Lin(1));
        }
      }
    } catch (Ovf &) {}
    if (!S.P.bot) applyFacts(S);
    return !S.P.bot;
  }
  default: return true;
  }
}
void Interp::split(State S, const AV &a, const std::function<void(State, bool)> &k) {
  CondP c = condOf(S, a);
  int d = decide(S, c);
  if (d >= 0) { if (a.k == AV::Int && a.cond) S.P.addEq(a.e - Lin(d)); if (!S.P.bot) k(std::move(S), d); return; }
  for (int t = 1; t >= 0; t--) {
    State T = S;
    if (a.k == AV::Int && a.cond) T.P.addEq(a.e - Lin(t));
    if (T.P.bot || !refine(T, c, t)) continue;
    k(std::move(T), t);
  }
}
static const Fact *quot(State &S, const Lin &a, i64 d) {
  for (auto &f : S.facts) if (f.kind == 1 && f.d == d) { if (f.off == a) return &f; try { Lin x = f.off - a; S.P.reduce(x); if (x.t.empty() && x.c == 0) return &f; } catch (Ovf &) {} }
  return nullptr;
}
// quotient of a non-negative value by a positive constant
static Lin quotient(Interp &I, State &S, const Lin &a, i64 d, const Instruction *site) {
  if (d == 1) return a;
  i64 c; if (S.P.isConst(a, c) && c >= 0) return Lin(c / d);
  if (auto *f = quot(S, a, d)) return f->val;
  // divisible as written?
  bool div = a.c % d == 0; for (auto &p : a.t) if (p.second % d) div = false;
  if (div) { Lin q = a; q.c /= d; for (auto &p : q.t) p.second /= d; return q; }
  Lin q = Lin::var(newTmp());
  S.P.addIneq(a - q * d, false); S.P.addIneq(q * d + Lin(d - 1) - a, false); S.P.addIneq(q, false);
  i64 hi; if (S.P.maxOf(a, hi)) S.P.addIneq(Lin(hi / d) - q, false);
  for (auto it = S.facts.begin(); it != S.facts.end();) if (it->site == site && it->kind == 1) it = S.facts.erase(it); else ++it;
  Fact f; f.kind = 1; f.site = site; f.reg = 0; f.sz = 0; f.d = d; f.off = a; f.val = q; f.age = 0;
  S.facts.push_back(f);
  return q;
}
static bool multipleOf(State &S, Lin a, i64 m) {
  auto chk = [&](const Lin &x) { if (x.c % m) return false; for (auto &p : x.t) if (p.second % m) return false; return true; };
  if (chk(a)) return true;
  try { i64 mul; S.P.reduce(a, &mul); if (mul == 1 && chk(a)) return true; } catch (Ovf &) {}
  return false;
}

void Interp::exec(State S, BasicBlock *B, BasicBlock::iterator it) {
  for (;;) {
    if (broken) return;
    if (S.P.bot) return;
    Instruction &I = *it; ++it;
    cur = &I;
    if (++steps > 4000000) { broken = true; brokenWhy = "too many steps"; return; }
    BasicBlock::iterator nx = it;
    auto cont = [this, B, nx](State T) { exec(std::move(T), B, nx); };
    try {
    if (auto *BI = dyn_cast<BranchInst>(&I)) {
      if (BI->isUnconditional()) { emitTo(std::move(S), B, BI->getSuccessor(0)); return; }
      AV c = val(S, BI->getCondition());
      ob("branch-init");
      if (c.un) { alarm("uninit", "a branch depends on a value that was never set"); }
      if (BI->getSuccessor(0) == BI->getSuccessor(1)) { emitTo(std::move(S), B, BI->getSuccessor(0)); return; }
      split(std::move(S), c, [&](State T, bool t) { const Instruction *sv = cur; emitTo(std::move(T), B, BI->getSuccessor(t ? 0 : 1)); cur = sv; });
      return;
    }
    if (auto *SI = dyn_cast<SwitchInst>(&I)) {
      AV c = val(S, SI->getCondition());
      ob("branch-init");
      if (c.un) alarm("uninit", "a switch depends on a value that was never set");
      canon(std::move(S), c, w(SI->getCondition()), false, [&](State T, Lin e) {
        std::map<BasicBlock *, int> dummy;
        State D = T; bool dead = false;
        std::vector<i64> vals;
        for (auto &cs : SI->cases()) vals.push_back((i64)cs.getCaseValue()->getZExtValue());
        std::vector<i64> sv = vals; std::sort(sv.begin(), sv.end());
        for (auto &cs : SI->cases()) {
          i64 v = cs.getCaseValue()->getZExtValue();
          CondP q = mkCmp(0, e, Lin(v));
          int d = decide(T, q);
          if (d == 0) continue;
          State U = T;
          if (!refine(U, q, true)) continue;
          cur = SI;
          emitTo(std::move(U), B, cs.getCaseSuccessor());
          if (d == 1) dead = true;
        }
        if (dead) return;
        // default: shrink from both ends
        bool ch = true;
        for (auto x : sv) { if (!refine(D, mkCmp(0, e, Lin(x)), false)) return; }
        for (auto i = sv.rbegin(); i != sv.rend(); ++i) { if (!refine(D, mkCmp(0, e, Lin(*i)), false)) return; }
        (void)ch;
        cur = SI;
        emitTo(std::move(D), B, SI->getDefaultDest());
      });
      return;
    }
    if (auto *RI = dyn_cast<ReturnInst>(&I)) { doReturn(std::move(S), RI); return; }
    if (isa<UnreachableInst>(&I)) return;
    if (auto *C = dyn_cast<CallInst>(&I)) { call(std::move(S), C, cont); return; }
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      if (A->isArrayAllocation() && !isa<ConstantInt>(A->getArraySize())) {
        i64 es = DL.getTypeAllocSize(A->getAllocatedType());
        AV n = val(S, A->getArraySize());
        canon(std::move(S), n, w(A->getArraySize()), false, [&](State T, Lin e) {
          i64 hi; ob("stack-size");
          if (!T.P.maxOf(e, hi) || hi * es > (1 << 20)) alarm("bounds", "variable-length stack array of unbounded size");
          int r = newRegion(T, A, 0, e * es); auto &R = T.W(r); R.stack = true; R.ilo = R.ihi = Lin(0);
          set(T, A, AV::mkPtr(r)); exec(std::move(T), B, nx);
        });
        return;
      }
      i64 n = DL.getTypeAllocSize(A->getAllocatedType());
      if (A->isArrayAllocation()) n *= cast<ConstantInt>(A->getArraySize())->getZExtValue();
      int r = newRegion(S, A, 0, Lin(n)); auto &R = S.W(r); R.stack = true;
      set(S, A, AV::mkPtr(r)); continue;
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      AV p = val(S, L->getPointerOperand());
      i64 n = DL.getTypeStoreSize(L->getType());
      if (n > 8) { broken = true; brokenWhy = "wide load"; return; }
      loadK(std::move(S), p, n, L->getType(), L, [&](State T, AV v) { set(T, L, v); exec(std::move(T), B, nx); });
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      AV p = val(S, St->getPointerOperand());
      AV v = val(S, St->getValueOperand());
      if (auto *CI = dyn_cast<ConstantInt>(St->getValueOperand())) (void)CI;
      i64 n = DL.getTypeStoreSize(St->getValueOperand()->getType());
      narrowing(S, St, p, v);
      if (v.lossy & 8) { ob("narrow"); i64 lo, hi; unsigned b = w(St->getValueOperand()); if ((v.lossy & 4) || ((v.lossy & 2) && b < 62 && p.reg > 0 && S.has(p.reg) && !S.R(p.reg).stack && !(v.k == AV::Int && S.P.minOf(v.e, lo) && lo >= 0 && S.P.maxOf(v.e, hi) && hi < pow2(b)))) alarm("narrow", "a number read from text may not fit the " + std::to_string(b) + " bits stored"); }
      store(S, p, n, v, St->getValueOperand()->getType());
      continue;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      AV p = val(S, G->getPointerOperand());
      if (p.k != AV::Ptr) p = AV::mkPtr(-1);
      // collect variable indices; they are signed
      std::vector<std::pair<const Value *, i64>> vars; i64 c = 0;
      for (auto g = gep_type_begin(G), e = gep_type_end(G); g != e; ++g) {
        if (auto *ST = g.getStructTypeOrNull()) { c += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(g.getOperand())->getZExtValue()); continue; }
        i64 sz = DL.getTypeAllocSize(g.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(g.getOperand())) c += ci->getSExtValue() * sz;
        else vars.push_back({g.getOperand(), sz});
      }
      bool un = p.un;
      std::function<void(State, size_t, Lin)> rec = [&](State T, size_t i, Lin acc) {
        if (i == vars.size()) {
          AV r = p; r.un = un; r.cond = nullptr;
          if (p.reg > 0) { try { r.e = p.e + acc; } catch (Ovf &) { r = AV::mkPtr(-1); } rowFork(std::move(T), r, G, [&](State U, AV q) { set(U, G, q); exec(std::move(U), B, nx); }); return; }
          if (p.reg == 0 && !acc.isConst()) {}
          if (p.reg == 0 && !(acc == Lin(0))) { i64 z; if (T.P.isConst(acc, z) && z == 0) {} else r = AV::mkPtr(-1); if (r.reg == -1) r.nullOff = true; }
          set(T, G, r); exec(std::move(T), B, nx); return;
        }
        AV iv = val(T, vars[i].first); if (iv.un) un = true;
        canon(std::move(T), iv, w(vars[i].first), w(vars[i].first) < 64 || !(iv.canon & 1), [&](State U, Lin e) { rec(std::move(U), i + 1, acc + e * vars[i].second); });
      };
      if (vars.empty()) {
        AV r = p; r.cond = nullptr;
        if (p.reg > 0) r.e = p.e + Lin(c); else if (p.reg == 0 && c != 0) { r = AV::mkPtr(-1); r.nullOff = true; }
        r.un = p.un; set(S, G, r); continue;
      }
      rec(std::move(S), 0, Lin(c));
      return;
    }
    if (auto *SeI = dyn_cast<SelectInst>(&I)) {
      AV c = val(S, SeI->getCondition());
      ob("branch-init");
      if (c.un) alarm("uninit", "a choice depends on a value that was never set");
      split(std::move(S), c, [&](State T, bool t) { AV v = val(T, t ? SeI->getTrueValue() : SeI->getFalseValue()); set(T, SeI, v); exec(std::move(T), B, nx); });
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(&I)) {
      AV a = val(S, IC->getOperand(0)), b = val(S, IC->getOperand(1));
      bool un = a.un || b.un;
      auto fin = [&](State T, CondP c) {
        AV r = AV::mkInt(Lin::var(newTmp()), 1); r.cond = c; r.un = un;
        int d = c->k == Cond::Unknown ? -1 : decide(T, c);
        if (d >= 0) { r.e = Lin(d); r.cond = nullptr; r.canon = 3; }
        else { T.P.addIneq(r.e, false); T.P.addIneq(Lin(1) - r.e, false); }
        set(T, IC, r); exec(std::move(T), B, nx);
      };
      auto P = IC->getPredicate();
      if (IC->getOperand(0)->getType()->isPointerTy()) {
        if (a.k != AV::Ptr || b.k != AV::Ptr || a.reg == -1 || b.reg == -1) { fin(std::move(S), std::make_shared<Cond>()); return; }
        if (a.reg == b.reg) {
          int pd; Lin x = a.e, y = b.e;
          switch (P) { case CmpInst::ICMP_EQ: pd = 0; break; case CmpInst::ICMP_NE: pd = 1; break;
            case CmpInst::ICMP_ULT: pd = 2; break; case CmpInst::ICMP_ULE: pd = 3; break;
            case CmpInst::ICMP_UGT: pd = 2; std::swap(x, y); break; case CmpInst::ICMP_UGE: pd = 3; std::swap(x, y); break; default: fin(std::move(S), std::make_shared<Cond>()); return; }
          fin(std::move(S), mkCmp(pd, x, y)); return;
        }
        if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) {
          CondP c;
          if (a.reg == 0 || b.reg == 0) { auto n = std::make_shared<Cond>(); n->k = Cond::Null; n->reg = a.reg ? a.reg : b.reg; c = n; }
          else {
            // distinct blocks: never equal (one past the end of one may equal the start of another: unknown)
            bool in = true;
            for (auto *q : {&a, &b}) if (!S.has(q->reg) || !S.P.entGe(q->e) || !S.P.entGe(S.R(q->reg).size - q->e - Lin(1))) in = false;
            if (in) c = mkCmp(0, Lin(0), Lin(1)); else c = std::make_shared<Cond>();
          }
          if (P == CmpInst::ICMP_NE) c = mkNot(c);
          fin(std::move(S), c); return;
        }
        // ordering of a pointer against null or another block
        fin(std::move(S), std::make_shared<Cond>()); return;
      }
      if (a.cond && isa<ConstantInt>(IC->getOperand(1)) && IC->isEquality()) {
        long c = cast<ConstantInt>(IC->getOperand(1))->getSExtValue();
        CondP r = a.cond;
        if (c == 0) { fin(std::move(S), P == CmpInst::ICMP_EQ ? mkNot(r) : r); return; }
        if (c == 1 || (c == -1 && w(IC->getOperand(0)) == 1)) { fin(std::move(S), P == CmpInst::ICMP_EQ ? r : mkNot(r)); return; }
      }
      if (a.ctIdx == 2 && isa<ConstantInt>(IC->getOperand(1)) && cast<ConstantInt>(IC->getOperand(1))->isZero() && IC->isEquality()) {
        auto c = std::make_shared<Cond>(); c->k = Cond::Ctype; c->a = a.e2; c->mask = a.mask;
        fin(std::move(S), P == CmpInst::ICMP_NE ? CondP(c) : mkNot(c)); return;
      }
      unsigned bits = w(IC->getOperand(0));
      bool sg = IC->isSigned();
      if (IC->isEquality()) {
        sg = false;
        if ((a.canon & b.canon & 2) && !(a.canon & b.canon & 1)) sg = true;
        i64 cc; if (b.k == AV::Int && S.P.isConst(b.e, cc) && cc < 0) sg = true; if (a.k == AV::Int && S.P.isConst(a.e, cc) && cc < 0) sg = true;
        if (a.k == AV::Int && b.k == AV::Int) { try { Lin d = a.e - b.e; S.P.reduce(d); if (d.t.empty() && d.c == 0) { fin(std::move(S), mkCmp(P == CmpInst::ICMP_EQ ? 0 : 1, Lin(0), Lin(0))); return; } } catch (Ovf &) {} }
      }
      canon(std::move(S), a, bits, sg, [&](State T, Lin x) {
        canon(std::move(T), b, bits, sg, [&](State U, Lin y) {
          int pd; Lin p = x, q = y;
          switch (P) { case CmpInst::ICMP_EQ: pd = 0; break; case CmpInst::ICMP_NE: pd = 1; break;
            case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: pd = 2; break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: pd = 3; break;
            case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: pd = 2; std::swap(p, q); break; default: pd = 3; std::swap(p, q); break; }
          cur = IC;
          fin(std::move(U), mkCmp(pd, p, q));
        });
      });
      return;
    }
    if (auto *Ca = dyn_cast<CastInst>(&I)) {
      AV a = val(S, Ca->getOperand(0));
      unsigned fb = w(Ca->getOperand(0)), tb = w(Ca);
      // once its representative is chosen, a value keeps it
      auto same = [&](State &T, Value *o, const Lin &e, int cn) { auto it = T.env.find(o); if (it == T.env.end() || it->second.k != AV::Int || it->second.ctIdx || it->second.cond || (it->second.lossy & 2) || (it->second.e == e && (it->second.canon & cn))) return; it->second.e = e; it->second.canon = cn; };
      switch (Ca->getOpcode()) {
      case Instruction::Trunc: {

        AV r = a; if (r.k != AV::Int) { r = freshInt(S, tb); r.un = a.un; }
        else {
          { i64 lo, hi; uint8_t lossy = a.lossy; if (tb < 62 && tb > 1 && !a.ctIdx && !a.cond) { bool in = S.P.minOf(a.e, lo) && lo >= 0 && S.P.maxOf(a.e, hi) && hi < pow2(tb); if (!in) { in = S.P.minOf(a.e, lo) && S.P.maxOf(a.e, hi) && lo >= -pow2(tb - 1) && hi < pow2(tb - 1); if (!in) lossy |= fb == 64 || (lossy & 8) ? 3 : 1; } else { r.canon = 1; } }
          uint8_t c1 = r.canon & 1; bool was = (lossy == a.lossy) && c1; r.canon = was ? 1 : 0; r.lossy = lossy; }
          if (tb == 1 && !a.cond) { i64 lo, hi; if (S.P.minOf(a.e, lo) && lo >= 0 && S.P.maxOf(a.e, hi) && hi <= 1) { r.canon = 1; r.cond = mkCmp(1, a.e, Lin(0)); } else { r = freshInt(S, 1); r.un = a.un; } }
          else if (a.cond) r.canon = 1;
          if (r.ctIdx == 1 && tb < 16) r.ctIdx = 0;
        }
        set(S, Ca, r); continue;
      }
      case Instruction::ZExt: {
        if (a.ctIdx) { AV r = a; r.canon = 3; set(S, Ca, r); continue; }
        if (fb == 1 || a.cond) { AV r = a; if (r.k != AV::Int) { r = freshInt(S, 1); r.un = a.un; } r.canon = 3; set(S, Ca, r); continue; }
        canon(std::move(S), a, fb, false, [&](State T, Lin e) { same(T, Ca->getOperand(0), e, 1); AV r = AV::mkInt(e, 3); r.un = a.un; r.lossy = a.lossy; set(T, Ca, r); exec(std::move(T), B, nx); });
        return;
      }
      case Instruction::SExt: {
        if (a.ctIdx) { AV r = a; r.canon = 2; set(S, Ca, r); continue; }
        if (fb == 1) { split(std::move(S), a, [&](State T, bool t) { AV r = AV::mkInt(Lin(t ? -1 : 0), t ? 2 : 3); r.un = a.un; set(T, Ca, r); exec(std::move(T), B, nx); }); return; }
        canon(std::move(S), a, fb, true, [&](State T, Lin e) { same(T, Ca->getOperand(0), e, 2); AV r = AV::mkInt(e, 2); r.un = a.un; r.lossy = a.lossy; set(T, Ca, r); exec(std::move(T), B, nx); });
        return;
      }
      case Instruction::PtrToInt: {
        AV r = a; // stays a pointer; subtraction handles it
        set(S, Ca, r); continue;
      }
      case Instruction::IntToPtr: { AV r = a.k == AV::Ptr ? a : AV::mkPtr(-1); i64 z; if (a.k == AV::Int && S.P.isConst(a.e, z) && z == 0) r = AV::mkPtr(0); r.un = a.un; set(S, Ca, r); continue; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: set(S, Ca, a); continue;
      default: { AV r; r.un = a.un; if (Ca->getType()->isIntegerTy()) { r = freshInt(S, tb); r.un = a.un; } set(S, Ca, r); continue; }
      }
    }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      if (!BO->getType()->isIntegerTy()) { AV r; r.un = val(S, BO->getOperand(0)).un || val(S, BO->getOperand(1)).un; set(S, BO, r); continue; }
      AV a = val(S, BO->getOperand(0)), b = val(S, BO->getOperand(1));
      bool un = a.un || b.un; unsigned bits = w(BO);
      auto op = BO->getOpcode();
      if (a.k == AV::Ptr || b.k == AV::Ptr) {
        AV r;
        if (op == Instruction::Sub && a.k == AV::Ptr && b.k == AV::Ptr && a.reg == b.reg && a.reg >= 0) {
          try { r = AV::mkInt(a.reg == 0 ? Lin(0) : a.e - b.e, 2); } catch (Ovf &) { r = freshInt(S, bits); }
          if (S.P.entGe(r.e)) r.canon = 3;
        }
        else if (op == Instruction::Sub && a.k == AV::Ptr && b.k == AV::Ptr && (a.reg == 0 || b.reg == 0 || a.reg != b.reg)) { r = AV::mkInt(fresh(S, -INF, INF), 2); if (a.reg >= 0 && b.reg >= 0) { r.weird = true; } }
        else if ((op == Instruction::Add || op == Instruction::Sub) && a.k == AV::Ptr && b.k == AV::Int && a.reg > 0) { r = a; r.e = op == Instruction::Add ? a.e + b.e : a.e - b.e; }
        else if (op == Instruction::Add && b.k == AV::Ptr && a.k == AV::Int && b.reg > 0) { r = b; r.e = a.e + b.e; }
        else r = freshInt(S, bits);
        r.un = un; r.cond = nullptr; set(S, BO, r); continue;
      }
      if (a.k != AV::Int) { bool u = a.un; a = freshInt(S, bits); a.un = u; }
      if (b.k != AV::Int) { bool u = b.un; b = freshInt(S, bits); b.un = u; }
      if (bits == 1) {
        // logic on conditions: fork
        split(std::move(S), a, [&](State T, bool x) {
          AV bb = val(T, BO->getOperand(1)); bb.un = b.un;
          split(std::move(T), bb, [&](State U, bool y) {
            bool r = op == Instruction::And ? x && y : op == Instruction::Or ? x || y : x != y;
            AV v = AV::mkInt(Lin(r), 3); v.un = un; set(U, BO, v); exec(std::move(U), B, nx);
          });
        });
        return;
      }
      auto *OB = dyn_cast<OverflowingBinaryOperator>(BO);
      bool nsw = OB && OB->hasNoSignedWrap();
      i64 ca, cb; bool ka = S.P.isConst(a.e, ca), kb = S.P.isConst(b.e, cb);
      AV r;
      auto setr = [&](State &T, Lin e, uint8_t c) { AV v = AV::mkInt(e, c); v.un = un; set(T, BO, v); };
      switch (op) {
      case Instruction::Add: case Instruction::Sub: {
        if (nsw && (!(a.canon & 2) || !(b.canon & 2))) {
          // work on signed values so that the result is exact
          Lin x, y;
          if (fastCanon(*this, S, a, bits, true, x) && fastCanon(*this, S, b, bits, true, y)) { a.e = x; b.e = y; a.canon |= 2; b.canon |= 2; }
        }
        Lin e = op == Instruction::Add ? a.e + b.e : a.e - b.e;
        setr(S, e, nsw && (a.canon & 2) && (b.canon & 2) ? 2 : 0);
        if (!(S.env[BO].canon & 1)) { // cheap canonicity for later joins
          i64 lo, hi; if (S.P.minOf(e, lo) && S.P.maxOf(e, hi)) { auto &v = S.env[BO]; if (lo >= 0 && (bits >= 62 || hi < pow2(bits))) v.canon |= 1; if (bits >= 62 || (lo >= -pow2(bits - 1) && hi < pow2(bits - 1))) v.canon |= 2; }
          else if (S.P.minOf(e, lo) && lo >= 0 && op == Instruction::Sub && (a.canon & 1) && (b.canon & 1)) S.env[BO].canon |= 1;
        }
        continue;
      }
      case Instruction::Mul: {
        if (ka && !kb) { std::swap(a, b); std::swap(ca, cb); std::swap(ka, kb); }
        if (kb && std::abs(cb) < pow2(31)) {
          Lin e = a.e * cb; uint8_t cn = nsw && (a.canon & 2) ? 2 : 0;
          i64 lo, hi; if (S.P.minOf(e, lo) && S.P.maxOf(e, hi)) { if (lo >= 0 && (bits >= 62 || hi < pow2(bits))) cn |= 1; if (bits >= 62 || (lo >= -pow2(bits - 1) && hi < pow2(bits - 1))) cn |= 2; }
          setr(S, e, cn); continue;
        }
        i64 ha, hb, la, lb; 
        if (S.P.minOf(a.e, la) && la >= 0 && S.P.minOf(b.e, lb) && lb >= 0 && S.P.maxOf(a.e, ha) && S.P.maxOf(b.e, hb) && (i128)ha * hb < (bits >= 62 ? (i128)INF : (i128)pow2(bits))) { setr(S, fresh(S, la * lb, ha * hb), 1); continue; }
        r = freshInt(S, bits); r.un = un; set(S, BO, r); continue;
      }
      case Instruction::Shl:
        if (kb && cb >= 0 && cb < 40) {
          // value bits shifted out are lost: only exact when the result fits
          Lin e = a.e * pow2(cb); i64 lo, hi; uint8_t cn = 0;
          if (S.P.minOf(e, lo) && S.P.maxOf(e, hi)) { if (lo >= 0 && (bits >= 62 || hi < pow2(bits))) cn |= 1; if (bits >= 62 || (lo >= -pow2(bits - 1) && hi < pow2(bits - 1))) cn |= 2; }
          setr(S, e, cn); continue;
        }
        if (ka && ca >= 0) { i64 hb, lb; if (S.P.minOf(b.e, lb) && lb >= 0 && S.P.maxOf(b.e, hb) && hb < 40 && ca < (1 << 20)) { Lin e = fresh(S, ca, ca * pow2(hb)); setr(S, e, (i128)ca * pow2(hb) < (i128)pow2(std::min(bits, 61u)) ? 1 : 0); continue; } }
        r = freshInt(S, bits); r.un = un; set(S, BO, r); continue;
      case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        bool sg = op == Instruction::AShr || op == Instruction::SDiv || op == Instruction::SRem;
        bool shift = op == Instruction::LShr || op == Instruction::AShr;
        canon(std::move(S), a, bits, sg, [&](State T, Lin x) {
          canon(std::move(T), b, bits, sg && !shift, [&](State U, Lin y) {
            cur = BO;
            i64 c; bool kc = U.P.isConst(y, c);
            i64 lo, hi; bool hl = U.P.minOf(x, lo), hh = U.P.maxOf(x, hi); bool nn = hl && lo >= 0;
            auto out = [&](State &V, Lin e, uint8_t cn) { AV v = AV::mkInt(e, cn); v.un = un; set(V, BO, v); };
            if (!shift) { ob("divisor"); if (!(U.P.entGe(y - Lin(1)) || U.P.entGe(Lin(-1) - y))) alarm("divzero", "the divisor may be zero"); }
            if (nn && kc && c >= (shift ? 0 : 1) && (!shift || c < 62)) {
              i64 d = shift ? pow2(c) : c;
              Lin q = quotient(*this, U, x, d, BO);
              if (op == Instruction::URem || op == Instruction::SRem) out(U, x - q * d, 3);
              else out(U, q, (d > 1 || bits >= 62 || (hh && hi < pow2(bits - 1))) ? 3 : 1);
            } else if (nn && shift) { Lin q = fresh(U, 0, hh ? hi : INF); U.P.addIneq(x - q, false); out(U, q, 1); }
            else if (nn && U.P.entGe(y - Lin(1))) {
              Lin q = fresh(U, 0, hh ? hi : INF); U.P.addIneq(x - q, false);
              if (op == Instruction::URem || op == Instruction::SRem) U.P.addIneq(y - q - Lin(1));
              out(U, q, 1);
            } else { AV v = freshInt(U, bits); v.un = un; set(U, BO, v); }
            exec(std::move(U), B, nx);
          });
        });
        return;
      }
      case Instruction::And: {
        if (ka && !kb) { std::swap(a, b); std::swap(ca, cb); std::swap(ka, kb); }
        if (a.ctIdx == 1 && kb) { AV v = a; v.ctIdx = 2; v.mask = cb & 0xffff; v.e = fresh(S, 0, 65535); v.un = un; set(S, BO, v); continue; }
        canon(std::move(S), a, bits, false, [&](State T, Lin x) {
          AV v; i64 c = 0; bool kc = T.P.isConst(b.e, c);
          if (kc && bits < 62) c &= pow2(bits) - 1;
          i64 hi; bool hh = T.P.maxOf(x, hi); i64 cx;
          if (kc && T.P.isConst(x, cx)) v = AV::mkInt(Lin(cx & c), 1);
          else if (kc && c == 0) v = AV::mkInt(Lin(0), 3);
          else if (kc && c > 0) {
            // contiguous mask?
            unsigned l = __builtin_ctzll((uint64_t)c); uint64_t s = (uint64_t)c >> l; bool contig = (s & (s + 1)) == 0;
            if (l == 0 && contig && hh && hi <= c) v = AV::mkInt(x, 1);
            else if (contig && hh) {
              unsigned h = l; while (s) { h++; s >>= 1; }
              // x = low + mid + high
              Lin q = l ? quotient(*this, T, x, pow2(l), BO) : x; // x / 2^l
              Lin mid;
              if (hi < pow2(h)) mid = q; else { Lin q2 = quotient(*this, T, q, pow2(h - l), BO); mid = q - q2 * pow2(h - l); }
              v = AV::mkInt(mid * pow2(l), 1);
            } else if (contig && !hh && l == 0 && c < pow2(40)) {
              Lin q2 = quotient(*this, T, x, c + 1, BO); v = AV::mkInt(x - q2 * (c + 1), 1);
            } else { Lin f = fresh(T, 0, c); T.P.addIneq(x - f, false); v = AV::mkInt(f, 1); }
          } else if (kc && c < 0) { // 64-bit mask clearing low bits
            uint64_t n = ~(uint64_t)c;
            if ((n & (n + 1)) == 0) { Lin q = quotient(*this, T, x, (i64)n + 1, BO); v = AV::mkInt(q * ((i64)n + 1), 1); }
            else { Lin f = fresh(T, 0, INF); T.P.addIneq(x - f, false); v = AV::mkInt(f, 1); }
          } else { Lin f = fresh(T, 0, hh ? hi : INF); T.P.addIneq(x - f, false); i64 hb, lb; if (T.P.minOf(b.e, lb) && lb >= 0 && (b.canon & 1)) { T.P.addIneq(b.e - f, false); } (void)hb; v = AV::mkInt(f, 1); }
          v.un = un; set(T, BO, v); exec(std::move(T), B, nx);
        });
        return;
      }
      case Instruction::Or: case Instruction::Xor: {
        if (op == Instruction::Xor && kb && cb == -1) { setr(S, Lin(-1) - a.e, a.canon & 2); continue; }
        canon(std::move(S), a, bits, false, [&](State T, Lin x) {
          canon(std::move(T), b, bits, false, [&](State U, Lin y) {
            i64 hx, hy; bool bx = U.P.maxOf(x, hx), by = U.P.maxOf(y, hy); AV v; i64 cx, cy;
            auto up = [](i64 h) { i64 m = 1; while (m <= h) m <<= 1; return m; };
            if (U.P.isConst(x, cx) && U.P.isConst(y, cy)) v = AV::mkInt(Lin(op == Instruction::Or ? cx | cy : cx ^ cy), 1);
            else if (by && hy < pow2(40) && multipleOf(U, x, up(hy))) v = AV::mkInt(x + y, 1);
            else if (bx && hx < pow2(40) && multipleOf(U, y, up(hx))) v = AV::mkInt(x + y, 1);
            else if (bx && by) { Lin f = fresh(U, 0, up(std::max(hx, hy)) - 1); if (op == Instruction::Or) { U.P.addIneq(f - x, false); U.P.addIneq(f - y, false); U.P.addIneq(x + y - f, false); } v = AV::mkInt(f, 1); }
            else v = freshInt(U, bits);
            v.un = un; set(U, BO, v); exec(std::move(U), B, nx);
          });
        });
        return;
      }
      default: r = freshInt(S, bits); r.un = un; set(S, BO, r); continue;
      }
    }
    if (auto *Fz = dyn_cast<FreezeInst>(&I)) { AV a = val(S, Fz->getOperand(0)); set(S, Fz, a); continue; }
    if (isa<PHINode>(&I)) continue;
    // anything else: unknown result
    { AV r; if (I.getType()->isIntegerTy()) r = freshInt(S, w(&I)); else if (I.getType()->isPointerTy()) r = AV::mkPtr(-1); if (!I.getType()->isVoidTy()) set(S, &I, r); }
    } catch (Ovf &) {
      // arithmetic on coefficients overflowed: give the result no value
      if (I.isTerminator()) { broken = true; brokenWhy = "coefficient overflow at a terminator"; return; }
      AV r; if (I.getType()->isIntegerTy()) r = freshInt(S, w(&I)); else if (I.getType()->isPointerTy()) r = AV::mkPtr(-1);
      if (!I.getType()->isVoidTy()) set(S, &I, r);
      if (isa<StoreInst>(&I) || isa<CallInst>(&I)) { broken = true; brokenWhy = "coefficient overflow"; return; }
    }
  }
}
