// Abstract interpreter: dimensions, control flow, fixpoint, joins.
#include "absint.h"
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ConstantFolding.h>
using namespace llvm;

// ---- dimensions
static std::map<std::tuple<int, const void *, long, long>, int> dimTab;
static std::vector<std::tuple<int, const void *, long, long>> dimInfo;
int dimOf(DK k, const void *p, long a, long b) {
  auto key = std::make_tuple((int)k, p, a, b);
  auto it = dimTab.find(key);
  if (it != dimTab.end()) return it->second;
  int d = dimInfo.size(); dimInfo.push_back(key); dimTab[key] = d; return d;
}
int newTmp() { int d = dimInfo.size(); dimInfo.push_back(std::make_tuple((int)D_TMP, nullptr, 0L, 0L)); return d; }
static std::map<std::pair<const void *, long>, int> regTab;
static std::vector<std::string> regNames(1, "null");
int regionId(const void *site, long idx, const std::string &name) {
  auto k = std::make_pair(site, idx);
  auto it = regTab.find(k);
  if (it != regTab.end()) return it->second;
  int r = regNames.size(); regNames.push_back(name); regTab[k] = r; return r;
}
std::string regionName(int id) { return id < 0 ? "unknown" : regNames[id]; }
std::string dimName(int d) {
  if (d >= (int)dimInfo.size()) return "tmp" + std::to_string(d);
  auto [k, p, a, b] = dimInfo[d];
  switch (k) {
  case D_TMP: return "t" + std::to_string(d);
  case D_SSA: { auto *v = (const Value *)p; std::string s; if (v->hasName()) s = "%" + v->getName().str(); else { raw_string_ostream o(s); v->printAsOperand(o, false); } return s; }
  case D_CELL: return regionName(a) + "[" + std::to_string(b) + "]";
  case D_SIZE: return "size(" + regionName(a) + ")";
  case D_Z: return "nul(" + regionName(a) + ")";
  case D_ILO: return "ilo(" + regionName(a) + ")";
  case D_IHI: return "ihi(" + regionName(a) + ")";
  case D_HOLE: return "hole(" + regionName(a) + ")";
  case D_LO: return "lo(" + regionName(a) + ")";
  case D_HI: return "hi(" + regionName(a) + ")";
  case D_F: return "foc(" + regionName(a) + ")";
  case D_FCELL: return regionName(a) + "<" + std::to_string(b) + ">";
  case D_FOFF: return "foff" + std::to_string(d);
  case D_FVAL: return "fval" + std::to_string(d);
  case D_GHOST: return "g" + std::to_string(a);
  }
  return "d" + std::to_string(d);
}

// ---- CFG
static bool finiteInt(const Value *v, std::set<const Value *> &seen, bool &status) {
  if (isa<ConstantInt>(v)) return true;
  if (!seen.insert(v).second) return true;
  if (auto *P = dyn_cast<PHINode>(v)) { for (auto &u : P->incoming_values()) if (!finiteInt(u, seen, status)) return false; return true; }
  if (auto *Z = dyn_cast<CastInst>(v)) { if (Z->getOperand(0)->getType()->isIntegerTy(1)) return true; if (Z->getOperand(0)->getType()->isIntegerTy()) return finiteInt(Z->getOperand(0), seen, status); return false; }
  if (auto *S = dyn_cast<SelectInst>(v)) return finiteInt(S->getTrueValue(), seen, status) && finiteInt(S->getFalseValue(), seen, status);
  if (auto *C = dyn_cast<CallInst>(v)) {
    auto *G = C->getCalledFunction();
    if (G && G->getName().starts_with("__uninit")) return true;
    if (G && hasContract(*G) && v->getType()->isIntegerTy(32)) { status = true; return true; }
    return false;
  }
  if (v->getType()->isIntegerTy(1)) return true;
  return false;
}
void Interp::analyseCFG() {
  // liveness with look-through of cheap operands
  std::vector<const BasicBlock *> bbs;
  for (auto &B : F) bbs.push_back(&B);
  auto tracked = [](const Value *v) { return isa<Instruction>(v); };
  std::map<const BasicBlock *, std::set<const Value *>> use, def;
  for (auto *B : bbs) {
    for (auto &I : *B) {
      if (!isa<PHINode>(I)) for (auto &o : I.operands()) if (tracked(o) && !def[B].count(o)) use[B].insert(o);
      def[B].insert(&I);
    }
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto it = bbs.rbegin(); it != bbs.rend(); ++it) {
      auto *B = *it;
      std::set<const Value *> out;
      for (auto *T : successors(B)) {
        for (auto *v : liveIn[T]) if (!(isa<PHINode>(v) && cast<Instruction>(v)->getParent() == T)) out.insert(v);
        for (auto &P : T->phis()) { auto *v = P.getIncomingValueForBlock(B); if (tracked(v)) out.insert(v); }
      }
      for (auto *v : def[B]) if (!isa<PHINode>(v) || cast<Instruction>(v)->getParent() == B) { if (!isa<PHINode>(v)) out.erase(v); else out.erase(v); }
      for (auto *v : use[B]) out.insert(v);
      for (auto &P : B->phis()) out.insert(&P); // phis are set on entry
      if (out != liveIn[B]) { liveIn[B] = out; ch = true; }
    }
  }
  // loops
  DominatorTree DT(F); LoopInfo LI(DT);
  std::function<void(Loop *)> vl = [&](Loop *L) {
    heads.insert(L->getHeader());
    std::vector<const BasicBlock *> b(L->block_begin(), L->block_end());
    loopOf[L->getHeader()] = b;
    for (auto *s : L->getSubLoops()) vl(s);
  };
  for (auto *L : LI) vl(L);
  // finite-valued integers
  for (auto &I : instructions(F)) if (auto *P = dyn_cast<PHINode>(&I)) if (P->getType()->isIntegerTy()) {
    std::set<const Value *> seen; bool st = false;
    if (finiteInt(P, seen, st)) { keyInts.insert(P); if (st) statusInts.insert(P); }
  }
  for (auto &I : instructions(F)) {
    if (I.getType()->isIntegerTy(1)) keyInts.insert(&I);
    if (auto *C = dyn_cast<CallInst>(&I)) if (C->getCalledFunction() && hasContract(*C->getCalledFunction()) && I.getType()->isIntegerTy(32)) { keyInts.insert(&I); statusInts.insert(&I); }
    if (auto *Z = dyn_cast<ZExtInst>(&I)) if (Z->getOperand(0)->getType()->isIntegerTy(1)) keyInts.insert(&I);
  }
  // cursors into constant tables of structures: their position separates states
  for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) {
    if (!L->getType()->isIntegerTy()) continue;
    std::set<const Value *> seen; std::vector<const Value *> st{L->getPointerOperand()}; std::vector<const Value *> ph; bool tab = false;
    while (!st.empty()) {
      auto *v = st.back(); st.pop_back(); if (!seen.insert(v).second) continue;
      if (auto *G = dyn_cast<GlobalVariable>(v)) { Type *T = G->getValueType(); if (G->isConstant() && G->hasInitializer() && T->isAggregateType() && !(T->isArrayTy() && T->getArrayElementType()->isIntegerTy())) tab = true; continue; }
      if (isa<PHINode>(v)) ph.push_back(v);
      if (isa<GEPOperator>(v) || isa<CastInst>(v) || isa<PHINode>(v) || isa<SelectInst>(v) || isa<BinaryOperator>(v)) for (auto &o : cast<User>(v)->operands()) if (!isa<BasicBlock>(o)) st.push_back(o);
    }
    if (tab) for (auto *p : ph) walkers.insert(p);
  }
  // comparisons with constants whose outcome is still to be used: partition on them
  {
    std::map<const Value *, std::vector<const ICmpInst *>> cm;
    for (auto &I : instructions(F)) if (auto *C = dyn_cast<ICmpInst>(&I)) if (isa<ConstantInt>(C->getOperand(1)) && C->getOperand(0)->getType()->isIntegerTy()) {
      const Value *v = C->getOperand(0);
      for (int i = 0; i < 3; i++) if (auto *Z = dyn_cast<CastInst>(v)) { if (!Z->getOperand(0)->getType()->isIntegerTy()) break; v = Z->getOperand(0); } else break;
      if (isa<Instruction>(v) || isa<Argument>(v)) cm[v].push_back(C);
    }
    std::set<std::pair<const Value *, std::pair<const BasicBlock *, const ICmpInst *>>> done;
    // v is compared by C once control reaches block `from`: partition everywhere between v's definition and there
    std::function<void(const Value *, const ICmpInst *, const BasicBlock *, int)> mark = [&](const Value *v, const ICmpInst *C, const BasicBlock *from, int depth) {
      auto *VI = dyn_cast<Instruction>(v); if ((!VI && !isa<Argument>(v)) || depth > 3 || !done.insert({v, {from, C}}).second) return;
      auto *DB = VI ? VI->getParent() : &F.getEntryBlock();
      std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> st;
      auto *P = dyn_cast<PHINode>(v);
      if (from != DB || P) st.push_back(from);
      while (!st.empty()) { auto *b = st.back(); st.pop_back(); if (!seen.insert(b).second) continue; if (b == DB) continue; for (auto *q : predecessors(b)) st.push_back(q); }
      if (!P) seen.erase(DB);
      for (auto *b : seen) { auto &cv = cmps[b]; std::pair<const Value *, const ICmpInst *> q{v, C}; if (std::find(cv.begin(), cv.end(), q) == cv.end()) cv.push_back(q); }
      if (P) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) mark(P->getIncomingValue(i), C, P->getIncomingBlock(i), depth + 1);
    };
    for (auto &p : cm) for (auto *C : p.second) mark(p.first, C, C->getParent(), 0);
  }
  // small counters: constant start, constant step, limit constant (<=16) or downwards from <=16
  for (auto *H : heads) for (auto &P : H->phis()) {
    if (!P.getType()->isIntegerTy()) continue;
    bool ok = true, down = false, up = false; bool small = true; std::set<const Value *> via;
    for (unsigned i = 0; i < P.getNumIncomingValues() && ok; i++) {
      const Value *v = P.getIncomingValue(i);
      bool inl = false;
      for (auto *b : loopOf[H]) if (b == P.getIncomingBlock(i)) inl = true;
      if (!inl) {
        std::set<const Value *> seen; std::vector<const Value *> st{v};
        while (!st.empty()) { auto *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
          if (auto *c = dyn_cast<ConstantInt>(x)) { if (c->getValue().getActiveBits() > 5 || c->getZExtValue() > 16) ok = false; }
          else if (auto *q = dyn_cast<PHINode>(x)) { if (q->getParent() == H) ok = false; for (auto &o : q->incoming_values()) st.push_back(o); }
          else ok = false; }
      } else {
        std::set<const Value *> seen; std::vector<const Value *> st{v};
        while (!st.empty() && ok) { auto *x = st.back(); st.pop_back(); if (x == &P || !seen.insert(x).second) continue;
          if (auto *q = dyn_cast<PHINode>(x)) { if (heads.count(q->getParent()) || seen.size() > 8) { ok = false; break; } via.insert(q); for (auto &o : q->incoming_values()) st.push_back(o); continue; }
          auto *A = dyn_cast<BinaryOperator>(x);
          const ConstantInt *c = A ? dyn_cast<ConstantInt>(A->getOperand(1)) : nullptr;
          if (!A || A->getOpcode() != Instruction::Add || !c || (A->getOperand(0) != &P)) { ok = false; break; }
          via.insert(A);
          if (c->getSExtValue() < 0) down = true; else if (c->getSExtValue() > 0 && c->getSExtValue() <= 8) up = true; else ok = false; }
      }
    }
    if (!ok || up == down) continue;
    if (up) {
      small = false;
      std::set<const Value *> al{&P};
      for (auto *U : P.users()) if (isa<CastInst>(U)) al.insert(U);
      for (auto *a : al) for (auto *U : a->users()) if (auto *IC = dyn_cast<ICmpInst>(U)) for (auto &o : IC->operands()) if (auto *c = dyn_cast<ConstantInt>(o)) if (c->getValue().getActiveBits() <= 5 && c->getZExtValue() <= 16) {
        bool inl = false; for (auto *b : loopOf[H]) if (b == IC->getParent()) inl = true;
        if (inl && !IC->isEquality()) small = true;
      }
      if (!small) continue;
      // one that never selects a location or leaves the loop need not be followed value by value
      std::set<const Value *> seen; std::vector<const Value *> st{&P}; bool used = false;
      while (!st.empty() && !used) { auto *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
        for (auto *U : x->users()) { if (isa<BinaryOperator>(U) || isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) st.push_back(U); else if (!isa<ICmpInst>(U)) used = true; } }
      if (!used) continue;
    }
    counters.insert(&P); counters.insert(via.begin(), via.end());
  }
  // weak topological order
  std::map<const BasicBlock *, int> dfn; std::vector<const BasicBlock *> stk; int num = 0;
  std::function<void(const BasicBlock *, std::vector<Comp> &)> dummy;
  struct V { Interp *I; std::map<const BasicBlock *, int> dfn; std::vector<const BasicBlock *> st; int num = 0;
    Comp component(const BasicBlock *v) { std::vector<Comp> part; for (auto *s : successors(v)) if (dfn[s] == 0) visit(s, part); std::reverse(part.begin(), part.end()); Comp c; c.head = v; c.body = part; c.isLoop = true; return c; }
    int visit(const BasicBlock *v, std::vector<Comp> &part) {
      st.push_back(v); int head = dfn[v] = ++num; bool loop = false;
      for (auto *s : successors(v)) { int m = dfn[s] == 0 ? visit(s, part) : dfn[s]; if (m <= head) { head = m; loop = true; } }
      if (head == dfn[v]) {
        dfn[v] = INT_MAX; auto *e = st.back(); st.pop_back();
        if (loop) { while (e != v) { dfn[e] = 0; e = st.back(); st.pop_back(); } part.push_back(component(v)); }
        else { Comp c; c.head = v; c.isLoop = false; part.push_back(c); }
      }
      return head;
    } } vis; vis.I = this;
  vis.visit(&F.getEntryBlock(), wto);
  std::reverse(wto.begin(), wto.end());
  std::function<void(const std::vector<Comp> &)> num2 = [&](const std::vector<Comp> &cs) { for (auto &c : cs) { order[c.head] = order.size(); if (c.isLoop) heads.insert(c.head); num2(c.body); } };
  num2(wto);
  std::set<i64> th{0, 1, 2, 3, 4, 8, 16, 63, 64, 127, 128, 255, 256, 65535};
  for (auto &I : instructions(F)) {
    if (auto *A = dyn_cast<AllocaInst>(&I)) { i64 n = DL.getTypeAllocSize(A->getAllocatedType()); for (int k = -2; k <= 1; k++) if (n + k >= 0) th.insert(n + k); }
    if (auto *C = dyn_cast<ICmpInst>(&I)) for (auto &o : C->operands()) if (auto *c = dyn_cast<ConstantInt>(o)) if (c->getValue().getSignificantBits() < 40) for (int k = -1; k <= 1; k++) th.insert(std::abs(c->getSExtValue() + k));
  }
  thresholds.assign(th.begin(), th.end());
}

// ---- slots
static AV &slotAV(AV &a) { return a; }
void Interp::slotsOf(State &S, std::vector<std::pair<int, Lin *>> &sl, const std::set<const Value *> *live) {
  for (auto &p : S.env) if (p.second.k == AV::Int || (p.second.k == AV::Ptr && p.second.reg > 0)) sl.push_back({dimOf(D_SSA, p.first), &p.second.e});
  for (auto &rp : S.regs) {
    auto n = std::make_shared<Region>(*rp.second); rp.second = n; int id = rp.first;
    if (!n->isGlobal || !n->size.t.empty()) sl.push_back({dimOf(D_SIZE, nullptr, id), &n->size});
    if (n->hasZ) sl.push_back({dimOf(D_Z, nullptr, id), &n->Z});
    if (!n->isGlobal) { sl.push_back({dimOf(D_ILO, nullptr, id), &n->ilo}); sl.push_back({dimOf(D_IHI, nullptr, id), &n->ihi}); if (n->hasHole) sl.push_back({dimOf(D_HOLE, nullptr, id), &n->hole}); }
    for (auto &c : n->cells) if (c.second.v.k == AV::Int || (c.second.v.k == AV::Ptr && c.second.v.reg > 0)) sl.push_back({dimOf(D_CELL, nullptr, id, c.first), &c.second.v.e});
    if (n->et) { sl.push_back({dimOf(D_LO, nullptr, id), &n->LO}); sl.push_back({dimOf(D_HI, nullptr, id), &n->HI}); }
    if (n->hasF) { sl.push_back({dimOf(D_F, nullptr, id), &n->F}); for (auto &c : n->fcells) if (c.second.v.k == AV::Int || (c.second.v.k == AV::Ptr && c.second.v.reg > 0)) sl.push_back({dimOf(D_FCELL, nullptr, id, c.first), &c.second.v.e}); }
  }
  for (auto &f : S.facts) { sl.push_back({dimOf(D_FOFF, f.site, f.kind), &f.off}); sl.push_back({dimOf(D_FVAL, f.site, f.kind), &f.val}); }
  for (auto &g : S.ghosts) sl.push_back({dimOf(D_GHOST, nullptr, g.first), &g.second.second});
}
void Interp::renameSlots(State &S, std::vector<std::pair<int, Lin *>> &sl) {
  std::set<int> keep; std::vector<std::pair<int, int>> ren;
  std::set<int> ids;
  for (auto &s : sl) {
    i64 c;
    if (!ids.insert(s.first).second) { broken = true; brokenWhy = "internal: two quantities share a dimension"; }
    if (s.second->t.empty()) continue;
    if (S.P.isConst(*s.second, c)) { *s.second = Lin(c); continue; }
    if (*s.second == Lin::var(s.first)) { keep.insert(s.first); continue; }
    int t = newTmp();
    try { S.P.addEq(Lin::var(t) - *s.second); } catch (Ovf &) {}
    keep.insert(t); ren.push_back({t, s.first});
    *s.second = Lin::var(s.first);
  }
  S.P.keep([&](int d) { return keep.count(d) > 0; });
  for (auto &r : ren) S.P.rename(r.first, r.second);
}

// ---- garbage collection of regions, leak detection
void Interp::gc(State &S, const std::function<void(std::set<int> &)> &roots, const char *where) {
  std::set<int> seen; roots(seen);
  std::vector<int> work(seen.begin(), seen.end());
  while (!work.empty()) {
    int r = work.back(); work.pop_back();
    if (!S.has(r)) continue;
    const Region &R = S.R(r);
    auto push = [&](const AV &v) { if (v.k == AV::Ptr && v.reg > 0 && seen.insert(v.reg).second) work.push_back(v.reg); };
    if (!R.freed) { for (auto &c : R.cells) push(c.second.v); if (R.hasF) for (auto &c : R.fcells) push(c.second.v); }
  }
  for (auto it = S.regs.begin(); it != S.regs.end();) {
    int id = it->first; const Region &R = *it->second;
    if (seen.count(id)) { ++it; continue; }
    if (R.owned && !R.freed) { if (record) { if (getenv("ABS_DUMP")) { errs() << "LEAK " << regionName(id) << " " << locOf(cur) << "\n"; dump(S); } ob("leak"); alarm("leak", std::string("memory ") + regionName(id) + " is still allocated but no longer reachable " + where); } }
    else if (R.owned && R.freed && record) ob("leak");
    it = S.regs.erase(it);
  }
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && !S.has(f.reg); }), S.facts.end());
}

void Interp::normalise(State &S0, const BasicBlock *from, const BasicBlock *to, States &out) {
  // split on unresolved conditions carried into `to`
  std::vector<State> todo{S0};
  auto need = [&](State &S) -> const AV * {
    static AV tmp;
    for (auto &P : to->phis()) { tmp = val(S, P.getIncomingValueForBlock(from)); i64 c; if (tmp.k == AV::Int && tmp.cond && !S.P.isConst(tmp.e, c)) return &tmp; }
    for (auto *v : liveIn[to]) { auto it = S.env.find(v); if (it != S.env.end() && it->second.k == AV::Int && it->second.cond && !isa<PHINode>(v)) { i64 c; if (!S.P.isConst(it->second.e, c)) { tmp = it->second; return &tmp; } } }
    return nullptr;
  };
  int guard = 0;
  while (!todo.empty()) {
    State S = std::move(todo.back()); todo.pop_back();
    const AV *a = guard++ < 64 ? need(S) : nullptr;
    if (a) {
      AV av = *a;
      split(S, av, [&](State T, bool) { todo.push_back(std::move(T)); });
      continue;
    }
    { auto pd = S.ghosts.find(4); if (pd != S.ghosts.end() && S.P.entGe(Lin(63) - pd->second.second)) { S.ghosts.erase(4); S.flags.erase("pend"); } }
    if (fine) {
      if (heads.count(to)) for (auto it = S.flags.begin(); it != S.flags.end();) it = it->compare(0, 5, "exit:") == 0 ? S.flags.erase(it) : std::next(it);
      for (auto &l : loopOf) if (std::find(l.second.begin(), l.second.end(), from) != l.second.end() && std::find(l.second.begin(), l.second.end(), to) == l.second.end()) { char b[40]; snprintf(b, sizeof b, "exit:%p", (const void *)from); S.flags.insert(b); break; }
    }
    if (onHead && heads.count(to)) { onHead(S); if (S.P.bot) continue; }
    std::map<const Value *, AV> env;
    std::vector<std::pair<const PHINode *, AV>> ph;
    for (auto &P : to->phis()) {
      auto *iv = P.getIncomingValueForBlock(from);
      if (P.getType()->isPointerTy() && isa<GlobalVariable>(iv) && strPhi(&P)) ph.push_back({&P, AV::mkPtr(summaryString(S, &P, 0, "static string"))});
      else ph.push_back({&P, val(S, iv)});
    }
    for (auto *v : liveIn[to]) { auto it = S.env.find(v); if (it != S.env.end() && !(isa<PHINode>(v) && cast<Instruction>(v)->getParent() == to)) env[v] = it->second; }
    for (auto &p : ph) env[p.first] = p.second;
    for (auto &A : F.args()) { auto it = S.env.find(&A); if (it != S.env.end()) env[&A] = it->second; }
    S.env.swap(env);
    for (auto &p : S.env) { p.second.cond = nullptr; p.second.ctIdx = 0; p.second.e2 = Lin(); }
    for (auto &r : S.regs) { bool any = false; for (auto &c : r.second->cells) if (c.second.v.cond || c.second.v.ctIdx) any = true; if (any) { auto &W = S.W(r.first); for (auto &c : W.cells) { c.second.v.cond = nullptr; c.second.v.ctIdx = 0; } } }
    gc(S, [&](std::set<int> &rs) { for (auto &p : S.env) if (p.second.k == AV::Ptr && p.second.reg > 0) rs.insert(p.second.reg); for (auto &g : S.ghosts) if (g.second.first > 0) rs.insert(g.second.first);
      for (auto &r : S.regs) if ((r.second->stack && !r.second->dead) || (r.second->owned && isa<UnreachableInst>(to->getTerminator()))) rs.insert(r.first); }, "");
    if (heads.count(to)) S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [](const Fact &f) { return f.kind == 1; }), S.facts.end());
    if (heads.count(to)) { // of a local array of octets only the range of each octet matters to a loop
      std::vector<int> ids; for (auto &r : S.regs) if (r.second->stack && !r.second->et && std::count_if(r.second->cells.begin(), r.second->cells.end(), [](const std::pair<const long, Cell> &c) { return c.second.sz == 1; }) >= 4) ids.push_back(r.first);
      for (int id : ids) { Region &W = S.W(id); for (auto &c : W.cells) { AV &v = c.second.v; i64 lo, hi, z;
        if (c.second.sz == 1 && v.k == AV::Int && !S.P.isConst(v.e, z) && S.P.minOf(v.e, lo) && S.P.maxOf(v.e, hi)) { v.e = fresh(S, lo, hi); v.e2 = Lin(); } } }
    }
    // facts: a quotient that nothing uses any more ties quantities together for no purpose
    if (!S.facts.empty()) {
      std::set<int> ds; auto add = [&](const Lin &e) { Lin f = e; try { S.P.reduce(f); } catch (Ovf &) {} for (auto &t : f.t) ds.insert(t.first); };
      for (auto &p : S.env) add(p.second.e);
      for (auto &r : S.regs) { const Region &R = *r.second; add(R.size); add(R.Z); add(R.ilo); add(R.ihi); add(R.LO); add(R.HI); add(R.F); for (auto &c : R.cells) add(c.second.v.e); for (auto &c : R.fcells) add(c.second.v.e); }
      for (auto &g : S.ghosts) add(g.second.second);
      S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { if (f.kind != 1) return false; Lin v = f.val; try { S.P.reduce(v); } catch (Ovf &) {} for (auto &t : v.t) if (ds.count(t.first)) return false; return true; }), S.facts.end());
    }
    // facts: keep the most recent ones only
    if (S.facts.size() > 6) S.facts.erase(S.facts.begin(), S.facts.end() - 6);
    std::vector<std::pair<int, Lin *>> sl;
    slotsOf(S, sl, nullptr);
    renameSlots(S, sl);
    if (S.P.bot) continue;
    if (heads.count(to)) { // relations with large slopes (byte swaps) are of no use to a loop and exhaust the arithmetic
      auto &q = S.P.ineqs;
      std::set<int> ds; // but the ranges they imply are kept
      for (auto &f : q) { bool big = f.t.size() >= 2 && std::any_of(f.t.begin(), f.t.end(), [](const std::pair<int, i64> &t) { return t.second >= 128 || t.second <= -128; }); if (big) for (auto &t : f.t) ds.insert(t.first); }
      std::vector<Lin> rng;
      std::set<Lin> parts; // the terms with one slope
      for (auto &f : q) { if (f.t.size() < 3) continue; std::map<i64, Lin> by; for (auto &t : f.t) { i64 k = t.second < 0 ? -t.second : t.second; by[k].t.push_back({t.first, t.second / k}); } if (by.size() > 1 && by.rbegin()->first >= 128) for (auto &b : by) if (b.second.t.size() >= 2) { Lin h = b.second; if (h.t[0].second < 0) for (auto &t : h.t) t.second = -t.second; parts.insert(h); } }
      for (auto &h : parts) { i64 v; if (S.P.minOf(h, v)) rng.push_back(h - Lin(v)); if (S.P.maxOf(h, v)) rng.push_back(Lin(v) - h); }
      for (int d : ds) { i64 v; if (S.P.minOf(Lin::var(d), v)) rng.push_back(Lin::var(d) - Lin(v)); if (S.P.maxOf(Lin::var(d), v)) rng.push_back(Lin(v) - Lin::var(d)); }
      q.erase(std::remove_if(q.begin(), q.end(), [](const Lin &f) { if (f.t.size() < 2) return false; for (auto &t : f.t) if (t.second >= 128 || t.second <= -128) return true; return false; }), q.end());
      for (auto &f : rng) S.P.addIneq(f);
    }
    out.push_back(std::move(S));
  }
}

// a choice between constant strings: which one it is does not matter
static bool isConstString(const Value *v) {
  auto *G = dyn_cast<GlobalVariable>(v); if (!G || !G->isConstant() || !G->hasInitializer()) return false;
  if (auto *Z = dyn_cast<ConstantAggregateZero>(G->getInitializer())) { auto *T = dyn_cast<ArrayType>(Z->getType()); return T && T->getElementType()->isIntegerTy(8) && T->getNumElements() == 1; }
  auto *D = dyn_cast<ConstantDataArray>(G->getInitializer()); return D && D->isCString();
}
bool Interp::strPhi(const PHINode *P) {
  auto it = strPhis.find(P); if (it != strPhis.end()) return it->second;
  std::set<const Value *> g; for (auto &v : P->incoming_values()) if (isConstString(v)) g.insert(v); else if (isa<GlobalVariable>(v)) { g.clear(); break; }
  return strPhis[P] = g.size() >= 2;
}
// truth of `v op c` for a value in its canonical range, without splitting; -1 unknown
int Interp::cmpTruth(const State &S, const AV &a, const ICmpInst *C) {
  auto *c = cast<ConstantInt>(C->getOperand(1)); unsigned bw = c->getBitWidth();
  const Value *v = C->getOperand(0); bool sx = C->isSigned(); unsigned sbw = bw;
  while (auto *Z = dyn_cast<CastInst>(v)) { if (!Z->getOperand(0)->getType()->isIntegerTy()) break; v = Z->getOperand(0); if (isa<TruncInst>(Z)) sbw = std::min<unsigned>(sbw, Z->getType()->getIntegerBitWidth()); sbw = std::min<unsigned>(sbw, v->getType()->getIntegerBitWidth()); }
  i64 lo, hi; if (!S.P.minOf(a.e, lo) || !S.P.maxOf(a.e, hi)) return -1;
  if (lo < 0 && !(sx && sbw == bw && bw >= 32)) return -1;
  if (sbw < 63 && hi >= ((i64)1 << sbw)) return -1;
  if (sx && bw <= 63 && hi >= ((i64)1 << (bw - 1))) return -1;
  if (sx && lo < 0 && bw <= 63 && lo < -((i64)1 << (bw - 1))) return -1;
  if (c->getValue().getActiveBits() > 62 && !sx) return -1;
  i64 k = sx ? c->getSExtValue() : (i64)c->getZExtValue();
  switch (C->getPredicate()) {
  case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
    int r = -1; if (lo == hi) r = lo == k; else if (k < lo || k > hi) r = 0;
    if (r < 0) return r; return C->getPredicate() == CmpInst::ICMP_EQ ? r : !r; }
  case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return hi < k ? 1 : lo >= k ? 0 : -1;
  case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return hi <= k ? 1 : lo > k ? 0 : -1;
  case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return lo > k ? 1 : hi <= k ? 0 : -1;
  case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return lo >= k ? 1 : hi < k ? 0 : -1;
  default: return -1;
  }
}
std::string Interp::keyOf(const State &S, const BasicBlock *B) {
  std::string k; int lvl = 0; auto ci = coarse.find(B); if (ci != coarse.end()) lvl = ci->second;
  char buf[64];
  for (auto &p : S.env) {
    const AV &a = p.second;
    if (a.k == AV::Ptr) { snprintf(buf, sizeof buf, "%p:%d;", (const void *)p.first, a.reg); k += buf; }
    if (walkers.count(p.first)) { i64 v; if (S.P.isConst(a.e, v)) { snprintf(buf, sizeof buf, "%p@%ld;", (const void *)p.first, (long)v); k += buf; } }
    else if (a.k == AV::Int && lvl < 2 && !isa<Argument>(p.first)) {
      bool ki = keyInts.count(p.first) && (lvl < 1 || statusInts.count(p.first));
      if (!ki && lvl < 1) ki = counters.count(p.first) > 0;
      if (!ki) continue;
      if (a.e.t.empty()) { long v = a.e.c; if (statusInts.count(p.first) && v != 0) v = 1; snprintf(buf, sizeof buf, "%p=%ld;", (const void *)p.first, v); k += buf; }
      else if (statusInts.count(p.first)) { i64 lo; if (S.P.minOf(a.e, lo) && lo >= 1) { snprintf(buf, sizeof buf, "%p=%d;", (const void *)p.first, 1); k += buf; } }
    }
    if (a.un) { snprintf(buf, sizeof buf, "%p~;", (const void *)p.first); k += buf; }
  }
  if (lvl < 1) { auto ci = cmps.find(B); if (ci != cmps.end()) for (auto &q : ci->second) {
    auto it = S.env.find(q.first); if (it == S.env.end() || it->second.k != AV::Int) continue;
    int d = cmpTruth(S, it->second, q.second);
    if (d >= 0) { snprintf(buf, sizeof buf, "%p,%p%c;", (const void *)q.first, (const void *)q.second, d ? 'T' : 'F'); k += buf; }
  } }
  for (auto &r : S.regs) {
    const Region &R = *r.second;
    snprintf(buf, sizeof buf, "R%d%s%s%s%c%c%c%c%c;", r.first, R.rdNN ? "r" : "", R.alloc ? "a" : "", R.et ? R.et->name.c_str() : "", R.freed ? 'f' : '-', R.maybeNull ? 'n' : '-', R.hasF ? 'F' : '-', R.owned ? 'o' : '-', fine && S.P.entEq(R.ilo - R.ihi) ? 'e' : '-');
    k += buf;
    if (fine) { i64 a, b; if (S.P.isConst(R.ilo, a) && S.P.isConst(R.ihi, b)) { snprintf(buf, sizeof buf, "i%ld-%ld;", (long)a, (long)b); k += buf; } }
    for (auto &c : R.cells) if (c.second.v.k == AV::Ptr) { snprintf(buf, sizeof buf, "c%ld:%d;", c.first, c.second.v.reg); k += buf; }
    if (R.hasF) for (auto &c : R.fcells) if (c.second.v.k == AV::Ptr) { snprintf(buf, sizeof buf, "f%ld:%d;", c.first, c.second.v.reg); k += buf; }
  }
  for (auto &f : S.flags) k += "!" + f;
  return k;
}

// name a state's expression by the dimension of its slot, which must not stand for anything else there
static bool dimClash = false;
static void nameBy(Poly &P, int d, const Lin &e) {
  if (e == Lin::var(d)) return;
  if (!P.bot && (e.coef(d) || P.has(d))) { dimClash = true; P.forget(d); return; }
  P.addEq(Lin::var(d) - e);
}
static AV joinAV(const AV &a, const AV &b, int d, Poly &Pa, Poly &Pb) {
  AV r; r.un = a.un || b.un; r.lossy = a.lossy | b.lossy; r.nullOff = a.nullOff || b.nullOff;
  if (a.k != b.k) {
    // null constant integers vs pointers do not mix; unknown wins
    r.k = AV::Top;
    if (a.un && a.k == AV::Top && b.k != AV::Top) { r = b; r.un = true; if (r.k == AV::Int) { r.e = Lin::var(d); nameBy(Pb, d, b.e); } }
    else if (b.un && b.k == AV::Top && a.k != AV::Top) { r = a; r.un = true; if (r.k == AV::Int) { r.e = Lin::var(d); nameBy(Pa, d, a.e); } }
    return r;
  }
  r.k = a.k;
  if (a.k == AV::Top) return r;
  r.canon = a.canon & b.canon;
  if (a.k == AV::Ptr) {
    if (a.reg != b.reg) { r.reg = -1; return r; }
    r.reg = a.reg; if (r.reg <= 0) return r;
  }
  if (a.e == b.e) { r.e = a.e; return r; }
  r.e = Lin::var(d);
  nameBy(Pa, d, a.e); nameBy(Pb, d, b.e);
  return r;
}
static Lin joinLin(const Lin &a, const Lin &b, int d, Poly &Pa, Poly &Pb) {
  if (a == b) return a;
  Lin r = Lin::var(d);
  nameBy(Pa, d, a); nameBy(Pb, d, b);
  return r;
}
// Write "[ilo,ihi) is set" as "[ilo,ihi+1) is set except ihi" where the other state has an unset octet: the two then describe
// the range in the same dimensions (renaming, so that no dimension stands for two values).
bool Interp::alignHoles(State &a, const State &b) {
  bool any = false;
  for (auto &rp : b.regs) {
    if (!rp.second->hasHole) continue;
    auto it = a.regs.find(rp.first); if (it == a.regs.end() || it->second->hasHole || it->second == rp.second) continue;
    auto &W = a.W(rp.first); W.hasHole = true; W.hole = W.ihi; W.ihi = W.ihi + Lin(1); any = true;
  }
  if (any) { std::vector<std::pair<int, Lin *>> sl; slotsOf(a, sl, nullptr); renameSlots(a, sl); }
  return any;
}
State Interp::joinS(const State &a0, const State &b0, bool widen, bool tmpl) {
  bool ha = false, hb = false; // does either need the other's holes?
  for (auto &rp : a0.regs) { auto it = b0.regs.find(rp.first); if (it == b0.regs.end()) continue; if (rp.second->hasHole && !it->second->hasHole) hb = true; if (!rp.second->hasHole && it->second->hasHole) ha = true; }
  State ca, cb;
  if (ha) { ca = a0; alignHoles(ca, b0); }
  if (hb) { cb = b0; alignHoles(cb, a0); }
  const State &a = ha ? ca : a0, &b = hb ? cb : b0;
  State r; Poly Pa = a.P, Pb = b.P;
  for (auto &p : a.env) { auto it = b.env.find(p.first); if (it != b.env.end()) r.env[p.first] = joinAV(p.second, it->second, dimOf(D_SSA, p.first), Pa, Pb); }
  for (auto &rp : a.regs) {
    int id = rp.first; auto it = b.regs.find(id); if (it == b.regs.end()) continue;
    if (rp.second == it->second) { r.regs[id] = rp.second; continue; }
    const Region &A = *rp.second, &B = *it->second;
    auto n = std::make_shared<Region>(A);
    n->size = joinLin(A.size, B.size, dimOf(D_SIZE, nullptr, id), Pa, Pb);
    n->ilo = joinLin(A.ilo, B.ilo, dimOf(D_ILO, nullptr, id), Pa, Pb);
    n->hasHole = A.hasHole || B.hasHole; // (aligned above)
    if (n->hasHole) n->hole = joinLin(A.hole, B.hole, dimOf(D_HOLE, nullptr, id), Pa, Pb);
    n->ihi = joinLin(A.ihi, B.ihi, dimOf(D_IHI, nullptr, id), Pa, Pb);
    n->ro = A.ro || B.ro; n->owned = A.owned || B.owned; n->freed = A.freed || B.freed; n->maybeNull = A.maybeNull || B.maybeNull;
    n->nullEmpty = A.nullEmpty && B.nullEmpty; n->zero = A.zero && B.zero; n->dead = A.dead && B.dead;
    n->hasZ = A.hasZ && B.hasZ && A.term == B.term; n->zExact = A.zExact && B.zExact; n->zfrom = std::max(A.zfrom, B.zfrom);
    n->rdNN = A.rdNN && B.rdNN; n->lenOK = A.lenOK && B.lenOK; n->isFile = A.isFile && B.isFile; n->ctab = A.ctab && B.ctab;
    if (A.init != B.init) n->init = nullptr; if (A.cset != B.cset) n->cset = nullptr;
    if (A.et != B.et) { broken = true; brokenWhy = "internal: join of arrays of different elements"; }
    if (n->hasZ) n->Z = joinLin(A.Z, B.Z, dimOf(D_Z, nullptr, id), Pa, Pb);
    n->hasV = A.hasV && B.hasV; n->vmin = std::min(A.vmin, B.vmin); n->vmax = std::max(A.vmax, B.vmax);
    auto jc = [&](const std::map<long, Cell> &ca, const std::map<long, Cell> &cb, bool za, bool zb, DK k) {
      std::map<long, Cell> o;
      std::set<long> offs; for (auto &c : ca) offs.insert(c.first); for (auto &c : cb) offs.insert(c.first);
      for (long off : offs) {
        auto x = ca.find(off), y = cb.find(off);
        Cell cx, cy;
        auto overl = [&](const std::map<long, Cell> &m, long o2, int sz) { for (auto &q : m) if (q.first < o2 + sz && o2 < q.first + q.second.sz) return true; return false; };
        if (x != ca.end()) cx = x->second; if (y != cb.end()) cy = y->second;
        if (x == ca.end()) { if (!za || overl(ca, off, cy.sz)) continue; cx.sz = cy.sz; cx.v = cy.v.k == AV::Ptr ? AV::mkPtr(0) : AV::mkInt(Lin(0), 3); }
        if (y == cb.end()) { if (!zb || overl(cb, off, cx.sz)) continue; cy.sz = cx.sz; cy.v = cx.v.k == AV::Ptr ? AV::mkPtr(0) : AV::mkInt(Lin(0), 3); }
        if (cx.sz != cy.sz) continue;
        Cell c; c.sz = cx.sz; c.v = joinAV(cx.v, cy.v, dimOf(k, nullptr, id, off), Pa, Pb);
        o[off] = c;
      }
      return o;
    };
    n->cells = jc(A.cells, B.cells, A.zero, B.zero, D_CELL);
    if (A.et && A.et == B.et) {
      n->LO = joinLin(A.LO, B.LO, dimOf(D_LO, nullptr, id), Pa, Pb); n->HI = joinLin(A.HI, B.HI, dimOf(D_HI, nullptr, id), Pa, Pb);
      n->zeroTail = A.zeroTail && B.zeroTail;
      n->hasF = A.hasF && B.hasF;
      if (n->hasF) { n->F = joinLin(A.F, B.F, dimOf(D_F, nullptr, id), Pa, Pb); n->fcells = jc(A.fcells, B.fcells, false, false, D_FCELL); n->fFresh = A.fFresh && B.fFresh; }
    }
    r.regs[id] = n;
  }
  for (auto &f : a.facts) for (auto &g : b.facts) if (f.kind == g.kind && f.site == g.site && f.reg == g.reg && f.d == g.d && f.sz == g.sz) {
    Fact h = f; h.off = joinLin(f.off, g.off, dimOf(D_FOFF, f.site, f.kind), Pa, Pb); h.val = joinLin(f.val, g.val, dimOf(D_FVAL, f.site, f.kind), Pa, Pb);
    r.facts.push_back(h); break;
  }
  for (auto &g : a.ghosts) { if (g.first == 3) continue; auto it = b.ghosts.find(g.first); if (it != b.ghosts.end() && it->second.first == g.second.first) r.ghosts[g.first] = {g.second.first, joinLin(g.second.second, it->second.second, dimOf(D_GHOST, nullptr, g.first), Pa, Pb)}; }
  // the last length octet (ghost 3) is only bounded from above: before the next one
  if (a.ghosts.count(3) && b.ghosts.count(3) && r.ghosts.count(2)) {
    auto &x = a.ghosts.at(3), &y = b.ghosts.at(3);
    if (x.first == y.first && x.first == r.ghosts[2].first) r.ghosts[3] = {x.first, x.second == y.second ? x.second : r.ghosts[2].second - Lin(1)};
  }
  r.flags = a.flags; // equal by key, or merged coarsely
  for (auto it = r.flags.begin(); it != r.flags.end();) if (!b.flags.count(*it)) it = r.flags.erase(it); else ++it;
  std::vector<std::pair<int, Lin *>> sl; slotsOf(r, sl, nullptr);
  std::set<int> keep; for (auto &s : sl) for (auto &t : s.second->t) keep.insert(t.first);
  Pa.keep([&](int d) { return keep.count(d) > 0; }); Pb.keep([&](int d) { return keep.count(d) > 0; });
  if (dimClash) { broken = true; brokenWhy = "internal: a dimension stands for two values"; }
  std::vector<Lin> hints; // what is set of a block is within it
  for (auto &rp : r.regs) { const Region &R = *rp.second; if (!R.heap || R.ro || R.freed || R.et || R.zero || R.size.t.empty() || R.size == R.ihi) continue; try { hints.push_back(R.size - R.ihi); } catch (Ovf &) {} }
  r.P = Poly::join(Pa, Pb, widen, widen ? &thresholds : nullptr, tmpl, &hints);
  if (getenv("ABS_JOIN")) errs() << "JOIN" << (widen ? " widen" : "") << "\n" << Pa.str(dimName) << "--\n" << Pb.str(dimName) << "==>\n" << r.P.str(dimName);
  return r;
}
bool Interp::leqS(const State &a0, const State &b) {
  // a entails b; both normalised for the same block and key
  State ca; bool need = false;
  for (auto &rp : b.regs) { auto it = a0.regs.find(rp.first); if (it != a0.regs.end() && rp.second->hasHole && !it->second->hasHole) need = true; }
  if (need) { ca = a0; alignHoles(ca, b); }
  const State &a = need ? ca : a0;
  Poly Pa = a.P;
  auto lin = [&](const Lin &x, const Lin &y, int d) -> bool {
    if (x == y) return true;
    if (y == Lin::var(d)) { nameBy(Pa, d, x); return true; }
    return Pa.entEq(x - y);
  };
  for (auto &p : b.env) {
    auto it = a.env.find(p.first); if (it == a.env.end()) { if (p.second.k != AV::Top) return false; continue; }
    const AV &x = it->second, &y = p.second;
    if ((x.un && !y.un) || (x.lossy & ~y.lossy) || (x.nullOff && !y.nullOff)) return false;
    if (y.k == AV::Top) continue;
    if (x.k != y.k) return false;
    if ((y.canon & ~x.canon) != 0) return false;
    if (x.k == AV::Ptr) { if (y.reg == -1) continue; if (x.reg != y.reg) return false; if (x.reg <= 0) continue; }
    if (!lin(x.e, y.e, dimOf(D_SSA, p.first))) return false;
  }
  for (auto &rp : b.regs) {
    int id = rp.first; auto it = a.regs.find(id); if (it == a.regs.end()) continue;
    if (it->second == rp.second) continue;
    const Region &A = *it->second, &B = *rp.second;
    if ((A.ro && !B.ro) || (A.owned && !B.owned) || (A.freed && !B.freed) || (A.maybeNull && !B.maybeNull)) return false;
    if ((B.nullEmpty && !A.nullEmpty) || (B.zero && !A.zero) || (B.hasZ && !A.hasZ) || (B.zExact && !A.zExact) || (B.hasF != A.hasF) || (B.zeroTail && !A.zeroTail)) return false;
    if (B.hasZ && (A.term != B.term || (B.zExact && A.zfrom > B.zfrom))) return false;
    if ((B.rdNN && !A.rdNN) || (B.lenOK && !A.lenOK) || (B.isFile && !A.isFile) || (B.ctab && !A.ctab) || (B.init && A.init != B.init) || (B.cset && A.cset != B.cset)) return false;
    if (B.hasV && (!A.hasV || A.vmin < B.vmin || A.vmax > B.vmax)) return false;
    if (!lin(A.size, B.size, dimOf(D_SIZE, nullptr, id)) || !lin(A.ilo, B.ilo, dimOf(D_ILO, nullptr, id))) return false;
    if (A.hasHole != B.hasHole) return false;
    if (B.hasHole && !lin(A.hole, B.hole, dimOf(D_HOLE, nullptr, id))) return false;
    if (!lin(A.ihi, B.ihi, dimOf(D_IHI, nullptr, id))) return false;
    if (B.hasZ && !lin(A.Z, B.Z, dimOf(D_Z, nullptr, id))) return false;
    auto cells = [&](const std::map<long, Cell> &ca, const std::map<long, Cell> &cb, bool za, DK k) {
      for (auto &c : cb) {
        auto x = ca.find(c.first); AV v;
        if (x == ca.end()) { if (!za) { if (c.second.v.k == AV::Top && c.second.v.un) continue; return false; } v = c.second.v.k == AV::Ptr ? AV::mkPtr(0) : AV::mkInt(Lin(0), 3); }
        else { if (x->second.sz != c.second.sz) return false; v = x->second.v; }
        const AV &y = c.second.v;
        if ((v.un && !y.un) || (v.lossy & ~y.lossy)) return false;
        if (y.k == AV::Top) continue;
        if (v.k != y.k || (y.canon & ~v.canon)) return false;
        if (v.k == AV::Ptr) { if (y.reg == -1) continue; if (v.reg != y.reg) return false; if (v.reg <= 0) continue; }
        if (!lin(v.e, y.e, dimOf(k, nullptr, id, c.first))) return false;
      }
      // b zero outside its cells: every cell of a must be in b
      if (k == D_CELL && B.zero) for (auto &c : ca) if (!cb.count(c.first) && !(c.second.v.k == AV::Int && c.second.v.e == Lin(0)) && !(c.second.v.k == AV::Ptr && c.second.v.reg == 0)) return false;
      return true;
    };
    if (!cells(A.cells, B.cells, A.zero, D_CELL)) return false;
    if (B.et) { if (A.et != B.et || !lin(A.LO, B.LO, dimOf(D_LO, nullptr, id)) || !lin(A.HI, B.HI, dimOf(D_HI, nullptr, id))) return false; }
    if (B.hasF) { if (!lin(A.F, B.F, dimOf(D_F, nullptr, id)) || !cells(A.fcells, B.fcells, false, D_FCELL)) return false; if (B.fFresh && !A.fFresh) return false; }
  }
  for (auto &g : b.facts) {
    bool ok = false;
    for (auto &f : a.facts) if (f.kind == g.kind && f.site == g.site && f.reg == g.reg && f.d == g.d) { ok = lin(f.off, g.off, dimOf(D_FOFF, g.site, g.kind)) && lin(f.val, g.val, dimOf(D_FVAL, g.site, g.kind)); break; }
    if (!ok) return false;
  }
  for (auto &g : b.ghosts) { auto it = a.ghosts.find(g.first); if (g.first == 3) { if (it == a.ghosts.end()) return false; continue; } if (it == a.ghosts.end() || !lin(it->second.second, g.second.second, dimOf(D_GHOST, nullptr, g.first))) return false; }
  if (b.ghosts.count(3) && !Pa.entGe(b.ghosts.at(3).second - a.ghosts.at(3).second)) return false;
  for (auto &f : b.flags) if (!a.flags.count(f)) return false;
  if (dimClash) { broken = true; brokenWhy = "internal: a dimension stands for two values"; }
  return Pa.leq(b.P);
}

void Interp::addKeyed(KStates &ks, const BasicBlock *B, State &&S, bool tmpl) {
  std::string k = keyOf(S, B);
  auto it = ks.find(k);
  if (it == ks.end()) ks.emplace(k, std::move(S));
  else { if (leqS(S, it->second)) return; it->second = joinS(it->second, S, false, tmpl); }
}
static const size_t KEYCAP = 64;
Interp::KStates Interp::gather(const BasicBlock *B) {
  KStates r;
  if (B == &F.getEntryBlock()) for (auto &p : entrySt) addKeyed(r, B, State(p.second), heads.count(B) > 0);
  for (;;) {
    for (auto *P : predecessors(B)) {
      auto it = edge.find({P, B}); if (it == edge.end()) continue;
      for (auto &p : it->second) addKeyed(r, B, State(p.second), heads.count(B) > 0);
    }
    if (r.size() > KEYCAP && coarse[B] < 2) { coarse[B]++; if (getenv("ABS_TRACE")) errs() << "coarsen " << B->getName() << " keys " << r.size() << "\n"; r.clear(); continue; }
    return r;
  }
}
static const bool trace = getenv("ABS_TRACE") != nullptr;
void Interp::transfer(const BasicBlock *B) {
  for (auto *T : successors(B)) edge[{B, T}].clear();
  for (auto &p : inSt[B]) {
    State S = p.second;
    if (getenv("ABS_BLOCKS")) { errs() << "=== " << B->getName() << "\n"; dump(S); }
    auto it = const_cast<BasicBlock *>(B)->getFirstNonPHI()->getIterator();
    exec(std::move(S), const_cast<BasicBlock *>(B), it);
    if (broken) return;
  }
}
void Interp::emitTo(State S, BasicBlock *from, BasicBlock *to) {
  if (S.P.bot) return;
  if (!viaBlocks.empty() && viaBlocks.count(to)) { char b[40]; snprintf(b, sizeof b, "via:%p", (const void *)from); S.flags.insert(b); }
  States out; normalise(S, from, to, out);
  auto &ks = edge[{from, to}];
  for (auto &s : out) addKeyed(ks, to, std::move(s));
}
static void blocksOf(const Interp::Comp &C, std::vector<const BasicBlock *> &o) { o.push_back(C.head); for (auto &c : C.body) blocksOf(c, o); }
void Interp::stabilise(const Comp &C) {
  if (broken) return;
  if (!C.isLoop) { inSt[C.head] = gather(C.head); transfer(C.head); return; }
  std::vector<const BasicBlock *> bl; blocksOf(C, bl);
  std::set<const BasicBlock *> in(bl.begin(), bl.end());
  for (auto *b : bl) for (auto *T : successors(b)) edge[{b, T}].clear();
  inSt[C.head] = gather(C.head);
  auto body = [&]() { transfer(C.head); for (auto &c : C.body) stabilise(c); };
  auto coldInner = [&]() { for (auto *b : bl) if (b != C.head) warm.erase(b); };
  // while the loop around this one is still growing, the states found last time are a sound place to start from
  auto wi = warm.find(C.head); bool isWarm = false, grown = false;
  if (warmOK && wi != warm.end() && wi->second.first == coarse[C.head]) {
    isWarm = true; KStates st = wi->second.second;
    for (auto &p : inSt[C.head]) {
      auto it = st.find(p.first);
      if (it == st.end()) { st.emplace(p.first, p.second); grown = true; }
      else if (!leqS(p.second, it->second)) { it->second = joinS(it->second, p.second, false, true); grown = true; }
    }
    inSt[C.head] = st;
  }
  if (!isWarm) coldInner();
  int iter = 0; std::set<Lin> cand;
  // states kept apart by a counter feed one another in a chain, so they settle without extrapolation
  int late = 0; if (fine) for (auto &P : C.head->phis()) if (counters.count(&P)) late = 6;
  for (;; iter++) {
    if (iter < 4) for (auto &p : inSt[C.head]) for (auto &x : p.second.P.ineqs) cand.insert(x);
    if (trace) errs() << "loop " << C.head->getName() << " iter " << iter << " keys " << inSt[C.head].size() << " steps " << steps << "\n";
    body();
    if (broken) return;
    int lv = coarse[C.head];
    KStates nw = gather(C.head);
    // coarsening may have changed keys: rekey old states
    KStates old; if (coarse[C.head] == lv) old = inSt[C.head]; else for (auto &p : inSt[C.head]) addKeyed(old, C.head, State(p.second));
    bool stable = true;
    for (auto &p : nw) {
      auto it = old.find(p.first);
      if (it == old.end()) { stable = false; old.emplace(p.first, p.second); continue; }
      if (leqS(p.second, it->second)) continue;
      stable = false;
      if (getenv("ABS_LEQ")) { errs() << "not leq at " << C.head->getName() << ": NEW\n"; dump(p.second); errs() << "OLD\n"; dump(it->second); }
      bool wid = iter >= 2 + late;
      if (iter > 10 + late) { Poly::hard = true; Poly::cands.assign(cand.begin(), cand.end()); it->second = joinS(it->second, p.second, true, false); Poly::hard = false; Poly::cands.clear(); continue; }
      State j = joinS(it->second, p.second, false, true);
      if (wid) { if (iter > 5 + late) { auto sv = thresholds; thresholds.clear(); j = joinS(it->second, j, true, true); thresholds = sv; } else j = joinS(it->second, j, true, true); }
      it->second = j;
    }
    inSt[C.head] = old;
    if (stable && iter == 0 && isWarm && !grown && coarse[C.head] == warm[C.head].first) return; // as it was
    if (stable) break;
    if (iter > 70) { broken = true; brokenWhy = "no fixpoint at " + C.head->getName().str(); return; }
  }
  // narrowing: restart from the states the body produced and keep what is inductive
  for (int n = 0; n < 2; n++) {
    KStates saved = inSt[C.head];
    inSt[C.head] = gather(C.head); coldInner();
    bool ok = false;
    for (int m = 0; m < 8 && !ok; m++) {
      body();
      if (broken) return;
      KStates nw = gather(C.head); ok = true;
      auto &cur = inSt[C.head];
      for (auto &p : nw) {
        auto it = cur.find(p.first);
        if (it == cur.end()) { ok = false; cur.emplace(p.first, p.second); continue; }
        if (leqS(p.second, it->second)) continue;
        ok = false;
        auto sv = thresholds; thresholds.clear();
        State j = joinS(it->second, p.second, false, true);
        it->second = joinS(it->second, j, true, true); thresholds = sv;
      }
    }
    if (trace) errs() << "narrow " << C.head->getName() << " pass " << n << (ok ? " ok\n" : " failed\n");
    if (!ok) { inSt[C.head] = saved; coldInner(); body(); break; }
    bool same = true;
    for (auto &p : saved) { auto it = inSt[C.head].find(p.first); if (it == inSt[C.head].end() || !leqS(p.second, it->second)) { same = false; break; } }
    if (same) break;
  }
  warm[C.head] = {coarse[C.head], inSt[C.head]};
}
void Interp::run() {
  analyseCFG();
  State S0;
  contractEntry(*this, S0, [&](State S) {
    for (auto &A : F.args()) {
      auto it = S.env.find(&A);
      if (it == S.env.end()) { if (A.getType()->isPointerTy()) S.env[&A] = AV::mkPtr(-1); else if (A.getType()->isIntegerTy()) S.env[&A] = freshInt(S, A.getType()->getIntegerBitWidth()); }
    }
    std::vector<std::pair<int, Lin *>> sl; slotsOf(S, sl, nullptr); renameSlots(S, sl);
    if (!S.P.bot) addKeyed(entrySt, &F.getEntryBlock(), std::move(S));
  });
  for (auto &c : wto) stabilise(c);
  if (trace) errs() << "lp solves " << lpstats.solves << " pivots " << lpstats.pivots << " wide " << lpstats.ovf << "\n";
  if (broken) return;
  record = true;
  std::vector<const BasicBlock *> bl; for (auto &c : wto) blocksOf(c, bl);
  for (auto *b : bl) transfer(b);
}
void Interp::dump(const State &S) {
  errs() << "state:\n";
  auto ls = [&](const Lin &l) { std::string s; for (auto &p : l.t) s += (s.empty() ? "" : "+") + (p.second == 1 ? std::string() : std::to_string(p.second) + "*") + dimName(p.first); if (l.c || s.empty()) s += "+" + std::to_string(l.c); return s; };
  auto av = [&](const AV &a) { std::string s = a.un ? "~" : ""; if (a.k == AV::Int) s += ls(a.e); else if (a.k == AV::Ptr) s += "&" + regionName(a.reg) + (a.reg > 0 ? "+" + ls(a.e) : ""); else s += "T"; return s; };
  for (auto &p : S.env) { errs() << "  "; p.first->printAsOperand(errs(), false); errs() << " = " << av(p.second) << "\n"; }
  for (auto &r : S.regs) {
    const Region &R = *r.second;
    errs() << "  region " << regionName(r.first) << "#" << r.first << " size " << ls(R.size) << (R.ro ? " ro" : "") << (R.freed ? " freed" : "") << (R.owned ? " owned" : "") << (R.maybeNull ? " maybeNull" : "") << (R.zero ? " zero" : "") << (R.dead ? " dead" : "")
           << " init [" << ls(R.ilo) << "," << ls(R.ihi) << ")"; if (R.hasHole) errs() << " hole " << ls(R.hole);
    if (R.hasZ) errs() << " Z" << (R.zExact ? "=" : "~") << ls(R.Z);
    if (R.et) errs() << " array " << R.et->name << " [" << ls(R.LO) << "," << ls(R.HI) << ")";
    for (auto &c : R.cells) errs() << " [" << c.first << ":" << c.second.sz << "]=" << av(c.second.v);
    if (R.hasF) { errs() << " FOCUS@" << ls(R.F); for (auto &c : R.fcells) errs() << " <" << c.first << ":" << c.second.sz << ">=" << av(c.second.v); }
    errs() << "\n";
  }
  for (auto &f : S.facts) errs() << "  fact " << f.kind << " r" << f.reg << " off " << ls(f.off) << " val " << ls(f.val) << "\n";
  for (auto &f : S.flags) errs() << "  flag " << f << "\n";
  errs() << S.P.str(dimName);
}
void Interp::alarm(const std::string &kind, const std::string &what) {
  if (!record) return;
  Alarm a; a.kind = kind; a.what = what; a.loc = cur ? locOf(cur) : "?"; a.func = cur ? funcOf(cur) : F.getName().str();
  alarms.emplace(kind + "|" + what + "|" + a.loc, a);
}
void Interp::ob(const std::string &kind) {
  if (!record) return;
  char b[64]; snprintf(b, sizeof b, "%p", (const void *)cur);
  if (obligSites.insert(kind + b).second) oblig[kind]++;
}
