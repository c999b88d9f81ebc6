// Which octets a rendered text may contain: for every place that adds octets to a text, the set of values they may have.
// An octet read from data is followed for each of its 256 values along the branches it decides; buffers by what is put into them.
#include "absint.h"
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/GVN.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <bitset>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <ctype.h>
#include <deque>
using namespace llvm;
namespace {
typedef std::bitset<256> Oct;
struct Ctx { const CallInst *C; const Ctx *up; int depth; };
// what may be in a piece of text: octets that are written out in the code, octets that come from data, and what is not known
struct Res {
  Oct con, dat; std::set<std::string> unk; const Instruction *from = nullptr;
  void add(const Res &o) { con |= o.con; if ((o.dat & ~dat).any() && !from) from = o.from; dat |= o.dat; unk.insert(o.unk.begin(), o.unk.end()); if (!from) from = o.from; }
};
// a value: a small set of possibilities (each either written in the code or computed from data), or anything
struct Set { bool any = false; std::set<std::pair<uint64_t, bool>> s; bool inexact = false; };
static bool okDat(unsigned k) { return k >= 0x20 && k <= 0x7e; }
static bool okCon(unsigned k) { return okDat(k) || k == '\n' || k == 0; }
static std::string show(unsigned k) { char b[32]; if (k >= 0x21 && k <= 0x7e) snprintf(b, sizeof b, "'%c'", k); else snprintf(b, sizeof b, "0x%02x", k); return b; }
struct Chars {
  Module &M; const DataLayout &DL; json::Array viol; std::set<std::string> seen, und; std::map<std::string, long> ob; long steps = 0;
  std::map<Function *, std::unique_ptr<DominatorTree>> dts; std::map<Function *, std::unique_ptr<LoopInfo>> lis; std::set<Function *> roots, taken;
  Chars(Module &m) : M(m), DL(m.getDataLayout()) {}
  DominatorTree &dt(Function *F) { auto &p = dts[F]; if (!p) p = std::make_unique<DominatorTree>(*F); return *p; }
  LoopInfo &li(Function *F) { auto &p = lis[F]; if (!p) p = std::make_unique<LoopInfo>(dt(F)); return *p; }
  // ---- values
  typedef std::pair<const BasicBlock *, const BasicBlock *> Edge;
  struct Env { const Instruction *leaf = nullptr; uint64_t k = 0; bool data = true; const std::set<Edge> *edges = nullptr; const Instruction *use = nullptr; const Ctx *ctx = nullptr; };
  static uint64_t cut(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
  static unsigned width(const Value *v) { return v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64; }
  // the octets a load reads, when they are constant
  bool constLoad(const LoadInst *L, const Env &E, Set &r, std::set<const Value *> &vis) {
    auto *G = dyn_cast<GlobalVariable>(getUnderlyingObject(L->getPointerOperand(), 0));
    if (!G) if (auto gs = tables(L->getPointerOperand()); !gs.empty()) { // one of several tables
      unsigned n = DL.getTypeStoreSize(L->getType()); if (!L->getType()->isIntegerTy() || n > 8) return false;
      for (auto *g : gs) { std::string b = bytesOf(g); for (uint64_t o = 0; o + n <= b.size(); o += n) { uint64_t v = 0; for (unsigned j = 0; j < n; j++) v |= (uint64_t)(uint8_t)b[o + j] << (8 * j); r.s.insert({v, false}); } }
      if (r.s.size() > 300) { r.any = true; r.s.clear(); } return true;
    }
    // the table the C library keeps for the character classes
    if (!G) {
      auto *GP = dyn_cast<GEPOperator>(L->getPointerOperand()); if (!GP || !L->getType()->isIntegerTy(16)) return false;
      auto *L2 = dyn_cast<LoadInst>(GP->getPointerOperand()->stripPointerCasts()); if (!L2) return false;
      auto *C = dyn_cast<CallInst>(L2->getPointerOperand()->stripPointerCasts()); if (!C || !C->getCalledFunction() || C->getCalledFunction()->getName() != "__ctype_b_loc" || GP->getNumIndices() != 1) return false;
      Set i = eval(GP->getOperand(1), E, vis); if (i.any) { r.any = true; return true; }
      for (auto &p : i.s) { long k = (long)p.first; if (width(GP->getOperand(1)) == 32) k = (int32_t)k; if (k < -128 || k > 255) { r.any = true; return true; } r.s.insert({(*__ctype_b_loc())[k], false}); } return true;
    }
    if (!readOnly(G)) return false;
    unsigned n = DL.getTypeStoreSize(L->getType()); if (!L->getType()->isIntegerTy() || n > 8) return false;
    std::string b = bytesOf(G);
    // a simple index into a table of that width
    std::set<uint64_t> offs; bool all = false;
    { APInt off(64, 0); const Value *p = L->getPointerOperand(); 
      if (auto *GP = dyn_cast<GEPOperator>(p)) {
        MapVector<Value *, APInt> vo; if (GP->getPointerOperand()->stripPointerCasts() == G && GP->collectOffset(DL, 64, vo, off)) {
          if (vo.empty()) offs.insert(off.getZExtValue());
          else if (vo.size() == 1) { Set i = eval(vo.begin()->first, E, vis); if (i.any) all = true; else for (auto &q : i.s) { unsigned w = width(vo.begin()->first); int64_t x = w < 64 ? (int64_t)(q.first << (64 - w)) >> (64 - w) : (int64_t)q.first; offs.insert(off.getZExtValue() + x * vo.begin()->second.getZExtValue()); } }
          else all = true;
        } else all = true;
      } else if (p->stripPointerCasts() == G) offs.insert(0); else all = true; }
    if (all) for (uint64_t o = 0; o + n <= b.size(); o += n) offs.insert(o);
    for (uint64_t o : offs) if (o + n <= b.size() && o < b.size()) { uint64_t v = 0; for (unsigned j = 0; j < n; j++) v |= (uint64_t)(uint8_t)b[o + j] << (8 * j); r.s.insert({v, false}); }
    if (r.s.size() > 300) { r.any = true; r.s.clear(); }
    return true;
  }
  std::vector<const GlobalVariable *> tables(const Value *p) { std::vector<const Value *> bs; bases(p, bs); std::vector<const GlobalVariable *> r; for (auto *b : bs) { auto *g = dyn_cast<GlobalVariable>(b); if (!g || !readOnly(g)) return {}; r.push_back(g); } return r; }
  bool readOnly(const GlobalVariable *G) {
    if (!G->hasInitializer()) return false; if (G->isConstant()) return true;
    std::vector<const Value *> w{G}; std::set<const Value *> s;
    while (!w.empty()) { auto *v = w.back(); w.pop_back(); for (auto *U : v->users()) { if (isa<GEPOperator>(U) || isa<BitCastOperator>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) { if (s.insert(U).second) w.push_back(U); } else if (!isa<LoadInst>(U) && !isa<ICmpInst>(U) && !isa<GlobalVariable>(U) && !isa<ConstantAggregate>(U)) { auto *C = dyn_cast<CallInst>(U); if (!C) return false; auto *F = C->getCalledFunction(); if (!F || !(F->getName().starts_with("ubuf_") || F->onlyReadsMemory() || F->getName() == "bsearch")) return false; } } }
    return true;
  }
  std::string bytesOf(const GlobalVariable *G) {
    uint64_t n = DL.getTypeAllocSize(G->getValueType()); std::string r; if (n > (1u << 20)) return r;
    for (uint64_t i = 0; i < n; i++) { auto *c = ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), Type::getInt8Ty(M.getContext()), APInt(64, i), DL); auto *ci = dyn_cast_or_null<ConstantInt>(c); r += ci ? (char)ci->getZExtValue() : (char)0; }
    return r;
  }
  static bool smallOp(const Value *v) { // an operation that leaves few possibilities whatever it is applied to
    auto *B = dyn_cast<BinaryOperator>(v); if (!B) return false; auto *c = dyn_cast<ConstantInt>(B->getOperand(1)); if (!c) return false; uint64_t k = c->getZExtValue(); unsigned w = width(v);
    switch (B->getOpcode()) { case Instruction::And: return k < 256; case Instruction::URem: return k <= 256 && k; case Instruction::LShr: return w - k <= 8 && k < w; default: return false; }
  }
  static uint64_t smallMax(const Value *v) { auto *B = cast<BinaryOperator>(v); uint64_t k = cast<ConstantInt>(B->getOperand(1))->getZExtValue(); switch (B->getOpcode()) { case Instruction::And: return k; case Instruction::URem: return k - 1; default: return (1ull << (width(v) - k)) - 1; } }
  // an instruction whose value is not computed from octets further back: its possible values are tried one by one
  bool isLeaf(const Value *v) { if (!v->getType()->isIntegerTy(8)) return false; if (auto *L = dyn_cast<LoadInst>(v)) { return tables(L->getPointerOperand()).empty(); } return isa<CallInst>(v) && !cast<CallInst>(v)->getCalledFunction(); }
  Set eval(const Value *v, const Env &E, std::set<const Value *> &vis) {
    Set r; steps++;
    if (auto *c = dyn_cast<ConstantInt>(v)) { if (width(v) > 64) r.any = true; else r.s.insert({c->getZExtValue(), false}); return r; }
    if (isa<UndefValue>(v)) return r;
    if (E.leaf == v) { r.s.insert({E.k, E.data}); return r; }
    if (!v->getType()->isIntegerTy() || width(v) > 64) { r.any = true; return r; }
    unsigned w = width(v);
    if (auto *A = dyn_cast<Argument>(v)) { r.any = true; if (E.ctx) { Env e2; e2.ctx = E.ctx->up; std::set<const Value *> vs; return eval(E.ctx->C->getArgOperand(A->getArgNo()), e2, vs); } if (w == 1) r.any = false, r.s = {{0, true}, {1, true}}; return r; }
    auto *I = dyn_cast<Instruction>(v); if (!I) { r.any = true; return r; }
    if (!vis.insert(v).second) return r; // a value that goes round a loop adds nothing by itself
    struct Out { std::set<const Value *> &v; const Value *x; ~Out() { v.erase(x); } } out{vis, v};
    auto map2 = [&](const Set &a, const Set &b, std::function<bool(uint64_t, uint64_t, uint64_t &)> f) { Set q; if (a.any || b.any || a.s.size() * b.s.size() > 70000) { q.any = true; return q; } for (auto &x : a.s) for (auto &y : b.s) { uint64_t o; if (f(x.first, y.first, o)) q.s.insert({cut(o, w), x.second || y.second}); } if (q.s.size() > 300) { q.any = true; q.s.clear(); } return q; };
    auto sx = [](uint64_t x, unsigned w) { return w >= 64 ? (int64_t)x : (int64_t)(x << (64 - w)) >> (64 - w); };
    if (auto *P = dyn_cast<PHINode>(I)) {
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        auto *pb = P->getIncomingBlock(i);
        if (E.leaf && E.edges && dt(const_cast<Function *>(P->getFunction())).dominates(E.leaf->getParent(), pb) && !E.edges->count({pb, P->getParent()})) continue;
        Env e = E; if (E.leaf && E.use && !dt(const_cast<Function *>(P->getFunction())).dominates(E.leaf, P) && dt(const_cast<Function *>(P->getFunction())).dominates(E.leaf, E.use)) e.leaf = nullptr, e.edges = nullptr; // the octet of an earlier turn
        Set x = eval(P->getIncomingValue(i), e, vis); if (x.any) { r.any = true; r.s.clear(); return r; } r.s.insert(x.s.begin(), x.s.end());
      }
      if (r.s.size() > 300) r.any = true, r.s.clear(); return r;
    }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      Set c = eval(S->getCondition(), E, vis); bool t = c.any, f = c.any; for (auto &p : c.s) (p.first ? t : f) = true;
      if (t) { Set x = eval(S->getTrueValue(), E, vis); r.any |= x.any; r.s.insert(x.s.begin(), x.s.end()); } if (f) { Set x = eval(S->getFalseValue(), E, vis); r.any |= x.any; r.s.insert(x.s.begin(), x.s.end()); }
      if (r.any) r.s.clear(); return r;
    }
    if (auto *C = dyn_cast<CastInst>(I)) {
      if (!C->getOperand(0)->getType()->isIntegerTy()) { r.any = true; return r; }
      unsigned sw = width(C->getOperand(0)); Set a = eval(C->getOperand(0), E, vis); if (a.any) { if (w == 8 && isa<TruncInst>(C)) return every(); r.any = true; return r; }
      for (auto &p : a.s) r.s.insert({cut(isa<SExtInst>(C) ? (uint64_t)sx(p.first, sw) : p.first, w), p.second}); return r;
    }
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      Set a = eval(B->getOperand(0), E, vis), b = eval(B->getOperand(1), E, vis);
      if (a.any && smallOp(v)) { for (uint64_t k = 0, m = smallMax(v); k <= m; k++) r.s.insert({k, true}); return r; }
      auto op = B->getOpcode();
      return map2(a, b, [&](uint64_t x, uint64_t y, uint64_t &o) {
        switch (op) {
        case Instruction::Add: o = x + y; return true; case Instruction::Sub: o = x - y; return true; case Instruction::Mul: o = x * y; return true;
        case Instruction::And: o = x & y; return true; case Instruction::Or: o = x | y; return true; case Instruction::Xor: o = x ^ y; return true;
        case Instruction::Shl: o = y < 64 ? x << y : 0; return true; case Instruction::LShr: o = y < 64 ? x >> y : 0; return true; case Instruction::AShr: o = sx(x, w) >> (y < 63 ? y : 63); return true;
        case Instruction::UDiv: if (!y) return false; o = x / y; return true; case Instruction::URem: if (!y) return false; o = x % y; return true;
        case Instruction::SDiv: if (!y) return false; o = sx(x, w) / sx(y, w); return true; case Instruction::SRem: if (!y) return false; o = sx(x, w) % sx(y, w); return true;
        default: o = 0; return true; } });
    }
    if (auto *Q = dyn_cast<ICmpInst>(I)) {
      bool any = !Q->getOperand(0)->getType()->isIntegerTy(); Set a, b; if (!any) { a = eval(Q->getOperand(0), E, vis); b = eval(Q->getOperand(1), E, vis); any = a.any || b.any; }
      if (any) { r.s = {{0, false}, {1, false}}; return r; } unsigned ow = width(Q->getOperand(0));
      return map2(a, b, [&](uint64_t x, uint64_t y, uint64_t &o) { o = ICmpInst::compare(APInt(ow, x), APInt(ow, y), Q->getPredicate()); return true; });
    }
    if (auto *L = dyn_cast<LoadInst>(I)) { if (constLoad(L, E, r, vis)) return r; if (w == 1) { r.s = {{0, true}, {1, true}}; return r; } if (w == 8) return leafBase(L, E.ctx); r.any = true; return r; }
    if (auto *C = dyn_cast<CallInst>(I)) {
      auto *F = C->getCalledFunction(); std::string n = F ? baseName(F->getName()) : "";
      static const std::map<std::string, int (*)(int)> cls{{"isprint", isprint}, {"isgraph", isgraph}, {"isalnum", isalnum}, {"isalpha", isalpha}, {"isdigit", isdigit}, {"isxdigit", isxdigit}, {"isspace", isspace}, {"iscntrl", iscntrl}, {"ispunct", ispunct}, {"isupper", isupper}, {"islower", islower}, {"tolower", tolower}, {"toupper", toupper}, {"isascii", isascii}};
      auto it = cls.find(n); if (it != cls.end() && C->arg_size() == 1) { Set a = eval(C->getArgOperand(0), E, vis); if (!a.any) { for (auto &p : a.s) { int k = (int)p.first; if (k < -128 || k > 255) { r.any = true; r.s.clear(); return r; } r.s.insert({cut((uint64_t)(n[0] == 't' || n == "isascii" ? it->second(k) : !!it->second(k)), w), p.second}); } return r; } }
      if (F && F->getIntrinsicID() == Intrinsic::bswap && w == 16) { Set a = eval(C->getArgOperand(0), E, vis); if (!a.any) { for (auto &p : a.s) r.s.insert({((p.first & 0xff) << 8) | p.first >> 8, p.second}); return r; } }
      if (F && F->getName().starts_with("__uninit")) return r;
      if (w == 1) { r.s = {{0, true}, {1, true}}; return r; }
      if (w == 8 && F && !F->isDeclaration() && !n.compare(0, 5, "ubuf_") == 0) { static thread_local int depth = 0; if (depth < 4) { depth++; Ctx c{C, E.ctx, 0}; for (auto &BB : *F) if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) { Env e; e.ctx = &c; std::set<const Value *> vs; Set x = eval(R->getReturnValue(), e, vs); r.any |= x.any; r.s.insert(x.s.begin(), x.s.end()); } depth--; if (r.any) r.s.clear(); if (!r.any) return r; } }
      r.any = true; return r;
    }
    if (auto *Fz = dyn_cast<FreezeInst>(I)) return eval(Fz->getOperand(0), E, vis);
    r.any = true; return r;
  }
  static Set every() { Set r; for (int k = 0; k < 256; k++) r.s.insert({k, true}); return r; }
  std::set<const Value *> busy;
  // what an octet in memory may be before any test on it
  Set leafBase(const LoadInst *L, const Ctx *ctx) {
    std::vector<const Value *> key{L}; for (auto *c = ctx; c; c = c->up) key.push_back(c->C);
    auto it = memo.find(key); if (it != memo.end()) return it->second; long before = cuts; Set q = leafBase1(L, ctx); if (cuts == before) memo[key] = q; return q;
  }
  std::map<std::vector<const Value *>, Set> memo; long cuts = 0;
  Set leafBase1(const LoadInst *L, const Ctx *ctx) {
    Set r; if (!busy.insert(L).second) { cuts++; return r; } struct Out { std::set<const Value *> &b; const Value *l; ~Out() { b.erase(l); } } o{busy, L};
    std::vector<const Value *> bs; if (!bases(L->getPointerOperand(), bs)) return every();
    Res R; for (auto *b : bs) { if (isa<AllocaInst>(b)) R.add(objContents(b, ctx)); else if (auto *G = dyn_cast<GlobalVariable>(b); G && readOnly(G)) { for (char c : bytesOf(G)) R.con.set((uint8_t)c); } else return every(); }
    if (!R.unk.empty()) return every(); for (int k = 0; k < 256; k++) { if (R.con[k]) r.s.insert({k, false}); if (R.dat[k]) r.s.insert({k, true}); } return r;
  }
  // the leaves a value is computed from
  void leaves(const Value *v, std::set<const Value *> &vis, std::set<const Instruction *> &out) {
    if (!vis.insert(v).second) return; auto *I = dyn_cast<Instruction>(v); if (!I) return;
    if (isLeaf(v)) { out.insert(I); return; }
    if (isa<LoadInst>(I)) { if (auto *GP = dyn_cast<GEPOperator>(cast<LoadInst>(I)->getPointerOperand())) for (auto &x : GP->indices()) leaves(x, vis, out); return; }
    if (smallOp(v) || (isa<TruncInst>(v) && width(v) == 8)) { size_t n = out.size(); leaves(I->getOperand(0), vis, out); if (out.size() == n) out.insert(I); return; }
    if (isa<CallInst>(I)) { for (auto &a : cast<CallInst>(I)->args()) if (a->getType()->isIntegerTy()) leaves(a, vis, out); return; }
    for (auto &o : I->operands()) if (o->getType()->isIntegerTy()) leaves(o, vis, out);
  }
  // how a condition bears on a leaf: 1 computed from it, 2 may depend on the way taken, 4 given to a call
  std::map<std::pair<const Value *, const Instruction *>, int> bear_;
  static bool hasPhi(const Value *v, std::set<const Value *> &vis) { auto *I = dyn_cast<Instruction>(v); if (!I || !vis.insert(v).second) return false; if (isa<PHINode>(I)) return true; for (auto &o : I->operands()) if (hasPhi(o, vis)) return true; return false; }
  int bears(const Value *cv, const Instruction *x) {
    auto it = bear_.find({cv, x}); if (it != bear_.end()) return it->second; int r = 0; { std::set<const Value *> vis; if (hasPhi(cv, vis)) r |= 2; } if (dependsOn(cv, x)) r |= 1; { std::set<const Value *> vis; if (opaqueUse(cv, x, vis)) r |= 4; } return bear_[{cv, x}] = r;
  }
  bool dependsOn(const Value *v, const Instruction *x) { std::set<const Value *> vis; std::set<const Instruction *> ls; leaves(v, vis, ls); return ls.count(x); }
  // a call that looks at the octet in a way that is not followed
  bool opaqueUse(const Value *cond, const Instruction *x, std::set<const Value *> &vis) {
    auto *I = dyn_cast<Instruction>(cond); if (!I || !vis.insert(cond).second) return false;
    if (auto *C = dyn_cast<CallInst>(I)) { for (auto &a : C->args()) if (a == x || (a->getType()->isIntegerTy() && dependsOn(a, x))) return true; return false; }
    for (auto &o : I->operands()) if (opaqueUse(o, x, vis)) return true; return false;
  }
  // the edges that may be taken after S when the leaf has the value k; whether `to` is reached without passing a kill
  bool reach(const Env &E0, const Instruction *S, const Instruction *to, const std::set<const Instruction *> &kill, std::set<Edge> &edges, bool &vague, const std::set<Edge> *within = nullptr) {
    bool hit = false; auto *x = E0.leaf; std::deque<const BasicBlock *> q; std::set<const BasicBlock *> inq;
    auto scan = [&](const BasicBlock *B, const Instruction *from) -> bool { // follow the block; false if a kill ends it
      bool on = !from; for (auto &I : *B) { if (!on) { if (&I == from) on = true; continue; } if (&I == to) hit = true; if (kill.count(&I) || (&I == x && &I != from)) return false; } return true;
    };
    auto term = [&](const BasicBlock *B) {
      Env E = E0; E.edges = within ? within : &edges; auto *T = B->getTerminator(); std::vector<const BasicBlock *> next;
      auto go = [&](const BasicBlock *N) { if (within && x && !within->count({B, N}) && dt(const_cast<Function *>(B->getParent())).dominates(x->getParent(), B)) return; next.push_back(N); };
      const Value *cv = nullptr; if (auto *Br = dyn_cast<BranchInst>(T)) { if (Br->isConditional()) cv = Br->getCondition(); } else if (auto *Sw = dyn_cast<SwitchInst>(T)) cv = Sw->getCondition();
      int how = cv && x ? bears(cv, x) : 0; if ((how & 4) && !(how & 1)) vague = true;
      if (!(how & 3)) { for (auto *N : successors(B)) go(N); }
      else {
        std::set<const Value *> vis; Set c = eval(cv, E, vis); bool dep = how & 1;
        if ((c.any || c.s.size() > 1) && (how & 5)) { if (dep && !c.any && (how & 2)) ; else vague = true; }
        if (auto *Br = dyn_cast<BranchInst>(T)) { bool t = c.any, f = c.any; for (auto &p : c.s) (p.first ? t : f) = true; if (t) go(Br->getSuccessor(0)); if (f) go(Br->getSuccessor(1)); }
        else { auto *Sw = cast<SwitchInst>(T); if (c.any) { for (auto *N : successors(B)) go(N); } else for (auto &p : c.s) go(Sw->findCaseValue(ConstantInt::get(cast<IntegerType>(cv->getType()), p.first))->getCaseSuccessor()); }
      }
      for (auto *N : next) if (edges.insert({B, N}).second && inq.insert(N).second) q.push_back(N);
    };
    std::set<const BasicBlock *> open; bool s0 = scan(S->getParent(), S); if (s0) term(S->getParent());
    while (!q.empty()) { auto *B = q.front(); q.pop_front(); inq.erase(B); steps++; if (scan(B, nullptr)) { term(B); open.insert(B); }
      // conditions that depend on how their block is reached may have changed: look at the successors' branches again
    }
    for (bool ch = true; ch;) { ch = false; size_t n = edges.size(); for (auto *B : std::vector<const BasicBlock *>(open.begin(), open.end())) if (phiTerm(B, x)) term(B); if (s0) term(S->getParent()); while (!q.empty()) { auto *B = q.front(); q.pop_front(); inq.erase(B); if (scan(B, nullptr)) { term(B); open.insert(B); } } if (edges.size() != n) ch = true; }
    return hit;
  }
  bool phiTerm(const BasicBlock *B, const Instruction *x) { auto *T = B->getTerminator(); const Value *cv = nullptr; if (auto *Br = dyn_cast<BranchInst>(T)) { if (Br->isConditional()) cv = Br->getCondition(); } else if (auto *Sw = dyn_cast<SwitchInst>(T)) cv = Sw->getCondition(); return cv && x && (bears(cv, x) & 2); }
  // ---- a test of the kind that tells printable octets from others, on data of the same object, that the place is behind
  bool testedBefore(const Value *base, const Instruction *at, const Instruction *except) {
    auto *F = const_cast<Function *>(at->getFunction());
    for (auto &J : instructions(*F)) {
      auto *L = dyn_cast<LoadInst>(&J); if (!L || !L->getType()->isIntegerTy(8) || L == except) continue;
      std::vector<const Value *> bs; if (!bases(L->getPointerOperand(), bs) || std::find(bs.begin(), bs.end(), base) == bs.end()) continue;
      // is it compared with a limit of the printable range, or looked up?
      bool t = false; std::vector<const Value *> w{L}; std::set<const Value *> s; const Instruction *where = L;
      while (!w.empty() && !t) { auto *v = w.back(); w.pop_back(); for (auto *U : v->users()) {
        if (auto *Q = dyn_cast<ICmpInst>(U)) { auto *c = dyn_cast<ConstantInt>(Q->getOperand(1)); if (!c) c = dyn_cast<ConstantInt>(Q->getOperand(0)); if (!c) continue; int64_t k = c->getSExtValue(); if ((k >= 0x1e && k <= 0x22) || (k >= 0x5d && k <= 0x60) || (k >= 0x7d && k <= 0x80) || k == -1 || k == -128) t = true, where = Q; }
        else if (auto *GP = dyn_cast<GetElementPtrInst>(U)) { auto *g = GP->getPointerOperand(); auto *l = dyn_cast<LoadInst>(g); if (g != v && (!tables(g).empty() || (l && isa<CallInst>(l->getPointerOperand())))) t = true, where = GP; }
        else if (auto *C = dyn_cast<CallInst>(U)) { auto *G = C->getCalledFunction(); if (G && !G->isIntrinsic() && !G->getName().starts_with("ubuf_") && !G->getName().starts_with("__status") && G->isDeclaration()) t = true, where = C; }
        else if ((isa<CastInst>(U) || isa<BinaryOperator>(U) || isa<PHINode>(U)) && s.insert(U).second) w.push_back(U);
      } }
      if (!t) continue; auto &D = dt(F); if (D.dominates(where, at)) return true;
      if (auto *Lp = li(F).getLoopFor(where->getParent())) if (D.dominates(Lp->getHeader(), at->getParent()) && !Lp->contains(at)) return true;
    }
    return false;
  }
  // a number read from data that nothing is compared with
  static bool rawWide(const Value *v) {
    for (;;) { if (auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); else if (auto *B = dyn_cast<BinaryOperator>(v); B && B->getOpcode() == Instruction::LShr) v = B->getOperand(0); else if (auto *I = dyn_cast<IntrinsicInst>(v); I && I->getIntrinsicID() == Intrinsic::bswap) v = I->getArgOperand(0); else break; }
    if (!v->getType()->isIntegerTy() || !(isa<LoadInst>(v) || isa<Argument>(v))) return false;
    std::vector<const Value *> w{v}; std::set<const Value *> s; while (!w.empty()) { auto *x = w.back(); w.pop_back(); for (auto *U : x->users()) { if (isa<ICmpInst>(U) || isa<SwitchInst>(U) || isa<PHINode>(U) || isa<StoreInst>(U)) return false; if ((isa<CastInst>(U) || isa<BinaryOperator>(U) || isa<IntrinsicInst>(U)) && s.insert(U).second) w.push_back(U); } }
    return true;
  }
  // ---- octets of a value used at `at`, first held at S (or where it is used)
  Res octetsAt(const Value *v, const Instruction *at, const Ctx *ctx, const Instruction *S = nullptr, const std::set<const Instruction *> &kill = {}) {
    Res R; std::set<const Value *> lv; std::set<const Instruction *> ls; leaves(v, lv, ls); while (auto *C = dyn_cast<CastInst>(v)) { if (!C->getOperand(0)->getType()->isIntegerTy()) break; v = C->getOperand(0); if (width(v) == 8) break; }
    auto put = [&](const Set &s, Res &r, const Instruction *from) { if (s.any) { r.unk.insert("value not known"); return; } for (auto &p : s.s) (p.second ? r.dat : r.con).set(p.first & 0xff); if (r.dat.any()) r.from = from; };
    if (ls.empty()) {
      Env E; E.ctx = ctx; E.use = at; std::set<const Value *> vis; Set s = eval(v, E, vis);
      if (auto *A = dyn_cast<Argument>(v); A && s.any && !ctx && width(v) == 8) { if (open(A->getParent())) { s = every(); } } if (s.any && rawWide(v)) s = every(); put(s, R, at); return R;
    }
    bool first = true;
    for (auto *x : ls) {
      Set base; if (auto *L = dyn_cast<LoadInst>(x)) base = leafBase(L, ctx); else { Env E; E.ctx = ctx; std::set<const Value *> vis; base = eval(x, E, vis); } if (base.any) base = every();
      Res r; bool vague = false; bool dom = dt(const_cast<Function *>(at->getFunction())).dominates(x, at);
      for (auto &b : base.s) {
        Env E; E.leaf = x; E.k = b.first; E.data = b.second; E.use = at; E.ctx = ctx; std::set<Edge> edges; bool vg = false; bool hit = reach(E, x, at, {}, edges, vg);
        if (dom && !hit) continue;
        if (S && S != x) { std::set<Edge> e2; bool v2 = false, h2; if (S->getFunction() == at->getFunction()) { h2 = reach(E, S, at, kill, e2, v2, &edges); if (!h2) continue; vg |= v2; } }
        E.edges = &edges; std::set<const Value *> vis; Set s = eval(v, E, vis); Res q; put(s, q, x); r.add(q); if (vg) vague = true;
      }
      // an octet nothing is known about is not called wrong when something else may have looked at it
      Oct badOct; for (int k = 0; k < 256; k++) if (r.dat[k] && !okDat(k)) badOct.set(k);
      if (badOct.any()) {
        bool soft = vague; if (auto *L = dyn_cast<LoadInst>(x)) { std::vector<const Value *> bs; if (bases(L->getPointerOperand(), bs)) { for (auto *b : bs) if (testedBefore(b, at, L)) soft = true; } }
        if (isa<CallInst>(x)) soft = true; if (!isa<LoadInst>(x) && !isa<CallInst>(x)) { if (!smallOp(x) && !rawWide(x)) soft = true; }
        if (soft) { r.dat &= ~badOct; r.unk.insert("the tests on the octet are not followed"); }
      }
      if (first) R = r; else { R.con &= r.con; R.dat &= r.dat | r.con; if (R.unk.empty() || r.unk.empty()) R.unk.clear(); }
      first = false;
    }
    return R;
  }
  bool open(const Function *F) { return !taken.count(const_cast<Function *>(F)); }
  // ---- pointers
  static const Value *asBase(const Value *v) { for (;;) { v = v->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(v)) v = G->getPointerOperand(); else return v; } }
  bool bases(const Value *p, std::vector<const Value *> &out) {
    std::vector<const Value *> w{p}; std::set<const Value *> s; while (!w.empty()) {
      auto *v = asBase(w.back()); w.pop_back(); if (!s.insert(v).second) continue;
      if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) w.push_back(x); } else if (auto *S = dyn_cast<SelectInst>(v)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); }
      else if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) continue; else if (auto *F = dyn_cast<FreezeInst>(v)) w.push_back(F->getOperand(0));
      else if (auto *C = dyn_cast<CallInst>(v)) {
        auto *F = C->getCalledFunction(); std::string n = F ? baseName(F->getName()) : "";
        if (!n.compare(0, 8, "__uninit")) continue;
        static const std::set<std::string> a0{"strchr", "strrchr", "strstr", "memchr", "strpbrk", "strcpy", "strncpy", "stpcpy", "stpncpy", "strcat", "strncat", "memcpy", "memmove", "mempcpy", "memset", "rawmemchr", "strchrnul", "realloc", "my_realloc", "index", "rindex"};
        if (a0.count(n)) w.push_back(C->getArgOperand(0)); else if (n == "strdup" || n == "strndup" || n == "my_strdup") w.push_back(C->getArgOperand(0)); else out.push_back(v);
        if (n == "realloc" || n == "my_realloc") out.push_back(v);
      } else out.push_back(v);
    }
    return true;
  }
  static bool allocates(const std::string &n) { static const std::set<std::string> s{"malloc", "calloc", "my_malloc", "my_calloc", "realloc", "my_realloc"}; return s.count(n); }
  static bool textBuf(const std::string &n) { static const std::set<std::string> s{"ubuf_cstr", "ubuf_data", "ubuf_ptr"}; return s.count(n); }
  void addGlobal(const GlobalVariable *G, Res &R) { if (G->hasInitializer() && readOnly(G)) for (char c : bytesOf(G)) R.con.set((uint8_t)c); else R.unk.insert("variable " + G->getName().str()); }
  void tableStrings(const Constant *c, Res &R, std::set<const Constant *> &s) {
    if (!s.insert(c).second) return; if (auto *G = dyn_cast<GlobalVariable>(c->stripPointerCasts())) { addGlobal(G, R); return; }
    if (auto *E = dyn_cast<ConstantExpr>(c)) { if (auto *G = dyn_cast<GlobalVariable>(asBase(E))) { addGlobal(G, R); return; } }
    for (auto &o : c->operands()) if (auto *k = dyn_cast<Constant>(o)) tableStrings(k, R, s);
  }
  static void push(std::vector<const Value *> &w, const Value *v) { w.push_back(v); }
  std::set<std::pair<const Value *, const Ctx *>> cbusy;
  // what the memory a pointer leads to may hold
  Res contents(const Value *p, const Instruction *at, const Ctx *ctx, bool bulk = true) {
    Res R; steps++; if (ctx && ctx->depth > 6) { R.unk.insert("calls too deep"); return R; } if (!cbusy.insert({p, ctx}).second) { cuts++; return R; } struct Out { decltype(cbusy) &b; std::pair<const Value *, const Ctx *> k; ~Out() { b.erase(k); } } o{cbusy, {p, ctx}};
    std::vector<const Value *> bs; bases(p, bs);
    for (auto *b : bs) {
      if (auto *G = dyn_cast<GlobalVariable>(b)) addGlobal(G, R);
      else if (auto *A = dyn_cast<AllocaInst>(b)) R.add(cell(A, at, ctx));
      else if (auto *A = dyn_cast<Argument>(b)) {
        if (ctx) R.add(contents(ctx->C->getArgOperand(A->getArgNo()), ctx->C, ctx->up));
        else external(b, at, R);
      } else if (auto *L = dyn_cast<LoadInst>(b)) R.add(loaded(L, at, ctx));
      else if (auto *C = dyn_cast<CallInst>(b)) {
        auto *F = C->getCalledFunction(); std::string n = F ? baseName(F->getName()) : "";
        if (textBuf(n)) continue; // what goes in there is looked at where it is added
        if (allocates(n)) R.add(objContents(C, ctx));
        else if (n == "strtok_r" || n == "strtok") { if (!isa<ConstantPointerNull>(C->getArgOperand(0))) R.add(contents(C->getArgOperand(0), C, ctx)); else for (auto &J : instructions(*const_cast<Function *>(C->getFunction()))) if (auto *K = dyn_cast<CallInst>(&J)) if (K->getCalledFunction() == F && !isa<ConstantPointerNull>(K->getArgOperand(0)) && K->getArgOperand(K->arg_size() - 1)->stripPointerCasts() == C->getArgOperand(C->arg_size() - 1)->stripPointerCasts()) R.add(contents(K->getArgOperand(0), K, ctx)); }
        else if (n == "strsep") R.add(slot(C->getArgOperand(0), C, ctx));
        else if (F && !F->isDeclaration()) { Ctx c{C, ctx, ctx ? ctx->depth + 1 : 1}; for (auto &BB : *F) if (auto *Rt = dyn_cast<ReturnInst>(BB.getTerminator())) if (Rt->getReturnValue()) R.add(contents(Rt->getReturnValue(), Rt, &c)); }
        else if (n == "inet_ntop") { if (C->arg_size() > 2) R.add(contents(C->getArgOperand(2), C, ctx)); }
        else R.unk.insert("result of " + (n.empty() ? std::string("a call through a pointer") : n));
      } else R.unk.insert("pointer not followed");
    }
    return R;
  }
  void external(const Value *base, const Instruction *at, Res &R) {
    if (auto *A = dyn_cast<Argument>(base); A && !open(A->getParent())) { R.unk.insert("argument of a function that is called through a pointer"); return; }
    if (testedBefore(base, at, nullptr)) { R.unk.insert("data that may have been looked at before"); return; }
    R.dat.set(); R.from = at;
  }
  // a pointer that is itself in memory
  Res loaded(const LoadInst *L, const Instruction *at, const Ctx *ctx) {
    Res R; auto *b = asBase(L->getPointerOperand());
    std::vector<const Value *> bs; bases(L->getPointerOperand(), bs);
    for (auto *b : bs) {
      if (auto *G = dyn_cast<GlobalVariable>(b)) { if (readOnly(G)) { std::set<const Constant *> s; Oct none; tableStrings(G->getInitializer(), R, s); } else R.unk.insert("variable " + G->getName().str()); }
      else if (isa<AllocaInst>(b)) R.add(slot(b, L, ctx));
      else if (isa<Argument>(b) || isa<LoadInst>(b)) { // data the caller hands over: record data, owner names
        bool known = false; if (auto *A = dyn_cast<Argument>(b); A && ctx) { R.add(slot(ctx->C->getArgOperand(A->getArgNo()), ctx->C, ctx->up)); known = true; }
        if (!known) external(b, at, R);
      } else if (auto *C = dyn_cast<CallInst>(b)) { auto *F = C->getCalledFunction(); if (F && F->getName() == "bsearch") { auto *T = dyn_cast<GlobalVariable>(asBase(C->getArgOperand(1))); if (T && readOnly(T)) { std::set<const Constant *> s; tableStrings(T->getInitializer(), R, s); continue; } } R.unk.insert("pointer read from memory"); }
      else R.unk.insert("pointer read from memory");
    }
    return R;
  }
  // a variable that holds a pointer and whose address is passed on
  Res slot(const Value *S, const Instruction *at, const Ctx *ctx, int depth = 0) {
    Res R; auto *A = dyn_cast<AllocaInst>(asBase(S)); if (!A) { if (auto *G = dyn_cast<Argument>(asBase(S)); G && ctx) return slot(ctx->C->getArgOperand(G->getArgNo()), ctx->C, ctx->up); R.unk.insert("pointer kept in memory"); return R; }
    std::vector<const Value *> w{A}; std::set<const Value *> s{A};
    while (!w.empty()) { auto *v = w.back(); w.pop_back(); for (auto *U : v->users()) {
      if (isa<GEPOperator>(U) || isa<BitCastOperator>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) { if (s.insert(U).second) w.push_back(U); }
      else if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getPointerOperand() == v && St->getValueOperand()->getType()->isPointerTy()) R.add(contents(St->getValueOperand(), St, ctx)); else if (St->getValueOperand() == v) R.unk.insert("pointer kept in memory"); }
      else if (auto *C = dyn_cast<CallInst>(U)) {
        auto *F = C->getCalledFunction(); std::string n = F ? baseName(F->getName()) : ""; if (isa<IntrinsicInst>(C)) { if (isa<MemCpyInst>(C) && C->getArgOperand(0) == v) { auto *G = dyn_cast<GlobalVariable>(asBase(C->getArgOperand(1))); if (G && readOnly(G)) { std::set<const Constant *> s; tableStrings(G->getInitializer(), R, s); } else R.unk.insert("pointers copied"); } continue; }
        if (n == "ubuf_detach" || n == "strtok_r" || n == "strsep" || n == "ubuf_destroy" || n == "my_free") continue;
        if (!F || F->isDeclaration()) { if (n == "strtol" || n == "strtoul" || n == "strtoull" || n == "strtod") R.add(contents(C->getArgOperand(0), C, ctx)); else R.unk.insert("pointer set by " + (n.empty() ? std::string("a call through a pointer") : n)); continue; }
        Ctx c{C, ctx, ctx ? ctx->depth + 1 : 1}; if (c.depth > 6) { R.unk.insert("calls too deep"); continue; }
        for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == v && i < F->arg_size()) R.add(slotIn(F->getArg(i), &c));
      } } }
    return R;
  }
  Res slotIn(const Value *A, const Ctx *ctx) { // pointers stored through a parameter
    Res R; std::vector<const Value *> w{A}; std::set<const Value *> s{A};
    while (!w.empty()) { auto *v = w.back(); w.pop_back(); for (auto *U : v->users()) {
      if (isa<GEPOperator>(U) || isa<BitCastOperator>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) { if (s.insert(U).second) w.push_back(U); }
      else if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getPointerOperand() == v && St->getValueOperand()->getType()->isPointerTy()) R.add(contents(St->getValueOperand(), St, ctx)); else if (St->getValueOperand() == v) R.unk.insert("pointer kept in memory"); }
      else if (auto *C = dyn_cast<CallInst>(U)) { auto *F = C->getCalledFunction(); std::string n = F ? baseName(F->getName()) : ""; if (isa<IntrinsicInst>(C) || n == "ubuf_detach") continue; if (!F || F->isDeclaration()) { R.unk.insert("pointer set by " + n); continue; } Ctx c{C, ctx, ctx->depth + 1}; if (c.depth > 6) { R.unk.insert("calls too deep"); continue; } for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == v && i < F->arg_size()) R.add(slotIn(F->getArg(i), &c)); }
    } }
    return R;
  }
  // one octet whose address is passed on: what was stored last before `at`
  Res cell(const AllocaInst *A, const Instruction *at, const Ctx *ctx) {
    if (!A->getAllocatedType()->isIntegerTy(8) || A->isArrayAllocation() || at->getFunction() != A->getFunction()) return objContents(A, ctx);
    std::set<const Instruction *> st; for (auto *U : A->users()) { if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() != A) return objContents(A, ctx); st.insert(S); } else if (auto *C = dyn_cast<CallInst>(U)) { auto *F = C->getCalledFunction(); std::string n = F ? baseName(F->getName()) : ""; if (C->isLifetimeStartOrEnd() || n == "ubuf_append" || n == "memcmp" || n == "fwrite") continue; return objContents(A, ctx); } else if (!isa<LoadInst>(U) && !isa<ICmpInst>(U)) return objContents(A, ctx); }
    Res R; for (auto *s : st) { auto *v = cast<StoreInst>(s)->getValueOperand(); if (auto *C = dyn_cast<CallInst>(v); C && C->getCalledFunction() && C->getCalledFunction()->getName().starts_with("__uninit")) continue;
      auto kill = st; kill.erase(s); std::set<Edge> e; bool vg = false; Env E; if (!reach(E, s, at, kill, e, vg)) continue; std::set<const Instruction *> k2 = kill; R.add(octetsAt(v, at, ctx, s, k2)); }
    return R;
  }
  // everything that is put into an object
  Res objContents(const Value *O, const Ctx *ctx) {
    Res R; static std::set<std::pair<const Value *, const Ctx *>> ob; if (ctx && ctx->depth > 8) { R.unk.insert("calls too deep"); return R; } if (!ob.insert({O, ctx}).second) { cuts++; return R; } struct Out { std::set<std::pair<const Value *, const Ctx *>> &b; std::pair<const Value *, const Ctx *> k; ~Out() { b.erase(k); } } oo{ob, {O, ctx}};
    std::vector<const Value *> w{O}; std::set<const Value *> s{O};
    auto alias = [&](const Value *v) { if (s.insert(v).second) w.push_back(v); };
    while (!w.empty()) { auto *v = w.back(); w.pop_back(); for (auto *U : v->users()) { steps++;
      if (isa<GEPOperator>(U) || isa<BitCastOperator>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U)) alias(U);
      else if (auto *St = dyn_cast<StoreInst>(U)) {
        auto *x = St->getValueOperand();
        if (x == v) { auto *A = dyn_cast<AllocaInst>(asBase(St->getPointerOperand())); if (!A) { if (!isa<Argument>(asBase(St->getPointerOperand()))) R.unk.insert("pointer kept in memory"); continue; } for (auto *U2 : A->users()) if (auto *L = dyn_cast<LoadInst>(U2)) if (L->getType()->isPointerTy()) alias(L); continue; }
        if (!x->getType()->isIntegerTy()) { if (auto *c = dyn_cast<Constant>(x); c && c->isNullValue()) R.con.set(0); else R.unk.insert("stored value not followed"); continue; }
        if (width(x) == 8) R.add(octetsAt(x, St, ctx));
        else if (auto *c = dyn_cast<ConstantInt>(x)) { for (unsigned i = 0; i < width(x) / 8; i++) R.con.set(c->getValue().extractBitsAsZExtValue(8, i * 8)); }
        else { Env E; E.ctx = ctx; std::set<const Value *> vis; Set q = eval(x, E, vis); if (q.any) R.unk.insert("stored value not followed"); else for (auto &p : q.s) for (unsigned i = 0; i < width(x) / 8; i++) (p.second ? R.dat : R.con).set(p.first >> (8 * i) & 0xff); }
      } else if (auto *C = dyn_cast<CallInst>(U)) call(C, v, ctx, R, alias);
      else if (isa<LoadInst>(U) || isa<ICmpInst>(U) || isa<ReturnInst>(U)) continue;
      else if (isa<PtrToIntInst>(U)) { for (auto *U2 : U->users()) if (isa<IntToPtrInst>(U2)) R.unk.insert("pointer made from a number"); }
      else R.unk.insert("use not followed");
    } }
    return R;
  }
  static bool readsOnly(const std::string &n) { static const std::set<std::string> s{"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "free", "my_free", "fputs", "fwrite", "puts", "fprintf", "printf", "strdup", "strndup", "my_strdup", "strtol", "strtoul", "strspn", "strcspn", "strnlen", "assert", "__assert_fail", "wdns_file_load_names"}; return s.count(n); }
  void call(const CallInst *C, const Value *v, const Ctx *ctx, Res &R, std::function<void(const Value *)> alias) {
    auto *F = C->getCalledFunction(); std::string n = F ? baseName(F->getName()) : "";
    if (C->isLifetimeStartOrEnd() || n.compare(0, 8, "__uninit") == 0 || n.compare(0, 8, "__status") == 0) return;
    if (auto *MI = dyn_cast<MemTransferInst>(C)) { if (MI->getRawDest() == v) R.add(contents(MI->getRawSource(), C, ctx)); return; }
    if (auto *MS = dyn_cast<MemSetInst>(C)) { if (MS->getRawDest() == v) R.add(octetsAt(MS->getValue(), C, ctx)); return; }
    if (isa<IntrinsicInst>(C)) { if (F->getIntrinsicID() != Intrinsic::assume && F->getIntrinsicID() != Intrinsic::objectsize) R.unk.insert("written by " + n); return; }
    if (n.compare(0, 5, "ubuf_") == 0) { if (n == "ubuf_detach" || n == "ubuf_append" || n == "ubuf_add_cstr" || n == "ubuf_add_fmt" || n == "ubuf_extend" || n == "ubuf_dup_cstr") return; }
    bool a0 = C->arg_size() && C->getArgOperand(0) == v;
    if (n == "snprintf" || n == "sprintf") { if (a0) R.add(fmt(C, n == "snprintf" ? 2 : 1, ctx)); return; }
    if (n == "strcpy" || n == "strncpy" || n == "stpcpy" || n == "strcat" || n == "strncat" || n == "mempcpy" || n == "memcpy" || n == "memmove" || n == "__strcpy_chk") { if (a0) { R.add(contents(C->getArgOperand(1), C, ctx)); alias(C); R.con.set(0); } return; }
    if (n == "strchr" || n == "strrchr" || n == "strstr" || n == "memchr" || n == "strpbrk" || n == "strtok_r" || n == "strtok" || n == "realloc" || n == "my_realloc") { if (a0) alias(C); return; }
    if (n == "inet_ntop") { if (C->getArgOperand(2) == v) { for (char c : std::string("0123456789abcdef:.")) R.con.set((uint8_t)c); R.con.set(0); alias(C); } return; }
    if (readsOnly(n)) return;
    if (!F) { R.unk.insert("passed to a call through a pointer"); return; }
    if (F->isDeclaration()) { for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == v && !C->paramHasAttr(i, Attribute::ReadOnly) && !C->paramHasAttr(i, Attribute::ReadNone) && !C->onlyReadsMemory()) R.unk.insert("passed to " + n); return; }
    Ctx c{C, ctx, ctx ? ctx->depth + 1 : 1}; if (c.depth > 6) { R.unk.insert("calls too deep"); return; }
    for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == v && i < F->arg_size()) {
      R.add(objContents(F->getArg(i), &c));
      for (auto &BB : *F) if (auto *Rt = dyn_cast<ReturnInst>(BB.getTerminator())) if (Rt->getReturnValue() && Rt->getReturnValue()->getType()->isPointerTy()) { std::vector<const Value *> bs; bases(Rt->getReturnValue(), bs); if (std::find(bs.begin(), bs.end(), F->getArg(i)) != bs.end()) alias(C); }
    }
  }
  // a printf-like call: the octets it produces
  Res fmt(const CallInst *C, unsigned fi, const Ctx *ctx) {
    Res R; std::vector<const Value *> bs; bases(C->getArgOperand(fi), bs); unsigned na = fi + 1;
    if (bs.size() != 1 || !isa<GlobalVariable>(bs[0]) || !readOnly(cast<GlobalVariable>(bs[0]))) { R.unk.insert("format not constant"); return R; }
    std::string f = bytesOf(cast<GlobalVariable>(bs[0])); f = f.c_str();
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { R.con.set((uint8_t)f[i]); continue; }
      i++; if (i >= f.size()) break; if (f[i] == '%') { R.con.set('%'); continue; }
      while (i < f.size() && strchr("-+ #0'", f[i])) i++;
      auto num = [&] { if (i < f.size() && f[i] == '*') { na++; i++; } else while (i < f.size() && isdigit((uint8_t)f[i])) i++; }; num(); if (i < f.size() && f[i] == '.') { i++; num(); }
      while (i < f.size() && strchr("hlqjzt", f[i])) i++; if (i >= f.size()) break;
      if (na >= C->arg_size()) { R.unk.insert("format without its argument"); return R; }
      if (f[i] == 's') R.add(contents(C->getArgOperand(na++), C, ctx)); else if (f[i] == 'c') R.add(octetsAt(C->getArgOperand(na++), C, ctx));
      else if (strchr("diouxX", f[i])) { na++; for (char c : std::string("0123456789abcdefABCDEFxX-+ ")) R.con.set((uint8_t)c); } else { R.unk.insert("conversion not known"); na++; }
    }
    R.con.set(0); return R;
  }
  // ---- the places that make text
  void sink(const char *kind, const Res &R, const Instruction *at) {
    ob[kind]++; Oct b; for (int k = 0; k < 256; k++) if ((R.con[k] && !okCon(k)) || (R.dat[k] && !okDat(k))) b.set(k);
    std::string l = locOf(at, true);
    if (b.any()) {
      int lo = -1; for (int k = 0; k < 256 && lo < 0; k++) if (b[k]) lo = k; int n = b.count();
      std::string what = "the octet " + show(lo) + (n > 1 ? " (and " + std::to_string(n - 1) + " other" + (n > 2 ? "s" : "") + " that " + (n > 2 ? "are" : "is") + " not printable)" : "") + " may get into rendered text as it is";
      if (R.from && R.from != at) what += ", read at " + fileLine(R.from);
      if (seen.insert(what + l).second) viol.push_back(json::Object{{"rule", "text"}, {"what", what}, {"loc", l}});
    }
    for (auto &u : R.unk) und.insert(l + ": " + u);
  }
  bool isText(const Value *p) { // memory that is part of a text under construction
    std::vector<const Value *> bs; bases(p, bs); for (auto *b : bs) if (auto *C = dyn_cast<CallInst>(b)) if (C->getCalledFunction() && textBuf(baseName(C->getCalledFunction()->getName()))) return true; return false;
  }
  static bool isStderr(const Value *f) { auto *L = dyn_cast<LoadInst>(f->stripPointerCasts()); auto *G = L ? dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts()) : nullptr; return G && G->getName() == "stderr"; }
  void function(Function &F) {
    for (auto &I : instructions(F)) {
      if (auto *St = dyn_cast<StoreInst>(&I)) { if (St->getValueOperand()->getType()->isIntegerTy(8) && isText(St->getPointerOperand())) sink("octet stored in a text", octetsAt(St->getValueOperand(), St, nullptr), St); continue; }
      auto *C = dyn_cast<CallInst>(&I); if (!C || !C->getCalledFunction()) continue; std::string n = baseName(C->getCalledFunction()->getName());
      if (n == "ubuf_append" || n == "ubuf_extend") { if (n == "ubuf_append") sink("octets appended", contents(C->getArgOperand(1), C, nullptr), C); }
      else if (n == "ubuf_add") sink("octet added", octetsAt(C->getArgOperand(1), C, nullptr), C);
      else if (n == "ubuf_add_cstr" || n == "ubuf_dup_cstr") sink("string added", contents(C->getArgOperand(n == "ubuf_add_cstr" ? 1 : 0), C, nullptr), C);
      else if (n == "ubuf_add_fmt") sink("formatted", fmt(C, 1, nullptr), C);
      else if (n == "fputs" || n == "puts") { if (n == "puts" || !isStderr(C->getArgOperand(1))) sink("string written out", contents(C->getArgOperand(0), C, nullptr), C); }
      else if (n == "fprintf") { if (!isStderr(C->getArgOperand(0))) sink("written out", fmt(C, 1, nullptr), C); } else if (n == "printf") sink("written out", fmt(C, 0, nullptr), C);
      else if (n == "fputc" || n == "putc" || n == "putchar" || n == "_IO_putc") { if (C->arg_size() < 2 || !isStderr(C->getArgOperand(1))) sink("written out", octetsAt(C->getArgOperand(0), C, nullptr), C); }
      else if (n == "fwrite") { if (!isStderr(C->getArgOperand(3))) sink("written out", contents(C->getArgOperand(0), C, nullptr), C); }
      else if (auto *MI = dyn_cast<MemTransferInst>(C)) { if (isText(MI->getRawDest())) sink("octets copied into a text", contents(MI->getRawSource(), C, nullptr), C); }
      else if ((n == "snprintf" || n == "sprintf") && isText(C->getArgOperand(0))) sink("formatted", fmt(C, n == "snprintf" ? 2 : 1, nullptr), C);
      else if ((n == "strcpy" || n == "strcat" || n == "stpcpy" || n == "strncpy") && isText(C->getArgOperand(0))) sink("octets copied into a text", contents(C->getArgOperand(1), C, nullptr), C);
    }
    if (!roots.count(&F)) return;
    // what the functions give back
    auto *SP = F.getSubprogram(); auto ts = SP && SP->getType() ? SP->getType()->getTypeArray() : DITypeRefArray(); auto isStr = [](DIType *t, bool c) { auto *p = dyn_cast_or_null<DIDerivedType>(t); if (!p || p->getTag() != dwarf::DW_TAG_pointer_type) return false; auto *b = p->getBaseType(); if (auto *q = dyn_cast_or_null<DIDerivedType>(b); q && q->getTag() == dwarf::DW_TAG_const_type) { if (!c) return false; b = q->getBaseType(); } auto *k = dyn_cast_or_null<DIBasicType>(b); return k && k->getName() == "char"; };
    if (ts.size() && isStr(ts[0], true)) for (auto &BB : F) if (auto *Rt = dyn_cast<ReturnInst>(BB.getTerminator())) sink("string returned", contents(Rt->getReturnValue(), Rt, nullptr), Rt);
    for (unsigned i = 0; i < F.arg_size() && i + 1 < ts.size(); i++) if (isStr(ts[i + 1], false)) { Res R = objContents(F.getArg(i), nullptr); const Instruction *at = R.from ? R.from : &*F.getEntryBlock().getFirstInsertionPt(); sink("string filled in", R, at); }
  }
};
}
int cmdChars(Module &M, const std::vector<std::string> &) {
  prepModule(M, [](Function &F) { return hasContract(F) || F.getName().starts_with("ubuf_"); });
  json::Array miss; auto &cx = M.getContext();
  for (auto &F : M) if (F.getName().starts_with("ubuf_")) {
    static const std::set<std::string> rd{"ubuf_append", "ubuf_add", "ubuf_add_cstr", "ubuf_add_fmt", "ubuf_cterm", "ubuf_cstr", "ubuf_data", "ubuf_ptr", "ubuf_size", "ubuf_value", "ubuf_clip", "ubuf_reserve", "ubuf_advance", "ubuf_rstrip", "ubuf_bytes"};
    // the text under construction is apart from everything else: adding to it changes nothing the functions read
    if (rd.count(baseName(F.getName()))) { F.deleteBody(); F.setAttributes(AttributeList()); for (auto *U : F.users()) if (auto *C = dyn_cast<CallInst>(U)) C->setAttributes(AttributeList()); F.setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::Ref) | MemoryEffects::inaccessibleMemOnly()); F.setDoesNotThrow(); }
  }
  { Chars R0(M); for (auto &G : M.globals()) if (R0.readOnly(&G)) G.setConstant(true); }
  { LoopAnalysisManager L; FunctionAnalysisManager Fm; CGSCCAnalysisManager Cg; ModuleAnalysisManager Mm; PassBuilder PB; PB.registerModuleAnalyses(Mm); PB.registerCGSCCAnalyses(Cg); PB.registerFunctionAnalyses(Fm); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, Fm, Cg, Mm);
    FunctionPassManager P; P.addPass(EarlyCSEPass(true)); P.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false))); for (auto &F : M) if (!F.isDeclaration()) P.run(F, Fm); }
  if (getenv("CHARS_DUMP")) if (auto *F = M.getFunction(getenv("CHARS_DUMP"))) F->print(errs());
  Chars R(M); std::vector<Function *> w; std::set<Function *> s;
  static const char *need[] = {"wdns_domain_to_str", "wdns_rdata_to_str", "wdns_rr_to_str", "wdns_rrset_to_str", "wdns_rrset_array_to_str", "wdns_message_to_str", "_wdns_rdata_to_ubuf"};
  for (auto *n : need) { auto *F = M.getFunction(n); if (!F || F->isDeclaration()) miss.push_back(std::string(n)); }
  for (auto &F : M) { StringRef n = F.getName(); if (F.isDeclaration() || !n.starts_with("wdns_") || n.starts_with("wdns_str_to")) continue; if (n.ends_with("_to_str") || n.starts_with("wdns_print_")) { R.roots.insert(&F); w.push_back(&F); s.insert(&F); } }
  for (auto &F : M) if (F.hasAddressTaken(nullptr, true, true)) R.taken.insert(&F);
  while (!w.empty()) { auto *F = w.back(); w.pop_back(); for (auto &I : instructions(*F)) for (auto &o : I.operands()) if (auto *G = dyn_cast<Function>(o->stripPointerCasts())) if (!G->isDeclaration() && !G->getName().starts_with("ubuf_") && s.insert(G).second) w.push_back(G); }
  if (miss.empty()) for (auto &F : M) if (s.count(&F)) {
    R.function(F); for (auto &v : R.viol) { json::Object o = *v.getAsObject(); o["kind"] = "violation"; o["function"] = F.getName().str(); emit(std::move(o)); }
    json::Object j; j["kind"] = "summary"; j["function"] = F.getName().str(); j["steps"] = R.steps; json::Object b; for (auto &p : R.ob) b[p.first] = p.second; j["obligations"] = std::move(b); json::Array u; for (auto &x : R.und) u.push_back(x); j["undecided"] = std::move(u); if (!R.ob.empty()) emit(std::move(j));
    R.viol = json::Array(); R.und.clear(); R.ob.clear(); R.steps = 0;
  }
  json::Object e; e["kind"] = "end"; e["missing"] = std::move(miss); emit(std::move(e)); return 0;
}
