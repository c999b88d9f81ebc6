// Symbolic terms for every value (a Herbrand/value-numbering abstract interpretation with a memory of exact cells):
// what a record insertion stores where, under which comparisons, in terms of the values at entry.
#pragma once
#include "absint.h"
#include <deque>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/LoopInfo.h>
using namespace llvm;
namespace terms {
enum Kind { KConst, KLin, KArg, KLoad, KAlloc, KFresh, KOp };
struct Term { Kind k; std::string op; std::vector<long> a; unsigned w = 64; bool unk = false; };
struct Terms {
  std::deque<Term> t; std::map<std::tuple<int, std::string, std::vector<long>>, int> ix;
  int mk(Kind k, const std::string &op, std::vector<long> a, unsigned w, bool unk = false) {
    auto key = std::make_tuple((int)k, op, a); auto it = ix.find(key); if (it != ix.end()) return it->second;
    Term x; x.k = k; x.op = op; x.a = a; x.w = w; x.unk = unk; t.push_back(x); return ix[key] = t.size() - 1;
  }
  int cst(long c) { return mk(KConst, "", {c}, 64); }
  bool isC(int x, long &c) const { if (t[x].k != KConst) return false; c = t[x].a[0]; return true; }
  // linear forms: a = {const, term, coef, term, coef ...}
  typedef std::pair<std::map<int, long>, long> Lin;
  Lin lin(int x) const { Lin l; l.second = 0; auto &T = t[x]; if (T.k == KConst) l.second = T.a[0]; else if (T.k == KLin) { l.second = T.a[0]; for (size_t i = 1; i + 1 < T.a.size(); i += 2) l.first[T.a[i]] = T.a[i + 1]; } else l.first[x] = 1; return l; }
  int of(const Lin &l0) { Lin l; l.second = l0.second; for (auto &p : l0.first) if (p.second) l.first.insert(p); if (l.first.empty()) return cst(l.second); if (l.first.size() == 1 && !l.second && l.first.begin()->second == 1) return l.first.begin()->first; std::vector<long> a{l.second}; bool u = false; unsigned w = 0; for (auto &p : l.first) { a.push_back(p.first); a.push_back(p.second); u |= t[p.first].unk; w = std::max(w, t[p.first].w); } return mk(KLin, "", a, w, u); }
  int add(int x, int y, long cy = 1) { Lin a = lin(x), b = lin(y); for (auto &p : b.first) a.first[p.first] += cy * p.second; a.second += cy * b.second; return of(a); }
  int scale(int x, long c) { Lin a = lin(x); for (auto &p : a.first) p.second *= c; a.second *= c; return of(a); }
  unsigned width(int x) const { auto &T = t[x]; if (T.k == KConst) { unsigned long v = T.a[0] < 0 ? -T.a[0] : T.a[0]; return v < 256 ? 8 : v < 65536 ? 16 : v < (1l << 31) ? 31 : 64; } if (T.k == KLin) { unsigned w = 0; for (size_t i = 1; i + 1 < T.a.size(); i += 2) w = std::max(w, t[T.a[i]].w); return w; } return T.w; }
  int op(const std::string &n, std::vector<long> a, unsigned w) { bool u = false; for (long x : a) u |= t[x].unk; return mk(KOp, n, a, w, u); }
  std::string str(int x) const {
    auto &T = t[x]; if (T.k == KConst) return std::to_string(T.a[0]);
    if (T.k == KLin) { std::string s; for (size_t i = 1; i + 1 < T.a.size(); i += 2) s += (s.empty() ? "" : "+") + (T.a[i + 1] == 1 ? "" : std::to_string(T.a[i + 1]) + "*") + str(T.a[i]); if (T.a[0]) s += (T.a[0] > 0 ? "+" : "") + std::to_string(T.a[0]); return "(" + s + ")"; }
    if (T.k == KArg) return T.op; if (T.k == KFresh) return "?" + std::to_string(x);
    std::string s = T.k == KLoad ? "[" : T.k == KAlloc ? "new" + T.op + "{" : T.op + "("; bool f = true; if (T.k != KAlloc) for (long y : T.a) { s += (f ? "" : ", ") + (T.k == KLoad && !f ? std::to_string(y) : str(y)); f = false; } return s + (T.k == KLoad ? "]" : T.k == KAlloc ? "}" : ")");
  }
};
struct St {
  std::map<const Value *, int> env;
  std::map<std::pair<int, int>, std::pair<int, int>> mem; // (base, offset) -> (octets, value)
  std::map<int, int> parent;                              // block made by realloc -> the block it replaces; 0: contents zero; -1: nothing set
  std::map<int, int> cont;                                // address -> what the octets from there on are
  std::map<int, bool> facts; std::set<int> smudged;       // blocks whose contents are not known
  std::set<std::pair<const BasicBlock *, std::string>> turned; // loops of which at least one turn was made
  std::map<int, long> ver;                                // version of contents that are not known
  std::set<const BasicBlock *> table; std::map<const BasicBlock *, int> turnNo; // loops over a constant table: which turn
  int lost = 0;
  int out = 0, base = -1, rem = -1; // octets appended; where the current field starts and what is left there
  std::map<const BasicBlock *, std::map<std::pair<int, int>, int>> start; // cells of this function's variables when the turn of a loop began
  std::set<const PHINode *> cp, rp; std::set<std::pair<int, int>> cc, rc; // variables and cells that held these at the start of the turn
  bool operator==(const St &o) const { return env == o.env && mem == o.mem && parent == o.parent && cont == o.cont && facts == o.facts && smudged == o.smudged && turned == o.turned && ver == o.ver && table == o.table && turnNo == o.turnNo && lost == o.lost && out == o.out && start == o.start && base == o.base && rem == o.rem && cp == o.cp && rp == o.rp && cc == o.cc && rc == o.rc; }
};
struct Run {
  Module &M; const DataLayout &DL; Terms T; json::Array viol; std::set<std::string> seen, und; std::map<std::string, long> ob; long steps = 0; bool over = false;
  std::set<int> ptrs; // terms that are addresses of objects
  bool unkCall = false; std::set<int> blocks; // terms for blocks made here
  // a loop: value of each variable on entry (joined, and one by one with what holds there), its step per turn (none: it varies),
  // k: the number of turns made so far, and what holds at the end of each way round (first turn or a later one)
  struct Loop1 { std::map<const PHINode *, int> entry; std::map<const PHINode *, std::set<std::pair<int, std::map<int, bool>>>> entries; std::map<const PHINode *, long> step; std::map<std::pair<int, int>, int> centry; std::map<std::pair<int, int>, std::set<std::pair<int, std::map<int, bool>>>> centries; std::map<std::pair<int, int>, long> cstep; std::set<std::pair<int, int>> cvaries; std::set<const PHINode *> varies; std::set<std::pair<bool, std::map<int, bool>>> backs; int k = -1; St st; bool have = false; int visits = 0; };
  typedef std::pair<const BasicBlock *, std::string> Key;
  std::map<Key, Loop1> heads; std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; int nfresh = 0; long nver = 1l << 40;
  long rTtl, rType, rClass, rName, rRd, sTtl, sType, sClass, sN, sName, sRd, nLen, nData, rSz, sSz, nSz, dLen, dData, aNrr, aNrs, aRr, aRs;
  std::vector<std::vector<std::pair<long, int>>> layouts;
  Run(Module &m) : M(m), DL(m.getDataLayout()) {
    T.cst(0);
    auto f = [&](const char *t, const char *n) { return fieldOff(M, t, n); };
    rTtl = f("wdns_rr_t", "rrttl"); rType = f("wdns_rr_t", "rrtype"); rClass = f("wdns_rr_t", "rrclass"); rName = f("wdns_rr_t", "name"); rRd = f("wdns_rr_t", "rdata"); rSz = typeSize(M, "wdns_rr_t");
    sTtl = f("wdns_rrset_t", "rrttl"); sType = f("wdns_rrset_t", "rrtype"); sClass = f("wdns_rrset_t", "rrclass"); sN = f("wdns_rrset_t", "n_rdatas"); sName = f("wdns_rrset_t", "name"); sRd = f("wdns_rrset_t", "rdatas"); sSz = typeSize(M, "wdns_rrset_t");
    nLen = f("wdns_name_t", "len"); nData = f("wdns_name_t", "data"); nSz = typeSize(M, "wdns_name_t"); dLen = f("wdns_rdata_t", "len"); dData = f("wdns_rdata_t", "data");
    aNrr = f("wdns_rrset_array_t", "n_rrs"); aNrs = f("wdns_rrset_array_t", "n_rrsets"); aRr = f("wdns_rrset_array_t", "rrs"); aRs = f("wdns_rrset_array_t", "rrsets");
  }
  std::vector<std::pair<long, int>> layout(long n) {
    std::vector<std::pair<long, int>> r;
    if (n == rSz) r = {{rTtl, 4}, {rType, 2}, {rClass, 2}, {rName + nLen, 1}, {rName + nData, 8}, {rRd, 8}};
    if (n == sSz) { std::vector<std::pair<long, int>> q{{sTtl, 4}, {sType, 2}, {sClass, 2}, {sN, 2}, {sName + nLen, 1}, {sName + nData, 8}, {sRd, 8}}; for (auto &x : q) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x); }
    if (n == nSz) r = {{nLen, 1}, {nData, 8}};
    if (n == 1 || n == 2 || n == 4 || n == 8) r = {{0, (int)n}};
    return r;
  }
  void bad(const std::string &rule, const std::string &what, const Instruction *at) { std::string l = at ? locOf(at, true) : "?"; if (seen.insert(rule + what + l).second) viol.push_back(json::Object{{"rule", rule}, {"what", what}, {"loc", l}}); }
  int fresh(unsigned w, const std::string &key, std::vector<long> of = {}) { return T.mk(KFresh, key, of, w, true); }
  int freshNew(unsigned w) { return fresh(w, "n" + std::to_string(nfresh++)); }
  // ---- addresses
  bool isPtr(int x) const { return ptrs.count(x); }
  bool split(int addr, int &base, int &off) { auto l = T.lin(addr); base = -1; for (auto &p : l.first) if (isPtr(p.first) && p.second == 1) { if (base >= 0) return false; base = p.first; } if (base < 0) return false; l.first.erase(base); off = T.of(l); return true; }
  bool constDiff(int x, int y, long &d) { return T.isC(T.add(x, y, -1), d); }
  bool mayOverlap(int o1, int n1, int o2, int n2) { long d; if (!constDiff(o1, o2, d)) return true; return d < n2 && -d < n1; }
  int initial(St &S, int base, int off, int n, bool p) {
    int b = base;
    for (auto it = S.parent.find(b); it != S.parent.end(); it = S.parent.find(b)) { if (it->second == -1) return fresh(n * 8, "u" + std::to_string(base) + "." + std::to_string(off) + "." + std::to_string(n)); if (it->second == 0) return T.cst(0); b = it->second; if (S.smudged.count(b)) return freshNew(n * 8); }
    int r = T.mk(KLoad, "", {T.add(b, off), n}, n * 8, T.t[b].unk || T.t[off].unk); if (p) ptrs.insert(r); return r;
  }
  std::map<int, const GlobalVariable *> globals; std::set<int> stable; std::map<int, std::pair<int, int>> octet; // octet read -> where
  std::function<void(St &, int, int, int, const Instruction *)> onStore; std::function<void(St &, const BasicBlock *, std::vector<std::pair<const PHINode *, int>> &)> onEnter, onBack;
  int load(St &S, int addr, int n, bool p) { int r = load0(S, addr, n, p), b, o; if (n == 1 && split(addr, b, o)) octet[r] = {b, o}; return r; }
  // a constant read from a constant table
  bool fold(int addr, Type *ty, int &r) {
    int b, o; long c; if (!split(addr, b, o) || !T.isC(o, c)) return false; auto it = globals.find(b); if (it == globals.end()) return false;
    auto *k = ConstantFoldLoadFromConst(const_cast<Constant *>(it->second->getInitializer()), ty, APInt(64, c), DL); auto *ci = dyn_cast_or_null<ConstantInt>(k); if (!ci || ci->getBitWidth() > 64) return false;
    r = T.cst(ci->getZExtValue()); return true;
  }
  int load0(St &S, int addr, int n, bool p) {
    { int b, o; if (!stable.empty() && split(addr, b, o) && stable.count(b)) return initial(S, b, o, n, p); }
    int base, off; if (S.lost || !split(addr, base, off)) { int r = freshNew(n * 8); if (p) ptrs.insert(r); return r; }
    auto it = S.mem.find({base, off}); if (it != S.mem.end() && it->second.first == n) return it->second.second;
    bool over = S.smudged.count(base); for (auto &c : S.mem) if (c.first.first == base && mayOverlap(c.first.second, c.second.first, off, n)) over = true;
    if (over) { std::string key = S.smudged.count(base) ? "s" + std::to_string(S.ver[base]) : std::string("o"); for (auto &c : S.mem) if (c.first.first == base && mayOverlap(c.first.second, c.second.first, off, n)) key += "," + std::to_string(c.first.second) + ":" + std::to_string(c.second.first) + "=" + std::to_string(c.second.second); std::vector<long> dep{addr}; for (auto &c : S.mem) if (c.first.first == base) { dep.push_back(c.first.second); dep.push_back(c.second.second); }
      int r = fresh(n * 8, key + "." + std::to_string(n), dep); if (p) ptrs.insert(r); return r; }
    return initial(S, base, off, n, p);
  }
  void store(St &S, int addr, int n, int v) {
    int base, off; if (!split(addr, base, off)) { S.lost = 1; return; }
    if (!blocks.count(base) && T.t[base].unk) { S.lost = 1; return; }
    for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.first == base && mayOverlap(it->first.second, it->second.first, off, n)) it = S.mem.erase(it); else ++it;
    for (auto it = S.cont.begin(); it != S.cont.end();) { int b2, o2; if (split(it->first, b2, o2) && b2 == base) it = S.cont.erase(it); else ++it; }
    if (S.smudged.count(base)) S.ver[base] = ++nver;
    S.mem[{base, off}] = {n, v};
  }
  void kill(St &S, int addr) { int base, off; if (!split(addr, base, off)) { S.lost = 1; return; } S.smudged.insert(base); S.ver[base] = ++nver; for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.first == base) it = S.mem.erase(it); else ++it; for (auto it = S.cont.begin(); it != S.cont.end();) { int b2, o2; if (split(it->first, b2, o2) && b2 == base) it = S.cont.erase(it); else ++it; } }
  int contOf(St &S, int addr) { auto it = S.cont.find(addr); if (it != S.cont.end()) return it->second; int base, off; if (S.lost || !split(addr, base, off) || S.smudged.count(base)) return freshNew(64); for (auto &c : S.cont) { int b2, o2; if (split(c.first, b2, o2) && b2 == base) return freshNew(64); } if (S.parent.count(base)) return freshNew(64); return T.op("octets", {addr}, 64); }
  // ---- values
  int val(St &S, const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) return c->getBitWidth() <= 64 ? T.cst(c->getBitWidth() == 1 ? c->getZExtValue() : c->getSExtValue()) : freshNew(64);
    if (isa<ConstantPointerNull>(v)) return T.cst(0);
    if (auto *g = dyn_cast<GlobalVariable>(v); g && g->isConstant() && g->hasInitializer()) { int r = T.mk(KArg, "@" + v->getName().str(), {}, 64); ptrs.insert(r); globals[r] = g; return r; }
    if (auto *ce = dyn_cast<ConstantExpr>(v); ce && ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) return T.add(val(S, ce->getOperand(0)), T.cst(off.getSExtValue())); }
    if (isa<GlobalValue>(v)) { int r = T.mk(KArg, "@" + v->getName().str(), {}, 64); ptrs.insert(r); return r; }
    auto it = S.env.find(v); if (it != S.env.end()) return it->second;
    int r = freshNew(v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64); if (v->getType()->isPointerTy()) ptrs.insert(r); return r;
  }
  // comparison terms: EQ(a,b) with a<b, ULT(a,b), SLT(a,b); second: negated
  std::pair<int, bool> cmp(CmpInst::Predicate p, int a, int b, unsigned w) {
    { int ab, ao, bb, bo; if (w == 64 && a != b && split(a, ab, ao) && split(b, bb, bo) && ab == bb && !T.t[ab].unk) return cmp(ICmpInst::isEquality(p) ? p : ICmpInst::getSignedPredicate(p), ao, bo, 64); } // places in the same object
    bool neg = false; if (p == CmpInst::ICMP_NE) { p = CmpInst::ICMP_EQ; neg = true; }
    if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
    if (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE) { p = p == CmpInst::ICMP_UGE ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT; neg = !neg; }
    long x, y; bool cx = T.isC(a, x), cy = T.isC(b, y);
    if (p == CmpInst::ICMP_EQ) {
      long d; if (constDiff(a, b, d)) return {T.cst(d == 0), neg};
      if (cy && y == 0 && T.t[a].k == KOp && (T.t[a].op == "EQ" || T.t[a].op == "ULT" || T.t[a].op == "SLT" || T.t[a].op == "TRUE")) return {a, !neg};
      { int ob2, oo; long oc; auto obj = [&](int q) { return split(q, ob2, oo) && (globals.count(ob2) || blocks.count(ob2)) && T.isC(oo, oc) && oc >= 0; }; if ((cy && y == 0 && obj(a)) || (cx && x == 0 && obj(b))) return {T.cst(0), neg}; }
      if (cy && y == 0 && (blocks.count(a))) return {T.cst(0), neg}; if (cx && x == 0 && blocks.count(b)) return {T.cst(0), neg};
      if (a > b) std::swap(a, b); return {T.op("EQ", {a, b}, 1), neg};
    }
    auto narrow = [&](int q) { long c; if (T.isC(q, c)) return c >= 0; return T.width(q) < w; };
    bool u = p == CmpInst::ICMP_ULT || (narrow(a) && narrow(b));
    if (cx && cy) { if (w < 64) { unsigned long m = (1ul << w) - 1; return {T.cst(u ? ((unsigned long)x & m) < ((unsigned long)y & m) : x < y), neg}; } return {T.cst(u ? (unsigned long)x < (unsigned long)y : x < y), neg}; }
    if (u && cx && x == 0) return cmp(neg ? CmpInst::ICMP_EQ : CmpInst::ICMP_NE, b, T.cst(0), w);
    if (u && cy && y == 1) return cmp(neg ? CmpInst::ICMP_NE : CmpInst::ICMP_EQ, a, T.cst(0), w);
    return {T.op(u ? "ULT" : "SLT", {a, b}, 1), neg};
  }
  int decide(St &S, int c) { long k; if (T.isC(c, k)) return k != 0; auto it = S.facts.find(c); if (it != S.facts.end()) return it->second; return -1; }
  // condition values are terms or NOT(term)
  int asVal(std::pair<int, bool> c) { long k; if (T.isC(c.first, k)) return T.cst((k != 0) != c.second); return c.second ? T.op("NOT", {c.first}, 1) : c.first; }
  void cond(St S, int c, const std::function<void(St, bool)> &k) {
    long v; if (T.isC(c, v)) { k(std::move(S), v != 0); return; }
    bool neg = false; int t = c; while (T.t[t].k == KOp && T.t[t].op == "NOT") { neg = !neg; t = T.t[t].a[0]; }
    if (T.t[t].k == KOp && (T.t[t].op == "ANDB" || T.t[t].op == "ORB")) {
      bool isOr = T.t[t].op == "ORB"; int x = T.t[t].a[0], y = T.t[t].a[1];
      cond(std::move(S), x, [&](St A, bool vx) { if (vx == isOr) { k(std::move(A), isOr != neg); return; } cond(std::move(A), y, [&](St B, bool vy) { k(std::move(B), vy != neg); }); }); return;
    }
    int d = decide(S, t); if (d >= 0) { k(std::move(S), (d != 0) != neg); return; }
    for (int q = 0; q < 2; q++) { St A = S; A.facts[t] = q; k(std::move(A), (q != 0) != neg); }
  }
  typedef std::function<void(St &, int, const Instruction *)> Ret;
  typedef std::function<bool(St &, CallInst *, const std::string &, int &)> Hook;
  Ret onRet; Hook hook; std::function<bool(St &, const BasicBlock *, std::vector<std::pair<const PHINode *, int>> &)> turn;
  Key keyOf(St &S, const BasicBlock *b) { std::string s; for (auto &p : S.turnNo) if (p.first != b) s += "." + std::to_string(p.second); return {b, s}; }
  bool mentions(int x, const std::set<int> &fs) { std::vector<int> w{x}; std::set<int> seen; while (!w.empty()) { int y = w.back(); w.pop_back(); if (!seen.insert(y).second) continue; if (fs.count(y)) return true; auto &t = T.t[y]; if (t.k == KLin) for (size_t i = 1; i + 1 < t.a.size(); i += 2) w.push_back(t.a[i]); else if (t.k == KOp || t.k == KFresh) for (long z : t.a) w.push_back(z); else if (t.k == KLoad) w.push_back(t.a[0]); else if (t.k == KAlloc) for (long z : t.a) w.push_back(z); } return false; }
  void go(St S, const BasicBlock *from, const BasicBlock *to, int depth) {
    if (over) return;
    std::vector<std::pair<const PHINode *, int>> ph; for (auto &P : to->phis()) ph.push_back({&P, val(S, P.getIncomingValueForBlock(from))});
    auto *L = LI->getLoopFor(to);
    if (!L || L->getHeader() != to) { for (auto &p : ph) S.env[p.first] = p.second; exec(std::move(S), to->begin(), depth + 1); return; }
    auto key = keyOf(S, to); auto &H = heads[key]; bool back = L->contains(from); auto nm = std::to_string((long)to) + key.second; if (H.k < 0) H.k = fresh(31, "k" + nm);
    if (back && S.table.count(to)) { if (turn && turn(S, to, ph)) exec(std::move(S), to->getFirstNonPHI()->getIterator(), depth + 1); return; }
    std::set<int> fs{H.k}; std::vector<int> fv; int n = 0;
    for (auto &p : ph) { int f = fresh(p.first->getType()->isIntegerTy() ? p.first->getType()->getIntegerBitWidth() : 64, "h" + nm + "." + std::to_string(n++)); fv.push_back(f); fs.insert(f); }
    // cells, contents, facts and values named by what the last turn (or an earlier run of the loop) left behind
    auto clean = [&]() {
      std::set<int> drop; for (auto &c : S.mem) if (mentions(c.first.second, fs) || mentions(c.first.first, fs)) drop.insert(c.first.first);
      for (int b : drop) { if (mentions(b, fs)) S.lost = 1; kill(S, b); }
      for (auto &c : S.mem) if (mentions(c.second.second, fs)) c.second.second = freshNew(c.second.first * 8);
      for (auto it = S.cont.begin(); it != S.cont.end();) if (mentions(it->first, fs) || mentions(it->second, fs)) it = S.cont.erase(it); else ++it;
      for (auto it = S.facts.begin(); it != S.facts.end();) if (mentions(it->first, fs)) it = S.facts.erase(it); else ++it;
      if (mentions(S.out, fs)) S.out = freshNew(64);
    };
    if (!back) {
      if (onEnter && !L->getParentLoop()) onEnter(S, to, ph);
      for (auto &p : ph) { H.entries[p.first].insert({p.second, S.facts}); auto it = H.entry.find(p.first); if (it == H.entry.end()) H.entry[p.first] = p.second; else if (it->second != p.second && !H.varies.count(p.first)) { it->second = fresh(64, "e" + nm + "." + std::to_string((long)p.first)); } }
      clean(); for (auto &e : S.env) if (mentions(e.second, fs)) e.second = freshNew(64);
      auto &ss = S.start[to]; ss.clear(); for (auto &c : S.mem) if (blocks.count(c.first.first) && T.t[c.first.second].k == KConst) { ss[c.first] = c.second.second; H.centries[c.first].insert({c.second.second, S.facts}); auto it = H.centry.find(c.first); if (it == H.centry.end()) H.centry[c.first] = c.second.second; else if (it->second != c.second.second && !H.cvaries.count(c.first)) it->second = fresh(c.second.first * 8, "ec" + nm + "." + std::to_string(c.first.first) + "." + std::to_string(c.first.second)); }
      // the first turn is followed as it is
      for (auto &p : ph) S.env[p.first] = p.second; exec(std::move(S), to->getFirstNonPHI()->getIterator(), depth + 1); return;
    }
    if (onBack && !S.turned.count(key)) onBack(S, to, ph);
    H.backs.insert({!S.turned.count(key), S.facts}); S.turned.insert(key);
    bool more = false;
    for (auto &p : ph) { if (H.varies.count(p.first)) continue; auto it = S.env.find(p.first); long d; bool ok = it != S.env.end() && constDiff(p.second, it->second, d); if (ok) { auto st = H.step.find(p.first); if (st == H.step.end()) H.step[p.first] = d; else if (st->second != d) ok = false; } if (!ok) { H.varies.insert(p.first); more = true; } }
    // variables kept in memory: those that change by a fixed amount per turn
    auto &ss = S.start[to]; for (auto &e : H.centry) { if (H.cvaries.count(e.first)) continue; auto a = ss.find(e.first); auto b = S.mem.find(e.first); long d; bool ok = a != ss.end() && b != S.mem.end() && constDiff(b->second.second, a->second, d); if (ok) { auto st = H.cstep.find(e.first); if (st == H.cstep.end()) H.cstep[e.first] = d; else if (st->second != d) ok = false; } if (!ok) { H.cvaries.insert(e.first); more = true; } }
    auto setCells = [&](St &X) { for (auto &e : H.centry) if (!H.cvaries.count(e.first) && H.cstep.count(e.first)) { auto b = X.mem.find(e.first); if (b != X.mem.end()) b->second.second = T.add(e.second, T.scale(H.k, H.cstep[e.first])); } auto &q = X.start[to]; q.clear(); for (auto &c : X.mem) if (blocks.count(c.first.first) && T.t[c.first.second].k == KConst) q[c.first] = c.second.second; };
    for (auto &e : H.centry) if (!H.cvaries.count(e.first)) { auto b = S.mem.find(e.first); if (b != S.mem.end()) b->second.second = T.cst(0); }
    clean(); setCells(S);
    for (auto it = S.start.begin(); it != S.start.end();) if (it->first != to && L->contains(it->first)) it = S.start.erase(it); else ++it;
    for (auto it = S.env.begin(); it != S.env.end();) { auto *I = dyn_cast<Instruction>(it->first); if (I && L->contains(I->getParent())) it = S.env.erase(it); else ++it; }
    // what is known of objects that nothing refers to any more
    { std::set<int> live; auto add = [&](int v) { std::vector<int> w{v}; while (!w.empty()) { int y = w.back(); w.pop_back(); if (!live.insert(y).second) continue; auto &t = T.t[y]; if (t.k == KLin) for (size_t i = 1; i + 1 < t.a.size(); i += 2) w.push_back(t.a[i]); else if (t.k == KLoad) w.push_back(t.a[0]); else if (t.k != KConst && t.k != KArg) for (long z : t.a) w.push_back(z); } };
      for (auto &e : S.env) add(e.second); for (auto &c : S.mem) { add(c.first.first); add(c.second.second); } for (auto &p : ph) add(p.second);
      for (auto it = S.smudged.begin(); it != S.smudged.end();) if (T.t[*it].k == KFresh && !live.count(*it)) { S.ver.erase(*it); it = S.smudged.erase(it); } else ++it; }
    auto setPhis = [&](St &X) { for (size_t i = 0; i < ph.size(); i++) X.env[ph[i].first] = H.varies.count(ph[i].first) ? fv[i] : T.add(H.entry[ph[i].first], T.scale(H.k, H.step[ph[i].first])); };
    setPhis(S);
    if (!H.have) { H.st = S; H.have = true; }
    else {
      St J = H.st;
      for (auto it = J.env.begin(); it != J.env.end();) { auto jt = S.env.find(it->first); if (jt == S.env.end() || jt->second != it->second) it = J.env.erase(it); else ++it; }
      for (auto it = J.mem.begin(); it != J.mem.end();) { auto jt = S.mem.find(it->first); if (jt == S.mem.end() || jt->second.first != it->second.first) { int b = it->first.first; kill(J, b); it = J.mem.begin(); continue; } if (jt->second.second != it->second.second) it->second.second = fresh(it->second.first * 8, "m" + std::to_string((long)to) + "." + std::to_string(it->first.first) + "." + std::to_string(it->first.second)); ++it; }
      for (auto &c : S.mem) if (!J.mem.count(c.first) && !J.smudged.count(c.first.first)) kill(J, c.first.first);
      for (auto it = J.cont.begin(); it != J.cont.end();) { auto jt = S.cont.find(it->first); if (jt == S.cont.end() || jt->second != it->second) it = J.cont.erase(it); else ++it; }
      for (auto it = J.facts.begin(); it != J.facts.end();) { auto jt = S.facts.find(it->first); if (jt == S.facts.end() || jt->second != it->second) it = J.facts.erase(it); else ++it; }
      for (int b : S.smudged) if (J.smudged.insert(b).second) { kill(J, b); }
      for (auto it = J.parent.begin(); it != J.parent.end();) { auto jt = S.parent.find(it->first); if (jt == S.parent.end() || jt->second != it->second) it = J.parent.erase(it); else ++it; }
      for (auto it = J.start.begin(); it != J.start.end();) { auto jt = S.start.find(it->first); if (jt == S.start.end()) { it = J.start.erase(it); continue; } for (auto c = it->second.begin(); c != it->second.end();) { auto d = jt->second.find(c->first); if (d == jt->second.end() || d->second != c->second) c = it->second.erase(c); else ++c; } ++it; }
      J.lost |= S.lost; if (J.out != S.out) J.out = fresh(64, "o" + nm);
      for (int b : J.smudged) { auto x = J.ver.find(b), y = S.ver.find(b); if (x == J.ver.end() || y == S.ver.end() || x->second != y->second) J.ver[b] = fresh(64, "v" + nm + "." + std::to_string(b)); }
      for (auto it = J.ver.begin(); it != J.ver.end();) if (!J.smudged.count(it->first)) it = J.ver.erase(it); else ++it;
      setPhis(J); setCells(J); if (J == H.st && !more) return; H.st = J; if (++H.visits > 40) { und.insert("a loop is not stable: " + locOf(from->getTerminator(), true)); over = true; return; }
      S = J;
    }
    exec(std::move(S), to->getFirstNonPHI()->getIterator(), depth + 1);
  }
  int newBlock(const Instruction *I, int parent) { int b = T.mk(KAlloc, std::to_string((long)I), {}, 64); ptrs.insert(b); blocks.insert(b); (void)parent; return b; }
  void exec(St S, BasicBlock::const_iterator it, int depth) {
    auto *B = it->getParent(); if (depth > 3000) { over = true; und.insert("too deep"); return; }
    for (; it != B->end() && !over; ++it) {
      if (++steps > 400000) { und.insert("too many steps"); over = true; return; }
      const Instruction &I = *it; unsigned w = I.getType()->isIntegerTy() ? I.getType()->getIntegerBitWidth() : 64;
      if (isa<PHINode>(I)) continue;
      if (isa<AllocaInst>(I)) { int b = newBlock(&I, -1); S.env[&I] = b; S.parent[b] = -1; S.smudged.erase(b); continue; }
      if (auto *L = dyn_cast<LoadInst>(&I)) { int fr; if (L->getType()->isIntegerTy() && fold(val(S, L->getPointerOperand()), L->getType(), fr)) { S.env[&I] = fr; if (turn) if (auto *lp = LI->getLoopFor(B)) S.table.insert(lp->getOutermostLoop()->getHeader()); continue; }  S.env[&I] = load(S, val(S, L->getPointerOperand()), DL.getTypeStoreSize(L->getType()), L->getType()->isPointerTy()); continue; }
      if (auto *X = dyn_cast<StoreInst>(&I)) { if (onStore) onStore(S, val(S, X->getPointerOperand()), DL.getTypeStoreSize(X->getValueOperand()->getType()), val(S, X->getValueOperand()), &I); store(S, val(S, X->getPointerOperand()), DL.getTypeStoreSize(X->getValueOperand()->getType()), val(S, X->getValueOperand())); continue; }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        int a = val(S, G->getPointerOperand());
        for (auto gi = gep_type_begin(G); gi != gep_type_end(G); ++gi) { if (StructType *ST = gi.getStructTypeOrNull()) a = T.add(a, T.cst(DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()))); else a = T.add(a, T.scale(val(S, gi.getOperand()), DL.getTypeAllocSize(gi.getIndexedType()))); }
        S.env[&I] = a; continue;
      }
      if (auto *O = dyn_cast<BinaryOperator>(&I)) {
        int a = val(S, O->getOperand(0)), b = val(S, O->getOperand(1)); long c, d; int r = -1; bool ca = T.isC(a, c), cb = T.isC(b, d);
        switch (O->getOpcode()) {
        case Instruction::Add: r = T.add(a, b); break; case Instruction::Sub: r = T.add(a, b, -1); break;
        case Instruction::Mul: if (cb) r = T.scale(a, d); else if (ca) r = T.scale(b, c); break;
        case Instruction::Shl: if (cb && d < 32) r = T.scale(a, 1l << d); break;
        case Instruction::Xor: if (w == 1 && cb && d) r = asVal({a, true}), r = ca ? T.cst(!c) : r; break;
        case Instruction::And: if (w == 1) { r = ca ? (c ? b : T.cst(0)) : cb ? (d ? a : T.cst(0)) : T.op("ANDB", {a, b}, 1); } break;
        case Instruction::Or: if (w == 1) { r = ca ? (c ? T.cst(1) : b) : cb ? (d ? T.cst(1) : a) : T.op("ORB", {a, b}, 1); } break;
        default: break;
        }
        if (r < 0) r = T.op(O->getOpcodeName(), {a, b}, w);
        S.env[&I] = r; continue;
      }
      if (auto *Z = dyn_cast<CastInst>(&I)) {
        int a = val(S, Z->getOperand(0)); unsigned sw = Z->getSrcTy()->isIntegerTy() ? Z->getSrcTy()->getIntegerBitWidth() : 64; long c;
        if (isa<TruncInst>(Z)) { if (w == 1) { long q; S.env[&I] = T.isC(a, q) ? T.cst(q & 1) : a; } else if (T.isC(a, c)) S.env[&I] = T.cst(w == 8 ? (int8_t)c : w == 16 ? (int16_t)c : (int32_t)c); else S.env[&I] = T.width(a) <= w && !(w == 8 && wraps(a)) ? a : T.op("cut" + std::to_string(w), {a}, w); }
        else if (isa<ZExtInst>(Z)) { if (T.isC(a, c) && sw < 64) a = T.cst(c & ((1ul << sw) - 1)); else if (auto *ad = dyn_cast<BinaryOperator>(Z->getOperand(0)); sw == 8 && ad && !ad->hasNoUnsignedWrap() && wraps(a)) a = T.op("cut8", {a}, 8);
          S.env[&I] = a; }
        else if (isa<SExtInst>(Z) && sw <= 16 && sw > 1 && T.t[a].k != KConst && T.width(a) >= sw) S.env[&I] = T.op("sext" + std::to_string(sw), {a}, w);
        else S.env[&I] = a;
        continue;
      }
      if (auto *C = dyn_cast<ICmpInst>(&I)) {
        int a = val(S, C->getOperand(0)), b = val(S, C->getOperand(1)); unsigned cw = C->getOperand(0)->getType()->isIntegerTy() ? C->getOperand(0)->getType()->getIntegerBitWidth() : 64;
        long d; auto cond1 = [&](int q) { return T.t[q].k == KOp && (T.t[q].op == "NOT" || T.t[q].op == "ANDB" || T.t[q].op == "ORB" || T.t[q].op == "EQ" || T.t[q].op == "ULT" || T.t[q].op == "SLT" || T.t[q].op == "TRUE"); };
        if (C->isEquality() && T.isC(b, d) && cond1(a) && (d == 0 || d == 1)) { bool neg = (C->getPredicate() == CmpInst::ICMP_EQ) == (d == 0); S.env[&I] = neg ? asVal({a, true}) : a; continue; }
        S.env[&I] = asVal(cmp(C->getPredicate(), a, b, cw)); continue;
      }
      if (auto *Q = dyn_cast<SelectInst>(&I)) { auto nx = std::next(it); int cv = val(S, Q->getCondition()); cond(std::move(S), cv, [&](St A, bool t) { A.env[Q] = val(A, t ? Q->getTrueValue() : Q->getFalseValue()); exec(std::move(A), nx, depth + 1); }); return; }
      if (auto *C = dyn_cast<CallInst>(&I)) { call(S, const_cast<CallInst *>(C)); continue; }
      if (auto *R = dyn_cast<ReturnInst>(&I)) {
        if (R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy(1)) { int cv = val(S, R->getReturnValue()); cond(std::move(S), cv, [&](St A, bool t) { onRet(A, T.cst(t), R); }); }
        else onRet(S, R->getReturnValue() ? val(S, R->getReturnValue()) : 0, R);
        return;
      }
      if (auto *J = dyn_cast<BranchInst>(&I)) {
        if (!J->isConditional()) { go(std::move(S), B, J->getSuccessor(0), depth); return; }
        int cv = val(S, J->getCondition()); cond(std::move(S), cv, [&](St A, bool t) { go(std::move(A), B, J->getSuccessor(t ? 0 : 1), depth); }); return;
      }
      if (auto *W = dyn_cast<SwitchInst>(&I)) {
        int v = val(S, W->getCondition()); long c; if (T.isC(v, c)) { for (auto &cs : W->cases()) if (cs.getCaseValue()->getSExtValue() == c) { go(std::move(S), B, cs.getCaseSuccessor(), depth); return; } go(std::move(S), B, W->getDefaultDest(), depth); return; }
        for (auto &cs : W->cases()) { St A = S; auto q = cmp(CmpInst::ICMP_EQ, v, T.cst(cs.getCaseValue()->getSExtValue()), 64); A.facts[q.first] = !q.second; go(std::move(A), B, cs.getCaseSuccessor(), depth); }
        for (auto &cs : W->cases()) { auto q = cmp(CmpInst::ICMP_EQ, v, T.cst(cs.getCaseValue()->getSExtValue()), 64); S.facts[q.first] = q.second; }
        go(std::move(S), B, W->getDefaultDest(), depth); return;
      }
      if (isa<UnreachableInst>(I)) return;
      if (!I.getType()->isVoidTy()) { S.env.erase(&I); int r = freshNew(w); if (I.getType()->isPointerTy()) ptrs.insert(r); S.env[&I] = r; }
    }
  }
  void call(St &S, CallInst *C) {
    Function *F = C->getCalledFunction(); unsigned w = C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 64;
    auto A = [&](unsigned i) { return val(S, C->getArgOperand(i)); };
    auto ret = [&](int r) { if (!C->getType()->isVoidTy()) S.env[C] = r; };
    auto unknown = [&]() { int r = freshNew(w); if (C->getType()->isPointerTy()) ptrs.insert(r); ret(r); };
    if (!F) { unkCall = true; for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy()) kill(S, A(i)); unknown(); return; }
    std::string n = baseName(F->getName());
    if (auto *II = dyn_cast<IntrinsicInst>(C)) {
      auto id = II->getIntrinsicID(); long c;
      if (id == Intrinsic::memcpy || id == Intrinsic::memmove) {
        int d = A(0), s = A(1), l = A(2), db, dof, sb, sof; std::vector<std::pair<long, int>> lay; if (T.isC(l, c)) lay = layout(c);
        if (onStore) onStore(S, d, -1, -1, C); if (!split(d, db, dof)) { S.lost = 1; return; }
        if (!lay.empty()) { std::vector<int> v; for (auto &f : lay) v.push_back(load(S, T.add(s, T.cst(f.first)), f.second, f.second == 8)); for (size_t i = 0; i < lay.size(); i++) store(S, T.add(d, T.cst(lay[i].first)), lay[i].second, v[i]); return; }
        int ct = contOf(S, s); if (split(s, sb, sof)) { for (auto &q : S.mem) if (q.first.first == sb) ct = T.t[ct].op == "octets" ? ct : ct; }
        // cells of the target from there on are overwritten; what lies before them stays
        for (auto it = S.mem.begin(); it != S.mem.end();) { long df; if (it->first.first == db && !(constDiff(it->first.second, dof, df) && df + it->second.first <= 0)) it = S.mem.erase(it); else ++it; }
        for (auto it = S.cont.begin(); it != S.cont.end();) { int b2, o2; if (split(it->first, b2, o2) && b2 == db) it = S.cont.erase(it); else ++it; }
        S.cont[d] = T.op("copy", {ct, l}, 64); return;
      }
      if (id == Intrinsic::memset) {
        int d = A(0), v = A(1), db, dof; long z; if (!split(d, db, dof)) { S.lost = 1; return; }
        if (T.isC(A(2), c) && T.isC(v, z) && z == 0 && !layout(c).empty()) { for (auto &f : layout(c)) store(S, T.add(d, T.cst(f.first)), f.second, T.cst(0)); return; }
        kill(S, d); return;
      }
      if (id == Intrinsic::bswap && w <= 32) { int a = A(0); ret(T.op("bswap", {a}, w)); return; }
      if (id == Intrinsic::umin || id == Intrinsic::umax) { int a = A(0), b = A(1); ret(T.op(id == Intrinsic::umin ? "umin" : "umax", {std::min(a, b), std::max(a, b)}, w)); return; }
      unknown(); return;
    }
    int r; if (hook && hook(S, C, n, r)) { ret(r); return; }
    if (n == "malloc" || n == "calloc" || n == "alloca") { int b = newBlock(C, 0); for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.first == b) it = S.mem.erase(it); else ++it; for (auto it = S.cont.begin(); it != S.cont.end();) { int b2, o2; if (split(it->first, b2, o2) && b2 == b) it = S.cont.erase(it); else ++it; } S.smudged.erase(b); S.parent[b] = n == "calloc" ? 0 : -1; ret(b); return; }
    if (n == "realloc") {
      int p = A(0), b = T.mk(KAlloc, std::to_string((long)C), {p}, 64), ob, oo; ptrs.insert(b); blocks.insert(b);
      if (!split(p, ob, oo) || T.t[oo].k != KConst || T.t[oo].a[0]) { S.smudged.insert(b); S.parent[b] = -1; ret(b); return; }
      S.parent[b] = ob; S.smudged.erase(b); if (S.smudged.count(ob)) S.smudged.insert(b);
      std::vector<std::pair<std::pair<int, int>, std::pair<int, int>>> cs; for (auto &c : S.mem) if (c.first.first == ob) cs.push_back(c); for (auto &c : cs) { S.mem.erase(c.first); S.mem[{b, c.first.second}] = c.second; }
      ret(b); return;
    }
    if (n == "free") return;
    if (n == "memcmp" || n == "bcmp") { ret(T.op("memcmp", {contOf(S, A(0)), contOf(S, A(1)), A(2)}, w)); return; }
    if (n == "strcasecmp" || n == "strncasecmp" || n == "strcmp" || n == "strncmp") { ret(T.op("strcmp", {A(0), A(1)}, w)); return; }
    if (n == "abort" || n == "__assert_fail") return;
    // any other function may change what it is given
    unkCall = true;
    for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy() && !C->paramHasAttr(i, Attribute::ReadOnly)) kill(S, A(i));
    unknown();
  }
  int arg(const std::string &n) { int r = T.mk(KArg, n, {}, 64); ptrs.insert(r); return r; }
  void start(Function &F, std::vector<int> args, Hook h, Ret r) {
    heads.clear(); over = false; unkCall = false; steps = 0; DT = std::make_unique<DominatorTree>(F); LI = std::make_unique<LoopInfo>(*DT); hook = h; std::vector<std::tuple<St, int, const Instruction *>> rets; onRet = [&](St &X, int v, const Instruction *at) { rets.push_back({X, v, at}); };
    St S; unsigned i = 0; for (auto &a : F.args()) if (i < args.size()) S.env[&a] = args[i++]; exec(std::move(S), F.getEntryBlock().begin(), 0);
    for (auto &x : rets) r(std::get<0>(x), std::get<1>(x), std::get<2>(x)); // judged once every way round a loop is known
  }
  int init(int base, long off, int n) { int r = T.mk(KLoad, "", {T.add(base, T.cst(off)), n}, n * 8); if (n == 8) ptrs.insert(r); return r; }
  // a claim about a value: wrong when it is a known different value
  int want(int got, int exp) { return got == exp ? 1 : T.t[got].unk ? -1 : 0; }
  void claim(const std::string &rule, const std::string &what, int r, const Instruction *at) { ob[rule]++; if (r == 0) bad(rule, what, at); else if (r < 0) und.insert("not decided whether " + what); }
  void dumpSt(St &S) { if (!getenv("TERMS_DUMP")) return; errs() << "---- lost=" << S.lost << "\n"; for (auto &f : S.facts) errs() << "  " << T.str(f.first) << " = " << f.second << "\n"; for (auto &m : S.mem) errs() << "  cell " << T.str(m.first.first) << " + " << T.str(m.first.second) << " /" << m.second.first << " = " << T.str(m.second.second) << "\n"; for (auto &m : S.cont) errs() << "  cont " << T.str(m.first) << " = " << T.str(m.second) << "\n"; for (int b : S.smudged) errs() << "  smudged " << T.str(b) << "\n"; }
  // does a loop run over all of 0..n-1? At each turn's end `seen` tells which indices were dealt with.
  // 0: no such loop, 1: yes, 2: a turn passes an index over, 3: does not start at the end, 4: ends early, -1: not known
  typedef std::map<int, bool> Facts;
  int scan(St &S, int n, const std::function<std::set<int>(const Facts &)> &seen) {
    for (auto &hp : heads) {
      auto &H = hp.second; if (H.backs.empty() || hp.first.second != keyOf(S, hp.first.first).second) continue;
      // the index dealt with on turn k is r + s * k
      bool have = false, skip = false; int r = -1; long s = 0; std::set<int> cand; bool first = true;
      for (auto &b : H.backs) { if (b.first) continue; std::set<int> c; for (int x : seen(b.second)) { auto l = T.lin(x); auto it = l.first.find(H.k); if (it != l.first.end() && (it->second == 1 || it->second == -1)) c.insert(x); } if (!c.empty()) have = true; if (first) cand = c; else { std::set<int> q; for (int x : cand) if (c.count(x)) q.insert(x); cand = q; } first = false; }
      if (!have) continue; ob["scan"]++; if (cand.empty()) return 2;
      { auto l = T.lin(*cand.begin()); s = l.first[H.k]; l.first.erase(H.k); r = T.of(l); }
      for (auto &b : H.backs) if (b.first) { bool ok = false; for (int x : seen(b.second)) { if (x == r) ok = true; else for (auto &E : H.entry) if (T.lin(r).first.count(E.second) && T.t[E.second].k == KFresh) ok = true; for (auto &E : H.centry) if (T.lin(r).first.count(E.second) && T.t[E.second].k == KFresh) ok = true; } if (!ok) skip = true; }
      if (skip) return 2;
      // where it starts
      std::vector<std::pair<int, Facts>> starts{{r, {}}};
      for (auto &E : H.entry) { auto l = T.lin(r); auto it = l.first.find(E.second); if (T.t[E.second].k != KFresh || it == l.first.end()) continue; starts.clear(); for (auto &en : H.entries[E.first]) starts.push_back({T.add(r, T.add(en.first, E.second, -1), it->second), en.second}); break; }
      for (auto &E : H.centry) { auto l = T.lin(r); auto it = l.first.find(E.second); if (T.t[E.second].k != KFresh || it == l.first.end() || starts.size() != 1 || starts[0].first != r) continue; starts.clear(); for (auto &en : H.centries[E.first]) starts.push_back({T.add(r, T.add(en.first, E.second, -1), it->second), en.second}); break; }
      int want1 = s > 0 ? T.cst(0) : T.add(n, T.cst(1), -1);
      for (auto &st : starts) { auto z = cmp(CmpInst::ICMP_EQ, n, T.cst(0), 32); auto zt = st.second.find(z.first); if (zt != st.second.end() && zt->second != z.second) continue; if (st.first != want1) return T.t[st.first].unk ? -1 : 3; }
      // where it ends: turns made >= n
      int D = T.add(S.turned.count(hp.first) ? H.k : T.cst(0), n, -1); long d; if (T.isC(D, d) && d >= 0) return 1;
      for (auto &f : S.facts) {
        auto &t = T.t[f.first]; if (t.k != KOp || t.a.size() != 2 || (t.op != "EQ" && t.op != "ULT" && t.op != "SLT")) continue; int df = T.add(t.a[0], t.a[1], -1);
        auto l = T.lin(df), dl = T.lin(D); if (dl.first.empty()) continue; auto v = *dl.first.begin(); auto ck = l.first.find(v.first); if (ck == l.first.end() || ck->second % v.second) continue;
        long c = ck->second / v.second, d0; if (!T.isC(T.add(df, D, -c), d0)) continue; // a - b = c * D + d0
        if (t.op == "EQ") { if (f.second && (c > 0 ? -d0 : d0) >= 0) return 1; }
        else if (f.second ? c < 0 && d0 + 1 > c : c > 0 && -d0 > -c) return 1;
      }
      return 4;
    }
    return 0;
  }
  // the value of a term for given octets x and y at one index
  bool wraps(int a) { if (T.t[a].k != KLin) return false; for (auto &q : T.lin(a).first) if (T.t[q.first].k == KFresh) return false; return true; } // octet arithmetic wraps; counters are assumed not to
  bool eval(int t, const std::map<int, long> &as, long &v) {
    auto it = as.find(t); if (it != as.end()) { v = it->second; return true; }
    auto &q = T.t[t]; long a, b;
    if (q.k == KConst) { v = q.a[0]; return true; }
    if (q.k == KLin) { v = q.a[0]; for (size_t i = 1; i + 1 < q.a.size(); i += 2) { if (!eval(q.a[i], as, a)) return false; v += a * q.a[i + 1]; } return true; }
    if (q.k != KOp || q.a.empty() || !eval(q.a[0], as, a)) return false;
    if (q.op == "NOT") { v = !a; return true; } if (q.op == "bswap") { v = q.w == 16 ? __builtin_bswap16(a) : q.w == 32 ? __builtin_bswap32(a) : a; return true; } if (q.op.compare(0, 4, "sext") == 0) { v = q.op == "sext8" ? (long)(int8_t)a : (long)(int16_t)a; return true; } if (q.op.compare(0, 3, "cut") == 0) { int w = atoi(q.op.c_str() + 3); v = a & ((1l << w) - 1); return true; }
    if (q.a.size() != 2 || !eval(q.a[1], as, b)) return false; auto &o = q.op; unsigned w = q.w;
    if (o == "EQ") v = a == b; else if (o == "ULT") { unsigned long m = 0xffffffff; v = ((unsigned long)a & m) < ((unsigned long)b & m); } else if (o == "SLT") v = a < b; else if (o == "or") v = a | b; else if (o == "and") v = a & b; else if (o == "xor") v = a ^ b;
    else if (o == "shl" && b >= 0 && b < 32) v = a << b; else if (o == "udiv" && b > 0 && a >= 0) v = a / b; else if (o == "sdiv" && b > 0) v = a / b; else if (o == "urem" && b > 0 && a >= 0) v = a % b; else if (o == "srem" && b > 0) v = a % b; else if (o == "ashr" && b >= 0 && b < 32) v = a >> b; else if (o == "mul") v = a * b; else if (o == "lshr" && b >= 0 && b < 32) v = a >> b; else if (o == "ANDB") v = a && b; else if (o == "ORB") v = a || b; else if (o == "umin") v = std::min(a, b); else if (o == "umax") v = std::max(a, b); else return false;
    if (w < 64 && w > 1) v &= (1l << w) - 1; return true;
  }
};
}
