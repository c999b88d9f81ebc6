// Function contracts: what each entry point promises and may rely on.  One description per
// function, used three ways: to set up the entry state when the function itself is analysed,
// to check (and then assume) at its return, and to check the precondition and model the effect
// at its call sites.  Functions that are not listed are inlined into their callers.
#include "contracts.h"
using namespace llvm;
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/ConstantFolding.h>

std::function<bool(Function &)> isContractFn;
static std::map<std::string, Spec> &specs() { static std::map<std::string, Spec> t; return t; }
Spec &addSpec(const std::string &n, const std::string &sig, std::function<void(CT &)> f) { Spec s; s.name = n; s.sig = sig; s.def = f; specs()[n] = s; return specs()[n]; }
static std::string sigOf(Function &F) {
  auto one = [](Type *T) { return T->isVoidTy() ? std::string("v") : T->isPointerTy() ? std::string("p") : T->isIntegerTy() ? "i" + std::to_string(T->getIntegerBitWidth()) : std::string("?"); };
  std::string s = one(F.getReturnType()) + ":";
  for (auto &A : F.args()) s += one(A.getType()) + ",";
  return s;
}
Spec *specOf(Function &F) {
  static bool init = false; if (!init) { init = true; defineContracts(); }
  static std::map<Function *, Spec *> memo;
  auto m = memo.find(&F); if (m != memo.end()) return m->second;
  auto it = specs().find(baseName(F.getName()));
  Spec *r = nullptr;
  if (it != specs().end() && it->second.sig == sigOf(F)) r = &it->second;
  memo[&F] = r; return r;
}
bool hasContract(Function &F) { return !F.isDeclaration() && specOf(F) != nullptr; }

// ---- CT -------------------------------------------------------------------------
AV CT::arg(int i) {
  if (mode == CALL) return I.val(S, C->getArgOperand(i));
  auto it = S.env.find(I.F.getArg(i)); return it == S.env.end() ? AV() : it->second;
}
void CT::setArg(int i, AV a) { S.env[I.F.getArg(i)] = a; }
const void *CT::site() { return mode == CALL ? (const void *)C : (const void *)&I.F; }
int CT::mk(int i, const char *nm, Lin size) {
  int id = regionId(I.F.getArg(i), 0, nm && *nm ? nm : I.F.getArg(i)->getName().str());
  auto n = std::make_shared<Region>(); n->id = id; n->size = size; n->ilo = n->ihi = Lin(0);
  S.regs[id] = n; return id;
}
int CT::mkSub(int i, long idx, const std::string &nm, Lin size) {
  int id = regionId(mode == CALL ? (const void *)C : (const void *)I.F.getArg(i), 1 + idx + (mode == CALL ? 100 * i : 0), nm);
  auto n = std::make_shared<Region>(); n->id = id; n->size = size; n->ilo = n->ihi = Lin(0);
  S.regs[id] = n; return id;
}
void CT::typeParam(const Lin &v) {
  if (mode != ENTRY || I.pLo < 0) return;
  S.P.addIneq(v - Lin(I.pLo)); S.P.addIneq(Lin(I.pHi) - v);
}
bool CT::choice() {
  if (chPos < choices.size()) return choices[chPos++];
  choices.push_back(true); chPos++; return true;
}
std::string CT::what(const char *s) { return std::string("call of ") + fname + ": " + s; }
void CT::bad(const std::string &kind0, const std::string &s) {
  // promises about a produced name are a property of their own
  std::string kind = kind0; if (kind == "post" && (s.find("success with an empty name") == 0 || s.find("success with a name longer") == 0 || s.find("a label longer than") == 0 || s.find("the reported length is not") == 0)) kind = "name";
  if (I.record && getenv("ABS_DUMP")) { errs() << "BAD " << s << " " << locOf(I.cur) << "\n"; I.dump(S); }
  if (mode == CALL) I.alarm(kind, what(s.c_str())); else I.alarm(kind, fname + ": " + s);
}
bool CT::req(const Lin &ge0, const std::string &msg) {
  if (mode == ENTRY) { S.P.addIneq(ge0); return true; }
  if (mode == EXIT) return true;
  I.ob("precondition");
  if (S.P.entGe(ge0)) return true;
  if (I.record && getenv("ABS_DUMP")) { errs() << "PRE " << locOf(I.cur) << "\n"; I.dump(S); }
  bad("bounds", msg); S.P.addIneq(ge0); return false;
}
bool CT::ensure(const Lin &ge0, const std::string &msg) {
  if (mode == CALL) { S.P.addIneq(ge0); return true; }
  I.ob("postcondition");
  if (S.P.entGe(ge0)) return true;
  if (I.record && getenv("ABS_DUMP")) { errs() << "POST " << locOf(I.cur) << "\n"; I.dump(S); }
  bad("post", msg); return false;
}
void CT::ensureEq(const Lin &a, const Lin &b, const std::string &msg) {
  Lin d = a - b;
  if (mode == CALL) { S.P.addEq(d); return; }
  I.ob("postcondition");
  if (!S.P.entEq(d)) { if (I.record && getenv("ABS_DUMP")) { errs() << "POST " << locOf(I.cur) << "\n"; I.dump(S); } bad("post", msg); }
}
bool CT::isNull(int i) {
  if (mode == ENTRY) { if (choice()) { setArg(i, AV::mkPtr(0)); return true; } return false; }
  AV p = arg(i); return p.k == AV::Ptr && p.reg == 0;
}
// readable octets
void CT::bufR(int i, const Lin &len, bool ro, bool nullable) {
  if (mode == ENTRY) { int id = mk(i, "", len); auto &R = S.W(id); R.ro = ro; R.ihi = len; R.maybeNull = R.nullEmpty = nullable; setArg(i, AV::mkPtr(id)); return; }
  if (mode == EXIT) return;
  AV p = arg(i);
  if (nullable && p.k == AV::Ptr && (p.reg == 0 || (p.reg > 0 && S.has(p.reg) && S.R(p.reg).maybeNull && S.R(p.reg).nullEmpty))) { if (p.reg == 0) req(Lin(0) - len, "null pointer with a non-zero length"); else req(S.R(p.reg).size - len, "buffer shorter than the length passed"); return; }
  bool ok = I.access(S, p, len, false, what("argument").c_str());
  if (S.P.bot || !ok) return;
  I.ob("init"); if (!I.initialised(S, p.reg, p.e, len)) bad("uninit", "argument octets of " + regionName(p.reg) + " were never set");
  if (!ro && S.R(p.reg).ro) bad("ro", "modifies " + regionName(p.reg) + ", which is only to be read");
}
void CT::bufW(int i, const Lin &len, bool init) {
  if (mode == ENTRY) { int id = mk(i, "", len); if (init) S.W(id).ihi = len; setArg(i, AV::mkPtr(id)); return; }
  if (mode == EXIT) return;
  AV p = arg(i); bool ok = I.access(S, p, len, true, what("output argument").c_str());
  if (ok && init && !S.P.bot) { I.ob("init"); if (!I.initialised(S, p.reg, p.e, len)) bad("uninit", "argument octets of " + regionName(p.reg) + " were never set"); }
}
void CT::wrote(int i, const Lin &len, const Lin &extent) {
  AV p = arg(i); if (p.k != AV::Ptr || p.reg <= 0 || !S.has(p.reg)) return;
  if (mode == CALL) { I.clobber(S, p.reg, p.e, extent, false); I.addInit(S, p.reg, p.e, len); return; }
  I.ob("postcondition"); if (!I.initialised(S, p.reg, p.e, len)) { if (I.record && getenv("ABS_DUMP")) I.dump(S); bad("uninit", "reports more octets in " + regionName(p.reg) + " than it has set"); }
}
void CT::havoc(int i, const Lin &extent) {
  AV p = arg(i); if (mode != CALL || p.k != AV::Ptr || p.reg <= 0 || !S.has(p.reg)) return;
  I.clobber(S, p.reg, p.e, extent, false);
}
void CT::str(int i, bool ro) {
  if (mode == ENTRY) {
    Lin z = I.fresh(S, 0, (i64)1 << 40); int id = mk(i, "", z + Lin(1)); auto &R = S.W(id); R.hasZ = true; R.zExact = true; R.Z = z; R.ihi = R.size; R.ro = ro;
    setArg(i, AV::mkPtr(id)); return;
  }
  if (mode == EXIT) return;
  AV p = arg(i); I.requireStr(S, p, what("string argument").c_str());
  if (!S.P.bot && !ro && p.k == AV::Ptr && p.reg > 0 && S.has(p.reg) && S.R(p.reg).ro) bad("ro", "modifies " + regionName(p.reg) + ", which is only to be read");
}
Lin CT::strLenOf(int i) { AV p = arg(i); if (p.k != AV::Ptr || p.reg <= 0 || !S.has(p.reg) || !S.R(p.reg).hasZ) return I.fresh(S, 0, INF); return I.strLen(S, p); }
// p, eop and optionally src point into one block: p <= src <= eop
void CT::span(int pi, int ei, int si, Lin &n, Lin &s, bool strict) {
  if (mode == ENTRY) {
    n = I.fresh(S, 0, (i64)1 << 40); int id = mk(pi, "", n); auto &R = S.W(id); R.ro = true; R.ihi = n;
    setArg(pi, AV::mkPtr(id)); setArg(ei, AV::mkPtr(id, n)); s = Lin(0);
    if (si >= 0) { s = I.fresh(S, 0, INF); S.P.addIneq(n - s); setArg(si, AV::mkPtr(id, s)); }
    return;
  }
  AV p = arg(pi), e = arg(ei), q = si >= 0 ? arg(si) : p;
  if (p.k != AV::Ptr || e.k != AV::Ptr || q.k != AV::Ptr || p.reg != e.reg || p.reg != q.reg || p.reg <= 0 || !S.has(p.reg)) {
    if (mode == CALL) { I.ob("precondition"); bad(p.k == AV::Ptr && p.reg == 0 ? "null" : "bounds", "begin, end and current position are not in one buffer"); }
    n = I.fresh(S, 0, INF); s = Lin(0); spanBad = true; return;
  }
  n = e.e - p.e; s = q.e - p.e;
  if (mode == CALL) {
    if (strict) { req(n, "end lies before the beginning"); req(s, "current position lies before the beginning"); req(n - s, "current position lies after the end"); }
    State T = S; // the whole of [p, eop) must be readable
    I.access(S, p, n, false, what("message buffer").c_str()); if (S.P.bot) return;
    I.ob("init"); if (!I.initialised(S, p.reg, p.e, n)) bad("uninit", "octets of " + regionName(p.reg) + " were never set");
  }
}
// an output scalar
void CT::outInt(int i, int sz, bool inout, bool nullable) {
  if (nullable && isNull(i)) return;
  if (mode == ENTRY) { int id = mk(i, "", Lin(sz)); setArg(i, AV::mkPtr(id)); if (inout) { S.W(id).cells[0] = Cell{sz, I.freshInt(S, sz * 8)}; S.W(id).ihi = Lin(sz); } return; }
  if (mode == EXIT) return;
  AV p = arg(i); bool ok = I.access(S, p, Lin(sz), true, what("output argument").c_str());
  if (ok && inout && !S.P.bot) { I.ob("init"); if (!I.initialised(S, p.reg, p.e, Lin(sz))) bad("uninit", "in/out argument was never set"); }
}
bool CT::outVal(int i, int sz, Lin &v, const std::string &nm) {
  AV p = arg(i); if (p.k != AV::Ptr || p.reg <= 0 || !S.has(p.reg)) return false;
  Type *T = IntegerType::get(I.M.getContext(), sz * 8);
  if (mode == CALL) { AV f = I.freshInt(S, sz * 8); v = f.e; I.store(S, p, sz, f, T); return !S.P.bot; }
  I.ob("postcondition");
  AV x = I.load(S, p, sz, T, nullptr);
  if (S.P.bot) return false;
  if (x.un) { bad("uninit", "success without setting " + nm); return false; }
  if (x.k != AV::Int) return false;
  if (!(x.canon & 1)) { i64 lo, hi; if (!(S.P.minOf(x.e, lo) && lo >= 0 && S.P.maxOf(x.e, hi) && (sz >= 8 || hi < ((i64)1 << (8 * sz))))) { v = I.fresh(S, 0, sz >= 8 ? INF : ((i64)1 << (8 * sz)) - 1); return true; } }
  v = x.e; return true;
}
// a wdns_name_t: its octets are set, nothing is known about their values
void CT::name(int i, long minLen, bool roC, bool modifies) {
  long ol = fieldOff(I.M, "wdns_name_t", "len"), od = fieldOff(I.M, "wdns_name_t", "data"), sz = typeSize(I.M, "wdns_name_t");
  if (mode == ENTRY) {
    int id = mk(i, "", Lin(sz)); Lin n = I.fresh(S, minLen, 255);
    int d = mkSub(i, 0, regionName(id) + "->data", n); auto &D = S.W(d); D.ihi = n; D.ro = roC;
    auto &R = S.W(id); R.cells[ol] = Cell{1, AV::mkInt(n, 3)}; R.cells[od] = Cell{8, AV::mkPtr(d)}; R.ihi = Lin(sz); R.ro = true;
    setArg(i, AV::mkPtr(id)); return;
  }
  if (mode == EXIT) return;
  AV p = arg(i); if (!I.access(S, p, Lin(sz), false, what("name").c_str()) || S.P.bot) return;
  AV l = p, d = p; l.e = l.e + Lin(ol); d.e = d.e + Lin(od);
  AV n = I.load(S, l, 1, IntegerType::get(I.M.getContext(), 8), nullptr); if (S.P.bot) return;
  AV q = I.load(S, d, 8, PointerType::getUnqual(I.M.getContext()), nullptr); if (S.P.bot) return;
  I.ob("init"); if (n.un || q.un) { bad("uninit", "name was never set"); return; }
  if (n.k != AV::Int) return;
  Lin ln = n.e; if (!(n.canon & 1)) { i64 lo, hi; if (!(S.P.minOf(ln, lo) && lo >= 0 && S.P.maxOf(ln, hi) && hi < 256)) ln = I.fresh(S, 0, 255); }
  req(ln - Lin(minLen), "empty name");
  if (I.access(S, q, ln, modifies, what("name octets").c_str()) && !S.P.bot) { I.ob("init"); if (!I.initialised(S, q.reg, q.e, ln)) bad("uninit", "octets of the name were never set"); }
}
void CT::nameContents(int i) {
  if (mode != CALL) return;
  long od = fieldOff(I.M, "wdns_name_t", "data"); AV d = arg(i); d.e = d.e + Lin(od);
  AV q = I.load(S, d, 8, PointerType::getUnqual(I.M.getContext()), nullptr); if (S.P.bot || q.reg <= 0 || !S.has(q.reg)) return;
  auto &W = S.W(q.reg); W.hasV = false; W.hasZ = false;
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == q.reg; }), S.facts.end());
}
void CT::choppedName(int from, int to) {
  long ol = fieldOff(I.M, "wdns_name_t", "len"), od = fieldOff(I.M, "wdns_name_t", "data");
  Type *PT = PointerType::getUnqual(I.M.getContext()); Type *I8 = IntegerType::get(I.M.getContext(), 8);
  auto at = [&](int i, long o) { AV p = arg(i); p.e = p.e + Lin(o); return p; };
  AV n0 = I.load(S, at(from, ol), 1, I8, nullptr), d0 = I.load(S, at(from, od), 8, PT, nullptr); if (S.P.bot) return;
  if (mode == CALL) { AV q = d0; Lin k = I.fresh(S, 0, 255); S.P.addIneq(n0.e - k); q.e = d0.e + k; I.store(S, at(to, ol), 1, AV::mkInt(n0.e - k, 3), I8); if (!S.P.bot) I.store(S, at(to, od), 8, q, PT); return; }
  AV n = I.load(S, at(to, ol), 1, I8, nullptr), d = I.load(S, at(to, od), 8, PT, nullptr); if (S.P.bot) return;
  I.ob("postcondition");
  if (n.un || d.un || d.k != AV::Ptr || d.reg != d0.reg || n.k != AV::Int) { bad("post", "success without a name inside the given one"); return; }
  I.canon(S, n, 8, false, [&](State T, Lin l) { if (!T.P.entGe(d.e - d0.e) || !T.P.entGe(d0.e + n0.e - d.e - l)) bad("post", "the chopped name reaches outside the given one"); });
}
void CT::cursor(int di, int ei, Lin &n, Lin &at) {
  Type *PT = PointerType::getUnqual(I.M.getContext());
  if (mode == ENTRY) {
    n = I.fresh(S, 0, (i64)1 << 40); at = I.fresh(S, 0, INF); S.P.addIneq(n - at);
    int b = mkSub(di, 0, "message", n); { auto &R = S.W(b); R.ro = true; R.ihi = n; }
    int id = mk(di, "", Lin(8)); auto &R = S.W(id); R.cells[0] = Cell{8, AV::mkPtr(b, at)}; R.ihi = Lin(8);
    setArg(di, AV::mkPtr(id)); setArg(ei, AV::mkPtr(b, n)); S.ghosts[1] = {b, at}; return;
  }
  if (mode == EXIT) { AV e = arg(ei); n = e.e; at = S.ghosts.count(1) ? S.ghosts[1].second : Lin(0); return; }
  AV p = arg(di); if (!I.access(S, p, Lin(8), true, what("cursor").c_str()) || S.P.bot) { n = I.fresh(S, 0, INF); at = Lin(0); return; }
  AV q = I.load(S, p, 8, PT, nullptr), e = arg(ei); if (S.P.bot) return;
  I.ob("precondition");
  if (q.un || q.k != AV::Ptr || e.k != AV::Ptr || q.reg != e.reg || q.reg <= 0 || !S.has(q.reg)) { bad("bounds", "cursor and end are not in one buffer"); n = I.fresh(S, 0, INF); at = Lin(0); return; }
  n = e.e; at = q.e;
  req(at, "cursor before the buffer"); req(n - at, "cursor past the end"); req(S.R(q.reg).size - n, "end past the buffer");
}
void CT::nameMonitor(int i) {
  if (mode != ENTRY) return;
  AV p = arg(i); if (p.k != AV::Ptr || p.reg <= 0) return;
  S.ghosts[2] = {p.reg, Lin(0)}; S.ghosts[3] = {p.reg, Lin(-1)};
}
// the n octets written are a sequence of labels of at most 63 octets ending with the root label
void CT::nameWellFormed(int reg, const Lin &n) {
  if (mode != EXIT) return;
  auto a = S.ghosts.find(2), b = S.ghosts.find(3);
  if (a == S.ghosts.end() || b == S.ghosts.end() || a->second.first != reg) { if (I.record) I.undecided.insert(fname + ": label structure of the result not followed"); return; }
  I.ob("postcondition"); if (!S.flags.count("root")) bad("name", "the name does not end with the root label");
  if (S.ghosts.count(4)) ensure(Lin(63) - S.ghosts[4].second, "a label longer than 63 octets is accepted");
  ensureEq(a->second.second, n, "the reported length is not the number of octets of the name written");
}
void CT::out(Ret r, std::function<void(CT &)> f) { outs.push_back({r, f}); }

// ---- driving -----------------------------------------------------------------------
static bool applyRet(CT &c, const Ret &r) {
  // CALL: constrain the fresh return value; EXIT: filter. Lin bounds.
  if (r.kind == Ret::Range) {
    if (r.hasLo) c.S.P.addIneq(c.rv - r.lo);
    if (r.hasHi && !c.S.P.bot) c.S.P.addIneq(r.hi - c.rv);
  }
  return !c.S.P.bot;
}
static void prepInts(CT c, size_t i, const std::function<void(CT)> &k) {
  // canonical values of the integer arguments
  Function &G = *c.G;
  if (i == G.arg_size()) { k(std::move(c)); return; }
  Type *T = G.getArg(i)->getType();
  if (!T->isIntegerTy()) { c.iv.push_back(Lin(0)); prepInts(std::move(c), i + 1, k); return; }
  unsigned b = T->getIntegerBitWidth();
  bool sg = c.spec->sgn.count(i) > 0;
  if (c.mode == CT::ENTRY) {
    Lin l = b == 1 ? c.I.fresh(c.S, 0, 1) : sg ? c.I.fresh(c.S, -((i64)1 << (b - 1)), ((i64)1 << (b - 1)) - 1) : c.I.freshInt(c.S, b).e;
    c.S.env[G.getArg(i)] = AV::mkInt(l, sg ? 2 : 1); c.iv.push_back(l); prepInts(std::move(c), i + 1, k); return;
  }
  AV a = c.arg(i);
  if (c.mode == CT::CALL && a.un) { c.I.ob("init"); c.bad("uninit", "integer argument was never set"); a.un = false; }
  else if (c.mode == CT::CALL) c.I.ob("init");
  if (a.k != AV::Int) { Lin l = c.I.freshInt(c.S, b).e; c.iv.push_back(l); prepInts(std::move(c), i + 1, k); return; }
  State S = c.S;
  const Instruction *sv = c.I.cur;
  c.I.canon(std::move(S), a, b, sg, [&](State T, Lin l) { c.I.cur = sv; CT d = c; d.S = std::move(T); d.iv.push_back(l); prepInts(std::move(d), i + 1, k); });
}
bool contractEntry(Interp &I, State &S, const std::function<void(State)> &k) {
  Spec *sp = specOf(I.F);
  if (!sp) return false;
  I.spec = sp; I.fine = sp->fine; I.warmOK = sp->typed; I.monitorAlloc = sp->monitorAlloc;
  // enumerate the choices (null / non-null optional arguments)
  std::vector<bool> ch; int guard = 0;
  for (;;) {
    State S0 = S; std::vector<bool> used;
    CT c0(I, CT::ENTRY, sp, &I.F); c0.S = S0; c0.choices = ch; c0.chPos = 0;
    prepInts(c0, 0, [&](CT c) {
      sp->def(c); used = c.choices;
      for (auto &a : I.F.args()) if (!c.S.env.count(&a)) c.S.env[&a] = a.getType()->isPointerTy() ? AV::mkPtr(-1) : c.I.freshInt(c.S, a.getType()->getIntegerBitWidth());
      if (!c.S.P.bot) k(c.S);
    });
    // next combination
    while (!used.empty() && !used.back()) used.pop_back();
    if (used.empty() || guard++ > 32) break;
    used.back() = false; ch = used;
  }
  return true;
}
bool contractCall(Interp &I, State &S0, CallInst *C, const std::function<void(State)> &k) {
  Spec *sp = specOf(*C->getCalledFunction());
  if (!sp) return false;
  Function *G = C->getCalledFunction(); if (I.record) I.uses.insert(G->getName().str());
  const Instruction *sv = I.cur;
  // optional pointers of unknown nullness: consider both
  std::vector<State> sts{S0};
  for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy()) {
    std::vector<State> nx;
    for (auto &T : sts) {
      AV p = I.val(T, C->getArgOperand(i));
      if (p.un) { I.ob("init"); I.alarm("uninit", "call of " + baseName(G->getName()) + ": pointer argument was never set"); }
      if (p.k == AV::Ptr && p.reg > 0 && T.has(p.reg) && T.R(p.reg).maybeNull && sp->nullable.count(i) && !T.R(p.reg).nullEmpty) {
        State N = T; int reg = p.reg; I.nullRegion(N, reg); if (!N.P.bot) nx.push_back(N);
        T.W(reg).maybeNull = false;
      }
      nx.push_back(T);
    }
    sts.swap(nx);
  }
  for (auto &T : sts) {
    CT c0(I, CT::CALL, sp, G); c0.S = T; c0.C = C;
    prepInts(c0, 0, [&](CT c) {
      I.cur = sv;
      sp->def(c);
      if (c.S.P.bot) return;
      auto outs = c.outs;
      for (auto &o : outs) {
        CT d = c; d.outs.clear(); I.cur = sv;
        Type *RT = C->getType();
        if (RT->isIntegerTy()) { unsigned b = RT->getIntegerBitWidth(); d.rv = sp->retSigned ? I.fresh(d.S, b >= 62 ? -INF : -((i64)1 << (b - 1)), b >= 62 ? INF : ((i64)1 << (b - 1)) - 1) : I.freshInt(d.S, b).e; }
        if (!applyRet(d, o.r)) continue;
        o.f(d);
        if (d.S.P.bot) continue;
        if (o.r.fail) { I.ob("status"); d.S.flags.insert("F:" + baseName(G->getName()) + " at " + locOf(C)); }
        if (RT->isIntegerTy()) { i64 cv; AV v = AV::mkInt(d.rv, sp->retSigned ? 2 : 1); if (d.S.P.isConst(d.rv, cv)) v = AV::mkInt(Lin(cv), cv >= 0 ? 3 : 2); else { i64 hi; unsigned b = RT->getIntegerBitWidth(); if (!sp->retSigned && (b >= 62 || (d.S.P.maxOf(d.rv, hi) && hi < ((i64)1 << (b - 1))))) v.canon = 3; } I.set(d.S, C, v); }
        else if (RT->isPointerTy()) { if (o.r.kind == Ret::Null) d.rp = AV::mkPtr(0); I.set(d.S, C, d.rp); }
        k(std::move(d.S));
      }
    });
  }
  return true;
}
bool contractExit(Interp &I, State &S0, ReturnInst *R) {
  Spec *sp = I.spec; if (!sp) return false;
  const Instruction *sv = I.cur;
  bool RTp = I.F.getReturnType()->isPointerTy();
  CT c0(I, CT::EXIT, sp, &I.F); c0.S = S0; c0.R = R;
  prepInts(c0, 0, [&](CT c1) {
    I.cur = sv;
    auto body = [&](CT c) {
      sp->def(c);
      if (c.S.P.bot) return;
      auto outs = c.outs; bool covered = false; std::string failed;
      for (auto &f : c.S.flags) if (f.compare(0, 2, "F:") == 0) failed = f.substr(2);
      for (auto &o : outs) {
        CT d = c; d.outs.clear(); I.cur = sv;
        if (o.r.kind == Ret::Range) {
          // does this outcome admit the value?
          if (o.r.strict) { // the range is itself a promise, selected by sel
            Ret s; s.kind = Ret::Range; s.hasLo = o.r.hasSLo; s.lo = o.r.slo; s.hasHi = o.r.hasSHi; s.hi = o.r.shi;
            if (!applyRet(d, s)) continue;
            if (o.r.hasLo) d.ensure(d.rv - o.r.lo, "return value below its lower bound");
            if (o.r.hasHi) d.ensure(o.r.hi - d.rv, "return value above its upper bound");
          } else if (!applyRet(d, o.r)) continue;
        } else if (o.r.kind == Ret::Null) { if (!(d.rp.k == AV::Ptr && d.rp.reg == 0)) continue; }
        else if (o.r.kind == Ret::NonNull) { if (d.rp.k == AV::Ptr && d.rp.reg == 0) continue; }
        covered = true;
        if (!failed.empty()) { I.ob("status"); if (!o.r.fail && !(o.r.kind == Ret::Null && RTp)) d.bad("status", failed + " fails, and that is not reported"); }
        o.f(d);
        if (d.S.P.bot) continue;
        // leaks: what is reachable from the arguments, the globals and the result
        I.gc(d.S, [&](std::set<int> &rs) {
          for (auto &A : I.F.args()) { auto it = d.S.env.find(&A); if (it != d.S.env.end() && it->second.k == AV::Ptr && it->second.reg > 0) rs.insert(it->second.reg); }
          if (d.rp.k == AV::Ptr && d.rp.reg > 0) rs.insert(d.rp.reg);
          for (int r : d.keep) rs.insert(r);
        }, "at return");
        I.ob("leak");
      }
      if (!covered) { I.ob("postcondition"); c.bad("post", "returns a value outside its documented results"); }
    };
    if (!R->getReturnValue()) { body(c1); return; }
    AV v = I.val(c1.S, R->getReturnValue());
    if (v.un) { I.ob("init"); c1.bad("uninit", "the returned value was never set"); v.un = false; }
    if (R->getReturnValue()->getType()->isIntegerTy()) {
      unsigned b = R->getReturnValue()->getType()->getIntegerBitWidth();
      auto go = [&](State T, AV a) { State T2 = T; I.canon(std::move(T2), a, b, sp->retSigned, [&](State U, Lin l) { I.cur = sv; CT c = c1; c.S = std::move(U); c.rv = l; body(c); }); };
      if (v.cond) I.split(c1.S, v, [&](State T, bool t) { go(std::move(T), AV::mkInt(Lin(t), 3)); }); else go(c1.S, v);
    } else {
      State T = c1.S;
      if (v.k == AV::Ptr && v.reg > 0 && T.has(v.reg) && T.R(v.reg).maybeNull) { State N = T; I.nullRegion(N, v.reg); if (!N.P.bot) { CT c = c1; c.S = std::move(N); c.rp = AV::mkPtr(0); body(c); } T.W(v.reg).maybeNull = false; I.cur = sv; }
      CT c = c1; c.S = std::move(T); c.rp = v; body(c);
    }
  });
  return true;
}
void Interp::doReturn(State S, ReturnInst *R) {
  // locals are gone
  for (auto it = S.regs.begin(); it != S.regs.end(); ++it) if (it->second->stack) {
    if (record) {
      auto esc = [&](const AV &v) { return v.k == AV::Ptr && v.reg == it->first; };
      bool bad = R->getReturnValue() && esc(val(S, R->getReturnValue()));
      if (bad) alarm("uaf", "returns the address of a local object");
    }
    auto n = std::make_shared<Region>(*it->second); n->dead = true; n->cells.clear(); n->hasF = false; n->fcells.clear(); it->second = n;
  }
  if (R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy()) {
    AV v = val(S, R->getReturnValue());

    if (v.lossy & 8) { ob("narrow"); i64 lo, hi; unsigned b = R->getReturnValue()->getType()->getIntegerBitWidth(); if ((v.lossy & 2) && b < 62 && !(v.k == AV::Int && S.P.minOf(v.e, lo) && lo >= 0 && S.P.maxOf(v.e, hi) && hi < ((i64)1 << b))) alarm("narrow", "a number read from text may not fit the " + std::to_string(b) + " bits returned"); }
  }
  contractExit(*this, S, R);
}

// ---- driver --------------------------------------------------------------------------
static bool loops = false; // decide termination as well
json::Object analyseFunction(Function &F, const std::vector<std::string> &par) {
  Interp I(F);
  if (par.size() == 2) { I.pLo = atol(par[0].c_str()); I.pHi = atol(par[1].c_str()); }
  json::Object o; o["function"] = baseName(F.getName()); o["symbol"] = F.getName().str();
  I.run();
  if (loops) { auto keep = I.inSt; I.termination(); I.inSt = keep; json::Array m; for (auto &x : I.measures) m.push_back(x); o["measures"] = std::move(m); }
  o["broken"] = I.broken; if (I.broken) o["why"] = I.brokenWhy;
  json::Array al; for (auto &a : I.alarms) al.push_back(json::Object{{"kind", a.second.kind}, {"what", a.second.what}, {"loc", a.second.loc}, {"func", a.second.func}});
  o["alarms"] = std::move(al);
  json::Array un; for (auto &u : I.undecided) un.push_back(u); o["undecided"] = std::move(un);
  if (!I.broken) { // parts no admissible input reaches (as far as the analysis knows)
    std::set<std::string> ur; for (auto &B : F) { auto it = I.inSt.find(&B); if (it != I.inSt.end() && !it->second.empty()) continue; if (isa<UnreachableInst>(B.getTerminator())) continue; for (auto &i : B) if (i.getDebugLoc() && !isa<PHINode>(i)) { if (getenv("ABS_UNR")) errs() << "UNR " << B.getName() << " " << locOf(&i) << "\n"; ur.insert(locOf(&i)); break; } }
    json::Array a; for (auto &u : ur) a.push_back(u); o["unreached"] = std::move(a); }
  json::Array us; for (auto &u : I.uses) us.push_back(u); o["uses"] = std::move(us);
  json::Object ob; for (auto &p : I.oblig) ob[p.first] = p.second;
  o["obligations"] = std::move(ob); o["steps"] = I.steps; o["blocks"] = (i64)F.size();
  if (auto *SP = F.getSubprogram()) { o["file"] = SP->getFilename().str(); o["line"] = (i64)SP->getLine(); }
  return o;
}
int cmdAbsint(Module &M, const std::vector<std::string> &args) {
  prepModule(M, [](Function &F) { return hasContract(F); });
  if (args.size() && args[0] == "list") {
    for (auto &F : M) if (hasContract(F)) { json::Object o; o["function"] = baseName(F.getName()); o["symbol"] = F.getName().str(); i64 n = 0; for (auto &B : F) n += B.size(); o["insts"] = n; o["typed"] = specOf(F)->typed; emit(std::move(o)); }
    for (auto &F : M) if (!F.isDeclaration() && !F.hasLocalLinkage() && !hasContract(F)) { json::Object o; o["uncovered"] = F.getName().str(); emit(std::move(o)); }
    // functions that may call themselves (a reference counts as a call)
    std::map<const Function *, std::set<const Function *>> refs;
    for (auto &F : M) for (auto &i : instructions(F)) for (auto &o : i.operands()) { std::vector<const Value *> st{o}; while (!st.empty()) { auto *v = st.back(); st.pop_back(); if (auto *G = dyn_cast<Function>(v)) { if (!G->isDeclaration()) refs[&F].insert(G); } else if (auto *CE = dyn_cast<ConstantExpr>(v)) for (auto &q : CE->operands()) st.push_back(q); } }
    for (auto &F : M) { std::set<const Function *> seen; std::vector<const Function *> st{&F}; bool rec = false; while (!st.empty() && !rec) { auto *f = st.back(); st.pop_back(); for (auto *g : refs[f]) { if (g == &F) rec = true; if (seen.insert(g).second) st.push_back(g); } } if (rec) { json::Object o; o["recursive"] = F.getName().str(); emit(std::move(o)); } }
    return 0;
  }
  if (args.size() && args[0] == "print") { for (auto &F : M) if (F.getName() == args[1]) F.print(outs()); return 0; }
  if (args.size() && args[0] == "rows") { // the record types the descriptor table describes
    auto *G = M.getGlobalVariable("record_descr_array", true); long rs = typeSize(M, "record_descr"), ar = fieldOff(M, "record_descr", "types");
    if (!G || !G->hasInitializer() || rs <= 0 || ar < 0) return 0;
    auto &DL = M.getDataLayout(); long n = DL.getTypeAllocSize(G->getValueType()) / rs; json::Object o; json::Array a;
    for (long k = 0; k < n; k++) { auto *c = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(G->getInitializer(), Type::getInt8Ty(M.getContext()), APInt(64, k * rs + ar), DL)); if (!c || !c->isZero()) a.push_back((i64)k); }
    o["rows"] = std::move(a); o["len"] = (i64)n; emit(std::move(o)); return 0;
  }
  for (auto &n0 : args) {
    if (n0 == "--loops") { loops = true; continue; }
    std::string n = n0; std::vector<std::string> par; auto at = n.find('@');
    if (at != std::string::npos) { std::string q = n.substr(at + 1); n = n.substr(0, at); auto c = q.find(':'); par = {q.substr(0, c), c == std::string::npos ? q : q.substr(c + 1)}; }
    auto *F = M.getFunction(n);
    if (!F || F->isDeclaration()) { errs() << "no function " << n << "\n"; continue; }
    auto o = analyseFunction(*F, par); if (par.size()) o["param"] = n0.substr(at + 1); emit(std::move(o));
  }
  return 0;
}
