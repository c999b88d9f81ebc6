// Where every bit of the header and EDNS fields comes from: an abstract interpretation that gives each bit of every
// value the set of places it may come from (constant, a bit of the packet, a bit of the current or an earlier record).
#include "absint.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <deque>
using namespace llvm;
namespace {
// sources: 0/1 constants; SRC*2^20 + bit number otherwise
enum { ARIBIT = -2, TOPBIT = -1, PKT = 1, RRN = 2, RRO = 3, REL = 4, NSRC = 5 };
typedef std::vector<int> BS;
static int org(int src, long off, int bit) { return (src << 20) + (int)(off * 8 + bit); }
static const BS TOP{TOPBIT}, ARI{ARIBIT} /* computed by arithmetic from known bits */, ZERO{0}, ONE{1};
static BS uni(const BS &a, const BS &b) { if (a == b) return a; if (a == TOP || b == TOP) return TOP; if (a == ARI || b == ARI) return ARI; BS r; std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r.size() > 4 ? TOP : r; }
struct Val {
  enum { Top, Int, Ptr } k = Top; std::vector<BS> b; int obj = -1, base = 0; bool offK = false; long off = 0;
  bool nz = false;
  // linear part: as * (records of section ak read so far) + afs * (count field of section af) + ac
  bool aok = false; int ak = -1; long as = 0; int af = -1; int afs = 0; long ac = 0;
  // a length: 1 octets of the owner name + len (+ the data length), 2 the size of the record just read, 3 the packet length, 4 the data length + lnc, 9 a length cut or changed
  int ln = 0; bool lnRd = false; long lnc = 0;
  const ICmpInst *cmp = nullptr; bool neg = false; std::shared_ptr<std::pair<Val, Val>> ops;
  bool operator==(const Val &o) const { return k == o.k && b == o.b && obj == o.obj && base == o.base && offK == o.offK && off == o.off && nz == o.nz && aok == o.aok && ak == o.ak && as == o.as && af == o.af && afs == o.afs && ac == o.ac && ln == o.ln && lnRd == o.lnRd && lnc == o.lnc && cmp == o.cmp && neg == o.neg; }
};
static Val top(unsigned w) { Val v; v.k = Val::Int; v.b.assign(w, TOP); return v; }
static Val cst(uint64_t c, unsigned w) { Val v; v.k = Val::Int; for (unsigned i = 0; i < w; i++) v.b.push_back(i < 64 && (c >> i & 1) ? ONE : ZERO); return v; }
static Val ptr(int obj, long off, int base = 0) { Val v; v.k = Val::Ptr; v.obj = obj; v.off = off; v.offK = true; v.base = base; return v; }
static bool isC(const Val &v, uint64_t &c) { if (v.k != Val::Int) return false; c = 0; for (size_t i = 0; i < v.b.size(); i++) { if (v.b[i] == ONE) { if (i < 64) c |= (uint64_t)1 << i; } else if (!(v.b[i] == ZERO)) return false; } return true; }
struct St {
  std::map<const Value *, Val> env;
  std::map<std::pair<int, long>, BS> mem[1]; // (object, octet*8+bit)
  std::map<std::pair<int, long>, Val> pc;    // stored pointers
  std::set<int> fresh; // objects whose contents were never set (reads give anything)
  // facts that keep states apart
  int present = 0, atCall = -1, pending = 0, sec = -1, ctl = -1; int type = 0; /* 1: OPT, 2: not OPT */
  int guard = 0, done = 0; bool ended = false, started = false, lost = false; long R[4] = {0, 0, 0, 0}; /* records read of each section, -1: see the values */ 
  std::string key() const { char s[160]; snprintf(s, sizeof s, "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d;", present, atCall, pending, sec, ctl, type, guard, done, ended, started, lost); return s; }
};
static int exactField(const Val &v) { // a whole two-octet field of the packet in network order
  if (v.k != Val::Int || v.b.size() < 16) return -1;
  for (size_t i = 16; i < v.b.size(); i++) if (v.b[i] != ZERO) return -1;
  if (v.b[8].size() != 1 || v.b[8][0] < (PKT << 20) || v.b[8][0] >= (RRN << 20)) return -1;
  int k = (v.b[8][0] & 0xfffff) / 8;
  for (int j = 0; j < 16; j++) if (v.b[j] != BS{j < 8 ? org(PKT, k + 1, j) : org(PKT, k, j - 8)}) return -1;
  return k;
}
static Val affOf(const Val &v) { // as a linear form, if it has one
  if (v.aok) return v; Val r; r.k = Val::Int; uint64_t c; int k;
  if (isC(v, c)) { r.aok = true; r.ac = v.b.size() == 32 ? (int32_t)c : v.b.size() == 16 ? (int16_t)c : (long)c; }
  else if ((k = exactField(v)) >= 4 && k < 12 && k % 2 == 0) { r.aok = true; r.af = k / 2 - 2; r.afs = 1; }
  return r;
}
static void setAff(Val &v, const Val &f) { v.aok = f.aok; v.ak = f.ak; v.as = f.as; v.af = f.af; v.afs = f.afs; v.ac = f.ac; if (!f.as) v.ak = -1; if (!f.afs) v.af = -1; }
static bool addAff(Val &r, const Val &x, const Val &y, int sg) {
  Val a = affOf(x), b = affOf(y); if (!a.aok || !b.aok || (a.as && b.as && a.ak != b.ak) || (a.afs && b.afs && a.af != b.af)) return false;
  a.ak = a.as ? a.ak : b.ak; a.af = a.afs ? a.af : b.af; a.as += sg * b.as; a.afs += sg * b.afs; a.ac += sg * b.ac; setAff(r, a); return true;
}
static int joinSec = -1;
static Val joinV(const Val &a, const Val &b, const long *Ra = nullptr, const long *Rb = nullptr) {
  if (a == b) return a; if (a.k != b.k) { Val v; return v; }
  Val r = a; r.cmp = nullptr; r.ops.reset(); r.nz = a.nz && b.nz; if (a.ln != b.ln || a.lnRd != b.lnRd || a.lnc != b.lnc) r.ln = 0, r.lnRd = false, r.lnc = 0;
  if (a.k == Val::Int) {
    if (a.b.size() != b.b.size()) return Val(); for (size_t i = 0; i < r.b.size(); i++) r.b[i] = uni(a.b[i], b.b[i]);
    Val x = affOf(a), y = affOf(b); r.aok = false;
    if (x.aok && y.aok && x.afs == y.afs && x.af == y.af) {
      auto fits = [](const Val &f, const Val &g, const long *R) { return (f.ak == g.ak && f.as == g.as && f.ac == g.ac) || (R && f.as && !g.as && R[f.ak] >= 0 && f.as * R[f.ak] + f.ac == g.ac); };
      if (fits(x, y, Rb)) setAff(r, x); else if (fits(y, x, Ra)) setAff(r, y);
      else if (!x.as && !y.as && Ra && Rb) for (int o = 0; o < 4; o++) if (int k = (o + (joinSec > 0 ? joinSec : 0)) % 4; Ra[k] >= 0 && Rb[k] >= 0 && Ra[k] != Rb[k] && (y.ac - x.ac) % (Rb[k] - Ra[k]) == 0) { Val f = x; f.ak = k; f.as = (y.ac - x.ac) / (Rb[k] - Ra[k]); f.ac = x.ac - f.as * Ra[k]; setAff(r, f); break; }
    }
    if (!r.aok) setAff(r, Val());
  }
  else if (a.k == Val::Ptr) { if (a.obj != b.obj || a.base != b.base) return Val(); if (!a.offK || !b.offK || a.off != b.off) { r.offK = false; r.off = 0; } }
  return r;
}
struct Bits {
  Module &M; const DataLayout &DL; json::Array viol; std::set<std::string> seen; std::map<std::string, long> ob; std::set<std::string> und; std::set<std::pair<const Instruction *, std::string>> obs;
  std::map<const Value *, int> objs; long steps = 0; int mode = 0; // 1 message, 2 record
  long mId, mFlags, mRcode, mEdns, ePresent, eSize, eVer, eFlags, eOpt, rType, rClass, rTtl, rRdata, rSize, mSec, aSize, mSize;
  std::map<const PHINode *, std::set<uint64_t>> consts; bool redo = false;
  Bits(Module &m) : M(m), DL(m.getDataLayout()) {
    auto f = [&](const char *t, const char *n) { return fieldOff(M, t, n); };
    mId = f("wdns_message_t", "id"); mFlags = f("wdns_message_t", "flags"); mRcode = f("wdns_message_t", "rcode"); mEdns = f("wdns_message_t", "edns"); mSec = f("wdns_message_t", "sections");
    ePresent = f("wdns_edns_t", "present"); eSize = f("wdns_edns_t", "size"); eVer = f("wdns_edns_t", "version"); eFlags = f("wdns_edns_t", "flags"); eOpt = f("wdns_edns_t", "options");
    rType = f("wdns_rr_t", "rrtype"); rClass = f("wdns_rr_t", "rrclass"); rTtl = f("wdns_rr_t", "rrttl"); rRdata = f("wdns_rr_t", "rdata"); rSize = typeSize(M, "wdns_rr_t"); aSize = typeSize(M, "wdns_rrset_array_t"); mSize = typeSize(M, "wdns_message_t");
  }
  static const int OM = 1, OPKT = 2, ORR = 3, OSZ = 4;
  int objOf(const Value *v) { auto it = objs.find(v); if (it != objs.end()) return it->second; int n = 100 + objs.size(); return objs[v] = n; }
  void bad(const std::string &rule, const std::string &what, const Instruction *at) { std::string l = locOf(at, true); if (seen.insert(rule + what + l).second) viol.push_back(json::Object{{"rule", rule}, {"what", what}, {"loc", l}}); }
  void obl(const std::string &k, const Instruction *at) { if (obs.insert({at, k}).second || k == "field") ob[k]++; }
  // ---- memory
  void put(St &S, const Val &p, const Val &v0, unsigned w, const Instruction *at) {
    Val v = v0; if (mode == 1 && v.k == Val::Int && !v.aok && w >= 16 && w <= 64) setAff(v, affOf(v));
    if (p.k != Val::Ptr) return; // stores through unknown pointers: into memory none of the tracked objects are part of
    if (p.obj == OPKT) return;
    if (!p.offK) { havoc(S, p.obj, 0, 1 << 20); return; }
    S.fresh.erase(-1);
    for (auto it = S.pc.begin(); it != S.pc.end();) if (it->first.first == p.obj && it->first.second < p.off + (long)w / 8 && p.off < it->first.second + (it->second.k == Val::Int ? (long)it->second.b.size() / 8 : 8)) it = S.pc.erase(it); else ++it;
    if (v.k == Val::Ptr || v.aok || v.ln || v.nz) { S.pc[{p.obj, p.off}] = v; if (v.k == Val::Int && !v.ln && !v.nz) for (unsigned i = 0; i < w; i++) S.mem[0][{p.obj, p.off * 8 + i}] = i < v.b.size() ? v.b[i] : TOP; else for (unsigned i = 0; i < w; i++) S.mem[0][{p.obj, p.off * 8 + i}] = TOP; }
    else for (unsigned i = 0; i < w; i++) S.mem[0][{p.obj, p.off * 8 + i}] = v.k == Val::Int && i < v.b.size() ? v.b[i] : TOP;
    if (mode == 1 && p.obj == OM) stored(S, p.off, w / 8, at);
  }
  Val get(St &S, const Val &p, unsigned w) {
    if (p.k != Val::Ptr || !p.offK) return top(w);
    { auto it = S.pc.find({p.obj, p.off}); if (it != S.pc.end() && (it->second.k == Val::Ptr ? w == 64 : it->second.b.size() == w)) return it->second; }
    Val v; v.k = Val::Int; v.b.resize(w);
    for (unsigned i = 0; i < w; i++) {
      if (p.obj == OPKT) { long o = p.off + i / 8; v.b[i] = p.base == 0 ? (o >= 0 && o < 4096 ? BS{org(PKT, o, i % 8)} : TOP) : p.base == 2 && o >= 0 && o < 4096 ? BS{org(REL, o, i % 8)} : TOP; continue; }
      auto it = S.mem[0].find({p.obj, p.off * 8 + i}); v.b[i] = it == S.mem[0].end() ? TOP : it->second;
    }
    return v;
  }
  void havoc(St &S, int obj, long from, long to) {
    for (auto it = S.mem[0].lower_bound({obj, from * 8}); it != S.mem[0].end() && it->first.first == obj && it->first.second < to * 8;) it = S.mem[0].erase(it);
    for (auto it = S.pc.begin(); it != S.pc.end();) if (it->first.first == obj && it->first.second + 8 > from && it->first.second < to) it = S.pc.erase(it); else ++it;
  }
  static bool fromRR(const BS &b, int src) { for (int x : b) if (x >= (src << 20) && x < ((src + 1) << 20)) return true; return false; }
  void stored(St &S, long off, long n, const Instruction *at) {
    // which OPT record is applied, and when
    long p = mEdns + ePresent;
    bool edns = false; for (long o = off; o < off + n; o++) if ((o >= mEdns && o < mEdns + typeSize(M, "wdns_edns_t")) || (o >= mRcode && o < mRcode + 2)) for (int j = 0; j < 8; j++) { auto it = S.mem[0].find({OM, o * 8 + j}); if (it != S.mem[0].end() && fromRR(it->second, RRN)) edns = true; }
    if (edns) { obl("edns-source", at); if (S.atCall == 1) bad("edns", "a later OPT record changes what the first one said", at); if (S.type != 1) bad("edns", "EDNS data is taken from a record that may not be an OPT record", at); }
    if (off <= p && p < off + n) {
      Val v = get(S, ptr(OM, p), 8); uint64_t c; int was = S.present;
      S.present = isC(v, c) ? c != 0 : 2;
      if (S.present == 1 && was == 0 && S.type != 1) bad("edns", "a record that may not be an OPT record is taken for one", at);
    }
    long o = mEdns + eOpt;
    if (off <= o && o < off + n) { auto it = S.mem[0].find({OM, o * 8 + 3}); if (it != S.mem[0].end() && fromRR(it->second, RRN)) S.pending = 0; }
  }
  // ---- values
  Val val(St &S, const Value *v) {
    unsigned w = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64;
    if (auto *c = dyn_cast<ConstantInt>(v)) return w <= 64 ? cst(c->getZExtValue(), w) : top(w);
    if (isa<ConstantPointerNull>(v)) return cst(0, 64);
    if (isa<GlobalVariable>(v)) return ptr(objOf(v), 0);
    if (auto *G = dyn_cast<GEPOperator>(v)) if (isa<ConstantExpr>(v)) { APInt o(64, 0); Val b = val(S, G->getPointerOperand()); if (b.k == Val::Ptr && b.offK && G->accumulateConstantOffset(DL, o)) { b.off += o.getSExtValue(); return b; } return Val(); }
    auto it = S.env.find(v); if (it != S.env.end()) return it->second;
    return top(w);
  }
  static Val resize(const Val &a, unsigned w, bool sx) { if (a.k != Val::Int) return a.k == Val::Ptr && w == 64 ? a : top(w); Val r = a; r.ops = a.ops; BS s = sx && a.b.size() ? a.b.back() : ZERO; if (w < a.b.size()) { r.nz = false; r.cmp = nullptr; if (w < 32 && r.ln && r.ln != 4) r.ln = 9; if (w < 16) setAff(r, Val()); } r.b.resize(w, s); return r; }
  static BS op2(unsigned op, const BS &a, const BS &b) {
    if (a == TOP || b == TOP) { if (op == Instruction::And && (a == ZERO || b == ZERO)) return ZERO; if (op == Instruction::Or && (a == ONE || b == ONE)) return ONE; return TOP; }
    BS r;
    for (int x : a) for (int y : b) {
      int z; if (x == ARIBIT || y == ARIBIT) { z = op == Instruction::And && (x == 0 || y == 0) ? 0 : op == Instruction::Or && (x == 1 || y == 1) ? 1 : ARIBIT; if (z == ARIBIT) return ARI; r.push_back(z); continue; }
      if (op == Instruction::And) z = x == 0 || y == 0 ? 0 : x == 1 ? y : y == 1 ? x : x == y ? x : TOPBIT;
      else if (op == Instruction::Or) z = x == 1 || y == 1 ? 1 : x == 0 ? y : y == 0 ? x : x == y ? x : TOPBIT;
      else z = x == 0 ? y : y == 0 ? x : x == y ? 0 : TOPBIT;
      if (z == TOPBIT) return TOP; r.push_back(z);
    }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r.size() > 4 ? TOP : r;
  }
  Val binop(unsigned op, const Val &a, const Val &b, unsigned w) {
    uint64_t x, y; bool cx = isC(a, x), cy = isC(b, y); uint64_t m = w >= 64 ? ~(uint64_t)0 : ((uint64_t)1 << w) - 1;
    if (a.k == Val::Int && b.k == Val::Int) {
      if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) { Val r; r.k = Val::Int; for (unsigned i = 0; i < w; i++) r.b.push_back(op2(op, a.b[i], b.b[i]));
        if (op == Instruction::Xor && cy && y == 1 && w == 1 && a.cmp) { r.cmp = a.cmp; r.ops = a.ops; r.neg = !a.neg; }
        return r; }
      if (cy && (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) && y < w) { Val r; r.k = Val::Int; r.b.assign(w, ZERO); for (unsigned i = 0; i < w; i++) { if (op == Instruction::Shl) { if (i >= y) r.b[i] = a.b[i - y]; } else if (i + y < w) r.b[i] = a.b[i + y]; else if (op == Instruction::AShr) r.b[i] = a.b[w - 1]; } return r; }
      if (op == Instruction::Mul) { const Val &v = cy ? a : b; uint64_t k = cy ? y : x; if ((cx || cy) && k && !(k & (k - 1))) return binop(Instruction::Shl, v, cst(__builtin_ctzll(k), w), w); }
      if ((op == Instruction::SDiv || op == Instruction::SRem) && a.b[w - 1] == ZERO && b.b[w - 1] == ZERO) op = op == Instruction::SDiv ? Instruction::UDiv : Instruction::URem;
      if ((op == Instruction::UDiv || op == Instruction::URem) && cy && y && !(y & (y - 1))) return op == Instruction::UDiv ? binop(Instruction::LShr, a, cst(__builtin_ctzll(y), w), w) : binop(Instruction::And, a, cst(y - 1, w), w);
      if (op == Instruction::Add) { bool dis = true; for (unsigned i = 0; i < w; i++) if (a.b[i] != ZERO && b.b[i] != ZERO) dis = false; if (dis) return binop(Instruction::Or, a, b, w); }
      if (cx && cy) { if (op == Instruction::Add) return cst((x + y) & m, w); if (op == Instruction::Sub) return cst((x - y) & m, w); if (op == Instruction::Mul) return cst((x * y) & m, w); }
    }
    Val r = top(w);
    if (a.k == Val::Int && b.k == Val::Int && a.b.size() == w && b.b.size() == w) { bool kn = true; for (unsigned i = 0; i < w; i++) if (a.b[i] == TOP || b.b[i] == TOP) kn = false; if (kn) r.b.assign(w, ARI); }
    if ((op == Instruction::Add || op == Instruction::Sub) && a.k == Val::Int && b.k == Val::Int) {
      int sg = op == Instruction::Add ? 1 : -1; addAff(r, a, b, sg);
      const Val *l = a.ln == 1 ? &a : b.ln == 1 && sg > 0 ? &b : nullptr, *o = l == &a ? &b : &a; uint64_t c;
      if (l) { if (isC(*o, c)) { r.ln = 1; r.lnRd = l->lnRd; r.lnc = l->lnc + sg * (long)c; } else if (sg > 0 && !l->lnRd && exactRd(*o)) { r.ln = 1; r.lnRd = true; r.lnc = l->lnc; } else { bool kn = o->k == Val::Int && !o->ln; for (auto &x : o->b) if (x == TOP) kn = false; if (kn) r.ln = 9; } }
      if (sg > 0 && ((exactRd(a) && cy) || (exactRd(b) && cx))) { r.ln = 4; r.lnc = cy ? y : x; } // data length and a constant
      if (sg > 0 && ((a.ln == 1 && b.ln == 4) || (a.ln == 4 && b.ln == 1)) && !a.lnRd && !b.lnRd) { r.ln = 1; r.lnRd = true; r.lnc = a.lnc + b.lnc; }
      if (sg > 0 && ((a.ln == 4 && cy) || (b.ln == 4 && cx))) { r.ln = 4; r.lnc = (cy ? a.lnc : b.lnc) + (cy ? (long)y : (long)x); }
    }
    if (op == Instruction::Sub && a.k == Val::Ptr && b.k == Val::Ptr && a.obj == OPKT && b.obj == OPKT && a.offK && b.offK) {
      if (a.base == 2 && b.base == 1) { r.ln = 1; r.lnc = a.off - b.off; }
      else if (a.base == 8 && b.base == 1) { r.ln = 1; r.lnRd = true; r.lnc = a.off - b.off; }
      else if (a.base == b.base) return cst(a.off - b.off, w);
      else if (a.base == 5 && b.base == 0 && !a.off && !b.off) r.ln = 3;
    }
    return r;
  }
  static bool exactRd(const Val &v) { if (v.k != Val::Int || v.b.size() < 16) return false; for (size_t i = 0; i < v.b.size(); i++) if (v.b[i] != (i < 8 ? BS{org(REL, 9, i)} : i < 16 ? BS{org(REL, 8, i - 8)} : ZERO)) return false; return true; }
  static bool countBits(const Val &v) { if (v.k != Val::Int) return false; for (auto &b : v.b) for (int x : b) if (x >= org(PKT, 4, 0) && x < org(PKT, 12, 0)) return true; return false; }
  // outcome of a comparison; may refine the state. -1: both
  int decide(const Val &c) {
    uint64_t k; if (isC(c, k)) return k != 0; if (c.nz) return 1; return -1;
  }
  bool assume(St &S, const Val &c, bool t) {
    if (!c.cmp || !c.ops) return true; if (c.neg) t = !t;
    const Val &a = c.ops->first, &b = c.ops->second; auto p = c.cmp->getPredicate();
    bool mine = mode == 1;
    if (mine && a.k == Val::Ptr && b.k == Val::Ptr && a.obj == OPKT && b.obj == OPKT && (a.base == 5) != (b.base == 5) && (a.offK ? a : b).base >= 0) {
      bool aEnd = a.base == 5; auto q = t ? p : c.cmp->getInversePredicate(); if (aEnd) q = CmpInst::getSwappedPredicate(q); // q: position ? end
      if (q == CmpInst::ICMP_EQ || q == CmpInst::ICMP_UGE || q == CmpInst::ICMP_UGT || q == CmpInst::ICMP_SGE || q == CmpInst::ICMP_SGT) S.ended = true;
    } else if (mine && (a.k == Val::Ptr || b.k == Val::Ptr)) { uint64_t z; if (!(isC(a, z) || isC(b, z))) S.lost = true; }
    if (mine && a.k == Val::Int && b.k == Val::Int && a.b.size() >= 16) {
      Val x = affOf(a), y = affOf(b), d; d.k = Val::Int;
      if (x.aok && y.aok && !addAff(d, a, b, -1)) S.ctl = -2;
      else if (d.aok) {
        // as (count field) - (records read) in section k
        for (int k = 0; k < 4; k++) {
          if ((d.as && d.ak != k) || d.af != k || (d.afs != 1 && d.afs != -1)) continue;
          S.ctl = 4 + 2 * k; long cc = d.ac; if (!d.as) { if (S.R[k] < 0) continue; cc += d.afs * S.R[k]; } else if (d.as != -d.afs) continue;
          // d = afs * (F - R) + cc   ?   0
          auto q = t ? p : c.cmp->getInversePredicate(); if (d.afs < 0) { q = CmpInst::getSwappedPredicate(q); cc = -cc; } // F - R + cc q 0
          bool lt = q == CmpInst::ICMP_ULT || q == CmpInst::ICMP_SLT, le = q == CmpInst::ICMP_ULE || q == CmpInst::ICMP_SLE, gt = q == CmpInst::ICMP_UGT || q == CmpInst::ICMP_SGT, ge = q == CmpInst::ICMP_UGE || q == CmpInst::ICMP_SGE;
          if ((gt && cc <= 0) || (ge && cc <= -1) || (q == CmpInst::ICMP_NE && cc == 0)) S.guard |= 1 << k;
          if ((lt && cc >= -1) || (le && cc >= 0) || (q == CmpInst::ICMP_EQ && cc >= 0)) S.done |= 1 << k;
        }
      } else if (countBits(a) || countBits(b)) S.ctl = -2;
      else if (a.ln != 3 && b.ln != 3 && !a.nz && !b.nz) { auto un = [](const Val &v) { for (auto &x : v.b) if (x == TOP) return true; return false; }; if (un(a) || un(b)) S.lost = true; }
    }
    uint64_t k; const Val *sym = isC(b, k) ? &a : isC(a, k) ? &b : nullptr;
    if (sym && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && sym->k == Val::Int && sym->b.size() >= 16) {
      bool ty = true; for (size_t i = 0; i < sym->b.size(); i++) if (sym->b[i] != (i < 16 ? BS{org(RRN, rType, i)} : ZERO)) ty = false;
      bool eq = (p == CmpInst::ICMP_EQ) == t;
      if (ty) { int nt = eq ? (k == 41 ? 1 : 2) : (k == 41 ? 2 : S.type); if (S.type && nt && nt != S.type) return false; S.type = nt; }
    }
    return true;
  }
  Val icmp(St &S, const ICmpInst *C) {
    Val a = val(S, C->getOperand(0)), b = val(S, C->getOperand(1)); uint64_t x, y; auto p = C->getPredicate();
    unsigned w = a.b.size();
    if (isC(a, x) && isC(b, y) && w && w <= 64) { APInt X(w, x), Y(w, y); return cst(ICmpInst::compare(X, Y, p), 1); }
    if (a.k == Val::Ptr && isC(b, y) && y == 0) return cst(p == CmpInst::ICMP_NE, 1);
    if (isC(b, y) && y == 0 && a.cmp && (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_EQ)) { Val r = a; r.b = {a.b[0]}; if (p == CmpInst::ICMP_EQ) r.neg = !r.neg; r.b = {TOP}; return r; }
    if (isC(b, y) && y == 0 && a.nz && (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_EQ)) return cst(p == CmpInst::ICMP_NE, 1);
    if (a.k == Val::Ptr && b.k == Val::Ptr && a.obj == b.obj && a.base == b.base && a.offK && b.offK && C->isEquality()) return cst((a.off == b.off) == (p == CmpInst::ICMP_EQ), 1);
    Val r = top(1); r.cmp = C; r.ops = std::make_shared<std::pair<Val, Val>>(a, b); return r;
  }
  // ---- running a function
  typedef std::function<void(St, Val)> K;
  void renameRR(St &S) {
    auto fx = [](BS &b) { bool ch = false; for (int &x : b) if (x >= (RRN << 20) && x < (RRO << 20)) { x += 1 << 20; ch = true; } if (ch) { std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end()); } };
    for (auto &p : S.env) for (auto &b : p.second.b) fx(b);
    for (auto &p : S.mem[0]) fx(p.second);
    for (auto &p : S.env) { p.second.cmp = nullptr; p.second.ops.reset(); }
  }
  void fillRR(St &S, const Val &p) { for (long o = 0; o < rSize; o++) for (int j = 0; j < 8; j++) S.mem[0][{p.obj, (p.off + o) * 8 + j}] = BS{org(RRN, o, j)}; for (auto it = S.pc.begin(); it != S.pc.end();) if (it->first.first == p.obj) it = S.pc.erase(it); else ++it; }
  void call(St S, CallInst *C, int depth, const std::function<void(St, Val)> &k) {
    Function *F = C->getCalledFunction(); unsigned w = C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 64;
    if (!F) { k(std::move(S), top(w)); return; }
    std::string n = baseName(F->getName()); auto A = [&](unsigned i) { return val(S, C->getArgOperand(i)); };
    if (auto *II = dyn_cast<IntrinsicInst>(C)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::bswap: { Val a = A(0), r; r.k = Val::Int; if (a.k != Val::Int) { k(std::move(S), top(w)); return; } for (unsigned i = 0; i < w; i++) r.b.push_back(a.b[(w / 8 - 1 - i / 8) * 8 + i % 8]); k(std::move(S), r); return; }
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        Val d = A(0), s = A(1), l = A(2); uint64_t n2;
        if (!isC(l, n2) || n2 > 4096) { if (d.k == Val::Ptr && d.obj != OPKT) { if (d.offK) havoc(S, d.obj, d.off, 1 << 20); else havoc(S, d.obj, 0, 1 << 20); if (d.obj == OM) und.insert("copy of unknown length into the message"); } }
        else { std::vector<Val> by; for (uint64_t i = 0; i < n2; i++) { Val q = s; q.off += i; by.push_back(get(S, q, 8)); } std::map<long, Val> pv; if (s.k == Val::Ptr && s.offK) for (auto &x : S.pc) if (x.first.first == s.obj && x.first.second >= s.off && x.first.second + 8 <= s.off + (long)n2) pv[x.first.second - s.off] = x.second;
          Val whole; whole.k = Val::Int; for (auto &b : by) whole.b.insert(whole.b.end(), b.b.begin(), b.b.end()); if (n2) put(S, d, whole, n2 * 8, C); if (d.k == Val::Ptr && d.offK) for (auto &x : pv) S.pc[{d.obj, d.off + x.first}] = x.second; }
        k(std::move(S), Val()); return; }
      case Intrinsic::memset: { Val d = A(0), v = A(1), l = A(2); uint64_t n2, c; if (isC(l, n2) && isC(v, c) && n2 <= 4096) { Val z; z.k = Val::Int; for (uint64_t i = 0; i < n2; i++) for (int j = 0; j < 8; j++) z.b.push_back(v.b[j]); if (n2) put(S, d, z, n2 * 8, C); } else if (d.k == Val::Ptr && d.obj != OPKT) havoc(S, d.obj, d.offK ? d.off : 0, 1 << 20); k(std::move(S), Val()); return; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: k(std::move(S), top(w)); return;
      default: if (II->getIntrinsicID() == Intrinsic::lifetime_start || II->getIntrinsicID() == Intrinsic::lifetime_end) { Val p = A(1); if (p.k == Val::Ptr && p.obj >= 100) havoc(S, p.obj, 0, 1 << 20); } k(std::move(S), top(w)); return;
      }
    }
    auto havocArgs = [&](St &T) { for (unsigned i = 0; i < C->arg_size(); i++) { Val p = val(T, C->getArgOperand(i)); if (p.k == Val::Ptr && p.obj != OPKT && p.obj >= 100) havoc(T, p.obj, 0, 1 << 20); else if (p.k == Val::Ptr && p.obj == OM) { havoc(T, OM, 0, mSize); T.present = 2; } else if (p.k == Val::Ptr && p.obj == ORR) havoc(T, ORR, 0, rSize); } };
    if (mode == 1) {
      if (n == "_wdns_parse_message_rr") {
        Val sec = A(0), rr = A(5); uint64_t k0; obl("record-read", C);
        if (S.pending == 1) bad("lost", "a record that was read is dropped when the next one is read", C);
        if (!isC(sec, k0) || k0 > 3) { und.insert("section of a record is not known: " + locOf(C)); S.lost = true; k0 = 0; }
        else {
          S.sec = k0; std::string q = "a record of section " + std::to_string(k0);
          if (!(S.guard >> k0 & 1)) { if (S.lost) und.insert("how many records of section " + std::to_string(k0) + " are read"); else if (S.ctl == -2) bad("count", "the number of records read is bounded by something other than one whole count field", C); else bad("count", q + (S.ctl == (int)(4 + 2 * k0) ? " may be read beyond its count field" : " is read without asking its own count field"), C); }
          for (unsigned j = 0; j < k0; j++) if (!(S.done >> j & 1)) { if (S.lost) und.insert("how many records of section " + std::to_string(j) + " are read"); else bad("count", q + " may be read before all records of section " + std::to_string(j) + " were", C); }
        }
        Val dp = A(3); obl("record-position", C);
        if (dp.k != Val::Ptr || dp.obj != OPKT || !dp.offK) und.insert("where a record starts");
        else if (S.started ? !(dp.base == 6 && dp.off == 0) : !(dp.base == 0 && dp.off == 12)) bad("position", S.started ? "a record is not read from the octet after the one before it" : "the first record is not read from octet 12", C);
        S.ctl = -1; S.atCall = S.present; S.type = 0; S.pending = 0; renameRR(S);
        bool first = !S.started; S.started = true; S.guard &= ~(1 << k0); if (S.R[k0] >= 0) S.R[k0]++;
        auto step = [&](Val &v) { if (v.aok && v.as && v.ak == (int)k0) v.ac -= v.as; if (v.ln == 2) v.ln = 0; if (v.k == Val::Ptr && v.obj == OPKT && v.offK) { if (v.base == 7 || v.base == 6 || (first && v.base == 0 && v.off == 12)) { if (v.base != 7 && (v.base == 0 || v.off == 0)) { v.base = 7; v.off = 0; } else v = Val(); } } };
        for (auto &x : S.env) step(x.second); for (auto &x : S.pc) step(x.second);
        St T = S; if (rr.k == Val::Ptr && rr.offK) { fillRR(S, rr); havoc(T, rr.obj, rr.off, rr.off + rSize); } else und.insert("record object is not known: " + locOf(C));
        Val z = A(4); if (z.k == Val::Ptr && z.obj != OPKT) { havoc(S, z.obj, 0, 1 << 20); havoc(T, z.obj, 0, 1 << 20); if (z.offK) { Val l = top(64); l.ln = 2; put(S, z, l, 64, C); } }
        S.pending = 1; k(std::move(S), cst(0, w)); Val f = top(w); f.nz = true; k(std::move(T), f); return;
      }
      if (n == "_wdns_insert_rr_rrset_array") {
        Val a = A(0), rr = A(1), sec = A(2); uint64_t k0; obl("record-stored", C);
        if (S.pending != 1) bad("lost", "a record is stored twice", C);
        if (rr.k == Val::Ptr && rr.offK) { Val t = get(S, ptr(rr.obj, rr.off + rType), 16); bool cur = true; for (int j = 0; j < 16; j++) if (t.b[j] != BS{org(RRN, rType, j)}) cur = false; if (!cur) bad("section", "what is stored is not the record that was read", C); }
        if (isC(sec, k0) && S.sec >= 0 && (int)k0 != S.sec) bad("section", "the record is stored as one of another section", C);
        if (a.k == Val::Ptr && a.obj == OM && a.offK && S.sec >= 0 && a.off != mSec + S.sec * aSize) bad("section", "the record is stored in another section", C);
        if (S.type != 2 && S.atCall == 0) bad("edns", "an OPT record may be stored as an ordinary record though it is the first", C);
        S.pending = 0; if (a.k == Val::Ptr && a.obj == OM) { if (a.offK) havoc(S, OM, a.off, a.off + aSize); else havoc(S, OM, mSec, mSec + 4 * aSize); }
        if (rr.k == Val::Ptr) havoc(S, rr.obj, 0, 1 << 20);
        St T = S; k(std::move(S), cst(0, w)); Val f = top(w); f.nz = true; k(std::move(T), f); return;
      }
      if (n == "wdns_clear_rr") { Val rr = A(0); if (rr.k == Val::Ptr && rr.obj != OM) havoc(S, rr.obj, 0, 1 << 20); k(std::move(S), Val()); return; }
      if (n == "wdns_clear_message") { Val m = A(0); if (m.k == Val::Ptr && m.obj == OM) { havoc(S, OM, mSec, mSec + 4 * aSize); Val z = cst(0, 64); put(S, ptr(OM, mEdns + eOpt), z, 64, C); } k(std::move(S), Val()); return; }
    }
    if (mode == 2) {
      if (n == "wdns_skip_name") { Val d = A(0), r = top(w), f = get(S, d, 64); bool at = f.k == Val::Ptr && f.obj == OPKT && f.base == 1 && f.offK && f.off == 0; if (at) r.ln = 1; if (d.k == Val::Ptr && d.offK) put(S, d, at ? ptr(OPKT, 0, 2) : Val(), 64, C); k(std::move(S), r); return; }
      if (n == "_wdns_parse_rdata") {
        Val s = A(3), l = A(4); obl("record-data", C); if (S.sec == 0) bad("record", "data is read for a question", C); if (S.pending) bad("record", "record data is read twice", C);
        if (s.k != Val::Ptr || (s.obj == OPKT && !s.offK)) und.insert("where the record data starts"); else if (!(s.obj == OPKT && s.base == 2 && s.off == 10)) bad("record", "the record data is not taken from the octets after its length", C);
        for (size_t i = 0; i < l.b.size(); i++) bit(l.b[i], l.b[i] == (i < 8 ? BS{org(REL, 9, i)} : i < 16 ? BS{org(REL, 8, i - 8)} : ZERO));
        field("record", "the length of the record data is not the two octets before it, in network byte order", C);
        Val rr = A(0); if (rr.k == Val::Ptr && rr.offK) havoc(S, rr.obj, rr.off + rRdata, rr.off + rRdata + 8); S.pending = 1;
        St T = S; k(std::move(S), cst(0, w)); Val f = top(w); f.nz = true; k(std::move(T), f); return;
      }
    }
    static const std::set<std::string> leaf{"wdns_unpack_name", "wdns_copy_uname", "wdns_len_uname", "_wdns_parse_rdata", "wdns_downcase_name", "wdns_clear_rrset", "wdns_clear_rrset_array", "free", "my_free", "wdns_skip_name"};
    if (n == "malloc" || n == "calloc" || n == "realloc") { Val p = ptr(objOf(C), 0); havoc(S, p.obj, 0, 1 << 20); k(std::move(S), p); return; }
    if (leaf.count(n) || F->isDeclaration()) { if (n != "free") havocArgs(S); if (F->getReturnType()->isIntegerTy(32) && leaf.count(n)) { St T = S; k(std::move(S), cst(0, w)); Val f = top(w); f.nz = true; k(std::move(T), f); } else k(std::move(S), top(w)); return; }
    if (depth > 4) { havocArgs(S); k(std::move(S), top(w)); return; }
    // any other function of the library is followed
    std::vector<Val> args; for (unsigned i = 0; i < C->arg_size(); i++) args.push_back(A(i));
    auto saved = S.env; St T = S; T.env.clear(); unsigned i = 0; for (auto &a : F->args()) T.env[&a] = args[i++];
    run(*F, std::move(T), depth + 1, [&](St R, Val v) { R.env = saved; k(std::move(R), v); });
  }
  void run(Function &F, St S0, int depth, const K &ret) {
    std::map<const BasicBlock *, std::map<std::string, St>> in; std::deque<std::pair<const BasicBlock *, std::string>> wl;
    std::map<std::string, std::pair<St, Val>> rets;
    auto joinSt = [&](St &a, const St &b) { // a := a join b; true when changed
      bool ch = false; joinSec = a.sec;
      for (auto it = a.env.begin(); it != a.env.end();) { auto jt = b.env.find(it->first); if (jt == b.env.end()) { it = a.env.erase(it); ch = true; continue; } Val v = joinV(it->second, jt->second, a.R, b.R); if (!(v == it->second)) { it->second = v; ch = true; } ++it; }
      for (auto it = a.mem[0].begin(); it != a.mem[0].end();) { auto jt = b.mem[0].find(it->first); if (jt == b.mem[0].end()) { it = a.mem[0].erase(it); ch = true; continue; } BS v = uni(it->second, jt->second); if (v != it->second) { it->second = v; ch = true; } ++it; }
      for (auto it = a.pc.begin(); it != a.pc.end();) { auto jt = b.pc.find(it->first); if (jt == b.pc.end()) { it = a.pc.erase(it); ch = true; continue; } Val v = joinV(it->second, jt->second, a.R, b.R); if (!(v == it->second)) { it->second = v; ch = true; } ++it; }
      for (int k = 0; k < 4; k++) if (a.R[k] != b.R[k] && a.R[k] >= 0) { a.R[k] = -1; ch = true; }
      return ch;
    };
    std::function<void(St, const BasicBlock *, const BasicBlock *)> go = [&](St S, const BasicBlock *from, const BasicBlock *to) {
      // unresolved conditions are decided before they meet
      for (auto &P : to->phis()) { auto *iv = P.getIncomingValueForBlock(from); Val v = val(S, iv); if (P.getType()->isIntegerTy() && v.cmp && decide(v) < 0) { for (int t = 0; t < 2; t++) { St T = S; if (!assume(T, v, t)) continue; T.env[iv] = cst(v.neg ? t : t, v.b.size()); go(std::move(T), from, to); } return; } }
      std::vector<std::pair<const PHINode *, Val>> ph; std::string key = S.key();
      for (auto &P : to->phis()) ph.push_back({&P, val(S, P.getIncomingValueForBlock(from))});
      for (auto &p : ph) {
        S.env[p.first] = p.second; uint64_t c;
        auto &cs = consts[p.first]; char b[64];
        if (p.first->getType()->isIntegerTy() && cs.size() <= 8) { if (isC(p.second, c)) { cs.insert(c); if (cs.size() > 8) redo = true; snprintf(b, sizeof b, "%p=%llu;", (const void *)p.first, (unsigned long long)c); key += b; } else if (p.second.nz) key += "nz;"; }
      }
      for (auto &p : S.env) { uint64_t c; char b[64]; if (auto *P = dyn_cast<PHINode>(p.first)) { if (P->getParent() != to && P->getType()->isIntegerTy() && consts[P].size() <= 8 && isC(p.second, c)) { snprintf(b, sizeof b, "%p=%llu;", (const void *)P, (unsigned long long)c); key += b; } }
        else if (isa<CallInst>(p.first) && p.first->getType()->isIntegerTy(32)) { if (p.second.nz) key += "f"; else if (isC(p.second, c)) key += "0"; } }
      auto &m = in[to]; auto it = m.find(key);
      if (it == m.end()) { m.emplace(key, std::move(S)); wl.push_back({to, key}); }
      else if (joinSt(it->second, S)) wl.push_back({to, key});
    };
    { std::string key = S0.key(); in[&F.getEntryBlock()].emplace(key, S0); wl.push_back({&F.getEntryBlock(), key}); }
    std::function<void(St, BasicBlock::const_iterator)> exec = [&](St S, BasicBlock::const_iterator it) {
      auto *B = it->getParent();
      for (; it != B->end(); ++it) {
        if (++steps > 3000000) { und.insert("too many steps"); return; }
        const Instruction &I = *it; unsigned w = I.getType()->isIntegerTy() ? I.getType()->getIntegerBitWidth() : 64;
        if (isa<PHINode>(I)) continue;
        if (isa<AllocaInst>(I)) { S.env[&I] = ptr(objOf(&I), 0); continue; }
        if (auto *L = dyn_cast<LoadInst>(&I)) { S.env[&I] = get(S, val(S, L->getPointerOperand()), DL.getTypeStoreSizeInBits(L->getType())); if (L->getType()->isIntegerTy()) S.env[&I] = resize(S.env[&I], w, false); continue; }
        if (auto *T = dyn_cast<StoreInst>(&I)) { put(S, val(S, T->getPointerOperand()), resize(val(S, T->getValueOperand()), DL.getTypeStoreSizeInBits(T->getValueOperand()->getType()), false), DL.getTypeStoreSizeInBits(T->getValueOperand()->getType()), &I); continue; }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          Val b = val(S, G->getPointerOperand());
          if (b.k == Val::Ptr && b.offK) {
            for (auto gi = gep_type_begin(G); gi != gep_type_end(G); ++gi) {
              uint64_t c; Val ix = val(S, gi.getOperand()); if (b.obj == OPKT && b.offK && gi.getIndexedType()->isIntegerTy(8)) {
                if (ix.ln == 1 && b.base == 1) { b.base = ix.lnRd ? 8 : 2; b.off += ix.lnc; continue; }
                if (ix.ln == 2 && b.base == 7 && !b.off) { b.base = 6; continue; }
                if (ix.ln == 9) { b.base = 9; continue; }
                if (ix.ln == 3 && b.base == 0 && !b.off) { b.base = 5; continue; }
                if (b.base == 2 && exactRd(ix)) { b.base = 8; continue; }
                if (b.base == 2 && ix.ln == 4) { b.base = 8; b.off += ix.lnc; continue; }
              } if (!isC(ix, c)) { b.offK = false; b.off = 0; break; }
              if (StructType *ST = gi.getStructTypeOrNull()) b.off += DL.getStructLayout(ST)->getElementOffset(c);
              else { long sc = c; if (ix.b.size() == 32) sc = (int32_t)c; b.off += sc * (long)DL.getTypeAllocSize(gi.getIndexedType()); }
            }
          }
          S.env[&I] = b; continue;
        }
        if (auto *O = dyn_cast<BinaryOperator>(&I)) { S.env[&I] = binop(O->getOpcode(), val(S, O->getOperand(0)), val(S, O->getOperand(1)), w); continue; }
        if (auto *Z = dyn_cast<CastInst>(&I)) { Val a = val(S, Z->getOperand(0)); S.env[&I] = isa<ZExtInst>(Z) || isa<TruncInst>(Z) ? resize(a, w, false) : isa<SExtInst>(Z) ? resize(a, w, true) : a; continue; }
        if (auto *C = dyn_cast<ICmpInst>(&I)) { S.env[&I] = icmp(S, C); continue; }
        if (auto *Q = dyn_cast<SelectInst>(&I)) {
          Val c = val(S, Q->getCondition()); int d = decide(c);
          if (d >= 0) { S.env[&I] = val(S, d ? Q->getTrueValue() : Q->getFalseValue()); continue; }
          for (int t = 0; t < 2; t++) { St T = S; if (!assume(T, c, t)) continue; T.env[&I] = val(T, t ? Q->getTrueValue() : Q->getFalseValue()); exec(std::move(T), std::next(it)); }
          return;
        }
        if (auto *C = dyn_cast<CallInst>(&I)) {
          auto nx = std::next(it);
          call(std::move(S), const_cast<CallInst *>(C), depth, [&](St T, Val v) { if (!C->getType()->isVoidTy()) T.env[C] = v; exec(std::move(T), nx); });
          return;
        }
        if (auto *R = dyn_cast<ReturnInst>(&I)) {
          Val v = R->getReturnValue() ? val(S, R->getReturnValue()) : Val();
          if (depth == 0) { ret(std::move(S), v); return; }
          uint64_t c; std::string key = S.key() + (isC(v, c) ? std::to_string(c) : v.nz ? "nz" : "?");
          auto rt = rets.find(key); if (rt == rets.end()) rets.emplace(key, std::make_pair(std::move(S), v)); else { rt->second.second = joinV(rt->second.second, v, rt->second.first.R, S.R); joinSt(rt->second.first, S); }
          return;
        }
        if (auto *J = dyn_cast<BranchInst>(&I)) {
          if (!J->isConditional()) { go(std::move(S), B, J->getSuccessor(0)); return; }
          Val c = val(S, J->getCondition()); int d = decide(c);
          for (int t = 1; t >= 0; t--) { if (d >= 0 && d != t) continue; St T = S; if (d < 0) { if (!assume(T, c, t)) continue; T.env[J->getCondition()] = cst(t, 1); } go(std::move(T), B, J->getSuccessor(t ? 0 : 1)); }
          return;
        }
        if (auto *W = dyn_cast<SwitchInst>(&I)) {
          Val c = val(S, W->getCondition()); uint64_t k; bool known = isC(c, k);
          bool ty = c.k == Val::Int && c.b.size() >= 16; for (size_t i = 0; ty && i < c.b.size(); i++) if (c.b[i] != (i < 16 ? BS{org(RRN, rType, i)} : ZERO)) ty = false;
          bool has41 = false;
          for (auto &cs : W->cases()) { uint64_t cv = cs.getCaseValue()->getZExtValue(); if (cv == 41) has41 = true; if (known && cv != k) continue; if (c.nz && cv == 0) continue; St T = S; if (ty) { int nt = cv == 41 ? 1 : 2; if (T.type && T.type != nt) continue; T.type = nt; } go(std::move(T), B, cs.getCaseSuccessor()); if (known) return; }
          if (ty && has41) { if (S.type == 1) return; S.type = 2; }
          go(std::move(S), B, W->getDefaultDest()); return;
        }
        if (isa<UnreachableInst>(I)) return;
        if (!I.getType()->isVoidTy()) S.env[&I] = top(w);
      }
    };
    while (!wl.empty() && !redo) {
      auto [B, key] = wl.front(); wl.pop_front();
      if (steps > 3000000) break;
      St S = in[B][key]; exec(std::move(S), B->begin());
    }
    if (depth) for (auto &p : rets) ret(p.second.first, p.second.second);
  }
  bool isRR(const BS &b, long off, int bit) { if (b == TOP || b.empty()) return false; for (int x : b) if (x != org(RRN, off, bit) && x != org(RRO, off, bit)) return false; return true; }
  // a field whose bits are known to come from somewhere else is reported; one whose origin was lost is counted as not decided
  bool unk = false, wrong = false;
  void bit(const BS &b, bool ok) { if (!ok) { if (b == TOP) unk = true; else wrong = true; } }
  void field(const std::string &rule, const std::string &what, const Instruction *at) { ob["field"]++; if (wrong) bad(rule, what, at); else if (unk) und.insert("not decided whether " + what); unk = wrong = false; }
  void message(Function &F) {
    mode = 1; St S; auto a = F.arg_begin(); S.env[&*a++] = ptr(OM, 0); S.env[&*a++] = ptr(OPKT, 0); S.env[&*a] = top(64); S.env[&*a].ln = 3; S.present = 2;
    const Instruction *last = nullptr;
    run(F, S, 0, [&](St S, Val v) {
      uint64_t c; if (v.nz || (isC(v, c) && c != 0)) return;
      for (auto &B : F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) last = R;
      auto at = [&](long o, int j) { auto it = S.mem[0].find({OM, o * 8 + j}); return it == S.mem[0].end() ? TOP : it->second; };
      auto be16 = [&](long fo, long po) { for (int j = 0; j < 16; j++) { BS b = at(fo + j / 8, j % 8); bit(b, b == BS{j < 8 ? org(PKT, po + 1, j) : org(PKT, po, j - 8)}); } };
      auto rrw = [&](long fo, long ro, int w) { for (int j = 0; j < w; j++) { BS b = at(fo + j / 8, j % 8); bit(b, isRR(b, ro + j / 8, j % 8)); } };
      if (S.pending == 1) bad("lost", "a record that was read is not stored though the message is accepted", last);
      ob["counts"]++; if (!S.ended) for (int k = 0; k < 4; k++) if (!(S.done >> k & 1)) { if (S.lost) und.insert("whether all records of section " + std::to_string(k) + " are read"); else bad("count", "a message may be accepted though neither all records of section " + std::to_string(k) + " were read nor its end was reached", last); }
      be16(mId, 0); field("header", "the message id is not octets 0 and 1 in network byte order", last);
      be16(mFlags, 2); field("header", "the flags are not octets 2 and 3 in network byte order", last);
      auto rc = [&](int j) { return at(mRcode + j / 8, j % 8); };
      for (int j = 0; j < 4; j++) bit(rc(j), rc(j) == BS{org(PKT, 3, j)});
      field("header", "the low four response-code bits are not the low four flag bits", last);
      if (S.present == 1) {
        for (int j = 0; j < 8; j++) bit(rc(4 + j), isRR(rc(4 + j), rTtl + 3, j)); for (int j = 12; j < 16; j++) bit(rc(j), rc(j) == ZERO);
        field("edns", "the upper eight response-code bits are not TTL bits 24 to 31 of the OPT record", last);
        rrw(mEdns + eSize, rClass, 16); field("edns", "the payload size is not the class of the OPT record", last);
        rrw(mEdns + eVer, rTtl + 2, 8); field("edns", "the version is not TTL bits 16 to 23 of the OPT record", last);
        rrw(mEdns + eFlags, rTtl, 16); field("edns", "the EDNS flags are not TTL bits 0 to 15 of the OPT record", last);
        rrw(mEdns + eOpt, rRdata, 64); field("edns", "the options are not the data of the OPT record", last);
      } else {
        for (int j = 4; j < 16; j++) bit(rc(j), rc(j) == ZERO); field("edns", "response-code bits are set without an OPT record", last);
        if (S.present != 0) und.insert("whether an OPT record was seen is not followed");
      }
    });
  }
  void record(Function &F) {
    for (int sec = 0; sec < 4; sec++) {
      mode = 2; St S; S.sec = sec; auto a = F.arg_begin(); S.env[&*a++] = cst(sec, 32); S.env[&*a++] = ptr(OPKT, 0, 3); S.env[&*a++] = ptr(OPKT, 0, 4); S.env[&*a++] = ptr(OPKT, 0, 1); S.env[&*a++] = ptr(OSZ, 0); S.env[&*a] = ptr(ORR, 0);
      run(F, S, 0, [&](St S, Val v) {
        uint64_t c; if (v.nz || (isC(v, c) && c != 0)) return;
        const Instruction *last = nullptr; for (auto &B : F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) last = R;
        auto be = [&](long fo, long n, long po) { for (int j = 0; j < 8 * n; j++) { auto it = S.mem[0].find({ORR, (fo + j / 8) * 8 + j % 8}); BS b = it == S.mem[0].end() ? TOP : it->second; bit(b, b == BS{org(REL, po + n - 1 - j / 8, j % 8)}); } };
        be(rType, 2, 0); field("record", "the record type is not the two octets after the owner name", last);
        be(rClass, 2, 2); field("record", "the record class is not the third and fourth octet after the owner name", last);
        if (sec) { be(rTtl, 4, 4); field("record", "the TTL is not octets five to eight after the owner name", last); }
        else {
          auto zero = [&](long o, int w) { for (int j = 0; j < w; j++) { auto it = S.mem[0].find({ORR, o * 8 + j}); BS b = it == S.mem[0].end() ? TOP : it->second; bit(b, b == ZERO); } };
          zero(rTtl, 32); field("record", "a question has a TTL", last); zero(rRdata, 64); field("record", "a question has data", last);
        }
        ob["record-size"]++; Val z = get(S, ptr(OSZ, 0), 64);
        if (z.ln != 1 && z.ln != 9) und.insert("how many octets of the packet a record takes"); else if (z.ln == 9 || z.lnc != (sec ? 10 : 4) || z.lnRd != (sec > 0)) bad("record", sec ? "the size of a record is not its owner name, ten octets and its data" : "the size of a question is not its owner name and four octets", last);
        if (sec && S.pending != 1) bad("record", "a record may be accepted without reading its data", last);
      });
    }
  }
};
}
int cmdBits(Module &M, const std::vector<std::string> &) {
  prepModule(M, [](Function &F) { return hasContract(F); });
  Bits B(M); json::Array und;
  for (auto n : {"wdns_parse_message", "_wdns_parse_message_rr"}) {
    auto *F = M.getFunction(n); if (!F || F->isDeclaration()) { und.push_back(std::string(n) + " not found"); continue; }
    for (int r = 0; r < 40; r++) { B.viol = json::Array(); B.seen.clear(); B.ob.clear(); B.obs.clear(); B.redo = false; B.steps = 0; if (n[0] == 'w') B.message(*F); else B.record(*F); if (!B.redo) break; }
    for (auto &v : B.viol) { json::Object o = *v.getAsObject(); o["kind"] = "violation"; o["function"] = n; emit(std::move(o)); }
    json::Object s; s["kind"] = "summary"; s["function"] = n; s["steps"] = B.steps; json::Object ob; for (auto &p : B.ob) ob[p.first] = p.second; s["obligations"] = std::move(ob); json::Array u; for (auto &x : B.und) u.push_back(x); s["undecided"] = std::move(u); emit(std::move(s));
    B.und.clear();
  }
  json::Object e; e["kind"] = "end"; e["missing"] = std::move(und); emit(std::move(e));
  return 0;
}
