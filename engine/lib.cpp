// Abstract interpreter: models of the C library, reporting, calls.
#include "absint.h"
#include <ctype.h>
#include <cstring>
#include <llvm/BinaryFormat/Dwarf.h>
using namespace llvm;

// ---- character classes (C locale); indices -128..255
static bool inClass(long mask, long c) {
  if (c < 0 || c > 127) return false;
  const unsigned short *t = *__ctype_b_loc();
  return (t[c] & mask) != 0;
}
int ctypeDecide(long mask, i64 lo, i64 hi) {
  if (lo < -128) lo = -128; if (hi > 255) hi = 255;
  bool any = false, all = true;
  for (i64 c = lo; c <= hi; c++) { if (inClass(mask, c)) any = true; else all = false; }
  return !any ? 0 : all ? 1 : -1;
}
void ctypeHull(long mask, bool truth, i64 &lo, i64 &hi) {
  while (lo <= hi && inClass(mask, lo) != truth) lo++;
  while (hi >= lo && inClass(mask, hi) != truth) hi--;
}

bool Interp::requireStr(State &S, const AV &p, const char *fn) {
  ob("string");
  std::string w = std::string(fn);
  if (p.un) { alarm("uninit", w + ": string pointer never set"); return false; }
  if (p.k != AV::Ptr || p.reg < 0) { alarm("bounds", w + (p.nullOff ? ": offset from a null pointer" : ": string argument is not known to be inside any object")); return false; }
  if (p.reg == 0) { alarm("null", w + ": null string"); S.P.bot = true; return false; }
  if (!S.has(p.reg)) { alarm("bounds", w + ": object no longer tracked"); return false; }
  if (S.R(p.reg).maybeNull) { if (!S.R(p.reg).heap || !S.R(p.reg).owned) alarm("null", w + ": string may be null"); S.W(p.reg).maybeNull = false; }
  const Region &R = S.R(p.reg);
  if (R.freed || R.dead) { alarm("uaf", w + ": " + regionName(p.reg) + " was released"); return false; }
  if (!R.hasZ || R.term != 0) { if (getenv("ABS_DUMP") && record) { errs() << "NOSTR " << locOf(cur) << "\n"; dump(S); } alarm("bounds", w + ": no terminating NUL is known in " + regionName(p.reg)); return false; }
  bool a = S.P.entGe(p.e), b = false; try { b = S.P.entGe(R.Z - p.e); } catch (Ovf &) {}
  if (!a) alarm("bounds", w + ": string starts before " + regionName(p.reg));
  if (!b) { alarm("bounds", w + ": string may start after the terminating NUL of " + regionName(p.reg)); S.P.addIneq(R.Z - p.e); }
  if (!initialised(S, p.reg, p.e, Lin(1)) && !initialised(S, p.reg, p.e, R.Z - p.e)) { bool e = false; try { e = S.P.entEq(R.Z - p.e); } catch (Ovf &) {} if (!e) alarm("uninit", w + ": string in " + regionName(p.reg) + " not fully set"); }
  return !S.P.bot;
}
Lin Interp::strLen(State &S, const AV &p) {
  const Region &R = S.R(p.reg);
  Lin m = R.Z - p.e;
  if (R.zExact && S.P.entGe(p.e - Lin(R.zfrom))) return m;
  // the first NUL at or after p: at the latest at Z
  Lin n = fresh(S, 0, INF); S.P.addIneq(m - n, false);
  return n;
}
static AV bufAt(const AV &p, Lin off) { AV q = p; q.e = p.e + off; return q; }

// longest text a printf-style format can produce; -1 unknown.  Also lists the argument of each conversion.
struct FmtArg { char conv; int len; bool isStr; long fixed; long width; };
static bool parseFmt(const std::string &f, std::vector<FmtArg> &args, long &lit) {
  lit = 0;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { lit++; continue; }
    i++;
    if (i < f.size() && f[i] == '%') { lit++; continue; }
    FmtArg a{0, 0, false, 0, 0}; long prec = -1;
    while (i < f.size() && strchr("-+ #0", f[i])) i++;
    if (i < f.size() && f[i] == '*') return false;
    while (i < f.size() && isdigit(f[i])) a.width = a.width * 10 + f[i++] - '0';
    if (i < f.size() && f[i] == '.') { i++; prec = 0; if (i < f.size() && f[i] == '*') return false; while (i < f.size() && isdigit(f[i])) prec = prec * 10 + f[i++] - '0'; }
    while (i < f.size() && strchr("hlzjt", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j') a.len = 8; if (f[i] == 'h') a.len = a.len == 2 ? 1 : 2; i++; }
    if (i >= f.size()) return false;
    a.conv = f[i];
    a.fixed = prec;
    if (a.conv == 's') a.isStr = true;
    args.push_back(a);
  }
  return true;
}
static bool strConst(Interp &I, State &S, const AV &p, std::string &out) {
  if (p.k != AV::Ptr || p.reg <= 0 || !S.has(p.reg)) return false;
  const Region &R = S.R(p.reg); i64 o;
  if (!R.init || !S.P.isConst(p.e, o)) return false;
  if (auto *CD = dyn_cast<ConstantDataSequential>(R.init)) if (CD->isString()) { out = CD->getAsString().str(); out = o <= (i64)out.size() ? out.substr(o) : ""; out = out.c_str(); return true; }
  if (R.init->isNullValue()) { out = ""; return true; }
  return false;
}
static long digitsFor(i64 hi) { long n = 1; while (hi >= 10) { n++; hi /= 10; } return n; }
static long hexFor(i64 hi) { long n = 1; while (hi >= 16) { n++; hi /= 16; } return n; }
static long octFor(i64 hi) { long n = 1; while (hi >= 8) { n++; hi /= 8; } return n; }
// bounds of the length produced by the conversions; checks %s arguments
static bool fmtLen(Interp &I, State &S, const std::string &f, const std::vector<std::pair<AV, unsigned>> &va, Lin &mx, Lin &mn, bool &bounded, const char *fn) {
  std::vector<FmtArg> as; long lit; bounded = true;
  if (!parseFmt(f, as, lit)) { bounded = false; return true; }
  mx = Lin(lit); mn = Lin(lit);
  if (as.size() > va.size()) { I.alarm("bounds", std::string(fn) + ": fewer arguments than conversions"); bounded = false; return true; }
  for (size_t i = 0; i < as.size(); i++) {
    AV v = va[i].first; unsigned bits = va[i].second;
    if (v.un) I.alarm("uninit", std::string(fn) + ": an argument was never set");
    if (as[i].isStr) {
      if (as[i].fixed >= 0) { // at most that many octets read
        if (v.k == AV::Ptr && v.reg > 0 && S.has(v.reg) && !S.R(v.reg).hasZ) I.access(S, v, Lin(as[i].fixed), false, fn);
        else if (!I.requireStr(S, v, fn)) { if (S.P.bot) return false; }
        mx = mx + Lin(std::max(as[i].fixed, as[i].width)); continue;
      }
      if (!I.requireStr(S, v, fn)) { if (S.P.bot) return false; bounded = false; continue; }
      Lin l = I.strLen(S, v); if (as[i].width) { Lin t = I.fresh(S, 0, INF); S.P.addIneq(t - l); mx = mx + t + Lin(as[i].width); mn = mn + Lin(as[i].width); } else { mx = mx + l; mn = mn + l; }
      continue;
    }
    long n = 0; i64 lo = 0, hi = 0; bool kl = false, kh = false;
    if (v.k == AV::Int) { kl = S.P.minOf(v.e, lo); kh = S.P.maxOf(v.e, hi); if (bits <= 32 && kh && (hi > 0xffffffffLL)) kh = false; if (kl && lo < -0x80000000LL) kl = false; }
    int ln = as[i].len ? as[i].len : 4;
    if (bits == 64 && ln == 4) ln = 8;
    bool neg = !(kl && lo >= 0);
    switch (as[i].conv) {
    case 'd': case 'i': n = (!neg && kh) ? digitsFor(hi) : (neg && kl && kh) ? std::max(digitsFor(std::max<i64>(hi, 0)), digitsFor(-lo) + 1) : ln == 8 ? 20 : ln == 2 ? 6 : ln == 1 ? 4 : 11; if (!(v.canon & 2) && !(kl && kh && lo >= -0x80000000LL && hi < 0x80000000LL)) n = std::max(n, ln == 8 ? 20L : 11L); break;
    case 'u': n = (!neg && kh) ? digitsFor(hi) : ln == 8 ? 20 : ln == 2 ? 5 : ln == 1 ? 3 : 10; break;
    case 'x': case 'X': n = (!neg && kh) ? hexFor(hi) : ln == 8 ? 16 : ln == 2 ? 4 : ln == 1 ? 2 : 8; n += 2; if (f.find('#') == std::string::npos) n -= 2; break;
    case 'o': n = (!neg && kh) ? octFor(hi) : 22; break;
    case 'c': n = 1; break;
    case 'p': n = 20; break;
    default: bounded = false; continue;
    }
    { long m = std::max<long>({1, as[i].fixed, as[i].width}); if (as[i].fixed == 0) m = as[i].width; if (as[i].conv != 'c' && as[i].conv != 'p' && kl && lo >= 0) m = std::max(m, as[i].conv == 'x' || as[i].conv == 'X' ? hexFor(lo) : as[i].conv == 'o' ? octFor(lo) : digitsFor(lo)); if (as[i].conv == 'p' || (bits == 64 && ln == 4)) m = std::min(m, 1L); mn = mn + Lin(m); }
    n = std::max({n, as[i].fixed, as[i].width}); 
    if (as[i].fixed > 0 && as[i].conv == 'd' && neg) n = std::max(n, as[i].fixed + 1);
    mx = mx + Lin(n);
  }
  return true;
}

// text that announces a failure in the rendering
void errText(Interp &I, State &S, const AV &p) {
  std::string s; if (!strConst(I, S, p, s) || s.find("PARSE ERROR") == std::string::npos) return;
  for (auto it = S.flags.begin(); it != S.flags.end();) it = it->compare(0, 2, "F:") == 0 ? S.flags.erase(it) : std::next(it);
}
// the conversions of a constant format string at a call; false: the path ends
bool fmtCall(Interp &I, State &S, CallInst *C, unsigned fi, Lin &mx, Lin &mn, bool &bounded, const char *fn) {
  std::string fmt; bounded = false; mx = mn = Lin(0);
  AV f = I.val(S, C->getArgOperand(fi));
  std::vector<std::pair<AV, unsigned>> va; for (unsigned i = fi + 1; i < C->arg_size(); i++) va.push_back({I.val(S, C->getArgOperand(i)), I.w(C->getArgOperand(i))});
  if (strConst(I, S, f, fmt)) return fmtLen(I, S, fmt, va, mx, mn, bounded, fn);
  I.requireStr(S, f, fn); I.ob("format"); I.alarm("bounds", std::string(fn) + ": format string is not a constant");
  return !S.P.bot;
}

void Interp::narrowing(State &S, const StoreInst *St, const AV &p, const AV &v) {
  // lengths and counts stored in result objects must not lose bits
  auto *T = dyn_cast<IntegerType>(St->getValueOperand()->getType());
  if (!T || (T->getBitWidth() != 8 && T->getBitWidth() != 16)) return;
  auto *G = dyn_cast<GEPOperator>(St->getPointerOperand());
  const StructType *ST = nullptr; uint64_t fld = 0;
  if (G && G->getNumIndices() == 2) { ST = dyn_cast<StructType>(G->getSourceElementType()); if (ST) if (auto *c = dyn_cast<ConstantInt>(G->getOperand(2))) fld = c->getZExtValue(); }
  else { // first field of a structure is addressed without a GEP: recognised by where it lands
    ST = nullptr;
  }
  if (!ST || !ST->hasName()) return;
  StringRef n = ST->getName();
  bool isLen = (n == "struct.wdns_name_t" && fld == 0) || (n == "struct.wdns_rdata_t" && fld == 0) || (n == "struct.wdns_rrset_t" && T->getBitWidth() == 16 && (long)DL.getStructLayout(const_cast<StructType *>(ST))->getElementOffset(fld) == fieldOff(M, "wdns_rrset_t", "n_rdatas")) || (n == "struct.wdns_rrset_array_t" && fld <= 1);
  if (!isLen) return;
  ob("narrow");
  if (v.k != AV::Int) return;
  i64 lo, hi;
  bool ok = !v.lossy && ((v.canon & 1) || (S.P.minOf(v.e, lo) && lo >= 0 && S.P.maxOf(v.e, hi) && hi < ((i64)1 << T->getBitWidth())));
  if (!ok) { if (record && getenv("ABS_DUMP")) { errs() << "NARROW " << locOf(cur) << "\n"; dump(S); } alarm("narrow", "the value stored in " + n.drop_front(7).str() + " may not fit its " + std::to_string(T->getBitWidth()) + " bits"); }
}

// ---- calls
void Interp::call(State S, CallInst *C, const std::function<void(State)> &k) {
  auto *G = C->getCalledFunction();
  if (!G && isa<Argument>(C->getCalledOperand()) && C->getType()->isVoidTy()) { // the caller's callback: it may change, keep or release what it is handed
    bool ok = true;
    for (auto &A : C->args()) {
      AV p = val(S, A.get());
      if (p.un) alarm("uninit", "an argument of the callback was never set");
      if (p.k != AV::Ptr) continue;
      if (p.reg < 0) { if (!isa<Argument>(A.get())) { ok = false; } continue; }
      if (p.reg == 0 || !S.has(p.reg)) continue;
      const Region &R = S.R(p.reg); ob("access");
      if (R.freed || R.dead) { alarm("uaf", "the callback is handed " + regionName(p.reg) + ", which was released"); continue; }
      if (isa<Argument>(A.get()) && !R.stack) continue; // its own data
      { i64 c; if (S.P.isConst(R.size, c) && !S.R(p.reg).heap) { ob("init"); if (!initialised(S, p.reg, Lin(0), R.size)) { // padding apart
            bool all = true; if (p.reg && c == typeSize(M, "wdns_name_t")) { long ol = fieldOff(M, "wdns_name_t", "len"), od = fieldOff(M, "wdns_name_t", "data"); all = initialised(S, p.reg, p.e + Lin(ol), Lin(1)) && initialised(S, p.reg, p.e + Lin(od), Lin(8)); }
            if (!all) alarm("uninit", "the callback is handed " + regionName(p.reg) + ", which was not fully set"); } } }
      std::vector<int> ids; for (auto &c : R.cells) if (c.second.v.k == AV::Ptr && c.second.v.reg > 0) ids.push_back(c.second.v.reg);
      for (int id : ids) if (S.has(id) && S.R(id).freed && !S.R(id).owned) alarm("uaf", "the callback is handed " + regionName(id) + ", which was released"); else if (S.has(id) && S.R(id).heap && S.R(id).owned) { // now the caller's
        auto &W = S.W(id); W.freed = true; W.owned = false; W.cells.clear(); W.hasZ = false; W.zero = false; }
      clobber(S, p.reg, Lin(0), S.R(p.reg).size, true);
    }
    if (ok) { k(std::move(S)); return; }
  }
  if (!G) { broken = true; brokenWhy = "indirect call at " + locOf(C); return; }
  std::string n = baseName(G->getName());
  if (G->isIntrinsic()) {
    switch (G->getIntrinsicID()) {
    case Intrinsic::experimental_noalias_scope_decl: k(std::move(S)); return;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
      AV p = val(S, C->getArgOperand(1));
      if (p.k == AV::Ptr && p.reg > 0 && S.has(p.reg)) deadStack(S, p.reg, G->getIntrinsicID() == Intrinsic::lifetime_end);
      k(std::move(S)); return; }
    default: break;
    }
  }
  if (n.rfind("__status.", 0) == 0) {
    AV v = val(S, C->getArgOperand(0)); if (v.k != AV::Int || v.un) { k(std::move(S)); return; }
    auto c = std::make_shared<Cond>(); c->k = Cond::Cmp; c->pred = 0; c->a = v.e; c->b = Lin(0);
    int d = decide(S, c); std::string fn = n.substr(9); fn.pop_back();
    for (int t = 1; t >= 0; t--) {
      if (d >= 0 && t != d) continue;
      State T = S; if (d < 0 && !refine(T, c, t)) continue;
      if (!t) { ob("status"); T.flags.insert("F:" + fn + " at " + locOf(C)); }
      k(std::move(T)); cur = C;
    }
    return;
  }
  if (n.rfind("__uninit", 0) == 0) {
    AV v; if (C->getType()->isIntegerTy()) v = freshInt(S, w(C)); else if (C->getType()->isPointerTy()) v = AV::mkPtr(-1);
    v.un = true; set(S, C, v); k(std::move(S)); return;
  }
  if (hasContract(*G)) { if (contractCall(*this, S, C, k)) return; }
  if (libcall(S, C, n, k)) return;
  broken = true; brokenWhy = "call of unmodelled function " + n + " at " + locOf(C);
}
static void setInit(Interp &I, State &S, int r) { auto &R = S.W(r); R.ilo = Lin(0); R.ihi = R.size; }
bool Interp::libcall(State &S, CallInst *C, const std::string &n0, const std::function<void(State)> &k) {
  std::string n = n0;
  if (n.rfind("__isoc23_", 0) == 0) n = n.substr(9); else if (n.rfind("__isoc99_", 0) == 0) n = n.substr(9);
  auto A = [&](unsigned i) { return val(S, C->getArgOperand(i)); };
  auto withU = [&](unsigned i, const std::function<void(State, Lin)> &f) { AV a = A(i); if (a.un) alarm("uninit", n + ": argument never set"); canon(S, a, w(C->getArgOperand(i)), false, [&](State T, Lin l) { cur = C; f(std::move(T), l); }); };
  auto retFresh = [&](State &T, i64 lo, i64 hi) { if (!C->getType()->isVoidTy()) set(T, C, AV::mkInt(fresh(T, lo, hi), lo >= 0 ? 3 : 2)); };
  auto uninitArg = [&](State &T, const AV &p, const Lin &len, const char *fn) {
    ob("init");
    if (p.k == AV::Ptr && p.reg > 0 && T.has(p.reg) && !initialised(T, p.reg, p.e, len)) alarm("uninit", std::string(fn) + ": reads octets of " + regionName(p.reg) + " that were never set");
  };
  unsigned iid = C->getCalledFunction()->getIntrinsicID();
  if (iid == Intrinsic::memcpy || iid == Intrinsic::memmove || n == "memcpy" || n == "memmove" || n == "mempcpy") {
    withU(2, [&](State T, Lin l) {
      AV d = val(T, C->getArgOperand(0)), s = val(T, C->getArgOperand(1));
      i64 h; bool none = T.P.maxOf(l, h) && h <= 0;
      if (!none) {
        // a symbolic length that may be zero: null or stray pointers are harmless only when it is zero
        bool maybe0 = !T.P.entGe(l - Lin(1));
        bool bad = (d.k == AV::Ptr && (d.reg == 0 || (d.reg > 0 && T.has(d.reg) && T.R(d.reg).maybeNull && T.R(d.reg).nullEmpty))) || (s.k == AV::Ptr && (s.reg == 0 || (s.reg > 0 && T.has(s.reg) && T.R(s.reg).maybeNull && T.R(s.reg).nullEmpty)));
        if (maybe0 && bad) {
          State Z = T; Z.P.addEq(l); if (!Z.P.bot) { if (!C->getType()->isVoidTy()) set(Z, C, d); k(std::move(Z)); cur = C; }
          T.P.addIneq(l - Lin(1)); if (T.P.bot) return;
        }
        bool a = access(T, s, l, false, "copy from"); if (T.P.bot) return;
        bool b = access(T, d, l, true, "copy to"); if (T.P.bot) return;
        if (a && b) {
          if ((iid == Intrinsic::memcpy || n == "memcpy") && d.reg == s.reg && !(d.e == s.e)) { ob("overlap"); bool dis = false; try { dis = T.P.entGe(d.e - s.e - l) || T.P.entGe(s.e - d.e - l); } catch (Ovf &) {} if (!dis && d.reg > 0) alarm("overlap", "memcpy of overlapping ranges of " + regionName(d.reg)); }
          copyMem(T, d, s, l);
        }
      }
      if (!C->getType()->isVoidTy()) set(T, C, n == "mempcpy" && d.k == AV::Ptr ? bufAt(d, l) : d);
      k(std::move(T));
    });
    return true;
  }
  if (iid == Intrinsic::memset || n == "memset") {
    withU(2, [&](State T, Lin l) {
      AV d = val(T, C->getArgOperand(0)), v = val(T, C->getArgOperand(1));
      i64 h; bool none = T.P.maxOf(l, h) && h <= 0;
      if (!none && access(T, d, l, true, "fill")) {
        i64 z; bool zero = v.k == AV::Int && T.P.isConst(v.e, z) && z == 0 && !v.un;
        bool whole = false; try { whole = T.P.entEq(d.e) && T.P.entEq(T.R(d.reg).size - l); } catch (Ovf &) {}
        Region sav = T.R(d.reg);
        if (T.R(d.reg).et) {
          std::map<long, Cell> *fc = nullptr; long rel = 0; const ElemType *et = T.R(d.reg).et;
          bool one = T.P.isConst(l, h) && h == et->size;
          if (zero && one && focus(T, d.reg, d.e, 1, fc, rel) && rel == 0) {
            // one whole element set to zero
            Lin F = T.R(d.reg).F; auto &W = T.W(d.reg); bool zt = W.zeroTail; Lin HI = W.HI, LO = W.LO; 
            std::set<int> o; 
            W.fcells.clear(); W.fFresh = true;
            extern void zeroElem(Interp &, const ElemType *, std::map<long, Cell> &); zeroElem(*this, et, W.fcells);
            (void)zt; (void)F; (void)HI; (void)LO;
          } else if (zero && T.P.entGe(T.R(d.reg).LO - T.R(d.reg).HI)) { auto &W = T.W(d.reg); W.hasF = false; W.fcells.clear(); W.LO = W.HI = Lin(0); if (whole) W.zeroTail = true; }
          else if (zero) { // tail of the array
            std::map<long, Cell> *fc2 = nullptr; (void)fc2; unfocus(T, d.reg);
            bool tail = false; try { tail = T.P.entEq(d.e - T.R(d.reg).HI * et->size) && T.P.entEq(T.R(d.reg).size - d.e - l); } catch (Ovf &) {}
            if (tail) T.W(d.reg).zeroTail = true; else alarm("bounds", "memset over elements of " + regionName(d.reg));
          } else alarm("bounds", "memset over elements of " + regionName(d.reg));
        } else {
          clobber(T, d.reg, d.e, l, false);
          auto &W = T.W(d.reg);
          if (whole && zero) { W.zero = true; W.cells.clear(); W.hasZ = true; W.zExact = true; W.Z = Lin(0); W.term = 0; W.zfrom = 0; W.ilo = Lin(0); W.ihi = W.size; }
          else {
            if (v.un) {} else addInit(T, d.reg, d.e, l);
            i64 o, q; if (zero && T.P.isConst(d.e, o) && T.P.isConst(l, q) && q <= 64) { for (long at = o; at + 8 <= o + q; at += 8) T.W(d.reg).cells[at] = Cell{8, AV::mkInt(Lin(0), 3)}; }
            if (zero && !T.W(d.reg).hasZ && T.P.entGe(l - Lin(1))) { auto &W2 = T.W(d.reg); W2.hasZ = true; W2.Z = d.e; W2.zExact = T.P.entEq(d.e); W2.term = 0; W2.zfrom = 0; }
          }
        }
      }
      if (!C->getType()->isVoidTy()) set(T, C, d);
      k(std::move(T));
    });
    return true;
  }
  if (iid == Intrinsic::stacksave || iid == Intrinsic::stackrestore || iid == Intrinsic::vastart || iid == Intrinsic::vaend || iid == Intrinsic::vacopy || iid == Intrinsic::assume || iid == Intrinsic::donothing) {
    if (C->getType()->isPointerTy()) set(S, C, AV::mkPtr(-1));
    if (iid == Intrinsic::vastart || iid == Intrinsic::vacopy) { AV p = A(0); if (p.reg > 0 && S.has(p.reg)) { wipe(S, p.reg); } }
    k(S); return true;
  }
  if (iid == Intrinsic::bswap) {
    AV a = A(0);
    // on a narrowed value: what is written in network order must be the whole value
    bool cut = a.lossy & 2; { i64 lo, hi; if (cut && a.k == AV::Int && w(C) < 62 && S.P.minOf(a.e, lo) && lo >= 0 && S.P.maxOf(a.e, hi) && hi < ((i64)1 << w(C))) cut = false; }
    if ((a.lossy & 7) && w(C) == 16 && (cut || !(a.lossy & 2))) { ob("narrow"); alarm("narrow", "a value that may not fit 16 bits is cut down and stored in network byte order"); }
    else if (w(C) == 16) ob("narrow");
    AV v = freshInt(S, w(C)); v.un = a.un; v.lossy = (cut ? 4 : 0) | (a.lossy & 8);
    i64 c; if (a.k == AV::Int && S.P.isConst(a.e, c)) { uint64_t u = (uint64_t)c; uint64_t r = w(C) == 16 ? __builtin_bswap16(u) : w(C) == 32 ? __builtin_bswap32(u) : __builtin_bswap64(u); if (w(C) < 64) v = AV::mkInt(Lin((i64)r), 1); }
    set(S, C, v); k(S); return true;
  }
  if (iid == Intrinsic::expect || iid == Intrinsic::expect_with_probability) { set(S, C, A(0)); k(S); return true; }
  if (iid == Intrinsic::umin || iid == Intrinsic::umax || iid == Intrinsic::smin || iid == Intrinsic::smax || iid == Intrinsic::abs || iid == Intrinsic::ctpop || iid == Intrinsic::ctlz || iid == Intrinsic::cttz) { AV v = freshInt(S, w(C)); set(S, C, v); k(S); return true; }

  auto newHeap = [&](State &T, Lin size, int idx) { int r = newRegion(T, C, idx, size); auto &R = T.W(r); R.heap = true; R.owned = true; R.maybeNull = true; R.alloc = true; T.P.addIneq(Lin((i64)1 << 46) - size, false); return r; };
  if (n == "malloc" || n == "calloc") {
    auto go = [&](State T, Lin sz, bool zero) {
      cur = C;
      int r = newHeap(T, sz, 0); if (broken) return;
      if (monitorAlloc && !T.ghosts.count(2)) { T.ghosts[2] = {r, Lin(0)}; T.ghosts[3] = {r, Lin(-1)}; }
      if (zero) { auto &R = T.W(r); R.zero = true; R.ihi = R.size; R.hasZ = T.P.entGe(sz - Lin(1)); R.zExact = true; R.Z = Lin(0); }
      set(T, C, AV::mkPtr(r)); if (!T.P.bot) k(std::move(T));
    };
    if (n == "malloc") withU(0, [&](State T, Lin l) { go(std::move(T), l, false); });
    else withU(0, [&](State T, Lin a) { AV b = val(T, C->getArgOperand(1)); canon(std::move(T), b, 64, false, [&](State U, Lin y) { i64 c; Lin sz; if (U.P.isConst(y, c)) sz = a * c; else if (U.P.isConst(a, c)) sz = y * c; else sz = fresh(U, 0, INF); go(std::move(U), sz, true); }); });
    return true;
  }
  if (n == "realloc" || n == "reallocarray") {
    withU(1, [&](State T, Lin l) {
      AV p = val(T, C->getArgOperand(0));
      auto go = [&](State U, AV p) {
        cur = C;
        if (p.k == AV::Ptr && p.reg == 0) { auto g = U.ghosts.find(65); const ElemType *et = g == U.ghosts.end() ? nullptr : (const ElemType *)(intptr_t)g->second.second.c; U.ghosts.erase(65); int r = newHeap(U, l, 0); if (broken) return; if (et) { auto &W = U.W(r); W.et = et; W.LO = W.HI = Lin(0); } set(U, C, AV::mkPtr(r)); if (!U.P.bot) k(std::move(U)); return; }
        ob("free");
        if (p.un || p.k != AV::Ptr || p.reg < 0 || !U.has(p.reg)) { alarm(p.un ? "uninit" : "free", "realloc of an unknown pointer"); set(U, C, AV::mkPtr(-1)); k(std::move(U)); return; }
        const Region &R = U.R(p.reg);
        if (R.freed) { alarm("uaf", "realloc: " + regionName(p.reg) + " was released"); return; }
        if (!R.heap || !R.owned) { alarm("free", "realloc of " + regionName(p.reg) + ", which is not an allocated block of ours"); return; }
        if (!U.P.entEq(p.e)) alarm("free", "realloc of an address inside " + regionName(p.reg));
        { // failure: old block stays
          State V = U; V.flags.insert("oom"); set(V, C, AV::mkPtr(0)); k(std::move(V)); cur = C;
        }
        if (U.R(p.reg).et) unfocus(U, p.reg);
        Region old = U.R(p.reg);
        int save = p.reg;
        { auto &W = U.W(save); W.freed = true; W.owned = false; W.cells.clear(); W.hasF = false; W.hasZ = false; W.zero = false; W.et = nullptr; }
        // the freed block keeps a name of its own
        int gone = regionId(C, 100, "old " + regionName(save)); 
        if (U.has(gone)) { dropRegion(U, gone); for (auto &e : U.env) if (e.second.k == AV::Ptr && e.second.reg == gone) e.second = AV::mkPtr(-1); }
        renameRegion(U, save, gone);
        int r = newHeap(U, l, 0); if (broken) return;
        auto &N = U.W(r); N.maybeNull = false;
        bool grows = false; try { grows = U.P.entGe(l - old.size); } catch (Ovf &) {}
        if (old.et) { N.et = old.et; N.LO = old.LO; N.HI = old.HI; bool fits = false; try { fits = U.P.entGe(l - old.HI * old.et->size); } catch (Ovf &) {} if (!fits) { alarm("bounds", "realloc drops elements in use"); } }
        else {
          i64 nl; bool kn = U.P.isConst(l, nl);
          for (auto &c : old.cells) { bool in = grows || (kn && c.first + c.second.sz <= nl); if (in) N.cells[c.first] = c.second; }
          if (grows) { if (old.zero) { N.ilo = Lin(0); N.ihi = old.size; } else { N.ilo = old.ilo; N.ihi = old.ihi; } N.hasZ = old.hasZ; N.zExact = old.zExact; N.Z = old.Z; N.term = old.term; N.zfrom = old.zfrom; }
          else { Lin ih = old.zero ? old.size : old.ihi; Lin il = old.zero ? Lin(0) : old.ilo; if (U.P.entGe(l - ih)) { N.ilo = il; N.ihi = ih; } else { Lin f = fresh(U, 0, INF); U.P.addIneq(l - f, false); U.P.addIneq(ih - f, false); auto &N2 = U.W(r); N2.ilo = il; if (U.P.entGe(ih - l)) N2.ihi = l; else { N2.ihi = f; if (!U.P.entGe(f - il)) { N2.ilo = N2.ihi = Lin(0); } } }
            auto &N2 = U.W(r); if (old.hasZ) { bool in = false; try { in = U.P.entGe(l - old.Z - Lin(1)); } catch (Ovf &) {} if (in) { N2.hasZ = true; N2.Z = old.Z; N2.zExact = old.zExact; N2.term = old.term; N2.zfrom = old.zfrom; } } }
        }
        set(U, C, AV::mkPtr(r)); if (!U.P.bot) k(std::move(U));
      };
      if (p.k == AV::Ptr && p.reg > 0 && T.has(p.reg) && T.R(p.reg).maybeNull) {
        State N = T; int reg = p.reg; const ElemType *et = T.R(reg).et; nullRegion(N, reg); if (!N.P.bot) { if (et) N.ghosts[65] = {0, Lin((i64)(intptr_t)et)}; go(std::move(N), AV::mkPtr(0)); }
        T.W(reg).maybeNull = false;
      }
      go(std::move(T), p);
    });
    return true;
  }
  if (n == "free" || n == "cfree") { freePtr(S, A(0), "free"); if (!S.P.bot) k(S); return true; }
  if (n == "abort" || n == "__assert_fail" || n == "exit" || n == "_exit" || n == "__assert_perror_fail") {
    ob("abort");
    if (S.flags.count("oom")) return true; // the allocator failing is the one permitted reason
    std::string e; if (n == "__assert_fail") strConst(*this, S, A(0), e);
    if (getenv("ABS_DUMP") && record) { errs() << "ABORT " << locOf(cur) << "\n"; dump(S); }
    alarm("abort", n == "__assert_fail" ? "assertion '" + e + "' may fail" : n + " may be called");
    return true;
  }
  if (n == "strlen" || n == "strnlen") {
    AV p = A(0);
    if (n == "strnlen") { withU(1, [&](State T, Lin l) { AV p = val(T, C->getArgOperand(0)); if (p.k == AV::Ptr && p.reg > 0 && T.has(p.reg) && T.R(p.reg).hasZ) { if (requireStr(T, p, "strnlen")) {} if (T.P.bot) return; Lin m = strLen(T, p); Lin r = fresh(T, 0, INF); T.P.addIneq(m - r); T.P.addIneq(l - r); set(T, C, AV::mkInt(r, 3)); } else { access(T, p, l, false, "strnlen"); if (T.P.bot) return; Lin r = fresh(T, 0, INF); T.P.addIneq(l - r); set(T, C, AV::mkInt(r, 3)); } k(std::move(T)); }); return true; }
    bool ok = requireStr(S, p, "strlen"); if (S.P.bot) return true;
    set(S, C, AV::mkInt(ok ? strLen(S, p) : fresh(S, 0, (i64)1 << 46), 3)); k(S); return true;
  }
  if (n == "strcmp" || n == "strcasecmp" || n == "strcoll") {
    AV p = A(0), q = A(1);
    bool ok1 = requireStr(S, p, n.c_str()); if (S.P.bot) return true; bool ok2 = requireStr(S, q, n.c_str()); if (S.P.bot) return true;
    // equal strings have equal lengths
    AV r = AV::mkInt(fresh(S, -INF, INF), 2);
    if (ok1 && ok2 && S.R(p.reg).zExact && S.R(q.reg).zExact) {
      State E = S; E.P.addEq(strLen(E, p) - strLen(E, q)); if (!E.P.bot) { set(E, C, AV::mkInt(Lin(0), 3)); k(std::move(E)); cur = C; }
      State N = S; N.P.addIneq(r.e - Lin(1)); set(N, C, r); N.flags.insert("x"); N.flags.erase("x"); k(std::move(N)); cur = C;
      State N2 = S; N2.P.addIneq(Lin(-1) - r.e); set(N2, C, r); k(std::move(N2));
      return true;
    }
    set(S, C, r); k(S); return true;
  }
  if (n == "strncmp" || n == "strncasecmp" || n == "memcmp" || n == "bcmp") {
    bool str = n[0] == 's';
    withU(2, [&](State T, Lin l) {
      for (int i = 0; i < 2; i++) { AV p = val(T, C->getArgOperand(i));
        if (str && p.k == AV::Ptr && p.reg > 0 && T.has(p.reg) && T.R(p.reg).hasZ) { requireStr(T, p, n.c_str()); }
        else { bool a = access(T, p, l, false, n.c_str()); if (T.P.bot) return; if (a) uninitArg(T, p, l, n.c_str()); }
        if (T.P.bot) return; }
      AV p = val(T, C->getArgOperand(0)), q = val(T, C->getArgOperand(1));
      AV r = AV::mkInt(fresh(T, -INF, INF), 2); 
      i64 c; std::string lit;
      if (str && T.P.isConst(l, c) && c > 0 && strConst(*this, T, q, lit) && (long)lit.size() >= c && p.reg > 0 && T.has(p.reg) && T.R(p.reg).hasZ) {
        State E = T; E.P.addIneq(T.R(p.reg).Z - p.e - Lin(c)); if (!E.P.bot) { set(E, C, AV::mkInt(Lin(0), 3)); k(std::move(E)); cur = C; }
        State N = T; N.P.addIneq(r.e - Lin(1)); set(N, C, r); k(std::move(N)); cur = C;
        State N2 = T; N2.P.addIneq(Lin(-1) - r.e); set(N2, C, r); k(std::move(N2));
        return;
      }
      set(T, C, r); k(std::move(T));
    });
    return true;
  }
  if (n == "memchr" || n == "memrchr") {
    withU(2, [&](State T, Lin l) {
      AV p = val(T, C->getArgOperand(0)); bool a = access(T, p, l, false, "memchr"); if (T.P.bot) return; if (a) uninitArg(T, p, l, "memchr");
      if (!a) { set(T, C, AV::mkPtr(-1)); k(std::move(T)); return; }
      { State U = T; Lin r = fresh(U, 0, INF); U.P.addIneq(l - r - Lin(1)); if (!U.P.bot) { set(U, C, bufAt(p, r)); k(std::move(U)); cur = C; } }
      set(T, C, AV::mkPtr(0)); k(std::move(T));
    });
    return true;
  }
  if (n == "strchr" || n == "strrchr" || n == "strchrnul" || n == "index" || n == "rindex" || n == "strpbrk" || n == "strstr" || n == "strcasestr") {
    AV p = A(0); bool ok = requireStr(S, p, n.c_str()); if (S.P.bot) return true;
    if (n == "strpbrk" || n == "strstr" || n == "strcasestr") { requireStr(S, A(1), n.c_str()); if (S.P.bot) return true; }
    if (!ok) { set(S, C, AV::mkPtr(-1)); k(S); return true; }
    bool nulOk = false; i64 ch; if (n == "strchr" || n == "strrchr") { AV c = A(1); nulOk = !(c.k == AV::Int && S.P.isConst(c.e, ch) && ch != 0); }
    { State U = S; Lin m = strLen(U, p); Lin r = fresh(U, 0, INF); U.P.addIneq(m - r - Lin(nulOk ? 0 : 1)); if (!U.P.bot) { set(U, C, bufAt(p, r)); k(std::move(U)); cur = C; } }
    if (n == "strchrnul") { Lin m = strLen(S, p); set(S, C, bufAt(p, m)); } else set(S, C, AV::mkPtr(0));
    k(S); return true;
  }
  if (n == "strspn" || n == "strcspn") {
    AV p = A(0); bool ok = requireStr(S, p, n.c_str()); if (S.P.bot) return true; requireStr(S, A(1), n.c_str()); if (S.P.bot) return true;
    Lin r = fresh(S, 0, (i64)1 << 46); if (ok) { Lin m = strLen(S, p); S.P.addIneq(m - r); } set(S, C, AV::mkInt(r, 3)); k(S); return true;
  }
  if (n == "strdup" || n == "strndup") {
    AV p = A(0);
    auto go = [&](State T, Lin len, bool exact) {
      cur = C;
      int r = newHeap(T, len + Lin(1), 0); if (broken) return; setInit(*this, T, r);
      auto &R = T.W(r); R.hasZ = true; R.zExact = exact; R.Z = len; R.term = 0;
      set(T, C, AV::mkPtr(r)); if (!T.P.bot) k(std::move(T));
    };
    if (n == "strdup") { bool ok = requireStr(S, p, "strdup"); if (S.P.bot) return true; Lin l = ok ? strLen(S, p) : fresh(S, 0, (i64)1 << 40); go(S, l, true); return true; }
    withU(1, [&](State T, Lin l) {
      AV p = val(T, C->getArgOperand(0));
      if (p.k == AV::Ptr && p.reg > 0 && T.has(p.reg) && T.R(p.reg).hasZ) {
        requireStr(T, p, "strndup"); if (T.P.bot) return; Lin m = strLen(T, p);
        if (T.P.entGe(m - l)) { go(std::move(T), l, true); return; }
        if (T.P.entGe(l - m)) { go(std::move(T), m, true); return; }
        Lin r = fresh(T, 0, INF); T.P.addIneq(m - r); T.P.addIneq(l - r); go(std::move(T), r, true); return;
      }
      access(T, p, l, false, "strndup"); if (T.P.bot) return; Lin r = fresh(T, 0, INF); T.P.addIneq(l - r); go(std::move(T), r, true);
    });
    return true;
  }
  if (n == "strcpy" || n == "stpcpy" || n == "strcat") {
    AV d = A(0), s = A(1); bool ok = requireStr(S, s, n.c_str()); if (S.P.bot) return true;
    Lin off = d.k == AV::Ptr ? d.e : Lin(0);
    if (n == "strcat") { if (requireStr(S, d, "strcat")) off = d.e + strLen(S, d); if (S.P.bot) return true; }
    if (ok) { Lin m = strLen(S, s); AV dd = d; dd.e = off; if (access(S, dd, m + Lin(1), true, n.c_str())) { if (n == "strcat") { auto &W = S.W(d.reg); (void)W; } copyMem(S, dd, s, m + Lin(1)); auto &W = S.W(d.reg); W.hasZ = true; W.Z = off + m; W.zExact = S.P.entEq(off); W.term = 0; W.zfrom = 0; addInit(S, d.reg, off, m + Lin(1)); if (n == "stpcpy") d = bufAt(dd, m); } if (S.P.bot) return true; }
    set(S, C, d); k(S); return true;
  }
  if (n == "strncpy") {
    withU(2, [&](State T, Lin l) {
      AV d = val(T, C->getArgOperand(0)), s = val(T, C->getArgOperand(1));
      bool sz = s.k == AV::Ptr && s.reg > 0 && T.has(s.reg) && T.R(s.reg).hasZ; Lin m;
      if (sz) { requireStr(T, s, "strncpy"); if (T.P.bot) return; m = strLen(T, s); } else { access(T, s, l, false, "strncpy"); if (T.P.bot) return; }
      i64 lc, mx;
      if (sz && T.P.isConst(l, lc) && lc <= 8 && T.R(s.reg).zExact && access(T, d, l, true, "strncpy")) { // a few characters: one case per length
        for (i64 j = 0; j <= lc && !T.P.bot; j++) {
          State U = T; if (j < lc) { U.P.addIneq(m - Lin(j)); U.P.addIneq(Lin(j) - m); } else U.P.addIneq(m - Lin(lc)); if (U.P.bot) continue;
          applyFacts(U); if (U.P.bot) continue;
          clobber(U, d.reg, d.e, l, false); addInit(U, d.reg, d.e, l);
          Type *I8 = IntegerType::get(M.getContext(), 8);
          for (i64 i = 0; i < lc && !U.P.bot; i++) store(U, bufAt(d, Lin(i)), 1, i < j ? AV::mkInt(fresh(U, 1, 255), 1) : AV::mkInt(Lin(0), 3), I8);
          if (U.P.bot) continue;
          if (j < lc) { auto &W = U.W(d.reg); W.hasZ = true; W.Z = d.e + Lin(j); W.zExact = U.P.entEq(d.e); W.term = 0; W.zfrom = 0; }
          set(U, C, d); k(std::move(U)); cur = C;
        }
        (void)mx; return;
      }
      if (access(T, d, l, true, "strncpy")) {
        clobber(T, d.reg, d.e, l, false); addInit(T, d.reg, d.e, l);
        if (sz && T.P.entGe(l - m - Lin(1))) { auto &W = T.W(d.reg); W.hasZ = true; W.Z = d.e + m; W.zExact = T.P.entEq(d.e); W.term = 0; W.zfrom = 0; }
      }
      if (T.P.bot) return; set(T, C, d); k(std::move(T));
    });
    return true;
  }
  if (n == "strtok_r") {
    AV s = A(0), save = A(2); requireStr(S, A(1), "strtok_r"); if (S.P.bot) return true;
    AV p = s; i64 z; bool nul = (s.k == AV::Ptr && s.reg == 0);
    if (s.k == AV::Ptr && s.reg > 0 && S.has(s.reg) && S.R(s.reg).maybeNull) { alarm("null", "strtok_r: string may be null"); S.W(s.reg).maybeNull = false; }
    if (nul) { p = load(S, save, 8, PointerType::getUnqual(M.getContext()), C); if (S.P.bot) return true; if (p.un) alarm("uninit", "strtok_r: no scan was started"); p.un = false; }
    (void)z;
    if (nul && p.k == AV::Ptr && p.reg == 0) { set(S, C, AV::mkPtr(0)); k(S); return true; } // defined by glibc only; treated as end
    bool ok = requireStr(S, p, "strtok_r"); if (S.P.bot) return true;
    if (!ok) { set(S, C, AV::mkPtr(-1)); k(S); return true; }
    Lin m = strLen(S, p);
    { // nothing left
      State U = S; AV e = bufAt(p, m); if (!(U.R(p.reg).zExact)) e.e = U.R(p.reg).Z; store(U, save, 8, e, PointerType::getUnqual(M.getContext())); if (!U.P.bot) { set(U, C, AV::mkPtr(0)); k(std::move(U)); cur = C; } }
    { // last token: reaches the terminator
      State U = S; Lin a = fresh(U, 0, INF); Lin Z = p.e + m; U.P.addIneq(Z - p.e - a - Lin(1)); 
      if (!U.P.bot) { AV e = p; e.e = Z; store(U, save, 8, e, PointerType::getUnqual(M.getContext())); set(U, C, bufAt(p, a)); if (!U.P.bot) k(std::move(U)); cur = C; } }
    { // a token followed by a delimiter, which is overwritten
      State U = S; Lin a = fresh(U, 0, INF), b = fresh(U, 0, INF); U.P.addIneq(b - a - Lin(1)); Lin Z = p.e + m; U.P.addIneq(Z - p.e - b - Lin(1));
      if (!U.P.bot && U.R(p.reg).ro) alarm("ro", "strtok_r writes to " + regionName(p.reg));
      if (!U.P.bot) {
        // the string that remains is [p+b+1, Z]; keep the old terminator, only not "exact" any more from the start
        U.facts.erase(std::remove_if(U.facts.begin(), U.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == p.reg; }), U.facts.end());
        auto &W = U.W(p.reg); W.cells.clear(); bool ex = W.zExact; (void)ex; W.zExact = false; W.hasV = false;
        AV e = p; e.e = p.e + b + Lin(1); store(U, save, 8, e, PointerType::getUnqual(M.getContext())); set(U, C, bufAt(p, a)); if (!U.P.bot) k(std::move(U)); } }
    return true;
  }
  if (n == "strtoul" || n == "strtol" || n == "strtoull" || n == "strtoll") {
    AV p = A(0), ep = A(1); bool ok = requireStr(S, p, n.c_str()); if (S.P.bot) return true;
    if (ep.k == AV::Ptr && ep.reg != 0) { if (ok) { Lin m = strLen(S, p); Lin r = fresh(S, 0, INF); S.P.addIneq(m - r); store(S, ep, 8, bufAt(p, r), PointerType::getUnqual(M.getContext())); } else store(S, ep, 8, AV::mkPtr(-1), PointerType::getUnqual(M.getContext())); if (S.P.bot) return true; }
    bool u = n == "strtoul" || n == "strtoull"; AV v = u ? AV::mkInt(fresh(S, 0, INF), 1) : AV::mkInt(fresh(S, -INF, INF), 2); v.lossy = 8; set(S, C, v); k(S); return true;
  }
  if (n == "atoi" || n == "atol") { requireStr(S, A(0), n.c_str()); if (S.P.bot) return true; AV v = freshInt(S, w(C)); v.lossy = 8; set(S, C, v); k(S); return true; }
  if (n == "sscanf") {
    AV s = A(0), f = A(1); requireStr(S, s, "sscanf"); if (S.P.bot) return true;
    std::string fmt; if (!strConst(*this, S, f, fmt)) { broken = true; brokenWhy = "sscanf with a computed format"; return true; }
    // conversions
    struct Cv { int sz; bool str; long width; bool lit; char c; }; std::vector<Cv> cv;
    bool conv = true;
    for (size_t i = 0; i < fmt.size(); i++) {
      if (fmt[i] != '%') continue; i++; if (fmt[i] == '%') continue;
      bool sup = false; if (fmt[i] == '*') { sup = true; i++; }
      long wd = 0; while (isdigit(fmt[i])) wd = wd * 10 + fmt[i++] - '0';
      int sz = 4; while (strchr("hlzjt", fmt[i])) { if (fmt[i] == 'h') sz = sz == 2 ? 1 : 2; else sz = 8; i++; }
      char c = fmt[i]; bool isn = c == 'n';
      if (c == '[') { while (i < fmt.size() && fmt[i] != ']') i++; c = 's'; }
      if (sup) continue;
      cv.push_back({c == 's' ? 1 : c == 'c' ? (int)std::max(1L, wd) : sz, c == 's', wd, isn, c}); (void)conv;
    }
    if (cv.size() + 2 > C->arg_size()) { alarm("bounds", "sscanf: fewer arguments than conversions"); return true; }
    size_t cnt = 0; for (auto &c : cv) if (!c.lit) cnt++;
    { // a conversion keeps the whole number
      i64 L = INF, hi; Lin m = strLen(S, s); if (S.P.maxOf(m, hi)) L = hi;
      for (auto &c : cv) if (!c.str && !c.lit && strchr("diuxXo", c.c)) {
        ob("narrow"); if (c.sz >= 8) continue;
        i64 ln = c.width > 0 ? std::min<i64>(c.width, L) : L, cap = (i64)1 << (8 * c.sz - (c.c == 'd' || c.c == 'i')); double v = pow(c.c == 'x' || c.c == 'X' || c.c == 'i' ? 16 : c.c == 'o' ? 8 : 10, (double)std::min<i64>(ln, 30)) - 1;
        if (v >= (double)cap) alarm("narrow", "sscanf: a number that may not fit " + std::to_string(8 * c.sz) + " bits is cut down");
      } }
    for (int r = -1; r <= (int)cnt; r++) {
      State U = S; int done = 0; bool stop = false;
      for (size_t i = 0; i < cv.size() && !stop && !U.P.bot; i++) {
        if (!cv[i].lit && done >= r) break;
        AV d = val(U, C->getArgOperand(2 + i));
        if (cv[i].str) {
          if (cv[i].width > 0) { if (access(U, d, Lin(cv[i].width + 1), true, "sscanf %s")) { clobber(U, d.reg, d.e, Lin(cv[i].width + 1), false); Lin z = fresh(U, 1, cv[i].width); auto &W = U.W(d.reg); W.hasZ = true; W.zExact = U.P.entEq(d.e); W.Z = d.e + z; W.term = 0; W.zfrom = 0; addInit(U, d.reg, d.e, z + Lin(1)); } }
          else { // unbounded %s: at most the source string
            Lin m = strLen(U, s); Lin z = fresh(U, 1, INF); U.P.addIneq(m - z); if (access(U, d, m + Lin(1), true, "sscanf %s")) { clobber(U, d.reg, d.e, m + Lin(1), false); auto &W = U.W(d.reg); W.hasZ = true; W.zExact = U.P.entEq(d.e); W.Z = d.e + z; W.term = 0; W.zfrom = 0; addInit(U, d.reg, d.e, z + Lin(1)); } }
        } else { AV v = freshInt(U, cv[i].sz * 8); if (!cv[i].lit) v.lossy = 8; store(U, d, cv[i].sz, v, IntegerType::get(M.getContext(), cv[i].sz * 8)); }
        if (!cv[i].lit) done++;
      }
      if (U.P.bot) continue;
      cur = C;
      set(U, C, AV::mkInt(Lin(r), r >= 0 ? 3 : 2)); k(std::move(U)); cur = C;
    }
    return true;
  }
  if (n == "snprintf" || n == "sprintf" || n == "vsnprintf" || n == "fprintf" || n == "printf" || n == "dprintf") {
    bool file = n == "fprintf" || n == "printf"; bool sp = n == "sprintf"; bool v = n[0] == 'v';
    unsigned fi = n == "printf" ? 0 : (n == "fprintf" || sp || n == "dprintf") ? 1 : 2;
    if (n == "fprintf") { AV fp = A(0); if (fp.k == AV::Ptr && fp.reg > 0 && S.has(fp.reg) && S.R(fp.reg).freed) alarm("uaf", "fprintf on a closed file"); }
    std::string fmt; AV f = A(fi); Lin mx, mn; bool bounded = false;
    std::vector<std::pair<AV, unsigned>> va; for (unsigned i = fi + 1; i < C->arg_size(); i++) va.push_back({A(i), w(C->getArgOperand(i))});
    if (!v) { if (strConst(*this, S, f, fmt)) { if (!fmtLen(*this, S, fmt, va, mx, mn, bounded, n.c_str())) return true; } else { requireStr(S, f, n.c_str()); ob("format"); alarm("bounds", n + ": format string is not a constant"); } }
    if (S.P.bot) return true;
    if (file) { retFresh(S, -INF, INF); k(S); return true; }
    AV d = A(0);
    Lin r = fresh(S, 0, 0x7fffffff); if (bounded) { S.P.addIneq(mx - r); S.P.addIneq(r - mn); }
    if (v) { // the same format and arguments give the same length
      if (f.k == AV::Ptr && f.reg > 0) { auto g = S.ghosts.find(700 + f.reg); if (g != S.ghosts.end()) r = g->second.second; else S.ghosts[700 + f.reg] = {f.reg, r}; }
    }
    // exact length when nothing is variable
    bool exactLen = !v && bounded && va.empty(); if (exactLen) S.P.addEq(mx - r);
    if (sp) { if (!bounded) alarm("bounds", "sprintf of unbounded length"); else if (access(S, d, mx + Lin(1), true, "sprintf")) { clobber(S, d.reg, d.e, mx + Lin(1), false); addInit(S, d.reg, d.e, r + Lin(1)); auto &W = S.W(d.reg); W.hasZ = true; W.Z = d.e + r; W.zExact = S.P.entEq(d.e); W.term = 0; W.zfrom = 0; } if (S.P.bot) return true; set(S, C, AV::mkInt(r, 3)); k(S); return true; }
    withU(1, [&](State T, Lin l) {
      auto out = [&](State U, Lin len, bool ex) { // len octets plus NUL written, if l>0
        cur = C; 
        clobber(U, d.reg, d.e, len + Lin(1), false); addInit(U, d.reg, d.e, len + Lin(1)); auto &W = U.W(d.reg);
        W.hasZ = true; W.Z = d.e + len; W.zExact = U.P.entEq(d.e); W.term = 0; W.zfrom = 0; W.zero = false;
        set(U, C, AV::mkInt(r, 2)); if (!U.P.bot) k(std::move(U)); cur = C;
      };
      i64 h; bool none = T.P.maxOf(l, h) && h <= 0;
      if (none) { set(T, C, AV::mkInt(r, 2)); k(std::move(T)); return; }
      if (!T.P.entGe(l - Lin(1))) { State U = T; U.P.addEq(l); if (!U.P.bot) { set(U, C, AV::mkInt(r, 2)); k(std::move(U)); cur = C; } T.P.addIneq(l - Lin(1)); if (T.P.bot) return; }
      // the destination must hold min(size, longest output + 1)
      Lin need = l; if (bounded && T.P.entGe(l - mx - Lin(1))) need = mx + Lin(1);
      { State probe = T; bool fits = d.k == AV::Ptr && d.reg > 0 && T.has(d.reg) && T.P.entGe(T.R(d.reg).size - d.e - l); if (fits) need = l; }
      if (!access(T, d, need, true, n.c_str())) { if (T.P.bot) return; set(T, C, AV::mkInt(r, 2)); k(std::move(T)); return; }
      { State U = T; U.P.addIneq(l - r - Lin(1)); if (!U.P.bot) out(std::move(U), r, true); }
      { State U = T; U.P.addIneq(r - l); if (!U.P.bot) out(std::move(U), l - Lin(1), true); }
    });
    return true;
  }
  if (n == "inet_pton") {
    requireStr(S, A(1), "inet_pton"); if (S.P.bot) return true;
    { AV af = A(0); i64 c, lo, hi; // one case per address family
      if (af.k == AV::Int && !S.P.isConst(af.e, c) && S.P.minOf(af.e, lo) && S.P.maxOf(af.e, hi) && lo == 2 && hi == 10) {
        bool odd = false;
        for (int q = 0; q < 3; q++) { State U = S; if (q < 2) { i64 f = q ? 10 : 2; U.P.addIneq(af.e - Lin(f)); U.P.addIneq(Lin(f) - af.e); } else { U.P.addIneq(af.e - Lin(3)); U.P.addIneq(Lin(9) - af.e); }
          if (U.P.bot) continue; applyFacts(U); if (U.P.bot) continue;
          if (q == 2) { set(U, C, AV::mkInt(Lin(-1), 2)); k(std::move(U)); cur = C; continue; }
          libcall(U, C, n0, k); cur = C; }
        (void)odd; return true;
      } }
    AV af = A(0), d = A(2); i64 c; long need = 16; if (af.k == AV::Int && S.P.isConst(af.e, c)) need = c == 2 ? 4 : 16;
    else { i64 mx; if (af.k == AV::Int && S.P.maxOf(af.e, mx) && mx == 2) need = 4; }
    { State U = S; if (access(U, d, Lin(need), true, "inet_pton")) { clobber(U, d.reg, d.e, Lin(need), false); if (af.k == AV::Int && S.P.isConst(af.e, c)) addInit(U, d.reg, d.e, Lin(need)); } if (!U.P.bot) { set(U, C, AV::mkInt(Lin(1), 3)); k(std::move(U)); cur = C; } }
    { State U = S; set(U, C, AV::mkInt(Lin(0), 3)); k(std::move(U)); cur = C; }
    { State U = S; set(U, C, AV::mkInt(Lin(-1), 2)); k(std::move(U)); }
    return true;
  }
  if (n == "inet_ntop") {
    withU(3, [&](State T, Lin l) {
      AV af = val(T, C->getArgOperand(0)), s = val(T, C->getArgOperand(1)), d = val(T, C->getArgOperand(2)); i64 c; long need = 16; if (T.P.isConst(af.e, c) && c == 2) need = 4;
      bool a = access(T, s, Lin(need), false, "inet_ntop"); if (T.P.bot) return; if (a) uninitArg(T, s, Lin(need), "inet_ntop");
      if (!access(T, d, l, true, "inet_ntop")) { if (T.P.bot) return; }
      State U = T; set(U, C, AV::mkPtr(0)); k(std::move(U)); cur = C;
      clobber(T, d.reg, d.e, l, false); Lin z = fresh(T, 1, 45); T.P.addIneq(l - z - Lin(1)); if (T.P.bot) return; auto &W = T.W(d.reg); W.hasZ = true; W.Z = d.e + z; W.zExact = T.P.entEq(d.e); W.term = 0; W.zfrom = 0; addInit(T, d.reg, d.e, z + Lin(1)); set(T, C, d); k(std::move(T));
    });
    return true;
  }
  if (n == "__ctype_b_loc" || n == "__ctype_tolower_loc" || n == "__ctype_toupper_loc") {
    // pointer to a pointer to the middle of a table of 384 entries
    bool b = n == "__ctype_b_loc"; long es = b ? 2 : 4;
    static int tag[3]; int *tg = &tag[b ? 0 : n == "__ctype_tolower_loc" ? 1 : 2];
    int t = regionId(tg, 0, "character class table"), q = regionId(tg, 1, "character class pointer");
    if (!S.has(t)) { auto m = std::make_shared<Region>(); m->id = t; m->isGlobal = true; m->ro = true; m->size = Lin(384 * es); m->ilo = Lin(0); m->ihi = m->size; m->ctab = b; S.regs[t] = m; }
    if (!S.has(q)) { auto m = std::make_shared<Region>(); m->id = q; m->isGlobal = true; m->ro = true; m->size = Lin(8); m->ilo = Lin(0); m->ihi = m->size; m->cells[0] = Cell{8, AV::mkPtr(t, Lin(128 * es))}; S.regs[q] = m; }
    set(S, C, AV::mkPtr(q)); k(S); return true;
  }
  if (n == "tolower" || n == "toupper") {
    AV a = A(0); if (a.un) alarm("uninit", n + ": argument never set");
    canon(S, a, 32, true, [&](State T, Lin x) {
      cur = C; ob("bounds");
      if (!T.P.entGe(x + Lin(128)) || !T.P.entGe(Lin(255) - x)) alarm("bounds", n + ": argument may be outside -128..255");
      long d = n == "tolower" ? 32 : -32; i64 lo = n == "tolower" ? 'A' : 'a', hi = n == "tolower" ? 'Z' : 'z';
      { State U = T; U.P.addIneq(x - Lin(lo)); U.P.addIneq(Lin(hi) - x); if (!U.P.bot) { set(U, C, AV::mkInt(x + Lin(d), 2)); k(std::move(U)); } }
      { State U = T; U.P.addIneq(Lin(lo - 1) - x); if (!U.P.bot) { set(U, C, AV::mkInt(x, 2)); k(std::move(U)); } }
      { State U = T; U.P.addIneq(x - Lin(hi + 1)); if (!U.P.bot) { set(U, C, AV::mkInt(x, 2)); k(std::move(U)); } }
    });
    return true;
  }
  if (n.rfind("is", 0) == 0 && C->arg_size() == 1 && (n == "isspace" || n == "isdigit" || n == "isalpha" || n == "isalnum" || n == "isupper" || n == "islower" || n == "isprint" || n == "isxdigit" || n == "isgraph" || n == "ispunct" || n == "iscntrl" || n == "isblank")) {
    static const std::map<std::string, long> mk{{"isspace", _ISspace}, {"isdigit", _ISdigit}, {"isalpha", _ISalpha}, {"isalnum", _ISalnum}, {"isupper", _ISupper}, {"islower", _ISlower}, {"isprint", _ISprint}, {"isxdigit", _ISxdigit}, {"isgraph", _ISgraph}, {"ispunct", _ISpunct}, {"iscntrl", _IScntrl}, {"isblank", _ISblank}};
    AV a = A(0); if (a.un) alarm("uninit", n + ": argument never set");
    canon(S, a, 32, true, [&](State T, Lin x) {
      cur = C; ob("bounds");
      if (!T.P.entGe(x + Lin(128)) || !T.P.entGe(Lin(255) - x)) alarm("bounds", n + ": argument may be outside -128..255");
      auto c = std::make_shared<Cond>(); c->k = Cond::Ctype; c->a = x; c->mask = mk.at(n);
      AV r = AV::mkInt(fresh(T, 0, 1), 3); r.cond = c; set(T, C, r); k(std::move(T));
    });
    return true;
  }
  if (n == "fopen") {
    requireStr(S, A(0), "fopen"); if (S.P.bot) return true; requireStr(S, A(1), "fopen"); if (S.P.bot) return true;
    { State U = S; U.flags.insert("F:fopen at " + locOf(C)); set(U, C, AV::mkPtr(0)); k(std::move(U)); cur = C; }
    int r = newRegion(S, C, 0, Lin(216)); auto &R = S.W(r); R.heap = true; R.owned = true; R.isFile = true; R.ihi = R.size; set(S, C, AV::mkPtr(r)); k(S); return true;
  }
  if (n == "fclose") {
    AV p = A(0); ob("free");
    if (p.k != AV::Ptr || p.reg <= 0 || !S.has(p.reg)) { alarm("free", "fclose of something that is not an open file"); if (p.reg == 0) return true; }
    else { if (S.R(p.reg).freed) alarm("uaf", "fclose: file closed twice"); else if (!S.R(p.reg).isFile) alarm("free", "fclose of something that is not an open file"); auto &W = S.W(p.reg); W.freed = true; W.owned = false; }
    retFresh(S, -1, 0); k(S); return true;
  }
  if (n == "fgets") {
    AV fp = A(2); if (fp.k == AV::Ptr && fp.reg > 0 && S.has(fp.reg) && S.R(fp.reg).freed) alarm("uaf", "fgets on a closed file"); if (fp.k == AV::Ptr && fp.reg == 0) { alarm("null", "fgets: null file"); return true; }
    withU(1, [&](State T, Lin l) {
      AV d = val(T, C->getArgOperand(0));
      bool ok = access(T, d, l, true, "fgets"); if (T.P.bot) return;
      { State U = T; if (ok) clobber(U, d.reg, d.e, l, false); set(U, C, AV::mkPtr(0)); k(std::move(U)); cur = C; }
      if (ok) { clobber(T, d.reg, d.e, l, false); Lin z = fresh(T, 0, INF); T.P.addIneq(l - z - Lin(1)); if (T.P.bot) return; addInit(T, d.reg, d.e, z + Lin(1)); auto &W = T.W(d.reg); W.hasZ = true; W.Z = d.e + z; W.zExact = T.P.entEq(d.e); W.term = 0; W.zfrom = 0; W.zero = false; }
      if (T.ghosts.count(900) && T.P.entGe(l - Lin(2))) { Lin r = fresh(T, 0, INF); T.P.addIneq(T.ghosts[900].second - r - Lin(1)); T.ghosts[900].second = r; } // the file is finite
      set(T, C, d); k(std::move(T));
    });
    return true;
  }
  if (n == "fputs" || n == "puts") { requireStr(S, A(0), n.c_str()); if (S.P.bot) return true; if (n == "fputs") { AV fp = A(1); if (fp.k == AV::Ptr && fp.reg > 0 && S.has(fp.reg) && S.R(fp.reg).freed) alarm("uaf", "fputs on a closed file"); } retFresh(S, -1, 0x7fffffff); k(S); return true; }
  if (n == "fputc" || n == "putc" || n == "putchar" || n == "fflush" || n == "ferror" || n == "feof" || n == "fgetc" || n == "getc") { retFresh(S, -1, 255); k(S); return true; }
  if (n == "fwrite") { withU(2, [&](State T, Lin c) { AV p = val(T, C->getArgOperand(0)), es = val(T, C->getArgOperand(1)); i64 e; Lin l = T.P.isConst(es.e, e) ? c * e : fresh(T, 0, INF); if (access(T, p, l, false, "fwrite")) uninitArg(T, p, l, "fwrite"); if (T.P.bot) return; if (!C->getType()->isVoidTy()) set(T, C, AV::mkInt(fresh(T, 0, INF), 1)); k(std::move(T)); }); return true; }
  if (n == "qsort") {
    withU(1, [&](State T, Lin cnt) {
      AV p = val(T, C->getArgOperand(0)), es = val(T, C->getArgOperand(2)); i64 e;
      if (!T.P.isConst(es.e, e)) { broken = true; brokenWhy = "qsort with a computed element size"; return; }
      i64 h; bool none = T.P.maxOf(cnt, h) && h <= 0;
      if (!none) {
        if (p.k == AV::Ptr && p.reg > 0 && T.has(p.reg) && T.R(p.reg).maybeNull && T.R(p.reg).nullEmpty) { State Z = T; Z.P.addEq(cnt); if (!Z.P.bot) { k(std::move(Z)); cur = C; } T.P.addIneq(cnt - Lin(1)); if (T.P.bot) return; }
        if (p.k == AV::Ptr && p.reg == 0) { T.P.addEq(cnt); if (T.P.bot) { alarm("null", "qsort of a null array"); return; } k(std::move(T)); return; }
        if (access(T, p, cnt * e, true, "qsort")) {
          uninitArg(T, p, cnt * e, "qsort");
          if (T.R(p.reg).et) { unfocus(T, p.reg); bool in = false; try { in = T.R(p.reg).et->size == e && T.P.entEq(p.e) && T.P.entGe(T.R(p.reg).HI - cnt) && T.P.entGe(Lin(0) - T.R(p.reg).LO); } catch (Ovf &) {} if (!in) alarm("bounds", "qsort covers elements that are not set"); }
          else clobber(T, p.reg, p.e, cnt * e, true);
        }
        if (T.P.bot) return;
      }
      k(std::move(T));
    });
    return true;
  }
  if (n == "bsearch") {
    withU(2, [&](State T, Lin cnt) {
      AV key = val(T, C->getArgOperand(0)), p = val(T, C->getArgOperand(1)), es = val(T, C->getArgOperand(3)); i64 e;
      if (!T.P.isConst(es.e, e)) { broken = true; brokenWhy = "bsearch with a computed element size"; return; }
      if (!access(T, p, cnt * e, false, "bsearch")) { if (T.P.bot) return; }
      // the comparator reads the key: a string pointer inside it must be one
      if (key.k == AV::Ptr && key.reg > 0 && T.has(key.reg)) { auto cells = T.R(key.reg).cells; for (auto &c : cells) if (c.second.v.k == AV::Ptr) requireStr(T, c.second.v, "bsearch key"); if (T.P.bot) return; }
      { State U = T; set(U, C, AV::mkPtr(0)); k(std::move(U)); cur = C; }
      Lin i = fresh(T, 0, INF); T.P.addIneq(cnt - i - Lin(1)); if (T.P.bot) return;
      set(T, C, p.reg > 0 ? bufAt(p, i * e) : AV::mkPtr(-1)); k(std::move(T));
    });
    return true;
  }
  if (n == "__errno_location") { static int tag; int id = regionId(&tag, 0, "errno"); if (!S.has(id)) { auto m = std::make_shared<Region>(); m->id = id; m->isGlobal = true; m->size = Lin(4); m->ilo = Lin(0); m->ihi = Lin(4); S.regs[id] = m; } set(S, C, AV::mkPtr(id)); k(S); return true; }
  if (n == "abs" || n == "labs") { set(S, C, AV::mkInt(fresh(S, 0, INF), 1)); k(S); return true; }
  if (n == "getenv") { set(S, C, AV::mkPtr(-1)); k(S); return true; }
  return false;
}
void zeroElem(Interp &I, const ElemType *et, std::map<long, Cell> &m) {
  auto z = [&](long o, int s) { m[o] = Cell{s, AV::mkInt(Lin(0), 3)}; }; auto zp = [&](long o) { m[o] = Cell{8, AV::mkPtr(0)}; };
  auto &M = I.M;
  if (et->kind == 3) { zp(0); return; }
  const char *T = et->kind == 1 ? "wdns_rr_t" : "wdns_rrset_t";
  z(fieldOff(M, T, "rrttl"), 4); z(fieldOff(M, T, "rrtype"), 2); z(fieldOff(M, T, "rrclass"), 2);
  z(fieldOff(M, T, "name") + fieldOff(M, "wdns_name_t", "len"), 1); zp(fieldOff(M, T, "name") + fieldOff(M, "wdns_name_t", "data"));
  if (et->kind == 1) zp(fieldOff(M, T, "rdata")); else { z(fieldOff(M, T, "n_rdatas"), 2); zp(fieldOff(M, T, "rdatas")); }
}
// ---- debug-info layout
static const DICompositeType *findType(Module &M, const std::string &nm) {
  static std::map<std::string, const DICompositeType *> tab; static bool done = false;
  if (!done) {
    done = true; DebugInfoFinder Fi; Fi.processModule(M);
    for (auto *T : Fi.types()) {
      if (auto *D = dyn_cast<DIDerivedType>(T)) { if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType()) if (auto *C = dyn_cast<DICompositeType>(D->getBaseType())) tab[D->getName().str()] = C; }
      else if (auto *C = dyn_cast<DICompositeType>(T)) if (!C->getName().empty()) tab[C->getName().str()] = C;
    }
  }
  auto it = tab.find(nm); return it == tab.end() ? nullptr : it->second;
}
long fieldOff(Module &M, const std::string &type, const std::string &field) {
  auto *C = findType(M, type);
  if (C) for (auto *e : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) if (D->getName() == field) return D->getOffsetInBits() / 8;
  errs() << "layout: " << type << "." << field << " not found\n"; exit(4);
}
long typeSize(Module &M, const std::string &type) {
  auto *C = findType(M, type); if (!C) { errs() << "layout: " << type << " not found\n"; exit(4); }
  return C->getSizeInBits() / 8;
}
