#pragma once
#include "absint.h"
struct CT;
struct Spec { std::string name, sig; std::function<void(CT &)> def; std::set<int> sgn, nullable; bool retSigned = false, monitorAlloc = false, typed = false, fine = false; };
struct Ret {
  enum K { Any, Range, Null, NonNull } kind = Any;
  bool hasLo = false, hasHi = false; Lin lo, hi;
  bool fail = false; // the callee reports that it did not do its job
  bool strict = false, hasSLo = false, hasSHi = false; Lin slo, shi;
  static Ret failure(Ret r) { r.fail = true; return r; }
  static Ret any() { return Ret(); }
  static Ret eq(long v) { Ret r; r.kind = Range; r.hasLo = r.hasHi = true; r.lo = r.hi = Lin(v); return r; }
  static Ret range(Lin a, Lin b) { Ret r; r.kind = Range; r.hasLo = r.hasHi = true; r.lo = a; r.hi = b; return r; }
  static Ret ge(Lin a) { Ret r; r.kind = Range; r.hasLo = true; r.lo = a; return r; }
  static Ret le(Lin a) { Ret r; r.kind = Range; r.hasHi = true; r.hi = a; return r; }
  // a promise about the returned value: always within [a,b]
  static Ret always(Lin a, Lin b) { Ret r = range(a, b); r.strict = true; return r; }
  static Ret null() { Ret r; r.kind = Null; return r; }
  static Ret nonNull() { Ret r; r.kind = NonNull; return r; }
};
struct CT {
  Interp &I; State S; enum Mode { ENTRY, CALL, EXIT } mode; Spec *spec; llvm::Function *G; std::string fname;
  llvm::CallInst *C = nullptr; llvm::ReturnInst *R = nullptr;
  std::vector<Lin> iv; Lin rv; AV rp;
  std::vector<bool> choices; size_t chPos = 0; bool spanBad = false;
  struct O { Ret r; std::function<void(CT &)> f; };
  std::vector<O> outs; std::set<int> keep;
  CT(Interp &i, Mode m, Spec *s, llvm::Function *g) : I(i), mode(m), spec(s), G(g), fname(s->name) {}
  CT(const CT &) = default;
  CT &operator=(const CT &) = delete;
  AV arg(int i); void setArg(int i, AV a); const void *site();
  int mk(int i, const char *nm, Lin size); int mkSub(int i, long idx, const std::string &nm, Lin size);
  void typeParam(const Lin &v);
  bool choice(); std::string what(const char *s); void bad(const std::string &kind, const std::string &s);
  bool req(const Lin &ge0, const std::string &msg);
  bool ensure(const Lin &ge0, const std::string &msg); void ensureEq(const Lin &a, const Lin &b, const std::string &msg);
  bool isNull(int i);
  void bufR(int i, const Lin &len, bool ro = true, bool nullable = false);
  void bufW(int i, const Lin &len, bool init = false);
  void wrote(int i, const Lin &len, const Lin &extent); void havoc(int i, const Lin &extent);
  void str(int i, bool ro = true); Lin strLenOf(int i);
  void span(int p, int e, int s, Lin &n, Lin &so, bool strict = true);
  void outInt(int i, int sz, bool inout = false, bool nullable = false);
  bool outVal(int i, int sz, Lin &v, const std::string &nm);
  void name(int i, long minLen, bool roContents, bool modifies = false); void nameContents(int i); void choppedName(int from, int to);
  void nameMonitor(int i); void nameWellFormed(int reg, const Lin &n);
  void cursor(int di, int ei, Lin &n, Lin &at);
  void out(Ret r, std::function<void(CT &)> f);
};
Spec &addSpec(const std::string &n, const std::string &sig, std::function<void(CT &)> f);
Spec *specOf(llvm::Function &F);
void defineContracts();
