#pragma once
#include "common.h"
#include "poly.h"
#include <memory>
#include <llvm/IR/DataLayout.h>
using llvm::Value; using llvm::Instruction; using llvm::Function; using llvm::BasicBlock; using llvm::CallInst; using llvm::Type;

std::string baseName(llvm::StringRef n);
void prepModule(llvm::Module &M, const std::function<bool(Function &)> &isContract);

// ---- dimensions ---------------------------------------------------------------
enum DK { D_TMP, D_SSA, D_CELL, D_SIZE, D_Z, D_ILO, D_IHI, D_LO, D_HI, D_F, D_FCELL, D_FOFF, D_FVAL, D_GHOST, D_COFF, D_HOLE };
int dimOf(DK k, const void *p, long a = 0, long b = 0);
int newTmp();
std::string dimName(int d);
bool isGhostDim(int d);

// ---- values -------------------------------------------------------------------
struct Cond;
typedef std::shared_ptr<const Cond> CondP;
struct AV {
  enum K : uint8_t { Top, Int, Ptr } k = Top;
  uint8_t canon = 0;   // 1: known equal to its unsigned value, 2: signed
  bool un = false;     // may be uninitialised
  bool nullOff = false, weird = false; // offset from a null pointer; difference of unrelated pointers
  uint8_t lossy = 0;   // 1: cut down and may not have fitted, 2: likewise, from 64 bits, 4: the same, then byte-swapped, 8: a number read from text
  int reg = -1;        // Ptr: 0 null, -1 unknown, >=1 region
  Lin e;
  CondP cond;          // Int: value is cond ? 1 : 0
  int ctIdx = 0;       // character-class word: 1 = word for character e2, mask
  Lin e2; long mask = 0;
  static AV mkInt(Lin l, uint8_t c = 0) { AV a; a.k = Int; a.e = l; a.canon = c; return a; }
  static AV mkPtr(int r, Lin l = Lin(0)) { AV a; a.k = Ptr; a.reg = r; a.e = l; return a; }
};
struct Cond {
  enum K { Cmp, Null, Ctype, Not, Unknown } k = Unknown;
  int pred = 0;              // for Cmp: 0 EQ 1 NE 2 LT 3 LE (a pred b on mathematical values)
  Lin a, b;
  int reg = 0;               // Null: pointer to region reg is null
  long mask = 0;             // Ctype: class(a) & mask != 0
  CondP sub;
};
struct Cell { int sz; AV v; };
struct ElemType;
struct Region {
  int id = 0;
  Lin size;
  bool ro = false, heap = false, owned = false, freed = false, maybeNull = false, nullEmpty = false, zero = false, isGlobal = false;
  bool alloc = false; // result of an allocation whose success is not yet known
  bool stack = false, dead = false, isFile = false, ctab = false;
  const llvm::Constant *init = nullptr; // constant contents
  Lin ilo, ihi;          // initialised bytes
  bool hasHole = false; Lin hole; // except possibly this one
  bool hasZ = false, zExact = false; Lin Z; long term = 0, zfrom = 0; // terminator model
  std::map<long, Cell> cells;
  // array of structures
  const ElemType *et = nullptr; Lin LO, HI; bool zeroTail = false;
  bool hasF = false, fFresh = false; Lin F; std::map<long, Cell> fcells; long foff = 0;
  bool rdNN = false;     // array of records that all have data
  bool lenOK = false;    // see models: region holding a row of the descriptor table
  long vmin = 0, vmax = 255; bool hasV = false; // range of bytes read from it
  const Value *cset = nullptr;
};
typedef std::shared_ptr<const Region> RegP;
struct Fact { // a byte/word read: contents of [off, off+sz) of reg is val
  int kind;   // 0 load, 1 quotient: off = d*val + r
  const void *site; int reg; int sz; long d; Lin off, val; int age;
};
struct State {
  Poly P;
  std::map<const Value *, AV> env;
  std::map<int, RegP> regs;
  std::vector<Fact> facts;
  std::map<long, std::pair<int, Lin>> ghosts; // id -> (region or 0, expression)
  std::set<std::string> flags;                // path facts that keep states apart
  const Region &R(int id) const { return *regs.at(id); }
  Region &W(int id) { auto n = std::make_shared<Region>(*regs.at(id)); regs[id] = n; return *n; }
  bool has(int id) const { return regs.count(id) > 0; }
};
typedef std::vector<State> States;

struct ElemField { long off; int sz; int kind; }; // kind: 0 int, 1 name (len@lenoff), 2 rdata ptr, 3 rdata ptr array
struct ElemType {
  std::string name; long size;
  int kind; // 1 rr, 2 rrset, 3 rdata pointer
};

struct Alarm { std::string kind, what, loc, func; };

// ---- interpreter --------------------------------------------------------------
struct Spec;
struct Interp {
  Function &F;
  const llvm::DataLayout &DL;
  llvm::Module &M;
  Spec *spec = nullptr;
  bool record = false;
  bool broken = false; std::string brokenWhy;
  std::map<std::string, Alarm> alarms;
  std::map<std::string, long> oblig;      // obligations checked (final pass)
  std::set<std::string> obligSites;
  std::function<void(State &)> onHead; // brings a state into a uniform representation before a loop
  bool warmOK = false; // nested loops resume from what they found last time
  bool fine = false; // keep the ways out of a loop apart
  long steps = 0, pLo = -1, pHi = -1;
  const Instruction *cur = nullptr;

  Interp(Function &f) : F(f), DL(f.getParent()->getDataLayout()), M(*f.getParent()) {}
  void run();
  void termination(); std::set<const BasicBlock *> viaBlocks; std::vector<std::string> measures; // the measures found, loop by loop

  // liveness etc.
  std::map<const BasicBlock *, std::set<const Value *>> liveIn;
  std::set<const Value *> keyInts;   // integers whose constant value separates states
  std::set<const Value *> statusInts, walkers;
  std::set<const Value *> counters;
  std::map<const BasicBlock *, std::vector<const BasicBlock *>> loopOf; // header -> body
  std::set<const BasicBlock *> heads;
  std::map<const BasicBlock *, int> order;
  std::map<const BasicBlock *, std::vector<std::pair<const Value *, const llvm::ICmpInst *>>> cmps;
  int cmpTruth(const State &S, const AV &a, const llvm::ICmpInst *C);
  void analyseCFG();
  struct Comp { const BasicBlock *head; std::vector<Comp> body; bool isLoop; };
  std::vector<Comp> wto;
  std::vector<i64> thresholds;

  // fixpoint
  typedef std::map<std::string, State> KStates;
  std::map<std::pair<const BasicBlock *, const BasicBlock *>, KStates> edge;
  std::map<const BasicBlock *, KStates> inSt;
  KStates entrySt;
  std::map<const BasicBlock *, int> coarse;
  std::string keyOf(const State &S, const BasicBlock *B);
  KStates gather(const BasicBlock *B);
  void transfer(const BasicBlock *B);
  void stabilise(const Comp &C);
  void addKeyed(KStates &ks, const BasicBlock *B, State &&S, bool tmpl = false);
  void normalise(State &S, const BasicBlock *from, const BasicBlock *to, States &out);
  void gc(State &S, const std::function<void(std::set<int> &)> &roots, const char *where);
  void renameSlots(State &S, std::vector<std::pair<int, Lin *>> &slots);
  bool alignHoles(State &a, const State &b);
  void slotsOf(State &S, std::vector<std::pair<int, Lin *>> &slots, const std::set<const Value *> *live);
  State joinS(const State &a, const State &b, bool widen, bool tmpl = false);
  bool leqS(const State &a, const State &b);
  void dump(const State &S);

  // execution
  void exec(State S, BasicBlock *B, BasicBlock::iterator it);
  void emitTo(State S, BasicBlock *from, BasicBlock *to);
  AV val(State &S, const Value *v);
  void set(State &S, const Value *v, AV a) { S.env[v] = std::move(a); }
  int w(const Value *v) { return v->getType()->isPointerTy() ? 64 : v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64; }
  // canonical unsigned / signed value of an integer of width bits; may split the state
  void canon(State S, AV a, unsigned bits, bool sgn, const std::function<void(State, Lin)> &k);
  Lin fresh(State &S, i64 lo, i64 hi); // hi = INF: unbounded above; lo=-INF: unbounded below
  AV freshInt(State &S, unsigned bits);
  bool refine(State &S, const CondP &c, bool truth); // single-state refinement; false = infeasible
  int decide(State &S, const CondP &c);              // 1 true, 0 false, -1 unknown
  void split(State S, const AV &a, const std::function<void(State, bool)> &k);
  void applyFacts(State &S);
  void nullRegion(State &S, int reg);
  CondP condOf(State &S, const AV &a);

  // memory
  int newRegion(State &S, const void *site, int idx, Lin size);
  int regionOfGlobal(State &S, const llvm::GlobalVariable *G);
  bool access(State &S, const AV &p, const Lin &len, bool write, const char *what);
  AV load(State &S, const AV &p, int sz, Type *T, const Value *site);
  void loadK(State S, const AV &p, int sz, Type *T, const Value *site, const std::function<void(State, AV)> &k);
  void rowFork(State S, const AV &p, const Instruction *site, const std::function<void(State, AV)> &k);
  void narrowing(State &S, const llvm::StoreInst *St, const AV &p, const AV &v);
  void renameRegion(State &S, int from, int to);
  void deadStack(State &S, int reg, bool end);
  std::map<const llvm::BasicBlock *, std::pair<int, KStates>> warm;
  std::map<const llvm::PHINode *, bool> strPhis; bool strPhi(const llvm::PHINode *P);
  int summaryString(State &S, const void *site, long idx, const char *nm);
  bool elemIndex(State &S, int reg, const Lin &off, Lin &idx, long &rel);
  void materialise(State &S, int reg, const Lin &idx);
  bool elemValid(State &S, int reg, const std::map<long, Cell> &cells, std::set<int> &owned);
  bool objValid(State &S, int kind, bool own, const std::map<long, Cell> &cells, std::set<int> &owned);
  bool requireStr(State &S, const AV &p, const char *fn);
  Lin strLen(State &S, const AV &p);
  void store(State &S, const AV &p, int sz, const AV &v, Type *T);
  void clobber(State &S, int reg, const Lin &off, const Lin &len, bool keepInit);
  bool initialised(State &S, int reg, const Lin &off, const Lin &len);
  void addInit(State &S, int reg, const Lin &off, const Lin &len);
  bool monitor(State &S, int reg, const Lin &off, const Lin &len, const AV *v);
  std::set<std::string> undecided, uses; bool monitorAlloc = false;
  void copyMem(State &S, const AV &d, const AV &s, const Lin &len);
  void dropRegion(State &S, int reg);
  void wipe(State &S, int reg); // contents unknown (but initialised)
  bool focus(State &S, int reg, const Lin &off, int sz, std::map<long, Cell> *&cells, long &rel);
  void unfocus(State &S, int reg);
  bool owning(State &S, int reg);
  void freePtr(State &S, const AV &p, const char *fn);

  // calls
  void call(State S, CallInst *C, const std::function<void(State)> &k);
  bool libcall(State &S, CallInst *C, const std::string &n, const std::function<void(State)> &k);
  void doReturn(State S, llvm::ReturnInst *R);

  // reporting
  void alarm(const std::string &kind, const std::string &what);
  void ob(const std::string &kind);
};
extern std::function<bool(Function &)> isContractFn;
int regionId(const void *site, long idx, const std::string &name);
std::string regionName(int id);
llvm::json::Object analyseFunction(Function &F, const std::vector<std::string> &opts);
// structure layout from debug info
long fieldOff(llvm::Module &M, const std::string &type, const std::string &field);
long typeSize(llvm::Module &M, const std::string &type);
struct Contracts;
bool contractCall(Interp &I, State &S, CallInst *C, const std::function<void(State)> &k);
bool contractEntry(Interp &I, State &S, const std::function<void(State)> &k);
bool contractExit(Interp &I, State &S, llvm::ReturnInst *R);
bool hasContract(Function &F);
