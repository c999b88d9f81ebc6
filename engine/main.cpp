#include <pthread.h>
#include "common.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/personality.h>
#include <unistd.h>
using namespace llvm;
std::string fileLine(const Instruction *I) {
  if (auto &L = I->getDebugLoc()) {
    auto *S = cast<DIScope>(L.getScope());
    return (S->getFilename() + ":" + Twine(L.getLine())).str();
  }
  return "?";
}
std::string funcOf(const Instruction *I) {
  if (auto &L = I->getDebugLoc())
    if (auto *SP = cast<DILocalScope>(L.getScope())->getSubprogram())
      return SP->getName().str();
  return I->getFunction()->getName().str();
}
std::string locOf(const Instruction *I, bool chain) {
  std::string s = fileLine(I) + " in " + funcOf(I) + "()";
  if (chain)
    if (auto &L = I->getDebugLoc())
      for (DILocation *A = L.getInlinedAt(); A; A = A->getInlinedAt()) {
        auto *S = A->getScope();
        s += (" <- " + S->getFilename() + ":" + Twine(A->getLine()) + " in " +
              cast<DILocalScope>(S)->getSubprogram()->getName() + "()").str();
      }
  return s;
}
void emit(json::Object o) { outs() << json::Value(std::move(o)) << "\n"; }
int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: wdnsck effects|cprop|absint file.bc args\n"; return 2; }
  // tables are ordered by address: a fixed layout makes every run of the same input take the same steps
  int ps = personality(0xffffffff);
  if (ps != -1 && !(ps & ADDR_NO_RANDOMIZE) && !getenv("WDNSCK_REEXEC")) {
    setenv("WDNSCK_REEXEC", "1", 1);
    if (personality(ps | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  LLVMContext C;
  SMDiagnostic E;
  auto M = parseIRFile(argv[2], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  for (auto &F : *M) if (F.hasAvailableExternallyLinkage()) F.deleteBody();
  std::vector<std::string> a(argv + 3, argv + argc);
  std::string c = argv[1];
  if (c == "effects") return cmdEffects(*M, a);
  if (c == "cprop") return cmdCprop(*M, a);
#ifdef ABSINT
  if (c == "absint") return cmdAbsint(*M, a);
  if (c == "bits") return cmdBits(*M, a);
  if (c == "layout") {
    // paths are followed depth first: a large stack
    static Module *mp; static std::vector<std::string> *ap; static int rc; mp = M.get(); ap = &a; pthread_attr_t at; pthread_t th; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ul << 30);
    if (pthread_create(&th, &at, [](void *) -> void * { rc = cmdLayout(*mp, *ap); return nullptr; }, nullptr)) return 2;
    pthread_join(th, nullptr); outs().flush(); return rc;
  }
  if (c == "terms") return cmdTerms(*M, a);
  if (c == "chars") return cmdChars(*M, a);
#endif
  return 2;
}
