// irprep IN.bc OUT.bc REFERENCE SINGLE MULTI [GROW] : marks helper functions that the reference tree does not
// have `alwaysinline`, so that the following always-inline pass folds extracted helpers back into their
// callers.  Not folded: recursive functions, functions whose address is taken, functions without a call,
// and large ones (more than SINGLE instructions with one call, more than MULTI with several).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
using namespace llvm;
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  unsigned SINGLE = atoi(argv[4]), MULTI = atoi(argv[5]);
  std::set<std::string> base;
  { std::ifstream f(argv[3]); std::string s; while (f >> s) base.insert(s); }
  std::map<Function *, std::set<Function *>> cg;
  std::map<Function *, unsigned> sites, size;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    unsigned n = 0;
    for (auto &B : F) for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      n++;
      if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (!G->isDeclaration()) { cg[&F].insert(G); sites[G]++; }
    }
    size[&F] = n;
  }
  auto named = [](Function *F) { auto *SP = F->getSubprogram(); return SP ? SP->getName().str() : F->getName().str(); };
  // a cycle made of new helpers only (one that goes through a function of the reference tree can be folded into it)
  auto recursive = [&](Function *F) {
    std::set<Function *> seen; std::vector<Function *> st(cg[F].begin(), cg[F].end());
    while (!st.empty()) { auto *G = st.back(); st.pop_back(); if (G == F) return true; if (base.count(named(G)) || !seen.insert(G).second) continue; for (auto *H : cg[G]) st.push_back(H); }
    return false;
  };
  unsigned k = 0;
  for (auto &F : *M) {
    if (F.isDeclaration() || F.hasAddressTaken() || F.isVarArg()) continue;
    auto *SP = F.getSubprogram();
    std::string name = SP ? SP->getName().str() : F.getName().str();
    if (name == "main") continue;
    if (base.count(name)) {
      // with GROW: helpers that only make a block larger belong to the writer that calls them
      if (argc < 7 || size[&F] > 80 || !sites[&F] || recursive(&F)) continue;
      bool grows = false, writes = false;
      for (auto &B : F) for (auto &I : B) {
        if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) {
          if (G->getName() == "realloc") grows = true;
          else if (G->getName().starts_with("llvm.mem") || G->getName().starts_with("str")) writes = true;
        }
        if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isIntegerTy(8) && !isa<AllocaInst>(S->getPointerOperand())) writes = true;
      }
      if (!grows || writes) continue;
    }
    unsigned s = sites[&F], n = size[&F];
    if (!s || n > (s == 1 ? SINGLE : MULTI) || recursive(&F)) continue;
    F.setLinkage(GlobalValue::InternalLinkage);
    F.addFnAttr(Attribute::AlwaysInline); k++;
    errs() << name << "\n";
  }
  std::error_code ec; raw_fd_ostream o(argv[2], ec);
  WriteBitcodeToFile(*M, o);
  return 0;
}
