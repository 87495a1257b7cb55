// Note on every field access and local which structure the source names: the linker merges
// structures of equal layout and keeps one of the names.   irtag IN.bc OUT.bc
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Metadata.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
int main(int c, char **v) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(v[1], E, C);
  if (!M) { E.print("irtag", errs()); return 1; }
  for (auto &F : *M) for (auto &B : F) for (auto &I : B) {
    SmallVector<Metadata *, 4> names;
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
        if (StructType *S = it.getStructTypeOrNull()) names.push_back(MDString::get(C, S->hasName() ? S->getName() : ""));
    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
      if (auto *S = dyn_cast<StructType>(A->getAllocatedType())) names.push_back(MDString::get(C, S->hasName() ? S->getName() : ""));
    }
    if (!names.empty()) I.setMetadata("apex.st", MDNode::get(C, names));
  }
  std::error_code EC; raw_fd_ostream o(v[2], EC, sys::fs::OF_None);
  if (EC) return 1;
  WriteBitcodeToFile(*M, o);
  return 0;
}
