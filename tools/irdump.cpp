// irdump: prints an LLVM module as compact JSON for the Python analyses.
// Purely a translator: no analysis is decided here.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string js(StringRef s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } // latin-1 bytes
    else o += c;
  }
  return o + "\"";
}
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bids;
static std::map<std::string, int> fileIdx;
static std::vector<std::string> files;
static int fidx(const std::string &f) {
  auto it = fileIdx.find(f);
  if (it != fileIdx.end()) return it->second;
  int n = files.size(); files.push_back(f); fileIdx[f] = n; return n;
}
static std::string tystr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static std::string opnd(const Value *V);
// names noted by irtag before the linker merged structures of equal layout
static std::map<std::string, StructType *> tagged;      // name -> the one merged type it stands for, null: several
static std::string stName(const Instruction *I, unsigned k, StructType *ST) {
  std::string n = ST->hasName() ? ST->getName().str() : "";
  if (I) if (auto *N = I->getMetadata("apex.st")) if (k < N->getNumOperands()) {
    std::string t = cast<MDString>(N->getOperand(k))->getString().str();
    auto it = tagged.find(t);
    if (it != tagged.end() && it->second == ST) return t;
  }
  return n;
}
static void collectTags(Module &M) {
  auto add = [](const Instruction &I, unsigned k, StructType *ST) {
    if (auto *N = I.getMetadata("apex.st")) if (k < N->getNumOperands()) {
      std::string t = cast<MDString>(N->getOperand(k))->getString().str();
      if (t.empty()) return;
      auto r = tagged.insert({t, ST});
      if (!r.second && r.first->second != ST) r.first->second = nullptr;
    }
  };
  for (auto &F : M) for (auto &B : F) for (auto &I : B) {
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      unsigned k = 0;
      for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
        if (StructType *ST = it.getStructTypeOrNull()) add(I, k++, ST);
    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
      if (auto *ST = dyn_cast<StructType>(A->getAllocatedType())) add(I, 0, ST);
    }
  }
}
static std::string gepJson(const GEPOperator *G) {
  unsigned bw = DL->getIndexSizeInBits(G->getPointerAddressSpace());
  MapVector<Value *, APInt> vars; APInt c(bw, 0);
  std::string s = "[";
  s += opnd(G->getPointerOperand());
  if (G->collectOffset(*DL, bw, vars, c)) {
    s += "," + std::to_string(c.getSExtValue()) + ",[";
    bool f = true;
    for (auto &kv : vars) {
      if (!f) s += ","; f = false;
      s += "[" + std::to_string(kv.second.getSExtValue()) + "," + opnd(kv.first) + "]";
    }
    s += "]";
  } else s += ",0,null";
  // path through the aggregate type
  s += ",[";
  bool f = true;
  Type *prev = nullptr; unsigned sk = 0; auto *GI = dyn_cast<Instruction>(G);
  for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; prev = it.getIndexedType(), ++it) {
    if (!f) s += ","; f = false;
    if (StructType *ST = it.getStructTypeOrNull()) {
      s += "[\"f\"," + js(stName(GI, sk++, ST)) + "," +
           std::to_string(cast<ConstantInt>(it.getOperand())->getZExtValue()) + "]";
    } else {
      Type *ET = it.getIndexedType();
      uint64_t es = ET->isSized() ? DL->getTypeAllocSize(ET).getFixedValue() : 0;
      int64_t n = -1;
      if (auto *AT = dyn_cast_or_null<ArrayType>(prev)) n = AT->getNumElements();
      s += "[\"a\"," + std::to_string(n) + "," + std::to_string(es) + "," + opnd(it.getOperand()) + "]";
    }
  }
  auto *SE = dyn_cast<StructType>(G->getSourceElementType());
  s += "]," + js(SE && GI ? "%" + stName(GI, 0, SE) : tystr(G->getSourceElementType())) + "]";
  return s;
}
static std::string opnd(const Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) return "[\"a\"," + std::to_string(A->getArgNo()) + "]";
  if (isa<Instruction>(V)) return "[\"v\"," + std::to_string(ids[V]) + "]";
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() > 64) return "[\"u\"]";
    return "[\"c\"," + std::to_string(CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue()) + "]";
  }
  if (isa<ConstantPointerNull>(V)) return "[\"n\"]";
  if (isa<UndefValue>(V)) return "[\"u\"]";
  if (auto *F = dyn_cast<Function>(V)) return "[\"f\"," + js(F->getName()) + "]";
  if (auto *G = dyn_cast<GlobalVariable>(V)) return "[\"g\"," + js(G->getName()) + ",0]";
  if (auto *GO = dyn_cast<GEPOperator>(V)) {
    APInt c(64, 0);
    const Value *B = V->stripAndAccumulateConstantOffsets(*DL, c, true);
    if (auto *G = dyn_cast<GlobalVariable>(B)) return "[\"g\"," + js(G->getName()) + "," + std::to_string(c.getSExtValue()) + "]";
    (void)GO;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (CE->isCast()) return opnd(CE->getOperand(0));
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) { (void)CF; return "[\"d\"]"; }
  if (isa<BasicBlock>(V)) return "[\"b\"," + std::to_string(bids[cast<BasicBlock>(V)]) + "]";
  if (isa<ConstantAggregateZero>(V)) return "[\"z\"]";
  return "[\"x\"]";
}
static void initJson(const Constant *C, std::string &s, int depth) {
  if (depth > 4) { s += "[\"x\"]"; return; }
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    if (CDS->isString()) { s += "[\"s\"," + js(CDS->getAsString()) + "]"; return; }
    if (CDS->getElementType()->isIntegerTy()) {
      s += "[\"i\",[";
      for (unsigned i = 0; i < CDS->getNumElements(); i++) { if (i) s += ","; s += std::to_string((int64_t)CDS->getElementAsAPInt(i).getSExtValue()); }
      s += "]]"; return;
    }
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    s += "[\"A\",[";
    for (unsigned i = 0; i < CA->getNumOperands(); i++) { if (i) s += ","; initJson(CA->getOperand(i), s, depth + 1); }
    s += "]]"; return;
  }
  s += opnd(C);
}
static const DILocalScope *dummy;
static std::string locJson(const DebugLoc &D) {
  if (!D) return "null";
  const DILocation *L = D.get();
  std::string fn;
  std::string s = "[" + std::to_string(fidx(L->getFilename().str())) + "," + std::to_string(L->getLine()) + "," + std::to_string(L->getColumn());
  if (L->getInlinedAt()) {
    if (auto *SP = L->getScope()->getSubprogram()) s += "," + js(SP->getName());
  }
  return s + "]";
}
static void emitStruct(const DICompositeType *CT, raw_ostream &o, bool &first, std::set<std::string> &seen, StringRef nm) {
  if (nm.empty() || !seen.insert(nm.str()).second) return;
  if (CT->getTag() == dwarf::DW_TAG_enumeration_type) {
    if (!first) o << ",\n"; first = false;
    o << js(("enum " + nm).str()) << ":{\"enum\":{";
    bool f = true;
    for (auto *E : CT->getElements()) if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) {
      if (!f) o << ","; f = false;
      o << js(En->getName()) << ":" << En->getValue().getSExtValue();
    }
    o << "}}";
    return;
  }
  if (!first) o << ",\n"; first = false;
  o << js(nm) << ":{\"size\":" << CT->getSizeInBits() / 8 << ",\"fields\":[";
  bool f = true;
  for (auto *E : CT->getElements()) if (auto *M = dyn_cast_or_null<DIDerivedType>(E)) {
    if (M->getTag() != dwarf::DW_TAG_member) continue;
    if (!f) o << ","; f = false;
    std::string t;
    bool ptr = false, isbool = false;
    const DIType *T = M->getBaseType();
    while (auto *DT = dyn_cast_or_null<DIDerivedType>(T)) {
      if (DT->getTag() == dwarf::DW_TAG_pointer_type) { ptr = true; break; }
      t = t.empty() ? DT->getName().str() : t;
      T = DT->getBaseType();
    }
    if (T && t.empty()) t = T->getName().str();
    if (auto *BT = dyn_cast_or_null<DIBasicType>(T)) isbool = BT->getEncoding() == dwarf::DW_ATE_boolean;
    o << "[" << js(M->getName()) << "," << M->getOffsetInBits() / 8 << "," << M->getSizeInBits() / 8 << "," << js(ptr ? "ptr" : (isbool ? "bool" : t)) << "]";
  }
  o << "]}";
}
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  for (auto &F : *M) for (auto &B : F) for (auto it = B.begin(); it != B.end();) {   // a thread-local variable is named directly
    Instruction &I = *it++;
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::threadlocal_address) { I.replaceAllUsesWith(I.getOperand(0)); I.eraseFromParent(); }
  }
  std::error_code ec;
  raw_fd_ostream o(argv[2], ec);
  o << "{\"globals\":{\n";
  bool first = true;
  for (auto &G : M->globals()) {
    if (!first) o << ",\n"; first = false;
    std::string dn; int line = 0; std::string file;
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    std::string scope;
    if (!gv.empty()) { auto *V = gv[0]->getVariable(); dn = V->getName().str(); line = V->getLine(); file = V->getFilename().str();
      if (auto *LS = dyn_cast_or_null<DILocalScope>(V->getScope())) if (auto *SP = LS->getSubprogram()) scope = SP->getName().str(); }
    o << js(G.getName()) << ":{\"const\":" << (G.isConstant() ? 1 : 0) << ",\"decl\":" << (G.isDeclaration() ? 1 : 0)
      << ",\"size\":" << (G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0)
      << ",\"ty\":" << js(tystr(G.getValueType())) << ",\"dname\":" << js(dn) << ",\"file\":" << js(file) << ",\"line\":" << line
      << ",\"scope\":" << js(scope) << ",\"internal\":" << (G.hasLocalLinkage() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0);
    if (G.hasInitializer()) { std::string s; initJson(G.getInitializer(), s, 0); o << ",\"init\":" << s; }
    o << "}";
  }
  o << "},\n\"types\":{\n";
  collectTags(*M);
  DebugInfoFinder DF; DF.processModule(*M);
  std::set<std::string> seen; first = true;
  for (auto *T : DF.types()) if (auto *DT = dyn_cast<DIDerivedType>(T)) if (DT->getTag() == dwarf::DW_TAG_typedef)
    if (auto *CT = dyn_cast_or_null<DICompositeType>(DT->getBaseType())) emitStruct(CT, o, first, seen, DT->getName());
  for (auto *T : DF.types()) if (auto *CT = dyn_cast<DICompositeType>(T)) emitStruct(CT, o, first, seen, CT->getName());
  o << "},\n\"irstructs\":{\n";
  first = true;
  std::map<std::string, StructType *> all;
  for (StructType *ST : M->getIdentifiedStructTypes()) if (!ST->isOpaque() && ST->hasName()) all[ST->getName().str()] = ST;
  for (auto &kv : tagged) if (kv.second && !kv.second->isOpaque()) all.insert(kv);
  for (auto &kv : all) {
    StructType *ST = kv.second;
    if (!first) o << ",\n"; first = false;
    auto *SL = DL->getStructLayout(ST);
    o << js(kv.first) << ":[" << SL->getSizeInBytes().getFixedValue() << ",[";
    for (unsigned i = 0; i < ST->getNumElements(); i++) { if (i) o << ","; o << SL->getElementOffset(i).getFixedValue(); }
    o << "]]";
  }
  o << "},\n\"functions\":{\n";
  first = true;
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
    if (!first) o << ",\n"; first = false;
    ids.clear(); bids.clear();
    int n = 0, b = 0;
    for (auto &B : F) { bids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
    auto *SP = F.getSubprogram();
    o << js(F.getName()) << ":{\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0)
      << ",\"vararg\":" << (F.isVarArg() ? 1 : 0) << ",\"addrtaken\":" << (F.hasAddressTaken() ? 1 : 0)
      << ",\"ret\":" << js(tystr(F.getReturnType())) << ",\"name\":" << js(SP ? SP->getName() : F.getName());
    if (SP) o << ",\"file\":" << fidx(SP->getFilename().str()) << ",\"line\":" << SP->getLine();
    o << ",\"args\":[";
    bool fa = true;
    for (auto &A : F.args()) {
      if (!fa) o << ","; fa = false;
      o << "[" << js(A.getName()) << "," << js(tystr(A.getType())) << "," << (A.hasByValAttr() ? 1 : 0) << "," << (A.hasStructRetAttr() ? 1 : 0) << "]";
    }
    o << "]";
    if (SP) { // constness of pointer parameters from debug info
      o << ",\"ptypes\":[";
      bool fp = true;
      if (auto *ST = SP->getType()) {
        auto TA = ST->getTypeArray();
        for (unsigned i = 0; i < TA.size(); i++) {
          if (!fp) o << ","; fp = false;
          const DIType *T = TA[i]; std::string s;
          for (int k = 0; k < 8 && T; k++) {
            if (auto *DT = dyn_cast<DIDerivedType>(T)) {
              if (DT->getTag() == dwarf::DW_TAG_pointer_type) s += "*";
              else if (DT->getTag() == dwarf::DW_TAG_const_type) s += "c";
              else if (DT->getTag() == dwarf::DW_TAG_typedef) { s += "<" + DT->getName().str() + ">"; }
              T = DT->getBaseType();
            } else { s += T->getName().str(); break; }
          }
          o << js(s);
        }
      }
      o << "]";
    }
    if (!F.isDeclaration()) {
      std::map<const Value *, std::string> vn; // debug variable names
      for (auto &B : F) for (auto &I : B) if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
        for (auto *V : DV->location_ops()) if (V && (isa<Instruction>(V) || isa<Argument>(V))) { auto &r = vn[V]; if (r.empty()) r = DV->getVariable()->getName().str(); }
      }
      o << ",\"blocks\":[";
      bool fb = true;
      for (auto &B : F) {
        if (!fb) o << ",\n"; fb = false;
        o << "[";
        bool fi = true;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->isLifetimeStartOrEnd()) continue;
          if (!fi) o << ","; fi = false;
          o << "{\"i\":" << ids[&I] << ",\"o\":" << js(I.getOpcodeName());
          Type *T = I.getType();
          if (T->isIntegerTy()) o << ",\"w\":" << T->getIntegerBitWidth();
          else if (T->isPointerTy()) o << ",\"w\":\"p\"";
          else if (!T->isVoidTy()) o << ",\"w\":" << js(tystr(T));
          if (vn.count(&I)) o << ",\"n\":" << js(vn[&I]);
          else if (I.hasName()) o << ",\"n\":" << js(I.getName());
          if (vn.count(&I)) o << ",\"dv\":1";
          o << ",\"l\":" << locJson(I.getDebugLoc());
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            int64_t sz = -1; if (auto *CI = dyn_cast<ConstantInt>(A->getArraySize())) sz = CI->getZExtValue() * DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
            o << ",\"sz\":" << sz << ",\"ty\":" << js(isa<StructType>(A->getAllocatedType()) && cast<StructType>(A->getAllocatedType())->hasName() ? "%" + stName(A, 0, cast<StructType>(A->getAllocatedType())) : tystr(A->getAllocatedType())) << ",\"a\":[" << opnd(A->getArraySize()) << "]";
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            o << ",\"g\":" << gepJson(cast<GEPOperator>(G));
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            o << ",\"c\":" << opnd(CB->getCalledOperand()) << ",\"a\":[";
            for (unsigned i = 0; i < CB->arg_size(); i++) { if (i) o << ","; o << opnd(CB->getArgOperand(i)); }
            o << "]";
            bool bv = false; for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->paramHasAttr(i, Attribute::ByVal) || CB->paramHasAttr(i, Attribute::StructRet)) bv = true;
            if (bv) { o << ",\"bv\":["; for (unsigned i = 0; i < CB->arg_size(); i++) { if (i) o << ","; o << (CB->paramHasAttr(i, Attribute::ByVal) ? 1 : CB->paramHasAttr(i, Attribute::StructRet) ? 2 : 0); } o << "]"; }
            o << ",\"nr\":" << (CB->doesNotReturn() ? 1 : 0);
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            o << ",\"p\":[";
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) o << ","; o << "[" << opnd(P->getIncomingValue(i)) << "," << bids[P->getIncomingBlock(i)] << "]"; }
            o << "]";
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            o << ",\"a\":[" << opnd(S->getCondition()) << "],\"d\":" << bids[S->getDefaultDest()] << ",\"k\":[";
            bool fk = true; for (auto &k : S->cases()) { if (!fk) o << ","; fk = false; o << "[" << k.getCaseValue()->getSExtValue() << "," << bids[k.getCaseSuccessor()] << "]"; }
            o << "]";
          } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
            o << ",\"t\":[";
            for (unsigned i = 0; i < Br->getNumSuccessors(); i++) { if (i) o << ","; o << bids[Br->getSuccessor(i)]; }
            o << "],\"a\":[" << (Br->isConditional() ? opnd(Br->getCondition()) : "") << "]";
          } else {
            if (auto *IC = dyn_cast<ICmpInst>(&I)) o << ",\"pr\":" << js(CmpInst::getPredicateName(IC->getPredicate())) << ",\"cw\":" << (IC->getOperand(0)->getType()->isIntegerTy() ? (int)IC->getOperand(0)->getType()->getIntegerBitWidth() : 64);
            if (auto *St = dyn_cast<StoreInst>(&I)) o << ",\"sz\":" << DL->getTypeStoreSize(St->getValueOperand()->getType()).getFixedValue();
            if (isa<LoadInst>(&I)) o << ",\"sz\":" << DL->getTypeStoreSize(T).getFixedValue();
            if (isa<CastInst>(&I)) { Type *ST = I.getOperand(0)->getType(); o << ",\"sw\":" << (ST->isIntegerTy() ? (int)ST->getIntegerBitWidth() : 64); }
            o << ",\"a\":[";
            for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) o << ","; o << opnd(I.getOperand(i)); }
            o << "]";
          }
          o << "}";
        }
        o << "]";
      }
      o << "]";
    }
    o << "}";
  }
  o << "},\n\"files\":[";
  for (size_t i = 0; i < files.size(); i++) { if (i) o << ","; o << js(files[i]); }
  o << "]}\n";
  return 0;
}
