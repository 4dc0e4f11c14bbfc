// irx: load LLVM bitcode, optionally restructure it (inline / internalise /
// run a named pass pipeline) and dump it as JSON for the Python analyses.
//
//   irx IN.bc OUT.json [--pipeline=P] [--keep=f1,f2,...] [--only=f1,...]
//       [--inline-all]  every defined function not in --keep becomes alwaysinline
//
// No code of the analysed program is ever executed: this is a translator.
#include "llvm/Analysis/CGSCCPassManager.h"

#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::set<std::string> split(const std::string &s) {
  std::set<std::string> r; std::string cur;
  for (char c : s) { if (c == ',') { if (!cur.empty()) r.insert(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) r.insert(cur);
  return r;
}
static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}

struct Dumper {
  Module &M; const DataLayout &DL; json::OStream &J;
  DenseMap<const Value *, unsigned> Id; DenseMap<const BasicBlock *, unsigned> BB;
  std::set<const GlobalVariable*> UsedG;
  Dumper(Module &m, json::OStream &j) : M(m), DL(m.getDataLayout()), J(j) {}

  // decompose pointer constant into base + offset
  json::Value val(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      SmallString<40> S; CI->getValue().toStringUnsigned(S);
      return json::Object{{"k", "c"}, {"v", std::string(S.str())}, {"w", (int64_t)CI->getBitWidth()}};
    }
    if (isa<ConstantPointerNull>(V)) return json::Object{{"k", "null"}};
    if (isa<PoisonValue>(V)) return json::Object{{"k", "undef"},{"w",(int64_t)(V->getType()->isIntegerTy()?V->getType()->getIntegerBitWidth():0)},{"poison",true}};
    if (isa<UndefValue>(V)) return json::Object{{"k", "undef"},{"w",(int64_t)(V->getType()->isIntegerTy()?V->getType()->getIntegerBitWidth():0)}};
    if (auto *G = dyn_cast<GlobalVariable>(V)) { UsedG.insert(G); return json::Object{{"k", "g"}, {"n", G->getName().str()}, {"o", 0}}; }
    if (auto *F = dyn_cast<Function>(V)) return json::Object{{"k", "f"}, {"n", F->getName().str()}};
    if (auto *A = dyn_cast<GlobalAlias>(V)) return val(A->getAliasee());
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        APInt Off(64, 0);
        auto *GO = cast<GEPOperator>(CE);
        if (GO->accumulateConstantOffset(DL, Off)) {
          json::Value b = val(GO->getPointerOperand());
          if (auto *o = b.getAsObject()) {
            if (o->getString("k") == StringRef("g")) {
              int64_t base = o->getInteger("o").value_or(0);
              (*o)["o"] = base + Off.getSExtValue();
              return b;
            }
            if (o->getString("k") == StringRef("null"))
              return json::Object{{"k","c"},{"v",std::to_string(Off.getZExtValue())},{"w",64}};
          }
        }
      }
      if (CE->isCast()) {
        json::Value b = val(CE->getOperand(0));
        return json::Object{{"k", "cast"}, {"op", std::string(CE->getOpcodeName())}, {"a", std::move(b)}};
      }
      return json::Object{{"k", "ce"}, {"s", tyStr(V->getType())}};
    }
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      SmallString<40> S; CF->getValueAPF().bitcastToAPInt().toStringUnsigned(S);
      return json::Object{{"k", "fp"}, {"v", std::string(S.str())}, {"ty", tyStr(V->getType())}};
    }
    if (isa<ConstantAggregateZero>(V)) return json::Object{{"k", "zero"}, {"ty", tyStr(V->getType())}};
    if (auto *CV = dyn_cast<ConstantDataSequential>(V)) {
      json::Array a; for (unsigned i = 0; i < CV->getNumElements(); i++) a.push_back(val(CV->getElementAsConstant(i)));
      return json::Object{{"k", "vec"}, {"e", std::move(a)}};
    }
    if (auto *CV = dyn_cast<ConstantVector>(V)) {
      json::Array a; for (unsigned i = 0; i < CV->getNumOperands(); i++) a.push_back(val(CV->getOperand(i)));
      return json::Object{{"k", "vec"}, {"e", std::move(a)}};
    }
    if (isa<MetadataAsValue>(V)) return json::Object{{"k", "md"}};
    if (auto *B = dyn_cast<BasicBlock>(V)) return json::Object{{"k", "bb"}, {"n", (int64_t)BB[B]}};
    if (isa<InlineAsm>(V)) return json::Object{{"k", "asm"}};
    if (isa<Argument>(V)) return json::Object{{"k", "a"}, {"n", (int64_t)cast<Argument>(V)->getArgNo()}};
    auto it = Id.find(V);
    if (it != Id.end()) return json::Object{{"k", "i"}, {"n", (int64_t)it->second}};
    return json::Object{{"k", "unk"}};
  }

  void constBytes(const Constant *C, std::vector<int> &out, json::Array &rel, uint64_t base) {
    uint64_t sz = DL.getTypeAllocSize(C->getType());
    if (out.size() < base + sz) out.resize(base + sz, 0);
    if (C->isNullValue()) return;
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      APInt A = CI->getValue(); for (unsigned i = 0; i < (A.getBitWidth() + 7) / 8; i++)
        out[base + i] = (int)A.extractBitsAsZExtValue(std::min(8u, A.getBitWidth() - i * 8), i * 8);
      return;
    }
    if (auto *CS = dyn_cast<ConstantDataSequential>(C)) {
      uint64_t es = DL.getTypeAllocSize(CS->getElementType());
      for (unsigned i = 0; i < CS->getNumElements(); i++) constBytes(CS->getElementAsConstant(i), out, rel, base + i * es);
      return;
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
      uint64_t es = DL.getTypeAllocSize(CA->getType()->getElementType());
      for (unsigned i = 0; i < CA->getNumOperands(); i++) constBytes(CA->getOperand(i), out, rel, base + i * es);
      return;
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      auto *SL = DL.getStructLayout(CS->getType());
      for (unsigned i = 0; i < CS->getNumOperands(); i++) constBytes(CS->getOperand(i), out, rel, base + SL->getElementOffset(i));
      return;
    }
    if (isa<UndefValue>(C)) return;
    rel.push_back(json::Object{{"at", (int64_t)base}, {"v", val(C)}});
  }

  void loc(const Instruction &I) {
    const DebugLoc &D = I.getDebugLoc();
    if (!D) return;
    J.attribute("line", (int64_t)D.getLine());
    if (auto *S = dyn_cast_or_null<DIScope>(D.getScope())) {
      J.attribute("file", (S->getDirectory().empty() || S->getFilename().starts_with("/")) ? S->getFilename().str() : (S->getDirectory() + "/" + S->getFilename()).str());
      if (auto *SP = D->getScope()->getSubprogram()) J.attribute("sfn", SP->getName().str());
    }
  }

  void inst(const Instruction &I) {
    J.objectBegin();
    J.attribute("op", I.getOpcodeName());
    if (!I.getType()->isVoidTy()) { J.attribute("id", (int64_t)Id[&I]); J.attribute("ty", tyStr(I.getType())); }
    if (I.getType()->isSized() && !I.getType()->isVoidTy() && !isa<ScalableVectorType>(I.getType()))
      J.attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()));
    if (auto *C = dyn_cast<CallBase>(&I)) {
      Value *cv = C->getCalledOperand()->stripPointerCasts();
      if (auto *F = dyn_cast<Function>(cv)) J.attribute("callee", F->getName().str());
      else J.attribute("cv", val(cv));
      J.attributeBegin("ops"); J.arrayBegin(); for (auto &A : C->args()) {
        if (C->isByValArgument(C->getArgOperandNo(&A))) {
          json::Value v = val(A); auto*o=v.getAsObject(); (*o)["byval"]=(int64_t)DL.getTypeAllocSize(C->getParamByValType(C->getArgOperandNo(&A))); J.value(v);
        } else J.value(val(A));
      } J.arrayEnd(); J.attributeEnd();
      if (C->doesNotReturn()) J.attribute("noreturn", true);
      if (auto *V = dyn_cast<DbgVariableIntrinsic>(C)) {
        J.attribute("var", V->getVariable()->getName().str());
        if (V->getNumVariableLocationOps()==1) J.attribute("dbgval", val(V->getVariableLocationOp(0)));
      }
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value *, APInt> Var; APInt Off(64, 0);
      if (G->getType()->isVectorTy() || !G->collectOffset(DL, 64, Var, Off)) J.attribute("opaque", true);
      J.attribute("base", val(G->getPointerOperand())); J.attribute("off", (int64_t)Off.getSExtValue());
      J.attributeBegin("idx"); J.arrayBegin();
      for (auto &p : Var) J.value(json::Array{val(p.first), (int64_t)p.second.getSExtValue()});
      J.arrayEnd(); J.attributeEnd();
      J.attribute("inb", G->isInBounds());
    } else if (auto *P = dyn_cast<PHINode>(&I)) {
      J.attributeBegin("in"); J.arrayBegin();
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.value(json::Array{val(P->getIncomingValue(i)), (int64_t)BB[P->getIncomingBlock(i)]});
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) J.attribute("cond", val(B->getCondition()));
      J.attributeBegin("succ"); J.arrayBegin(); for (unsigned k = 0; k < B->getNumSuccessors(); k++) J.value((int64_t)BB[B->getSuccessor(k)]); J.arrayEnd(); J.attributeEnd();
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      J.attribute("cond", val(S->getCondition())); J.attribute("default", (int64_t)BB[S->getDefaultDest()]);
      J.attributeBegin("cases"); J.arrayBegin(); for (auto &c : S->cases()) J.value(json::Array{val(c.getCaseValue()), (int64_t)BB[c.getCaseSuccessor()]}); J.arrayEnd(); J.attributeEnd();
    } else {
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()).str());
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", tyStr(A->getAllocatedType()));
        auto s = A->getAllocationSize(DL); if (s && !s->isScalable()) J.attribute("asz", (int64_t)s->getFixedValue());
        J.attribute("esz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()));
      }
      if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("ssz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType())); if (S->isVolatile()) J.attribute("vol", true); J.attribute("vty", tyStr(S->getValueOperand()->getType())); }
      if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()).str()); J.attribute("ssz", (int64_t)DL.getTypeStoreSize(R->getValOperand()->getType())); }
      if (auto *L = dyn_cast<LoadInst>(&I)) if (L->isVolatile()) J.attribute("vol", true);
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) { J.attributeBegin("idxs"); J.arrayBegin(); for (unsigned x : E->indices()) J.value((int64_t)x); J.arrayEnd(); J.attributeEnd(); }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) { J.attributeBegin("idxs"); J.arrayBegin(); for (unsigned x : E->indices()) J.value((int64_t)x); J.arrayEnd(); J.attributeEnd(); }
      if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { J.attributeBegin("mask"); J.arrayBegin(); for (int x : SV->getShuffleMask()) J.value((int64_t)x); J.arrayEnd(); J.attributeEnd(); }
      J.attributeBegin("ops"); J.arrayBegin(); for (auto &O : I.operands()) J.value(val(O)); J.arrayEnd(); J.attributeEnd();
    }
    loc(I);
    J.objectEnd();
  }

  void func(const Function &F) {
    Id.clear(); BB.clear();
    unsigned n = 0, b = 0;
    for (auto &B : F) { BB[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) Id[&I] = n++; }
    J.objectBegin();
    J.attribute("name", F.getName().str());
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attribute("internal", F.hasLocalLinkage());
    J.attribute("vararg", F.isVarArg());
    if (auto *SP = F.getSubprogram()) { J.attribute("file", SP->getFilename().starts_with("/") ? SP->getFilename().str() : (SP->getDirectory() + "/" + SP->getFilename()).str()); J.attribute("line", (int64_t)SP->getLine());
      if (auto *ST = SP->getType()) {
        J.attributeBegin("ditypes"); J.arrayBegin();
        for (auto *T : ST->getTypeArray()) J.value(diType(T));
        J.arrayEnd(); J.attributeEnd();
      }
      std::map<unsigned, std::string> an;
      for (auto *N : SP->getRetainedNodes()) if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg()) an[V->getArg()] = V->getName().str();
      for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) if (D->getVariable()->getArg() && !D->getDebugLoc().getInlinedAt()) an[D->getVariable()->getArg()] = D->getVariable()->getName().str();
      J.attributeBegin("argnames"); J.objectBegin(); for (auto &p : an) J.attribute(std::to_string(p.first - 1), p.second); J.objectEnd(); J.attributeEnd();
    }
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : F.args()) {
      json::Object o{{"ty", tyStr(A.getType())}};
      if (A.hasByValAttr()) o["byval"] = (int64_t)DL.getTypeAllocSize(A.getParamByValType());
      if (A.hasStructRetAttr()) o["sret"] = (int64_t)DL.getTypeAllocSize(A.getParamStructRetType());
      J.value(std::move(o));
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("blocks"); J.arrayBegin();
    for (auto &B : F) {
      J.arrayBegin();
      for (auto &I : B) { if (isa<DbgLabelInst>(I)) continue; inst(I); }
      J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  std::string diType(const DIType *T, int depth = 0) {
    if (!T) return "void";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diType(D->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_const_type: return "const " + diType(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: return depth > 8 ? D->getName().str() : diType(D->getBaseType(), depth + 1);
      default: return diType(D->getBaseType(), depth + 1);
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_structure_type) return "struct " + C->getName().str() + "#" + std::to_string(C->getSizeInBits() / 8);
      if (C->getTag() == dwarf::DW_TAG_array_type) return diType(C->getBaseType(), depth + 1) + "[" + std::to_string(C->getSizeInBits() / 8) + "]";
      return C->getName().str();
    }
    if (isa<DISubroutineType>(T)) return "fn";
    return T->getName().str();
  }
};

int main(int argc, char **argv) {
  std::string in, out, pipeline, keep, only, entry; bool inlineAll = false; std::string llout;
  std::vector<const char*> extra{"irx"};
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto pre = [&](const char *p, std::string &d) { std::string s(p); if (a.compare(0, s.size(), s) == 0) { d = a.substr(s.size()); return true; } return false; };
    if (pre("--pipeline=", pipeline) || pre("--keep=", keep) || pre("--only=", only) || pre("--ll=", llout)) continue;
    if (a == "--inline-all") { inlineAll = true; continue; }
    if (a.rfind("-mllvm=", 0) == 0) { extra.push_back(strdup(("-" + a.substr(7)).c_str())); continue; }
    if (in.empty()) in = a; else out = a;
  }
  cl::ParseCommandLineOptions(extra.size(), extra.data());
  LLVMContext C; C.setDiscardValueNames(false); SMDiagnostic E; auto M = parseIRFile(in, E, C);
  if (!M) { E.print("irx", errs()); return 3; }
  auto K = split(keep), O = split(only);
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    bool kept = K.count(F.getName().str());
    if (inlineAll && !kept) { F.addFnAttr(Attribute::AlwaysInline); }
    if (kept) F.addFnAttr(Attribute::NoInline);
  }
  if (!pipeline.empty()) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto Err = PB.parsePassPipeline(MPM, pipeline)) { errs() << "pipeline: " << toString(std::move(Err)) << "\n"; return 3; }
    MPM.run(*M, MAM);
  }
  std::error_code EC;
  if (!llout.empty()) { raw_fd_ostream L(llout, EC); M->print(L, nullptr); }
  raw_fd_ostream os(out, EC); if (EC) { errs() << EC.message() << "\n"; return 3; }
  json::OStream J(os);
  Dumper D(*M, J);
  J.objectBegin();
  J.attributeBegin("functions"); J.arrayBegin();
  for (auto &F : *M) { if (F.isDeclaration()) continue; if (!O.empty() && !O.count(F.getName().str())) continue; D.func(F); }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("decls"); J.arrayBegin(); for (auto &F : *M) if (F.isDeclaration()) J.value(F.getName().str()); J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("globals"); J.arrayBegin();
  for (auto &G : M->globals()) {
    J.objectBegin();
    J.attribute("name", G.getName().str()); J.attribute("const", G.isConstant()); J.attribute("size", (int64_t)D.DL.getTypeAllocSize(G.getValueType()));
    J.attribute("ty", tyStr(G.getValueType())); J.attribute("internal", G.hasLocalLinkage()); J.attribute("decl", G.isDeclaration()); J.attribute("tls", G.isThreadLocal());
    SmallVector<DIGlobalVariableExpression*, 1> GV; G.getDebugInfo(GV);
    if (!GV.empty()) { auto *V = GV[0]->getVariable(); J.attribute("line", (int64_t)V->getLine()); J.attribute("file", V->getFilename().str()); J.attribute("dname", V->getName().str()); }
    if (G.hasInitializer()) {
      if (G.getInitializer()->isNullValue()) J.attribute("zero", true);
      else { std::vector<int> b; json::Array rel; D.constBytes(G.getInitializer(), b, rel, 0); std::string hex; for (int x : b) { static const char *h = "0123456789abcdef"; hex += h[(x >> 4) & 15]; hex += h[x & 15]; } J.attribute("bytes", hex); J.attribute("rel", std::move(rel)); }
    }
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  // struct layouts from debug info
  J.attributeBegin("structs"); J.objectBegin();
  DebugInfoFinder DF; DF.processModule(*M); std::set<std::string> seen;
  for (auto *T : DF.types()) if (auto *CT = dyn_cast<DICompositeType>(T)) if (CT->getTag() == dwarf::DW_TAG_structure_type && !CT->isForwardDecl()) {
    std::string n = CT->getName().str(); if (n.empty() || !seen.insert(n).second) continue;
    J.attributeBegin(n); J.objectBegin(); J.attribute("size", (int64_t)CT->getSizeInBits() / 8);
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto *El : CT->getElements()) if (auto *MD = dyn_cast<DIDerivedType>(El)) J.value(json::Array{MD->getName().str(), (int64_t)MD->getOffsetInBits() / 8, (int64_t)MD->getSizeInBits() / 8, D.diType(MD->getBaseType())});
    J.arrayEnd(); J.attributeEnd(); J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("typedefs"); J.objectBegin();
  std::set<std::string> tseen;
  for (auto *T : DF.types()) if (auto *DT = dyn_cast<DIDerivedType>(T)) if (DT->getTag() == dwarf::DW_TAG_typedef) {
    std::string n = DT->getName().str(); if (n.empty() || !tseen.insert(n).second) continue; J.attribute(n, D.diType(DT->getBaseType())); }
  J.objectEnd(); J.attributeEnd();
  J.objectEnd();
  return 0;
}
