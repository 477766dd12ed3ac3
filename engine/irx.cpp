// irx: canonicalise LLVM bitcode and export it for the abstract interpreter.
//
//   irx in.bc out.json [--keep NAME]... [--passes STR] [--entry PREFIX]
//
// All definitions are forced inline (except recursive ones, entry points and
// --keep names), the module is run through a fixed canonicalisation pipeline,
// and every function reachable from an entry is written out as JSON together
// with loop structure, backedge-taken counts and induction steps (SCEV),
// global initialisers (raw bytes + relocations) and source locations.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;

static std::string hexd(const APFloat &F) {
  APFloat D(F); bool li;
  D.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  double d = D.convertToDouble();
  char buf[64]; snprintf(buf, sizeof buf, "%a", d); return buf;
}

struct FnExport {
  Function &F; LoopInfo &LI; ScalarEvolution &SE;
  std::map<const Value *, int> ids; int next = 0;
  std::set<const GlobalValue *> *globals;
  FnExport(Function &f, LoopInfo &li, ScalarEvolution &se, std::set<const GlobalValue *> *g)
      : F(f), LI(li), SE(se), globals(g) {}
  int id(const Value *v) { auto it = ids.find(v); if (it != ids.end()) return it->second; return ids[v] = next++; }

  static std::string ty(Type *T) {
    if (T->isVoidTy()) return "void";
    if (T->isPointerTy()) return "p";
    if (T->isDoubleTy()) return "d";
    if (T->isFloatTy()) return "s";
    if (T->isX86_FP80Ty()) return "x";
    if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
    if (T->isStructTy()) return "agg";
    if (T->isArrayTy()) return "agg";
    if (auto *V = dyn_cast<FixedVectorType>(T)) return "v" + std::to_string(V->getNumElements()) + ty(V->getElementType());
    return "?";
  }
  json::Value operand(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      if (CI->getBitWidth() <= 64) return json::Array{"c", CI->getSExtValue()};
      SmallString<64> s; CI->getValue().toStringSigned(s); return json::Array{"C", std::string(s)};
    }
    if (auto *CF = dyn_cast<ConstantFP>(V)) return json::Array{"f", hexd(CF->getValueAPF())};
    if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
    if (isa<UndefValue>(V)) return json::Array{"u"};
    if (auto *G = dyn_cast<GlobalValue>(V)) { globals->insert(G); return json::Array{"g", G->getName().str(), 0}; }
    if (isa<ConstantAggregateZero>(V)) return json::Array{"z", ty(V->getType())};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (CE->getType()->isPointerTy()) {
        APInt off(64, 0);
        const Value *B = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
        if (auto *G = dyn_cast<GlobalValue>(B)) { globals->insert(G); return json::Array{"g", G->getName().str(), off.getSExtValue()}; }
      }
      if (CE->getOpcode() == Instruction::PtrToInt) return json::Array{"pti", operand(CE->getOperand(0))};
      if (CE->getOpcode() == Instruction::Sub) return json::Array{"sub", operand(CE->getOperand(0)), operand(CE->getOperand(1))};
      std::string s; raw_string_ostream o(s); CE->print(o); return json::Array{"?", s};
    }
    if (auto *CDV = dyn_cast<ConstantDataVector>(V)) {
      json::Array a; a.push_back("vec");
      for (unsigned i = 0; i < CDV->getNumElements(); ++i) a.push_back(operand(CDV->getElementAsConstant(i)));
      return a;
    }
    if (auto *CS = dyn_cast<ConstantAggregate>(V)) {
      json::Array a; a.push_back("vec");
      for (auto &op : CS->operands()) a.push_back(operand(op));
      return a;
    }
    if (isa<Instruction>(V) || isa<Argument>(V)) return json::Array{"v", id(V)};
    if (isa<MetadataAsValue>(V)) return json::Array{"md"};
    std::string s; raw_string_ostream o(s); V->print(o); return json::Array{"?", s};
  }
  json::Value scev(const SCEV *S) {
    switch (S->getSCEVType()) {
    case scConstant: { auto *C = cast<SCEVConstant>(S); return json::Array{"c", C->getAPInt().getSExtValue()}; }
    case scTruncate: return json::Array{"trunc", scev(cast<SCEVCastExpr>(S)->getOperand()), (int)S->getType()->getIntegerBitWidth()};
    case scZeroExtend: return json::Array{"zext", scev(cast<SCEVCastExpr>(S)->getOperand()), (int)cast<SCEVCastExpr>(S)->getOperand()->getType()->getIntegerBitWidth()};
    case scSignExtend: return json::Array{"sext", scev(cast<SCEVCastExpr>(S)->getOperand())};
    case scPtrToInt: return json::Array{"pti", scev(cast<SCEVCastExpr>(S)->getOperand())};
    case scAddExpr: case scMulExpr: case scUMaxExpr: case scSMaxExpr: case scUMinExpr: case scSMinExpr: case scSequentialUMinExpr: {
      const char *n = S->getSCEVType() == scAddExpr ? "add" : S->getSCEVType() == scMulExpr ? "mul" : S->getSCEVType() == scUMaxExpr ? "umax"
                    : S->getSCEVType() == scSMaxExpr ? "smax" : S->getSCEVType() == scSMinExpr ? "smin" : "umin";
      json::Array a; a.push_back(n);
      for (auto *o : cast<SCEVNAryExpr>(S)->operands()) a.push_back(scev(o));
      return a;
    }
    case scUDivExpr: return json::Array{"udiv", scev(cast<SCEVUDivExpr>(S)->getLHS()), scev(cast<SCEVUDivExpr>(S)->getRHS())};
    case scAddRecExpr: {
      auto *A = cast<SCEVAddRecExpr>(S);
      json::Array a; a.push_back("rec"); a.push_back(id(&*A->getLoop()->getHeader()->begin()));
      a.push_back(A->getLoop()->getHeader()->getName().str());
      for (auto *o : A->operands()) a.push_back(scev(o));
      return a;
    }
    case scUnknown: return json::Array{"u", operand(cast<SCEVUnknown>(S)->getValue())};
    default: return json::Array{"?"};
    }
  }
  json::Value loc(const DebugLoc &L) {
    // chain of locations, innermost first
    json::Array a;
    for (const DILocation *D = L.get(); D; D = D->getInlinedAt()) {
      std::string fn = D->getScope()->getSubprogram() ? D->getScope()->getSubprogram()->getName().str() : "";
      a.push_back(json::Array{D->getFilename().str(), (int)D->getLine(), fn});
      if (a.size() > 12) break;
    }
    return a;
  }
  json::Value inst(Instruction &I) {
    json::Object o;
    o["i"] = id(&I); o["op"] = I.getOpcodeName(); o["ty"] = ty(I.getType());
    if (auto *P = dyn_cast<PHINode>(&I)) {
      json::Array in;
      for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
        in.push_back(json::Array{P->getIncomingBlock(k)->getName().str(), operand(P->getIncomingValue(k))});
      o["in"] = std::move(in);
      if (SE.isSCEVable(P->getType())) {
        if (Loop *L = LI.getLoopFor(P->getParent()); L && L->getHeader() == P->getParent()) {
          const SCEV *S = SE.getSCEV(P);
          if (auto *A = dyn_cast<SCEVAddRecExpr>(S); A && A->isAffine() && A->getLoop() == L) o["step"] = scev(A->getOperand(1));
        }
      }
      return o;
    }
    json::Array ops;
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      APInt c(64, 0); MapVector<Value *, APInt> var;
      if (!G->collectOffset(*DL, 64, var, c)) { o["op"] = "gep?"; return o; }
      ops.push_back(operand(G->getPointerOperand()));
      o["off"] = c.getSExtValue();
      json::Array vs; for (auto &kv : var) vs.push_back(json::Array{operand(kv.first), kv.second.getSExtValue()});
      o["var"] = std::move(vs); o["ops"] = std::move(ops);
      return o;
    }
    if (auto *C = dyn_cast<CallBase>(&I)) {
      for (auto &a : C->args()) ops.push_back(operand(a));
      o["op"] = "call";
      o["callee"] = operand(C->getCalledOperand());
      if (auto *II = dyn_cast<IntrinsicInst>(C)) o["intr"] = Intrinsic::getBaseName(II->getIntrinsicID()).str();
      if (C->doesNotReturn()) o["nr"] = true;
      json::Array sr; for (unsigned k = 0; k < C->arg_size(); ++k) if (C->paramHasAttr(k, Attribute::StructRet)) sr.push_back((int)k);
      if (!sr.empty()) o["sret"] = std::move(sr);
      o["ops"] = std::move(ops); o["l"] = loc(I.getDebugLoc());
      return o;
    }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
      ops.push_back(operand(S->getCondition()));
      o["def"] = S->getDefaultDest()->getName().str();
      json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), c.getCaseSuccessor()->getName().str()});
      o["cases"] = std::move(cs); o["ops"] = std::move(ops); o["l"] = loc(I.getDebugLoc());
      return o;
    }
    if (auto *B = dyn_cast<BranchInst>(&I)) {
      json::Array ss; for (unsigned k = 0; k < B->getNumSuccessors(); ++k) ss.push_back(B->getSuccessor(k)->getName().str());
      if (B->isConditional()) ops.push_back(operand(B->getCondition()));
      o["succ"] = std::move(ss); o["ops"] = std::move(ops); o["l"] = loc(I.getDebugLoc());
      return o;
    }
    for (auto &u : I.operands()) { if (isa<BasicBlock>(u)) continue; ops.push_back(operand(u)); }
    if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str(), o["oty"] = ty(C->getOperand(0)->getType());
    if (auto *A = dyn_cast<AllocaInst>(&I)) { o["sz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(); }
    if (auto *S = dyn_cast<StoreInst>(&I)) { o["vty"] = ty(S->getValueOperand()->getType()); o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); o["l"] = loc(I.getDebugLoc()); aggty(o, S->getValueOperand()->getType()); }
    if (auto *L = dyn_cast<LoadInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue(); o["l"] = loc(I.getDebugLoc()); aggty(o, L->getType()); }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : E->indices()) x.push_back((int)k); o["idx"] = std::move(x); }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto k : E->indices()) x.push_back((int)k); o["idx"] = std::move(x); }
    if (auto *Cst = dyn_cast<CastInst>(&I)) { o["sty"] = ty(Cst->getSrcTy()); }
    if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { json::Array x; for (int k : SV->getShuffleMask()) x.push_back(k); o["mask"] = std::move(x); }
    if (auto *LP = dyn_cast<LandingPadInst>(&I)) { o["nclauses"] = (int)LP->getNumClauses(); o["cleanup"] = LP->isCleanup(); }
    o["ops"] = std::move(ops);
    return o;
  }
  void aggty(json::Object &o, Type *T) {
    // flattened leaves for first-class aggregates / vectors
    json::Array a;
    if (auto *V = dyn_cast<FixedVectorType>(T)) {
      int64_t es = DL->getTypeStoreSize(V->getElementType()).getFixedValue();
      for (unsigned k = 0; k < V->getNumElements(); ++k) a.push_back(json::Array{(int64_t)(es * k), es, ty(V->getElementType())});
    } else if (auto *S = dyn_cast<StructType>(T)) {
      auto *SL = DL->getStructLayout(S);
      for (unsigned k = 0; k < S->getNumElements(); ++k)
        a.push_back(json::Array{(int64_t)SL->getElementOffset(k).getFixedValue(), (int64_t)DL->getTypeStoreSize(S->getElementType(k)).getFixedValue(), ty(S->getElementType(k))});
    } else if (auto *S = dyn_cast<ArrayType>(T)) {
      int64_t es = DL->getTypeAllocSize(S->getElementType()).getFixedValue();
      for (unsigned k = 0; k < S->getNumElements(); ++k) a.push_back(json::Array{(int64_t)(es * k), es, ty(S->getElementType())});
    } else return;
    o["leaves"] = std::move(a);
  }
  json::Value loopj(Loop *L) {
    json::Object o;
    o["header"] = L->getHeader()->getName().str();
    if (L->getLoopLatch()) o["latch"] = L->getLoopLatch()->getName().str();
    if (L->getParentLoop()) o["parent"] = L->getParentLoop()->getHeader()->getName().str();
    json::Array bs; for (auto *B : L->blocks()) bs.push_back(B->getName().str());
    o["blocks"] = std::move(bs);
    const SCEV *B = SE.getBackedgeTakenCount(L);
    if (!isa<SCEVCouldNotCompute>(B)) o["btc"] = scev(B);
    SmallVector<BasicBlock *, 8> ex; L->getExitingBlocks(ex);
    json::Array es;
    for (auto *E : ex) {
      json::Object e; e["b"] = E->getName().str();
      const SCEV *C = SE.getExitCount(L, E);
      if (!isa<SCEVCouldNotCompute>(C)) e["cnt"] = scev(C);
      es.push_back(std::move(e));
    }
    o["exits"] = std::move(es);
    o["l"] = loc(L->getStartLoc());
    return o;
  }
  json::Value run() {
    json::Object o;
    o["name"] = F.getName().str(); o["dem"] = demangle(F.getName().str());
    if (auto *SP = F.getSubprogram()) { o["file"] = SP->getFilename().str(); o["line"] = (int)SP->getLine(); }
    json::Array args; for (auto &A : F.args()) args.push_back(json::Array{id(&A), ty(A.getType())});
    o["args"] = std::move(args); o["rty"] = ty(F.getReturnType());
    unsigned bn = 0; for (auto &B : F) B.setName("b" + std::to_string(bn++));
    json::Array bl;
    for (auto &B : F) {
      json::Object b; b["n"] = B.getName().str();
      json::Array is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl || II->getIntrinsicID()==Intrinsic::assume) continue;
        is.push_back(inst(I));
      }
      b["is"] = std::move(is); bl.push_back(std::move(b));
    }
    o["blocks"] = std::move(bl);
    json::Array ls; for (auto *L : LI.getLoopsInPreorder()) ls.push_back(loopj(L));
    o["loops"] = std::move(ls);
    return o;
  }
};

static void flat(const Constant *C, uint64_t off, std::string &buf, json::Array &rel, std::set<const GlobalValue *> &gl) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return;
  auto put = [&](uint64_t v, unsigned n) { for (unsigned k = 0; k < n; ++k) buf[off + k] = (char)(v >> (8 * k)); };
  if (auto *I = dyn_cast<ConstantInt>(C)) { put(I->getBitWidth() <= 64 ? I->getZExtValue() : 0, DL->getTypeStoreSize(T)); return; }
  if (auto *D = dyn_cast<ConstantFP>(C)) { put(D->getValueAPF().bitcastToAPInt().getLimitedValue(), std::min<uint64_t>(8, DL->getTypeStoreSize(T))); return; }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = D->getRawDataValues(); memcpy(&buf[off], r.data(), r.size()); return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(S->getType());
    for (unsigned k = 0; k < S->getNumOperands(); ++k) flat(S->getOperand(k), off + SL->getElementOffset(k), buf, rel, gl);
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned k = 0; k < A->getNumOperands(); ++k) flat(A->getOperand(k), off + es * k, buf, rel, gl);
    return;
  }
  if (T->isPointerTy()) {
    APInt o(64, 0); const Value *B = C->stripAndAccumulateConstantOffsets(*DL, o, true);
    if (auto *G = dyn_cast<GlobalValue>(B)) { gl.insert(G); rel.push_back(json::Array{(int64_t)off, G->getName().str(), o.getSExtValue()}); return; }
  }
  rel.push_back(json::Array{(int64_t)off, "?", 0});
}

int main(int argc, char **argv) {
  std::string in = argv[1], out = argv[2];
  std::set<std::string> keep; std::string entry = "drv_";
  std::string passes =
      "globaldce,function(lowerinvoke,simplifycfg),always-inline,"
      "function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
      "jump-threading,correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,sroa<modify-cfg>,gvn,sccp,dse,adce,simplifycfg,"
      "loop-simplify,lcssa,loop(loop-rotate),loop-mssa(licm),instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(indvars),loop(loop-unroll-full),gvn,instcombine<no-verify-fixpoint>,simplifycfg,"
      "adce,simplifycfg,loop-simplify,lcssa)";
  long cap = 0;   // functions whose fully inlined body would exceed this many instructions stay calls
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--keep") keep.insert(argv[++i]);
    else if (a == "--passes") passes = argv[++i];
    else if (a == "--entry") entry = argv[++i];
    else if (a == "--cap") cap = atol(argv[++i]);
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("irx", errs()); return 3; }
  DL = &M->getDataLayout();
  // drop 'constructors' etc. that would keep junk alive; mark inlining policy
  std::set<Function *> rec;
  {
    CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
      if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction());
  }
  std::set<Function *> big;
  if (cap) {
    std::map<Function *, long> sz;
    CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) for (auto *n : *it) {
      Function *F = n->getFunction(); if (!F || F->isDeclaration()) continue;
      long t = 0;
      for (auto &I : instructions(*F)) { ++t; if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = C->getCalledFunction()) { auto f = sz.find(G); if (f != sz.end() && !big.count(G)) t += f->second; } }
      sz[F] = t; if (t > cap) big.insert(F);
    }
  }
  bool anyCatch = false;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string nm = F.getName().str();
    bool isEntry = nm.rfind(entry, 0) == 0;
    bool k = isEntry || rec.count(&F) || big.count(&F);
    for (auto &s : keep) if (demangle(nm).find(s) != std::string::npos) k = true;
    F.removeFnAttr(Attribute::OptimizeNone);
    // the front end forbids unrolling at -O1; constant-trip loops (e.g. over the 3 coordinates) are unrolled here
    for (auto &B : F) if (auto *T = B.getTerminator()) T->setMetadata(LLVMContext::MD_loop, nullptr);
    if (k) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    else { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
    if (!isEntry && !F.hasLocalLinkage() ) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
    for (auto &I : instructions(F)) if (auto *LP = dyn_cast<LandingPadInst>(&I)) if (LP->getNumClauses()) {
      // real catch handlers (not terminate pads) matter: remember
      for (unsigned c = 0; c < LP->getNumClauses(); ++c)
        if (!(LP->isCatch(c) && isa<ConstantPointerNull>(LP->getClause(c)))) anyCatch = true;
    }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(e)) << "\n"; return 3; }
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 3;
  if (const char *d = getenv("IRX_DUMP")) { std::error_code ec; raw_fd_ostream os(d, ec); M->print(os, nullptr); }

  std::set<const GlobalValue *> globals, done;
  std::vector<const GlobalValue *> work;
  for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with(entry)) work.push_back(&F);
  json::Object root; json::Array fns; json::Object gs;
  std::ofstream bin(out + ".bin", std::ios::binary); uint64_t pos = 0;
  while (!work.empty()) {
    const GlobalValue *G = work.back(); work.pop_back();
    if (!done.insert(G).second) continue;
    globals.clear();
    if (auto *A = dyn_cast<GlobalAlias>(G)) {
      if (auto *T = dyn_cast<GlobalValue>(A->getAliasee()->stripPointerCasts())) {
        globals.insert(T); json::Object o; o["kind"] = "alias"; o["to"] = T->getName().str(); gs[G->getName().str()] = std::move(o);
      }
    } else if (auto *F = dyn_cast<Function>(G)) {
      json::Object o; o["kind"] = "fn"; o["dem"] = demangle(F->getName().str()); o["def"] = !F->isDeclaration();
      gs[F->getName().str()] = std::move(o);
      if (!F->isDeclaration()) {
        Function &FF = *const_cast<Function *>(F);
        FnExport E(FF, FAM.getResult<LoopAnalysis>(FF), FAM.getResult<ScalarEvolutionAnalysis>(FF), &globals);
        fns.push_back(E.run());
      }
    } else if (auto *V = dyn_cast<GlobalVariable>(G)) {
      json::Object o; o["kind"] = "var"; o["const"] = V->isConstant(); o["dem"] = demangle(V->getName().str());
      o["size"] = (int64_t)DL->getTypeAllocSize(V->getValueType());
      if (V->hasInitializer()) {
        std::string buf(DL->getTypeAllocSize(V->getValueType()), '\0'); json::Array rel;
        flat(V->getInitializer(), 0, buf, rel, globals);
        o["pos"] = (int64_t)pos; bin.write(buf.data(), buf.size()); pos += buf.size();
        o["rel"] = std::move(rel);
      }
      gs[V->getName().str()] = std::move(o);
    }
    for (auto *g : globals) work.push_back(g);
  }
  root["functions"] = std::move(fns); root["globals"] = std::move(gs); root["catch"] = anyCatch;
  std::error_code ec; raw_fd_ostream os(out, ec);
  os << json::Value(std::move(root)) << "\n";
  return 0;
}
