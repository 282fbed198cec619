// irdump: link LLVM bitcode of the repository, canonicalise it with a few
// semantics-preserving passes (SSA construction, optional inlining of
// internal helpers), and write a JSON description of every function that
// the Python analyses read.  Nothing is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Verifier.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include <map>
#include <set>
#include <fstream>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<std::string> KeepFile("keep", cl::desc("file of function names that are never inlined"), cl::init(""));
static cl::opt<bool> DoInline("inline-internal", cl::init(false));
static cl::opt<unsigned> MaxCaller("max-caller", cl::init(20000));
static cl::opt<std::string> PassesPre("pre-passes", cl::init("function(sroa)"));
static cl::opt<std::string> PassesPost("post-passes", cl::init("function(sroa,jump-threading)"));
static cl::opt<std::string> SkipFile("skip-file", cl::desc("source basename whose functions are dumped as declarations"), cl::init("yyjson.c"));

static std::map<const Value*, int> Ids;
static const DataLayout *DL;

static json::Value constVal(const Constant *C);

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}

static json::Value ref(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  auto it = Ids.find(V);
  if (it != Ids.end()) return it->second;
  if (auto *BB = dyn_cast<BasicBlock>(V)) return json::Object{{"bb", std::string(BB->getName())}};
  if (isa<MetadataAsValue>(V)) return json::Object{{"k","meta"}};
  return json::Object{{"k","other"}};
}

static json::Value constVal(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() <= 64)
      return json::Object{{"k","int"},{"v",CI->getSExtValue()},{"u",std::to_string(CI->getZExtValue())},{"w",(int64_t)CI->getBitWidth()}};
    SmallString<40> s; CI->getValue().toStringSigned(s);
    return json::Object{{"k","bigint"},{"s",std::string(s)}};
  }
  if (isa<ConstantPointerNull>(C)) return json::Object{{"k","null"}};
  if (isa<UndefValue>(C)) return json::Object{{"k","undef"}};
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    SmallString<40> s; CF->getValueAPF().toString(s);
    return json::Object{{"k","fp"},{"s",std::string(s)}};
  }
  if (auto *F = dyn_cast<Function>(C)) return json::Object{{"k","fn"},{"n",std::string(F->getName())}};
  if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Object{{"k","gv"},{"n",std::string(G->getName())},{"o",0}};
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (isa<ConstantAggregateZero>(C)) return json::Object{{"k","zero"}};
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    if (CDS->isString()) {
      StringRef s = CDS->getAsString();
      json::Array a; for (unsigned char ch : s) a.push_back((int64_t)ch);
      return json::Object{{"k","str"},{"b",std::move(a)}};
    }
    json::Array a; for (unsigned i=0;i<CDS->getNumElements();i++) a.push_back(constVal(CDS->getElementAsConstant(i)));
    return json::Object{{"k","arr"},{"e",std::move(a)}};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    json::Array a; for (auto &op : CA->operands()) a.push_back(constVal(cast<Constant>(op)));
    return json::Object{{"k", isa<ConstantStruct>(C)?"struct":"arr"},{"e",std::move(a)}};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode()==Instruction::GetElementPtr) {
      APInt off(64,0);
      const Value *base = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *G = dyn_cast<GlobalVariable>(base))
        return json::Object{{"k","gv"},{"n",std::string(G->getName())},{"o",off.getSExtValue()}};
    }
    if (CE->getOpcode()==Instruction::BitCast || CE->getOpcode()==Instruction::AddrSpaceCast) return constVal(CE->getOperand(0));
    json::Array a; for (auto &op : CE->operands()) a.push_back(constVal(cast<Constant>(op)));
    return json::Object{{"k","cexpr"},{"op",CE->getOpcodeName()},{"a",std::move(a)}};
  }
  return json::Object{{"k","const?"}};
}

static std::string baseName(StringRef p) { auto i = p.rfind('/'); return std::string(i==StringRef::npos ? p : p.substr(i+1)); }

static json::Value locOf(const Instruction &I) {
  const DebugLoc &L = I.getDebugLoc();
  if (!L) return nullptr;
  json::Array chain;
  const DILocation *D = L.get();
  while (D) {
    std::string fn;
    if (auto *SP = D->getScope()->getSubprogram()) fn = SP->getName().str();
    chain.push_back(json::Array{baseName(D->getFilename()), (int64_t)D->getLine(), fn});
    D = D->getInlinedAt();
  }
  return json::Value(std::move(chain));
}

static void gepInfo(const GEPOperator *G, json::Object &o) {
  unsigned bw = DL->getIndexSizeInBits(0);
  MapVector<Value*, APInt> vars; APInt c(bw,0);
  json::Array fields;
  for (auto GTI = gep_type_begin(G), GTE = gep_type_end(G); GTI != GTE; ++GTI) {
    if (StructType *ST = GTI.getStructTypeOrNull()) {
      unsigned idx = cast<ConstantInt>(GTI.getOperand())->getZExtValue();
      fields.push_back(json::Array{ST->hasName()?ST->getName().str():std::string(""), (int64_t)idx});
      c += DL->getStructLayout(ST)->getElementOffset(idx);
    } else {
      uint64_t sz = DL->getTypeAllocSize(GTI.getIndexedType());
      if (auto *CI = dyn_cast<ConstantInt>(GTI.getOperand())) c += CI->getValue().sextOrTrunc(bw)*APInt(bw,sz);
      else { auto &e = vars.insert({GTI.getOperand(), APInt(bw,0)}).first->second; e += sz; }
    }
  }
  o["off"] = c.getSExtValue();
  json::Array vs; for (auto &p : vars) vs.push_back(json::Array{ref(p.first), p.second.getSExtValue()});
  if (!vs.empty()) o["vars"] = std::move(vs);
  if (!fields.empty()) o["fields"] = std::move(fields);
  o["ety"] = tyStr(G->getSourceElementType());
  if (G->isInBounds()) o["inb"] = true;
}

static bool isInternalish(const Function &F, const std::set<std::string> &keep) {
  return !F.isDeclaration() && !keep.count(F.getName().str()) && !F.isVarArg();
}

static std::string diName(const DIType *t, int g=0) {
  // textual source type
  if (!t) return "void"; if (g>20) return "?";
  if (auto *D = dyn_cast<DIDerivedType>(t)) {
    if (D->getTag()==dwarf::DW_TAG_pointer_type) return diName(D->getBaseType(),g+1)+"*";
    if (D->getTag()==dwarf::DW_TAG_const_type) return "const "+diName(D->getBaseType(),g+1);
    return D->getName().str();
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

static json::Array diTypes(const DISubprogram *SP) {
  json::Array dt;
  if (auto *ST = SP->getType()) for (auto *T : ST->getTypeArray()) dt.push_back(diName(T));
  return dt;
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &in : Inputs) {
    auto N = parseIRFile(in, Err, Ctx);
    if (!N) { Err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed\n"; return 2; }
  }
  DL = &M->getDataLayout();
  std::set<std::string> keep;
  if (!KeepFile.empty()) { std::ifstream f(KeepFile); std::string l; while (std::getline(f,l)) if(!l.empty()) keep.insert(l); }

  auto runPasses = [&](StringRef pipeline) {
    if (pipeline.empty()) return true;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, pipeline)) { errs() << toString(std::move(E)) << "\n"; return false; }
    MPM.run(*M, MAM); return true;
  };
  // third-party sources: keep only the set of direct callees
  std::map<std::string, json::Array> skipCalls;
  std::map<std::string, std::string> skipSrc; std::map<std::string, json::Array> skipTy;
  for (auto &F : *M) {
    if (F.isDeclaration() || !F.getSubprogram()) continue;
    std::string src = baseName(F.getSubprogram()->getFilename());
    if (StringRef(src).split('.').first != StringRef(SkipFile).split('.').first) continue;
    json::Array cs; std::set<std::string> seen;
    for (auto &BB : F) for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) if (!C->isIntrinsic() && seen.insert(C->getName().str()).second) cs.push_back(C->getName().str());
    skipCalls[F.getName().str()] = std::move(cs); skipTy[F.getName().str()] = diTypes(F.getSubprogram()); skipSrc[F.getName().str()] = src;
  }
  for (auto &F : *M) if (skipSrc.count(F.getName().str())) F.deleteBody();
  // remember the designated member on each access: address arithmetic of a first member is
  // folded away by inlining
  for (auto &F : *M) for (auto &BB : F) for (auto &I : BB) {
    const Value *P = getLoadStorePointerOperand(&I);
    auto *G = P ? dyn_cast<GEPOperator>(P) : nullptr;
    if (!G) continue;
    std::string sn; int64_t ix = -1;
    for (auto GTI = gep_type_begin(G), GTE = gep_type_end(G); GTI != GTE; ++GTI)
      if (StructType *ST = GTI.getStructTypeOrNull()) { sn = ST->hasName()?ST->getName().str():std::string(""); ix = cast<ConstantInt>(GTI.getOperand())->getZExtValue(); }
    if (ix < 0 || sn.empty()) continue;
    I.setMetadata("msa.fld", MDNode::get(Ctx, {MDString::get(Ctx, sn), MDString::get(Ctx, std::to_string(ix))}));
  }
  if (!runPasses(PassesPre)) return 2;

  json::Array inlined;
  if (DoInline) {
    // recursion check
    std::set<const Function*> rec;
    CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
      if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction());
    auto srcOf = [](const Function &F){ if (auto *SP=F.getSubprogram()) return baseName(SP->getFilename()); return std::string(""); };
    // bottom-up order
    std::vector<Function*> order;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) for (auto *n : *it) if (n->getFunction() && !n->getFunction()->isDeclaration()) order.push_back(n->getFunction());
    for (Function *F : order) {
      if (srcOf(*F)==SkipFile) continue;
      bool changed = true; 
      while (changed) {
        changed = false;
        for (auto &BB : *F) { for (auto &I : BB) {
          auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue;
          Function *C = CB->getCalledFunction();
          if (!C || C==F || rec.count(C) || !isInternalish(*C, keep) || srcOf(*C)==SkipFile) continue;
          if (F->getInstructionCount() + C->getInstructionCount() > MaxCaller) continue;
          InlineFunctionInfo IFI;
          std::string cn = C->getName().str();
          auto R = InlineFunction(*CB, IFI);
          if (R.isSuccess()) { inlined.push_back(json::Array{cn, F->getName().str()}); changed = true; break; }
        } if (changed) break; }
      }
    }
    if (!runPasses(PassesPost)) return 2;
  }
  if (verifyModule(*M, &errs())) { errs() << "verify failed\n"; return 2; }

  json::Object root;
  root["inlined"] = std::move(inlined);
  // struct types
  json::Object structs;
  for (StructType *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque()) continue;
    json::Array f; auto *L = DL->getStructLayout(ST);
    for (unsigned i=0;i<ST->getNumElements();i++) f.push_back(json::Array{(int64_t)L->getElementOffset(i), (int64_t)DL->getTypeAllocSize(ST->getElementType(i)), tyStr(ST->getElementType(i))});
    structs[ST->getName()] = json::Object{{"size",(int64_t)DL->getTypeAllocSize(ST)},{"fields",std::move(f)}};
  }
  root["structs"] = std::move(structs);
  // DI struct member names
  DebugInfoFinder DIF; DIF.processModule(*M);
  json::Object di, dt;
  for (auto *T : DIF.types()) if (auto *CT = dyn_cast<DICompositeType>(T)) if ((CT->getTag()==dwarf::DW_TAG_structure_type||CT->getTag()==dwarf::DW_TAG_union_type) && !CT->isForwardDecl()) {
    json::Array ms;
    for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) ms.push_back(json::Array{D->getName().str(), (int64_t)(D->getOffsetInBits()/8), (int64_t)(D->getSizeInBits()/8)});
    json::Array ts;
    for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) ts.push_back(diName(D->getBaseType()));
    if (!CT->getName().empty()) { di[CT->getName()] = std::move(ms); dt[CT->getName()] = std::move(ts); }
  }
  for (auto *T : DIF.types()) if (auto *DT = dyn_cast<DIDerivedType>(T)) if (DT->getTag()==dwarf::DW_TAG_typedef && DT->getBaseType()) if (auto *CT = dyn_cast<DICompositeType>(DT->getBaseType())) if (CT->getName().empty() && !DT->getName().empty()) {
    json::Array ms;
    for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) ms.push_back(json::Array{D->getName().str(), (int64_t)(D->getOffsetInBits()/8), (int64_t)(D->getSizeInBits()/8)});
    json::Array ts;
    for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) ts.push_back(diName(D->getBaseType()));
    di[DT->getName()] = std::move(ms); dt[DT->getName()] = std::move(ts);
  }
  root["distructs"] = std::move(di);
  root["ditypes"] = std::move(dt);
  // globals
  json::Array globs;
  for (auto &G : M->globals()) {
    json::Object o{{"name",G.getName().str()},{"const",G.isConstant()},{"internal",G.hasLocalLinkage()},{"decl",G.isDeclaration()},{"ty",tyStr(G.getValueType())},{"size",G.getValueType()->isSized()?(int64_t)DL->getTypeAllocSize(G.getValueType()):0},{"tls",G.isThreadLocal()}};
    if (G.hasInitializer()) o["init"] = constVal(G.getInitializer());
    bool priv = G.hasLocalLinkage();
    for (auto *U : G.users()) {
      if (auto *L = dyn_cast<LoadInst>(U)) { (void)L; continue; }
      if (auto *St = dyn_cast<StoreInst>(U)) if (St->getValueOperand() != &G) continue;
      priv = false;
    }
    o["private"] = priv;
    SmallVector<DIGlobalVariableExpression*,2> es; G.getDebugInfo(es);
    if (!es.empty()) { auto *v = es[0]->getVariable(); o["file"]=baseName(v->getFilename()); o["line"]=(int64_t)v->getLine(); o["dname"]=v->getName().str(); }
    globs.push_back(std::move(o));
  }
  root["globals"] = std::move(globs);
  // functions
  json::Array fns;
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    json::Object fo{{"name",F.getName().str()},{"internal",F.hasLocalLinkage()},{"vararg",F.isVarArg()},{"rty",tyStr(F.getReturnType())}};
    if (auto *SP = F.getSubprogram()) { fo["file"]=baseName(SP->getFilename()); fo["line"]=(int64_t)SP->getLine(); 
      json::Array dt = diTypes(SP);
      fo["dity"]=std::move(dt);
    }
    Ids.clear(); int n=0;
    json::Array args;
    for (auto &A : F.args()) { Ids[&A]=n++; args.push_back(json::Object{{"id",Ids[&A]},{"name",A.getName().str()},{"ty",tyStr(A.getType())},{"i",(int64_t)A.getArgNo()}}); }
    fo["args"]=std::move(args);
    bool skip = F.isDeclaration();
    { auto it = skipSrc.find(F.getName().str()); if (it != skipSrc.end()) { fo["file"]=it->second; fo["skipped"]=true; fo["calls"]=std::move(skipCalls[F.getName().str()]); fo["dity"]=std::move(skipTy[F.getName().str()]); } }
    fo["decl"]=skip;
    if (!skip) {
      int bi=0; std::map<const BasicBlock*,int> bid;
      for (auto &BB : F) { bid[&BB]=bi++; for (auto &I : BB) Ids[&I]=n++; }
      // variable names from dbg.value/declare
      json::Array blocks;
      for (auto &BB : F) {
        json::Array insts;
        for (auto &I : BB) {
          if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if (DV->getNumVariableLocationOps()==1 && DV->getVariableLocationOp(0) && !isa<UndefValue>(DV->getVariableLocationOp(0))) {
              json::Object o{{"id",Ids[&I]},{"op","dbg"},{"a",json::Array{ref(DV->getVariableLocationOp(0))}},{"var",DV->getVariable()->getName().str()},{"decl",isa<DbgDeclareInst>(DV)}};
              if (isa<DbgDeclareInst>(DV) || true) { insts.push_back(std::move(o)); }
            }
            continue;
          }
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          json::Object o{{"id",Ids[&I]},{"op",I.getOpcodeName()},{"ty",tyStr(I.getType())}};
          if (I.hasName()) o["name"]=I.getName().str();
          o["loc"]=locOf(I);
          if (auto *MD = I.getMetadata("msa.fld")) o["fld"]=json::Array{cast<MDString>(MD->getOperand(0))->getString().str(), (int64_t)std::stoi(cast<MDString>(MD->getOperand(1))->getString().str())};
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            json::Array a; for (auto &x : CB->args()) a.push_back(ref(x));
            o["a"]=std::move(a);
            if (auto *cf = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { o["callee"]=cf->getName().str(); }
            else o["fp"]=ref(CB->getCalledOperand());
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            json::Array a; for (unsigned i=0;i<P->getNumIncomingValues();i++) a.push_back(json::Array{bid[P->getIncomingBlock(i)], ref(P->getIncomingValue(i))});
            o["inc"]=std::move(a);
          } else if (auto *B = dyn_cast<BranchInst>(&I)) {
            json::Array s; for (unsigned i=0;i<B->getNumSuccessors();i++) s.push_back(bid[B->getSuccessor(i)]);
            o["succ"]=std::move(s);
            if (B->isConditional()) o["a"]=json::Array{ref(B->getCondition())};
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
            o["cases"]=std::move(cs); o["dflt"]=bid[S->getDefaultDest()]; o["a"]=json::Array{ref(S->getCondition())};
          } else {
            json::Array a; for (auto &x : I.operands()) a.push_back(ref(x));
            o["a"]=std::move(a);
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) gepInfo(cast<GEPOperator>(G), o);
            if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"]=CmpInst::getPredicateName(C->getPredicate()).str();
            if (auto *A = dyn_cast<AllocaInst>(&I)) { o["aty"]=tyStr(A->getAllocatedType()); o["asz"]=(int64_t)DL->getTypeAllocSize(A->getAllocatedType()); 
              }
            if (auto *L = dyn_cast<LoadInst>(&I)) { o["sz"]=(int64_t)DL->getTypeStoreSize(L->getType()); if (L->isVolatile()) o["vol"]=true; }
            if (auto *S = dyn_cast<StoreInst>(&I)) { o["sz"]=(int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["vty"]=tyStr(S->getValueOperand()->getType()); }
            if (auto *B = dyn_cast<OverflowingBinaryOperator>(&I)) { if (B->hasNoSignedWrap()) o["nsw"]=true; if (B->hasNoUnsignedWrap()) o["nuw"]=true; }
            if (isa<CastInst>(&I)) o["fty"]=tyStr(I.getOperand(0)->getType());
          }
          insts.push_back(std::move(o));
        }
        blocks.push_back(json::Object{{"id",bid[&BB]},{"name",BB.getName().str()},{"insts",std::move(insts)}});
      }
      fo["blocks"]=std::move(blocks);
    }
    fns.push_back(std::move(fo));
  }
  root["functions"]=std::move(fns);
  std::error_code EC; raw_fd_ostream os(Out, EC);
  os << json::Value(std::move(root));
  return 0;
}
