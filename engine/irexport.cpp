// irexport: reads LLVM bitcode, applies a few canonicalising passes that cannot
// change behaviour (inlining of header-only Eigen / small std helpers, SROA) and
// writes the program as JSON for the Python analyser.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/LoopSimplifyCFG.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include <map>
#include <string>
#include <vector>
using namespace llvm;
namespace js = llvm::json;

static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::map<const MDNode*, int> tbaaIds;
static js::Array tbaaOut;

static std::string ty(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  if (t->isX86_FP80Ty()) return "fp80";
  if (t->isPointerTy()) return "ptr";
  if (t->isStructTy()) return "struct";
  if (t->isArrayTy()) return "array";
  if (t->isVectorTy()) return "vector";
  return "other";
}

static js::Value constant(const Constant *c);

static js::Value constGEP(const Constant *c) {
  APInt off(64, 0);
  const Value *base = c->stripAndAccumulateConstantOffsets(*DL, off, true);
  if (auto *gv = dyn_cast<GlobalValue>(base))
    return js::Object{{"k", "g"}, {"n", gv->getName().str()}, {"o", off.getSExtValue()}};
  if (isa<ConstantPointerNull>(base))
    return js::Object{{"k", "p"}, {"o", off.getSExtValue()}};
  std::string s; raw_string_ostream os(s); c->print(os);
  return js::Object{{"k", "x"}, {"s", os.str()}};
}

// the address of a global plus a small offset, possibly computed with "| flag"
static bool addrOf(const Constant *c, std::string &name, int64_t &off) {
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (e->getOpcode() == Instruction::PtrToInt || e->getOpcode() == Instruction::IntToPtr) return addrOf(e->getOperand(0), name, off);
    if (e->getOpcode() == Instruction::Or || e->getOpcode() == Instruction::Add) {
      auto *k = dyn_cast<ConstantInt>(e->getOperand(1));
      if (!k || !addrOf(e->getOperand(0), name, off)) return false;
      int64_t v = k->getSExtValue();
      if (e->getOpcode() == Instruction::Or && (v < 0 || v > 7 || (off & 7))) return false;
      off += v;
      return true;
    }
  }
  if (!c->getType()->isPointerTy()) return false;
  APInt o(64, 0);
  const Value *base = c->stripAndAccumulateConstantOffsets(*DL, o, true);
  if (auto *gv = dyn_cast<GlobalValue>(base)) { name = gv->getName().str(); off = o.getSExtValue(); return true; }
  return false;
}

static js::Value constant(const Constant *c) {
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    std::string n; int64_t o = 0;
    if (e->getType()->isIntegerTy(64) && addrOf(e, n, o)) return js::Object{{"k", "gi"}, {"n", n}, {"o", o}};
    if (e->getOpcode() == Instruction::IntToPtr && addrOf(e, n, o)) return js::Object{{"k", "g"}, {"n", n}, {"o", o}};
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toString(s, 10, ci->getBitWidth() > 1, false);
    return js::Object{{"k", "i"}, {"v", std::string(s.str())}, {"t", ty(c->getType())}};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF();
    bool lose; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    double d = f.convertToDouble();
    char buf[64]; snprintf(buf, sizeof buf, "%a", d);
    return js::Object{{"k", "f"}, {"v", std::string(buf)}, {"t", ty(c->getType())}};
  }
  if (isa<ConstantPointerNull>(c)) return js::Object{{"k", "p"}, {"o", 0}};
  if (isa<UndefValue>(c)) return js::Object{{"k", "u"}, {"t", ty(c->getType())}};
  if (isa<ConstantAggregateZero>(c)) return js::Object{{"k", "z"}, {"t", ty(c->getType())}};
  if (auto *gv = dyn_cast<GlobalValue>(c)) return js::Object{{"k", "g"}, {"n", gv->getName().str()}, {"o", 0}};
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    js::Array a;
    for (unsigned i = 0; i < c->getNumOperands(); ++i) a.push_back(constant(cast<Constant>(c->getOperand(i))));
    return js::Object{{"k", "a"}, {"e", std::move(a)}};
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    js::Array a;
    for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(constant(cd->getElementAsConstant(i)));
    return js::Object{{"k", "a"}, {"e", std::move(a)}};
  }
  if (c->getType()->isPointerTy()) return constGEP(c);
  std::string s; raw_string_ostream os(s); c->print(os);
  return js::Object{{"k", "x"}, {"s", os.str()}};
}

static js::Value val(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  auto it = ids.find(v);
  if (it != ids.end()) return it->second;
  if (isa<MetadataAsValue>(v)) return js::Object{{"k", "m"}};
  std::string s; raw_string_ostream os(s); v->print(os);
  return js::Object{{"k", "x"}, {"s", os.str()}};
}

// flatten an initialiser to (offset, size, const)
static void flatten(const Constant *c, int64_t off, js::Array &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || (isa<UndefValue>(c) && t->isAggregateType())) {
    // expand
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i)
        flatten(c->getAggregateElement(i), off + (int64_t)sl->getElementOffset(i).getFixedValue(), out);
      return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      uint64_t n = at->getNumElements();
      if (n > 4096) n = 0;
      for (uint64_t i = 0; i < n; ++i)
        flatten(c->getAggregateElement((unsigned)i), off + i * DL->getTypeAllocSize(at->getElementType()).getFixedValue(), out);
      return;
    }
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      flatten(c->getAggregateElement(i), off + (int64_t)sl->getElementOffset(i).getFixedValue(), out);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t n = at->getNumElements();
    if (n > 4096) n = 0;
    for (uint64_t i = 0; i < n; ++i)
      flatten(c->getAggregateElement((unsigned)i), off + i * DL->getTypeAllocSize(at->getElementType()).getFixedValue(), out);
    return;
  }
  out.push_back(js::Array{off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), ty(t), constant(c)});
}

// a structure of two 32 bit integers put together in a register
static bool isPack(const Value *v, Value *&lo, Value *&hi) {
  using namespace llvm::PatternMatch;
  return match(const_cast<Value*>(v), m_c_Or(m_Shl(m_ZExt(m_Value(hi)), m_SpecificInt(32)), m_ZExt(m_Value(lo)))) && lo->getType()->isIntegerTy(32) && hi->getType()->isIntegerTy(32);
}
static bool onlyPacked(const Value *v, int depth = 0) {
  Value *l, *h;
  for (auto *u : v->users()) {
    if (isPack(u, l, h)) continue;
    if (depth == 0 && isa<BinaryOperator>(u) && cast<BinaryOperator>(u)->getOpcode() == Instruction::Shl && onlyPacked(u, 1)) continue;
    return false;
  }
  return true;
}

static int tbaaType(const MDNode *n) {
  if (!n) return -1;
  auto it = tbaaIds.find(n);
  if (it != tbaaIds.end()) return it->second;
  int id = (int)tbaaIds.size();
  tbaaIds[n] = id;
  std::string name;
  if (n->getNumOperands() > 0) if (auto *s = dyn_cast<MDString>(n->getOperand(0))) name = s->getString().str();
  js::Array members;
  for (unsigned i = 1; i < n->getNumOperands(); ++i) {
    auto *m = dyn_cast<MDNode>(n->getOperand(i));
    if (!m) continue;
    int64_t off = 0;
    if (i + 1 < n->getNumOperands())
      if (auto *c = mdconst::dyn_extract<ConstantInt>(n->getOperand(i + 1))) off = c->getSExtValue();
    members.push_back(js::Array{tbaaType(m), off});
  }
  tbaaOut.push_back(js::Object{{"id", id}, {"name", name}, {"m", std::move(members)}});
  return id;
}

static std::string sp(const DIFile *f) {
  if (!f) return "";
  std::string fn = f->getFilename().str();
  if (!fn.empty() && fn[0] == '/') return fn;
  return f->getDirectory().str() + "/" + fn;
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irexport out.json in.bc... [-inl prefix]...\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> M;
  std::vector<std::string> inl; // demangled prefixes to inline
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-inl") { inl.push_back(argv[++i]); continue; }
    auto m = parseIRFile(a, err, ctx);
    if (!m) { err.print("irexport", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  DL = &M->getDataLayout();
  {
    std::vector<GlobalAlias*> al;
    for (auto &A : M->aliases()) al.push_back(&A);
    for (auto *A : al) { A->replaceAllUsesWith(A->getAliasee()); A->eraseFromParent(); }
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string d = demangle(F.getName().str());
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    bool in = false;
    for (auto &p : inl) {
      // prefix of the qualified name, ignoring a return type in template functions
      size_t pos = d.find(p);
      size_t par = d.find('(');
      if (pos != std::string::npos && (par == std::string::npos || pos < par) ) {
        // the prefix must start the qualified name at template depth 0
        int depth = 0; bool ok = true;
        for (size_t i = 0; i < pos; ++i) { if (d[i] == '<') depth++; else if (d[i] == '>') depth--; }
        if (depth != 0) ok = false;
        if (pos > 0 && d[pos - 1] != ' ' && d[pos-1] != '*' && d[pos-1] != '&') ok = false;
        if (ok) { in = true; break; }
      }
    }
    if (in) F.addFnAttr(Attribute::AlwaysInline); else F.removeFnAttr(Attribute::AlwaysInline);
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(LowerSwitchPass());
    FPM.addPass(LoopSimplifyPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  js::Object types;
  {
    DebugInfoFinder DF; DF.processModule(*M);
    for (auto *T : DF.types())
      if (auto *C = dyn_cast<DICompositeType>(T))
        if (!C->getIdentifier().empty() && C->getSizeInBits()) {
          std::string d = demangle(C->getIdentifier().str());
          const std::string pre = "typeinfo name for ";
          if (d.compare(0, pre.size(), pre) == 0) d = d.substr(pre.size());
          types[d] = (int64_t)(C->getSizeInBits() / 8);
        }
  }
  std::error_code ec;
  raw_fd_ostream out(argv[1], ec);
  js::OStream J(out);
  J.objectBegin();
  J.attributeBegin("globals"); J.arrayBegin();
  for (auto &G : M->globals()) {
    js::Object o{{"n", G.getName().str()}, {"d", demangle(G.getName().str())}, {"const", G.isConstant()}};
    o["size"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    if (G.hasInitializer()) { js::Array a; flatten(G.getInitializer(), 0, a); o["init"] = std::move(a); }
    J.value(std::move(o));
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("functions"); J.arrayBegin();
  for (auto &F : *M) {
    if (F.getName().starts_with("llvm.dbg") || F.getName().starts_with("llvm.lifetime")) continue;
    js::Object fo{{"n", F.getName().str()}, {"d", demangle(F.getName().str())}};
    fo["ret"] = ty(F.getReturnType());
    fo["va"] = F.isVarArg();
    fo["noret"] = F.doesNotReturn();
    if (auto *s = F.getSubprogram()) { fo["file"] = sp(s->getFile()); fo["line"] = (int64_t)s->getLine(); fo["dn"] = s->getName().str(); }
    ids.clear();
    int n = 0;
    js::Array args;
    for (auto &A : F.args()) { ids[&A] = n; 
      js::Object ao{{"id", n++}, {"t", ty(A.getType())}, {"sret", A.hasStructRetAttr()}, {"n", A.getName().str()}};
      if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
      if (A.hasAttribute(Attribute::Dereferenceable)) ao["deref"] = (int64_t)A.getDereferenceableBytes();
      args.push_back(std::move(ao)); }
    fo["args"] = std::move(args);
    if (!F.isDeclaration()) {
      std::map<const BasicBlock*, int> bid; int b = 0;
      for (auto &BB : F) { bid[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
      DominatorTree DT(F); LoopInfo LI(DT);
      js::Array loops;
      for (auto *L : LI.getLoopsInPreorder()) {
        js::Array bl; for (auto *BB : L->blocks()) bl.push_back(bid[BB]);
        loops.push_back(js::Object{{"h", bid[L->getHeader()]}, {"b", std::move(bl)}});
      }
      fo["loops"] = std::move(loops);
      js::Array blocks;
      for (auto &BB : F) {
        js::Array ins;
        for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
            auto id = ii->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue;
          }
          js::Object o{{"id", ids[&I]}, {"op", I.getOpcodeName()}, {"t", ty(I.getType())}};
          if (auto &dl = I.getDebugLoc()) {
            const DILocation *l = dl.get();
            o["l"] = (int64_t)l->getLine();
            if (auto *sc = dyn_cast<DIScope>(l->getScope())) o["f"] = sp(sc->getFile());
          }
          if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value*, APInt> vo; APInt co(64, 0);
            cast<GEPOperator>(gep)->collectOffset(*DL, 64, vo, co);
            o["op"] = "gep"; o["base"] = val(gep->getPointerOperand()); o["co"] = co.getSExtValue();
            js::Array va; for (auto &p : vo) va.push_back(js::Array{val(p.first), p.second.getSExtValue()});
            o["vo"] = std::move(va);
          } else if (auto *c = dyn_cast<CallBase>(&I)) {
            o["op"] = isa<InvokeInst>(&I) ? "invoke" : "call";
            js::Array as; 
            js::Array sr;
            for (unsigned i = 0; i < c->arg_size(); ++i) as.push_back(val(c->getArgOperand(i)));
            o["args"] = std::move(as);
            js::Array at; for (unsigned i = 0; i < c->arg_size(); ++i) at.push_back(ty(c->getArgOperand(i)->getType()));
            o["at"] = std::move(at);
            if (auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) o["fn"] = cf->getName().str();
            else o["fp"] = val(c->getCalledOperand());
            if (auto *iv = dyn_cast<InvokeInst>(&I)) { o["ok"] = bid[iv->getNormalDest()]; o["ex"] = bid[iv->getUnwindDest()]; }
            if (auto *ii = dyn_cast<MemTransferInst>(&I)) (void)ii;
          } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            o["op"] = "br";
            if (br->isConditional()) { o["c"] = val(br->getCondition()); o["to"] = js::Array{bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
            else o["to"] = js::Array{bid[br->getSuccessor(0)]};
          } else if (auto *phi = dyn_cast<PHINode>(&I)) {
            js::Array a; for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i) a.push_back(js::Array{bid[phi->getIncomingBlock(i)], val(phi->getIncomingValue(i))});
            o["in"] = std::move(a);
          } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
            o["sz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            if (al->getAllocatedType()->isStructTy() && cast<StructType>(al->getAllocatedType())->hasName()) o["st"] = cast<StructType>(al->getAllocatedType())->getName().str();
            o["n"] = al->getName().str();
            o["ops"] = js::Array{val(al->getArraySize())};
          } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            js::Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x);
            o["ops"] = js::Array{val(ev->getAggregateOperand())}; o["ix"] = std::move(ix);
          } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            js::Array ix; for (auto x : iv->indices()) ix.push_back((int64_t)x);
            o["ops"] = js::Array{val(iv->getAggregateOperand()), val(iv->getInsertedValueOperand())}; o["ix"] = std::move(ix);
          } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
            js::Array cl; for (unsigned i = 0; i < lp->getNumClauses(); ++i) cl.push_back(js::Object{{"catch", lp->isCatch(i)}, {"v", constant(lp->getClause(i))}});
            o["cl"] = std::move(cl); o["cleanup"] = lp->isCleanup();
          } else {
            js::Array ops; for (auto &u : I.operands()) if (!isa<BasicBlock>(u.get())) ops.push_back(val(u.get()));
            o["ops"] = std::move(ops);
            if (auto *cmp = dyn_cast<CmpInst>(&I)) { o["p"] = CmpInst::getPredicateName(cmp->getPredicate()).str(); o["ot"] = ty(cmp->getOperand(0)->getType()); }
            if (isa<CastInst>(&I)) o["ot"] = ty(I.getOperand(0)->getType());
            if (isa<ZExtInst>(&I) && onlyPacked(&I)) o["pk"] = true;
            { Value *lo, *hi; if (isa<BinaryOperator>(&I) && isPack(&I, lo, hi)) { o["op"] = "pack"; o["ops"] = js::Array{val(lo), val(hi)}; } }
            if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = bo->hasNoSignedWrap(); o["nuw"] = bo->hasNoUnsignedWrap(); }
            if (isa<LoadInst>(&I) || isa<StoreInst>(&I)) {
              Type *t = isa<LoadInst>(&I) ? I.getType() : I.getOperand(0)->getType();
              o["sz"] = (int64_t)DL->getTypeStoreSize(t).getFixedValue();
              if (isa<StoreInst>(&I)) o["ot"] = ty(t);
              if (auto *md = I.getMetadata(LLVMContext::MD_tbaa)) {
                if (md->getNumOperands() >= 3 && isa<MDNode>(md->getOperand(0))) {
                  int64_t off = mdconst::extract<ConstantInt>(md->getOperand(2))->getSExtValue();
                  o["tb"] = js::Array{tbaaType(cast<MDNode>(md->getOperand(0))), tbaaType(cast<MDNode>(md->getOperand(1))), off};
                }
              }
            }
          }
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
    }
    J.value(std::move(fo));
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("types"); J.value(std::move(types)); J.attributeEnd();
  J.attributeBegin("tbaa"); J.value(std::move(tbaaOut)); J.attributeEnd();
  J.objectEnd();
  out.flush();
  return 0;
}
