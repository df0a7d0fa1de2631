// irdump: link LLVM bitcode, run a fixed light-weight pass pipeline, and dump
// the result as JSON for the verification-condition generator (vf/engine.py).
//
//   irdump OUT.json NOINLINE.txt ROOT_PREFIX in1.bc in2.bc ...
//
// NOINLINE.txt: one demangled-name substring per line; matching functions keep
// their identity (they are never inlined by LLVM).
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/Internalize.h>

#include <fstream>
#include <iostream>
#include <map>
#include <set>

using namespace llvm;

static const DataLayout* DL;
static raw_ostream* O;

static void str(StringRef s) {
  *O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      *O << '\\' << (char)c;
    else if (c < 32 || c > 126) {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", c);
      *O << buf;
    } else
      *O << (char)c;
  }
  *O << '"';
}

static std::map<Type*, int> typeIds;
static std::vector<Type*> typeList;
static int tid(Type* t) {
  auto it = typeIds.find(t);
  if (it != typeIds.end()) return it->second;
  if (auto* s = dyn_cast<StructType>(t)) {
    if (!s->isOpaque())
      for (auto* e : s->elements()) tid(e);
  } else if (auto* a = dyn_cast<ArrayType>(t))
    tid(a->getElementType());
  else if (auto* v = dyn_cast<FixedVectorType>(t))
    tid(v->getElementType());
  int id = typeList.size();
  typeIds[t] = id;
  typeList.push_back(t);
  return id;
}

static void dumpTypes() {
  *O << "\"types\":[";
  bool first = true;
  for (size_t i = 0; i < typeList.size(); i++) {
    Type* t = typeList[i];
    if (!first) *O << ",\n";
    first = false;
    if (t->isIntegerTy())
      *O << "[\"i\"," << t->getIntegerBitWidth() << ","
         << DL->getTypeStoreSize(t) << "]";
    else if (t->isDoubleTy())
      *O << "[\"f\",64,8]";
    else if (t->isFloatTy())
      *O << "[\"f\",32,4]";
    else if (t->isX86_FP80Ty())
      *O << "[\"f\",80,16]";
    else if (t->isPointerTy())
      *O << "[\"p\",64,8]";
    else if (t->isVoidTy())
      *O << "[\"void\"]";
    else if (auto* s = dyn_cast<StructType>(t)) {
      if (s->isOpaque()) {
        *O << "[\"opaque\"]";
        continue;
      }
      *O << "[\"s\"," << DL->getTypeAllocSize(t) << ",[";
      auto* sl = DL->getStructLayout(s);
      for (unsigned j = 0; j < s->getNumElements(); j++) {
        if (j) *O << ",";
        *O << "[" << sl->getElementOffset(j).getFixedValue() << ","
           << tid(s->getElementType(j)) << "]";
      }
      *O << "]]";
    } else if (auto* a = dyn_cast<ArrayType>(t))
      *O << "[\"a\"," << DL->getTypeAllocSize(t) << "," << a->getNumElements()
         << "," << tid(a->getElementType()) << ","
         << DL->getTypeAllocSize(a->getElementType()) << "]";
    else if (auto* v = dyn_cast<FixedVectorType>(t))
      *O << "[\"v\"," << DL->getTypeStoreSize(t) << "," << v->getNumElements()
         << "," << tid(v->getElementType()) << ","
         << DL->getTypeStoreSize(v->getElementType()) << "]";
    else
      *O << "[\"other\"]";
  }
  *O << "]";
}

static void dumpConst(const Constant* c);

static void dumpFP(const APFloat& f) {
  APFloat d = f;
  bool lose;
  d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
  double v = d.convertToDouble();
  char buf[64];
  snprintf(buf, sizeof buf, "%a", v);
  *O << "[\"f\",\"" << buf << "\"]";
}

static void dumpConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s;
    ci->getValue().toString(s, 10, true);
    *O << "[\"i\"," << ci->getBitWidth() << "," << s << "]";
  } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
    dumpFP(cf->getValueAPF());
  } else if (isa<ConstantPointerNull>(c)) {
    *O << "[\"null\"]";
  } else if (isa<UndefValue>(c)) {
    *O << "[\"undef\"," << tid(c->getType()) << "]";
  } else if (isa<ConstantAggregateZero>(c)) {
    *O << "[\"zero\"," << tid(c->getType()) << "]";
  } else if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) {
      dumpConst(ga->getAliasee());
      return;
    }
    *O << "[\"g\",";
    str(gv->getName());
    *O << "]";
  } else if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    *O << "[\"agg\"," << tid(c->getType()) << ",[";
    for (unsigned i = 0; i < cds->getNumElements(); i++) {
      if (i) *O << ",";
      dumpConst(cds->getElementAsConstant(i));
    }
    *O << "]]";
  } else if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    *O << "[\"agg\"," << tid(c->getType()) << ",[";
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      if (i) *O << ",";
      dumpConst(cast<Constant>(ca->getOperand(i)));
    }
    *O << "]]";
  } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        *O << "[\"off\",";
        dumpConst(cast<Constant>(gep->getPointerOperand()));
        *O << "," << off.getSExtValue() << "]";
        return;
      }
    }
    if (ce->getOpcode() == Instruction::PtrToInt) {
      *O << "[\"p2i\",";
      dumpConst(ce->getOperand(0));
      *O << "]";
      return;
    }
    if (ce->getOpcode() == Instruction::IntToPtr) {
      *O << "[\"i2p\",";
      dumpConst(ce->getOperand(0));
      *O << "]";
      return;
    }
    *O << "[\"cexpr\",";
    str(ce->getOpcodeName());
    *O << "]";
  } else {
    *O << "[\"unk\"]";
  }
}

struct FnDumper {
  std::map<const Value*, int> ids;
  std::map<const BasicBlock*, int> bids;
  int next = 0;
  int id(const Value* v) {
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    return ids[v] = next++;
  }
  void op(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v))
      dumpConst(c);
    else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v))
      *O << "[\"md\"]";
    else
      *O << id(v);
  }
  void line(const Instruction& I) {
    if (auto& dl = I.getDebugLoc())
      *O << dl.getLine();
    else
      *O << 0;
  }
  void inst(const Instruction& I) {
    *O << "[";
    auto head = [&](const char* n) {
      *O << '"' << n << "\"," << (I.getType()->isVoidTy() ? -1 : id(&I));
    };
    auto c = [&]() { *O << ","; };
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      head("bin");
      c();
      str(b->getOpcodeName());
      c();
      *O << tid(b->getType());
      c();
      op(b->getOperand(0));
      c();
      op(b->getOperand(1));
      c();
      int fl = 0;
      if (auto* o = dyn_cast<OverflowingBinaryOperator>(b)) {
        if (o->hasNoSignedWrap()) fl |= 1;
        if (o->hasNoUnsignedWrap()) fl |= 2;
      }
      *O << fl;
    } else if (auto* u = dyn_cast<UnaryOperator>(&I)) {
      head("fneg");
      c();
      *O << tid(u->getType());
      c();
      op(u->getOperand(0));
    } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
      head("icmp");
      c();
      str(CmpInst::getPredicateName(ic->getPredicate()));
      c();
      *O << tid(ic->getOperand(0)->getType());
      c();
      op(ic->getOperand(0));
      c();
      op(ic->getOperand(1));
    } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
      head("fcmp");
      c();
      str(CmpInst::getPredicateName(fc->getPredicate()));
      c();
      *O << tid(fc->getOperand(0)->getType());
      c();
      op(fc->getOperand(0));
      c();
      op(fc->getOperand(1));
    } else if (auto* s = dyn_cast<SelectInst>(&I)) {
      head("select");
      c();
      *O << tid(s->getType());
      c();
      op(s->getCondition());
      c();
      op(s->getTrueValue());
      c();
      op(s->getFalseValue());
    } else if (auto* ca = dyn_cast<CastInst>(&I)) {
      head("cast");
      c();
      str(ca->getOpcodeName());
      c();
      *O << tid(ca->getSrcTy()) << "," << tid(ca->getDestTy());
      c();
      op(ca->getOperand(0));
    } else if (auto* l = dyn_cast<LoadInst>(&I)) {
      head("load");
      c();
      *O << tid(l->getType());
      c();
      op(l->getPointerOperand());
    } else if (auto* st = dyn_cast<StoreInst>(&I)) {
      head("store");
      c();
      *O << tid(st->getValueOperand()->getType());
      c();
      op(st->getValueOperand());
      c();
      op(st->getPointerOperand());
    } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
      head("alloca");
      c();
      *O << DL->getTypeAllocSize(al->getAllocatedType()) << ",";
      op(al->getArraySize());
      c();
      str(al->getName());
    } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      head("gep");
      c();
      op(g->getPointerOperand());
      c();
      MapVector<Value*, APInt> vars;
      APInt off(64, 0);
      if (!g->collectOffset(*DL, 64, vars, off)) {
        *O << "\"unsupported\"";
      } else {
        *O << off.getSExtValue() << ",[";
        bool f = true;
        for (auto& kv : vars) {
          if (!f) *O << ",";
          f = false;
          *O << "[";
          op(kv.first);
          *O << "," << kv.second.getSExtValue() << ","
             << tid(kv.first->getType()) << "]";
        }
        *O << "]";
      }
    } else if (auto* p = dyn_cast<PHINode>(&I)) {
      head("phi");
      c();
      *O << tid(p->getType()) << ",[";
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
        if (i) *O << ",";
        *O << "[";
        op(p->getIncomingValue(i));
        *O << "," << bids[p->getIncomingBlock(i)] << "]";
      }
      *O << "]";
    } else if (auto* cb = dyn_cast<CallBase>(&I)) {
      head(isa<InvokeInst>(cb) ? "invoke" : "call");
      c();
      *O << tid(cb->getType());
      c();
      if (isa<InlineAsm>(cb->getCalledOperand()))
        *O << "[\"asm\"]";
      else
        op(cb->getCalledOperand());
      *O << ",[";
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        if (i) *O << ",";
        op(cb->getArgOperand(i));
      }
      *O << "],[";
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        if (i) *O << ",";
        *O << tid(cb->getArgOperand(i)->getType());
      }
      *O << "]";
      if (auto* iv = dyn_cast<InvokeInst>(cb))
        *O << "," << bids[iv->getNormalDest()] << ","
           << bids[iv->getUnwindDest()];
    } else if (auto* br = dyn_cast<BranchInst>(&I)) {
      if (br->isUnconditional()) {
        head("br");
        c();
        *O << bids[br->getSuccessor(0)];
      } else {
        head("cbr");
        c();
        op(br->getCondition());
        *O << "," << bids[br->getSuccessor(0)] << ","
           << bids[br->getSuccessor(1)];
      }
    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
      head("switch");
      c();
      *O << tid(sw->getCondition()->getType());
      c();
      op(sw->getCondition());
      *O << "," << bids[sw->getDefaultDest()] << ",[";
      bool f = true;
      for (auto& cs : sw->cases()) {
        if (!f) *O << ",";
        f = false;
        SmallString<40> sstr;
        cs.getCaseValue()->getValue().toString(sstr, 10, true);
        *O << "[" << sstr << "," << bids[cs.getCaseSuccessor()] << "]";
      }
      *O << "]";
    } else if (auto* r = dyn_cast<ReturnInst>(&I)) {
      head("ret");
      if (r->getReturnValue()) {
        c();
        op(r->getReturnValue());
      }
    } else if (isa<UnreachableInst>(&I)) {
      head("unreachable");
    } else if (auto* rs = dyn_cast<ResumeInst>(&I)) {
      head("resume");
      c();
      op(rs->getValue());
    } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
      head("landingpad");
      *O << "," << (lp->isCleanup() ? 1 : 0) << ",[";
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (i) *O << ",";
        *O << "[" << (lp->isCatch(i) ? "\"catch\"," : "\"filter\",");
        dumpConst(lp->getClause(i));
        *O << "]";
      }
      *O << "]";
    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
      head("extractvalue");
      c();
      op(ev->getAggregateOperand());
      *O << ",[";
      bool f = true;
      for (auto i : ev->indices()) {
        if (!f) *O << ",";
        f = false;
        *O << i;
      }
      *O << "]";
    } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
      head("insertvalue");
      c();
      *O << tid(iv->getType());
      c();
      op(iv->getAggregateOperand());
      c();
      op(iv->getInsertedValueOperand());
      *O << ",[";
      bool f = true;
      for (auto i : iv->indices()) {
        if (!f) *O << ",";
        f = false;
        *O << i;
      }
      *O << "]";
    } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
      head("extractelement");
      c();
      op(ee->getVectorOperand());
      c();
      op(ee->getIndexOperand());
    } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
      head("insertelement");
      c();
      *O << tid(ie->getType());
      c();
      op(ie->getOperand(0));
      c();
      op(ie->getOperand(1));
      c();
      op(ie->getOperand(2));
    } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
      head("shuffle");
      c();
      *O << tid(sv->getOperand(0)->getType());
      c();
      op(sv->getOperand(0));
      c();
      op(sv->getOperand(1));
      *O << ",[";
      bool f = true;
      for (int m : sv->getShuffleMask()) {
        if (!f) *O << ",";
        f = false;
        *O << m;
      }
      *O << "]";
    } else if (isa<FreezeInst>(&I)) {
      head("freeze");
      c();
      op(I.getOperand(0));
    } else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
      head("rmw");
      c();
      str(AtomicRMWInst::getOperationName(rmw->getOperation()));
      c();
      *O << tid(rmw->getType());
      c();
      op(rmw->getPointerOperand());
      c();
      op(rmw->getValOperand());
    } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
      head("cmpxchg");
      c();
      *O << tid(cx->getNewValOperand()->getType());
      c();
      op(cx->getPointerOperand());
      c();
      op(cx->getCompareOperand());
      c();
      op(cx->getNewValOperand());
    } else if (isa<FenceInst>(&I)) {
      head("fence");
    } else {
      head("unsupported");
      c();
      str(I.getOpcodeName());
    }
    *O << ",";
    line(I);
    *O << "]";
  }
  void run(Function& F) {
    DominatorTree DT(F);
    LoopInfo LI(DT);
    int n = 0;
    for (auto& a : F.args()) id(&a);
    std::vector<BasicBlock*> order;
    ReversePostOrderTraversal<Function*> rpo(&F);
    for (auto* b : rpo) {
      bids[b] = n++;
      order.push_back(b);
    }
    *O << "{\"name\":";
    str(F.getName());
    *O << ",\"dem\":";
    str(demangle(F.getName().str()));
    if (auto* sp = F.getSubprogram()) {
      *O << ",\"file\":";
      str(sp->getFilename());
      *O << ",\"line\":" << sp->getLine();
    }
    *O << ",\"ret\":" << tid(F.getReturnType());
    *O << ",\"nargs\":" << F.arg_size() << ",\"argt\":[";
    bool f = true;
    for (auto& a : F.args()) {
      if (!f) *O << ",";
      f = false;
      *O << tid(a.getType());
    }
    *O << "],\"byval\":[";
    f = true;
    for (auto& a : F.args()) {
      if (!f) *O << ",";
      f = false;
      *O << (a.hasByValAttr()
                 ? (int)DL->getTypeAllocSize(a.getParamByValType())
                 : 0);
    }
    *O << "],\"loops\":[";
    // innermost loop header per block, and parent header per header
    f = true;
    for (auto* b : order) {
      if (!f) *O << ",";
      f = false;
      Loop* L = LI.getLoopFor(b);
      *O << "[";
      bool g = true;
      while (L) {
        if (!g) *O << ",";
        g = false;
        *O << bids[L->getHeader()];
        L = L->getParentLoop();
      }
      *O << "]";
    }
    *O << "],\"blocks\":[";
    f = true;
    for (auto* b : order) {
      if (!f) *O << ",";
      f = false;
      *O << "[";
      bool g = true;
      for (auto& I : *b) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
          auto k = ii->getIntrinsicID();
          if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end ||
              k == Intrinsic::experimental_noalias_scope_decl ||
              k == Intrinsic::assume)
            continue;
        }
        // phis from unreachable predecessors
        if (!g) *O << ",\n";
        g = false;
        if (auto* p = dyn_cast<PHINode>(&I)) {
          *O << "[\"phi\"," << id(p) << "," << tid(p->getType()) << ",[";
          bool h = true;
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
            if (!bids.count(p->getIncomingBlock(i))) continue;
            if (!h) *O << ",";
            h = false;
            *O << "[";
            op(p->getIncomingValue(i));
            *O << "," << bids[p->getIncomingBlock(i)] << "]";
          }
          *O << "],";
          line(I);
          *O << "]";
          continue;
        }
        inst(I);
      }
      *O << "]\n";
    }
    *O << "],\"nvals\":" << next << "}";
  }
};

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  LLVMContext ctx;
  std::vector<std::string> noinl;
  {
    std::ifstream f(argv[2]);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty()) noinl.push_back(l);
  }
  std::string prefix = argv[3];
  std::unique_ptr<Module> M;
  for (int i = 4; i < argc; i++) {
    SMDiagnostic err;
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) {
      err.print(argv[0], errs());
      return 2;
    }
    if (!M)
      M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m)))
      return 2;
  }
  DL = &M->getDataLayout();
  std::set<std::string> keep;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    auto dem = demangle(F.getName().str());
    StringRef nm = F.getName();
    if (nm.starts_with(prefix) || nm.starts_with("vs_")) {
      keep.insert(nm.str());
      F.addFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::AlwaysInline);
    }
    for (auto& s : noinl)
      if (dem.find(s) != std::string::npos) {
        F.addFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        F.removeFnAttr(Attribute::InlineHint);
      }
    F.removeFnAttr(Attribute::OptimizeNone);
  }
  // stubs referenced by annotation strings only: keep them (prefix vs_)
  internalizeModule(*M, [&](const GlobalValue& gv) {
    return keep.count(gv.getName().str()) > 0;
  });
  {
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    // Library-call semantics are left alone: sin(0.5) must stay a call.
    TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple()));
    TLII.disableAllFunctions();
    FAM.registerPass([&] { return TargetLibraryAnalysis(TLII); });
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(
            MPM,
            "globaldce,function(sroa,early-cse,simplifycfg),"
            "always-inline,cgscc(inline),"
            "function(sroa,early-cse,instcombine<no-verify-fixpoint>,"
            "simplifycfg,adce),globaldce")) {
      errs() << toString(std::move(e)) << "\n";
      return 2;
    }
    MPM.run(*M, MAM);
  }
  std::error_code ec;
  raw_fd_ostream out(argv[1], ec);
  O = &out;
  *O << "{\"funcs\":[";
  bool f = true;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    if (!f) *O << ",\n";
    f = false;
    FnDumper d;
    d.run(F);
  }
  *O << "],\n\"decls\":{";
  f = true;
  for (auto& F : *M) {
    if (!F.isDeclaration()) continue;
    if (!f) *O << ",\n";
    f = false;
    str(F.getName());
    *O << ":";
    str(demangle(F.getName().str()));
  }
  *O << "},\n\"globals\":[";
  f = true;
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) {
      if (G.getName() != "llvm.global_ctors" &&
          G.getName() != "llvm.global.annotations")
        continue;
    }
    if (!f) *O << ",\n";
    f = false;
    *O << "[";
    str(G.getName());
    *O << ","
       << (G.getValueType()->isSized()
               ? DL->getTypeAllocSize(G.getValueType()).getFixedValue()
               : 0)
       << "," << (G.isConstant() ? 1 : 0) << "," << tid(G.getValueType())
       << ",";
    if (G.hasInitializer())
      dumpConst(G.getInitializer());
    else
      *O << "null";
    *O << "]";
  }
  *O << "],\n";
  dumpTypes();
  *O << "}\n";
  return 0;
}
