// irdump: link the bitcode of one build configuration of wrench, normalise it
// (promote locals to SSA, inline the requested functions) and print the whole
// program as JSON for the analyses in this directory.  Nothing is executed.
//
// usage: irdump -o out.json [-p pipeline] [-inline @file] [-keep @file] in.bc...
//   -keep   names of functions that must stay separate; every other defined
//           function that is not address-taken is inlined into its callers
//   -inline names of functions to inline in any case
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static raw_ostream *O;
static const DataLayout *DL;

static void str(StringRef s) {
  *O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') *O << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); *O << b; }
    else *O << c;
  }
  *O << '"';
}
static std::string tyName(Type *t) {
  std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}
static std::map<const Value *, unsigned> ids;
static std::map<const BasicBlock *, unsigned> bbs;

static void constant(const Constant *c);
static void operand(const Value *v) {
  if (auto *i = dyn_cast<Instruction>(v)) { *O << "[\"i\"," << ids[i] << "]"; return; }
  if (auto *a = dyn_cast<Argument>(v)) { *O << "[\"a\"," << a->getArgNo() << "]"; return; }
  if (auto *b = dyn_cast<BasicBlock>(v)) { *O << "[\"bb\"," << bbs[b] << "]"; return; }
  if (auto *c = dyn_cast<Constant>(v)) { constant(c); return; }
  *O << "[\"?\"]";
}
static void constant(const Constant *c) {
  if (auto *k = dyn_cast<ConstantInt>(c)) {
    *O << "[\"c\",";
    if (k->getBitWidth() == 1) *O << k->getZExtValue();
    else if (k->getBitWidth() <= 64) *O << k->getSExtValue(); else *O << 0;
    *O << "," << k->getBitWidth() << "]"; return;
  }
  if (auto *k = dyn_cast<ConstantFP>(c)) {
    *O << "[\"f\",";
    SmallString<32> s; k->getValueAPF().toString(s); str(s); *O << "]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { *O << "[\"null\"]"; return; }
  if (isa<UndefValue>(c)) { *O << "[\"undef\"]"; return; }
  if (auto *f = dyn_cast<Function>(c)) { *O << "[\"fn\","; str(f->getName()); *O << "]"; return; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { *O << "[\"g\","; str(g->getName()); *O << "]"; return; }
  if (auto *g = dyn_cast<GlobalAlias>(c)) { *O << "[\"g\","; str(g->getName()); *O << "]"; return; }
  if (auto *b = dyn_cast<BlockAddress>(c)) {
    *O << "[\"ba\","; str(b->getFunction()->getName()); *O << ",";
    unsigned n = 0; for (auto &bb : *b->getFunction()) { if (&bb == b->getBasicBlock()) break; ++n; }
    *O << n << "]"; return;
  }
  if (isa<ConstantAggregateZero>(c)) { *O << "[\"zero\","; str(tyName(c->getType())); *O << "]"; return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    *O << "[\"data\",";
    if (d->isCString()) { str(d->getAsCString()); }
    else if (d->getElementType()->isIntegerTy()) {
      *O << "[";
      for (unsigned i = 0; i < d->getNumElements(); ++i) { if (i) *O << ","; *O << (long long)d->getElementAsAPInt(i).getSExtValue(); }
      *O << "]";
    } else *O << "null";
    *O << "]"; return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
    *O << "[\"agg\",[";
    for (unsigned i = 0; i < c->getNumOperands(); ++i) { if (i) *O << ","; constant(cast<Constant>(c->getOperand(i))); }
    *O << "]]"; return;
  }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(e)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off)) {
        *O << "[\"cgep\","; constant(cast<Constant>(g->getPointerOperand())); *O << "," << off.getSExtValue() << "]"; return;
      }
    }
    *O << "[\"ce\","; str(e->getOpcodeName()); *O << ",[";
    for (unsigned i = 0; i < e->getNumOperands(); ++i) { if (i) *O << ","; constant(cast<Constant>(e->getOperand(i))); }
    *O << "]]"; return;
  }
  *O << "[\"?\"]";
}

static std::set<std::string> readList(const char *f) {
  std::set<std::string> s; std::ifstream in(f); std::string l;
  while (std::getline(in, l)) if (!l.empty()) s.insert(l);
  return s;
}

// value ranges of the operands of integer divisions (LLVM's lazy value information: branch-sensitive interval analysis)
struct Rng { bool zero, m1, min; };
static std::map<const Instruction *, Rng> divs;
static void runPipe(Module &M, StringRef pipe, bool ranges = false) {
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; exit(3); }
  MPM.run(M, MAM);
  if (ranges) for (auto &F : M) {
    if (F.isDeclaration()) continue;
    auto &LVI = FAM.getResult<LazyValueAnalysis>(F);
    for (auto &I : instructions(F)) {
      unsigned o = I.getOpcode();
      if (o != Instruction::SDiv && o != Instruction::UDiv && o != Instruction::SRem && o != Instruction::URem) continue;
      auto *bo = cast<BinaryOperator>(&I);
      unsigned w = I.getType()->getIntegerBitWidth();
      ConstantRange b = LVI.getConstantRange(bo->getOperand(1), &I, true), a = LVI.getConstantRange(bo->getOperand(0), &I, true);
      // a wrapped interval ("anything but 0") does not survive sign extension: take the narrow value's interval too
      auto narrow = [&](Value *v, APInt pt, bool &r) {
        if (auto *e = dyn_cast<CastInst>(v)) if (isa<SExtInst>(e) || isa<ZExtInst>(e)) {
          unsigned nw = e->getSrcTy()->getIntegerBitWidth();
          if (isa<SExtInst>(e) ? pt.isSignedIntN(nw) : pt.isIntN(nw)) { if (!LVI.getConstantRange(e->getOperand(0), &I, true).contains(pt.trunc(nw))) r = false; }
          else r = false;
        }
      };
      bool z = b.contains(APInt::getZero(w)), m = b.contains(APInt::getAllOnes(w));
      narrow(bo->getOperand(1), APInt::getZero(w), z); narrow(bo->getOperand(1), APInt::getAllOnes(w), m);
      divs[&I] = Rng{z, m, a.contains(APInt::getSignedMinValue(w))}; (void)sizeof(Rng{b.contains(APInt::getZero(w)), b.contains(APInt::getAllOnes(w)), a.contains(APInt::getSignedMinValue(w))});
    }
  }
}

static void dumpDI(Module &M) {
  DebugInfoFinder F; F.processModule(M);
  *O << "\"ditypes\":{";
  bool first = true; std::set<std::string> seen;
  for (auto *t : F.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c || c->isForwardDecl()) continue;
    std::string name = c->getName().str();
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      std::string key = name.empty() ? ("anon:" + std::to_string(c->getLine()) + ":" + c->getFilename().str()) : name;
      if (!seen.insert("enum " + key).second) continue;
      if (!first) *O << ",\n"; first = false;
      str("enum " + key); *O << ":{\"file\":"; str(c->getFilename()); *O << ",\"line\":" << c->getLine() << ",\"values\":{";
      bool f2 = true;
      for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) {
        if (!f2) *O << ","; f2 = false; str(en->getName()); *O << ":" << en->getValue().getSExtValue();
      }
      *O << "}}";
    } else if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_union_type) {
      if (name.empty()) name = ("anon:" + std::to_string(c->getLine()) + ":" + c->getFilename().str());
      if (!seen.insert("struct " + name).second) continue;
      if (!first) *O << ",\n"; first = false;
      str("struct " + name); *O << ":{\"file\":"; str(c->getFilename()); *O << ",\"line\":" << c->getLine() << ",\"size\":" << c->getSizeInBits() / 8 << ",\"fields\":[";
      bool f2 = true;
      std::function<void(const DICompositeType *, uint64_t)> walk = [&](const DICompositeType *ct, uint64_t base) {
        for (auto *e : ct->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) {
          if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
          if (d->isStaticMember()) continue;
          uint64_t off = base + d->getOffsetInBits() / 8;
          DIType *bt = d->getBaseType();
          while (bt && isa<DIDerivedType>(bt) && (bt->getTag() == dwarf::DW_TAG_typedef || bt->getTag() == dwarf::DW_TAG_const_type || bt->getTag() == dwarf::DW_TAG_volatile_type)) bt = cast<DIDerivedType>(bt)->getBaseType();
          auto *sub = dyn_cast_or_null<DICompositeType>(bt);
          if (sub && ((d->getName().empty()) || d->getTag() == dwarf::DW_TAG_inheritance)) { walk(sub, off); continue; }
          if (!f2) *O << ","; f2 = false;
          *O << "["; str(d->getName()); *O << "," << off << "," << d->getSizeInBits() / 8 << ",";
          // pointee / type name
          std::string tn; DIType *q = d->getBaseType(); int depth = 0;
          while (q && depth++ < 8) {
            if (auto *dd = dyn_cast<DIDerivedType>(q)) {
              if (dd->getTag() == dwarf::DW_TAG_pointer_type) tn += "*";
              else if (dd->getTag() == dwarf::DW_TAG_reference_type) tn += "&";
              else if (dd->getTag() == dwarf::DW_TAG_typedef && !dd->getName().empty()) { tn += dd->getName().str(); break; }
              q = dd->getBaseType();
            } else if (isa<DISubroutineType>(q)) { tn += "fn"; break; }
            else { tn += q->getName().str(); break; }
          }
          str(tn); *O << "]";
        }
      };
      walk(c, 0);
      *O << "]}";
    }
  }
  *O << "}";
}

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic err; std::unique_ptr<Module> M;
  std::string out, pipe = "function(sroa)"; std::set<std::string> inl, keep; bool haveKeep = false, ranges = false;
  std::vector<std::string> in;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "-p") pipe = argv[++i];
    else if (a == "-inline") inl = readList(argv[++i]);
    else if (a == "-ranges") ranges = true;
    else if (a == "-keep") { keep = readList(argv[++i]); haveKeep = true; }
    else in.push_back(a);
  }
  for (auto &f : in) {
    auto m = parseIRFile(f, err, C);
    if (!m) { err.print("irdump", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) return 2;
  }
  DL = &M->getDataLayout();
  // functions that become part of their callers
  auto addressTaken = [](Function &f) { return f.hasAddressTaken(); };
  std::set<std::string> inlined;
  for (auto &f : *M) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::OptimizeNone);
    f.removeFnAttr(Attribute::NoInline);
    bool want = inl.count(f.getName().str()) || (haveKeep && !keep.count(f.getName().str()) && !addressTaken(f));
    bool selfRec = false;
    for (auto &I : instructions(f)) if (auto *cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() == &f) selfRec = true;
    if (want && !selfRec) { f.addFnAttr(Attribute::AlwaysInline); inlined.insert(f.getName().str()); }
    else { f.removeFnAttr(Attribute::AlwaysInline); f.removeFnAttr(Attribute::InlineHint); f.addFnAttr(Attribute::NoInline); }
  }
  if (!inlined.empty()) runPipe(*M, "always-inline");
  runPipe(*M, pipe, ranges);

  std::error_code ec; raw_fd_ostream os(out, ec); O = &os;
  os << "{";
  dumpDI(*M);
  os << ",\n\"inlined\":["; { bool f1 = true; for (auto &s : inlined) { if (!f1) os << ","; f1 = false; str(s); } } os << "]";
  os << ",\n\"globals\":{";
  bool first = true;
  for (auto &g : M->globals()) {
    if (!first) os << ",\n"; first = false;
    str(g.getName());
    os << ":{\"const\":" << (g.isConstant() ? "true" : "false") << ",\"decl\":" << (g.isDeclaration() ? "true" : "false")
       << ",\"linkage\":" << (int)g.getLinkage() << ",\"type\":"; str(tyName(g.getValueType()));
    SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
    os << ",\"file\":"; str(gv.empty() ? "" : gv[0]->getVariable()->getFilename()); os << ",\"line\":" << (gv.empty() ? 0 : gv[0]->getVariable()->getLine());
    os << ",\"name\":"; str(gv.empty() ? "" : gv[0]->getVariable()->getName());
    if (g.hasInitializer()) { os << ",\"init\":"; constant(g.getInitializer()); }
    os << "}";
  }
  os << "},\n\"functions\":{";
  first = true;
  for (auto &f : *M) {
    if (!first) os << ",\n"; first = false;
    str(f.getName());
    os << ":{\"dem\":"; str(demangle(f.getName().str()));
    os << ",\"decl\":" << (f.isDeclaration() ? "true" : "false") << ",\"linkage\":" << (int)f.getLinkage() << ",\"ret\":"; str(tyName(f.getReturnType()));
    os << ",\"addr\":" << (f.hasAddressTaken() ? "true" : "false");
    os << ",\"args\":["; for (unsigned i = 0; i < f.arg_size(); ++i) { if (i) os << ","; os << "["; str(f.getArg(i)->getName()); os << ","; str(tyName(f.getArg(i)->getType())); os << "]"; } os << "]";
    if (auto *sp = f.getSubprogram()) { os << ",\"file\":"; str(sp->getFilename()); os << ",\"line\":" << sp->getLine(); }
    if (!f.isDeclaration()) {
      ids.clear(); bbs.clear(); unsigned n = 0, b = 0;
      for (auto &bb : f) { bbs[&bb] = b++; for (auto &I : bb) ids[&I] = n++; }
      os << ",\"blocks\":[";
      bool fb = true;
      for (auto &bb : f) {
        if (!fb) os << ","; fb = false;
        os << "\n{\"name\":"; str(bb.getName()); os << ",\"i\":[";
        bool fi = true;
        for (auto &I : bb) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
            auto id = ii->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue;
          }
          if (!fi) os << ","; fi = false;
          os << "\n["; os << ids[&I] << ","; str(I.getOpcodeName()); os << ","; str(tyName(I.getType())); os << ",[";
          if (auto *p = dyn_cast<PHINode>(&I)) {
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) { if (k) os << ","; os << "["; operand(p->getIncomingValue(k)); os << "," << bbs[p->getIncomingBlock(k)] << "]"; }
          } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            operand(cb->getCalledOperand());
            for (auto &a : cb->args()) { os << ","; operand(a.get()); }
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            operand(sw->getCondition()); os << ",[\"bb\"," << bbs[sw->getDefaultDest()] << "]";
          } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            operand(g->getPointerOperand());
          } else {
            bool fo = true; for (auto &o : I.operands()) { if (!fo) os << ","; fo = false; operand(o.get()); }
          }
          os << "],"; 
          unsigned line = 0; std::string file; 
          if (auto &d = I.getDebugLoc()) { line = d.getLine(); file = cast<DIScope>(d.getScope())->getFilename().str(); }
          os << line << ","; str(file); os << ",";
          // extra
          if (auto *c = dyn_cast<CmpInst>(&I)) str(CmpInst::getPredicateName(c->getPredicate()));
          else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> var; APInt off(64, 0);
            if (cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off)) {
              os << "{\"off\":" << off.getSExtValue() << ",\"var\":["; bool fv = true;
              for (auto &kv : var) { if (!fv) os << ","; fv = false; os << "["; operand(kv.first); os << "," << kv.second.getSExtValue() << "]"; }
              os << "],\"st\":"; str(tyName(g->getSourceElementType())); os << ",\"n\":" << g->getNumIndices() << "}";
            } else os << "null";
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            os << "["; bool fc = true; for (auto &c : sw->cases()) { if (!fc) os << ","; fc = false; os << "[" << c.getCaseValue()->getSExtValue() << "," << bbs[c.getCaseSuccessor()] << "]"; } os << "]";
          } else if (auto *a = dyn_cast<AllocaInst>(&I)) str(tyName(a->getAllocatedType()));
          else if (auto *l = dyn_cast<LoadInst>(&I)) { (void)l; os << "null"; }
          else if (auto *s = dyn_cast<StoreInst>(&I)) { str(tyName(s->getValueOperand()->getType())); }
          else if (divs.count(&I)) { auto &r = divs[&I]; os << "{\"zero\":" << (int)r.zero << ",\"m1\":" << (int)r.m1 << ",\"min\":" << (int)r.min << "}"; }
          else if (auto *ov = dyn_cast<OverflowingBinaryOperator>(&I)) os << (ov->hasNoSignedWrap() ? 1 : 0) + (ov->hasNoUnsignedWrap() ? 2 : 0);
          else os << "null";
          os << "]";
        }
        os << "]}";
      }
      os << "]";
    }
    os << "}";
  }
  os << "}}\n";
  return 0;
}
