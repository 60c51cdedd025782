// irdump: load LLVM bitcode, inline every internal (static) function and the
// exported functions named with --inline=, promote locals to SSA and write the
// resolved program as JSON for the Python analyses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Linker/Linker.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
namespace json = llvm::json;

static std::map<std::string, std::map<uint64_t, std::string>> FieldNames;
static std::vector<std::pair<std::string, const DICompositeType *>> Comps;
static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static void addComposite(StringRef name, const DICompositeType *ct) {
  if (name.empty()) return;
  auto &m = FieldNames[name.str()];
  Comps.push_back({name.str(), ct});
  for (auto *e : ct->getElements())
    if (auto *d = dyn_cast_or_null<DIDerivedType>(e))
      if (d->getTag() == dwarf::DW_TAG_member ||
          d->getTag() == dwarf::DW_TAG_inheritance)
        if (!d->isStaticMember())
          m.emplace(d->getOffsetInBits() / 8,
                    d->getName().empty() ? std::string("<anon>")
                                         : d->getName().str());
}

static std::string cleanStruct(StringRef n) {
  for (StringRef p : {"struct.", "class.", "union."})
    if (n.starts_with(p)) { n = n.drop_front(p.size()); break; }
  // llvm-link uniquifies clashing names with .NN
  size_t dot = n.rfind('.');
  if (dot != StringRef::npos) {
    StringRef tail = n.substr(dot + 1);
    bool digits = !tail.empty();
    for (char c : tail) if (!isdigit((unsigned char)c)) digits = false;
    if (digits) n = n.substr(0, dot);
  }
  return n.str();
}

static std::string fieldName(StructType *st, unsigned idx) {
  if (st->hasName()) {
    auto it = FieldNames.find(cleanStruct(st->getName()));
    if (it != FieldNames.end()) {
      uint64_t off = DL->getStructLayout(st)->getElementOffset(idx);
      auto f = it->second.find(off);
      if (f != it->second.end()) return f->second;
    }
  }
  return "#" + std::to_string(idx);
}

// Source type of a debug-info type: u32/s32/f32/bool, "struct:x", "T*", "fn".
static std::string diTy(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "?";
  if (auto *b = dyn_cast<DIBasicType>(t)) {
    std::string n = std::to_string(b->getSizeInBits());
    switch (b->getEncoding()) {
      case dwarf::DW_ATE_boolean: return "bool";
      case dwarf::DW_ATE_unsigned: case dwarf::DW_ATE_unsigned_char: return "u" + n;
      case dwarf::DW_ATE_signed: case dwarf::DW_ATE_signed_char: return "s" + n;
      case dwarf::DW_ATE_float: return "f" + n;
    }
    return "b" + n;
  }
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: case dwarf::DW_TAG_reference_type:
      case dwarf::DW_TAG_rvalue_reference_type:
        return diTy(d->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_typedef:
        if (auto *ct = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
          if (ct->getName().empty()) return (ct->getTag() == dwarf::DW_TAG_enumeration_type ? "enum:" : "struct:") + d->getName().str();
        return diTy(d->getBaseType(), depth + 1);
      default: return diTy(d->getBaseType(), depth + 1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    switch (c->getTag()) {
      case dwarf::DW_TAG_enumeration_type: return "enum:" + c->getName().str();
      case dwarf::DW_TAG_array_type: return diTy(c->getBaseType(), depth + 1) + "[]";
      case dwarf::DW_TAG_union_type: return "union:" + c->getName().str();
      default: return "struct:" + c->getName().str();
    }
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return "?";
}
static std::map<std::string, std::map<uint64_t, std::string>> FieldTys;

static std::string tyStr(Type *t) {
  if (auto *s = dyn_cast<StructType>(t))
    if (s->hasName()) return "%" + cleanStruct(s->getName());
  if (auto *a = dyn_cast<ArrayType>(t))
    return "[" + std::to_string(a->getNumElements()) + " x " + tyStr(a->getElementType()) + "]";
  std::string s; raw_string_ostream o(s); t->print(o); return s;
}

static json::Value opnd(const Value *v);

static json::Array gepSteps(const GEPOperator *g) {
  json::Array steps;
  bool first = true;
  for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *ix = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      unsigned i = cast<ConstantInt>(ix)->getZExtValue();
      steps.push_back(json::Array{"f", st->hasName() ? cleanStruct(st->getName()) : std::string(""),
                                  (int64_t)DL->getStructLayout(st)->getElementOffset(i),
                                  fieldName(st, i)});
    } else {
      uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (first) {
        if (auto *c = dyn_cast<ConstantInt>(ix))
          if (c->isZero()) { first = false; continue; }
        steps.push_back(json::Array{"p", opnd(ix), (int64_t)sz, tyStr(it.getIndexedType())});
      } else {
        uint64_t n = 0;
        steps.push_back(json::Array{"i", opnd(ix), (int64_t)sz, tyStr(it.getIndexedType())});
        (void)n;
      }
    }
    first = false;
  }
  return steps;
}

static json::Value opnd(const Value *v) {
  auto it = Ids.find(v);
  if (it != Ids.end()) return json::Array{"v", it->second};
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    unsigned bits = c->getBitWidth();
    if (bits <= 64) return json::Array{"c", (int64_t)c->getSExtValue(), (int64_t)bits};
    SmallString<40> s; c->getValue().toStringSigned(s);
    return json::Array{"k", s.str().str()};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (auto *f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
  if (auto *a = dyn_cast<GlobalAlias>(v)) return opnd(a->getAliasee());
  if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
  if (isa<UndefValue>(v)) return json::Array{"u"};
  if (auto *cf = dyn_cast<ConstantFP>(v)) {
    SmallString<32> s; cf->getValueAPF().toString(s);
    return json::Array{"k", s.str().str()};
  }
  if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce))
      return json::Array{"gep", opnd(g->getPointerOperand()), gepSteps(g)};
    json::Array ops;
    for (auto &o : ce->operands()) ops.push_back(opnd(o));
    return json::Array{"ce", ce->getOpcodeName(), std::move(ops)};
  }
  if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", Ids.count(bb) ? Ids[bb] : -1};
  std::string s; raw_string_ostream o(s); v->printAsOperand(o, false);
  return json::Array{"k", o.str()};
}

static json::Value loc(const DebugLoc &d) {
  json::Array a;
  const DILocation *l = d.get();
  while (l) {
    auto *sp = l->getScope()->getSubprogram();
    a.push_back(json::Array{l->getFilename().str(), (int64_t)l->getLine(),
                            sp ? (sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : std::string("")});
    l = l->getInlinedAt();
  }
  return a;
}

static json::Object Structs;

// The struct (and field) or type each step of an address goes through, in the order of gepSteps.
static void stepNames(const GEPOperator *g, function_ref<void(const std::string &)> out) {
  bool first = true;
  for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    if (StructType *st = it.getStructTypeOrNull()) {
      out(st->hasName() ? cleanStruct(st->getName()) : std::string(""));
      out(fieldName(st, cast<ConstantInt>(it.getOperand())->getZExtValue()));
    } else {
      if (first)
        if (auto *c = dyn_cast<ConstantInt>(it.getOperand()))
          if (c->isZero()) { first = false; continue; }
      out(tyStr(it.getIndexedType()));
    }
    first = false;
  }
}

// Record, before linking merges types of the same shape and before inlining
// simplifies zero-offset addresses away, which field each access denotes.
static void annotate(Module &M, LLVMContext &ctx) {
  DL = &M.getDataLayout();
  Comps.clear();
  {
    DebugInfoFinder F; F.processModule(M);
    for (auto *t : F.types()) {
      if (auto *ct = dyn_cast<DICompositeType>(t)) {
        if (ct->getTag() == dwarf::DW_TAG_structure_type || ct->getTag() == dwarf::DW_TAG_class_type) {
          addComposite(ct->getName(), ct);
        }
      } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_typedef)
          if (auto *ct = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
            if (ct->getName().empty()) addComposite(d->getName(), ct);
      }
    }
  }
  for (auto &pr : Comps)
    for (auto *e : pr.second->getElements())
      if (auto *d = dyn_cast_or_null<DIDerivedType>(e))
        if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
          FieldTys[pr.first].emplace(d->getOffsetInBits() / 8, diTy(d->getBaseType()));
  for (auto *st : M.getIdentifiedStructTypes()) {
    if (st->isOpaque() || Structs.get(cleanStruct(st->getName()))) continue;
    json::Array fs;
    for (unsigned i = 0; i < st->getNumElements(); i++)
      fs.push_back(json::Array{fieldName(st, i), (int64_t)DL->getStructLayout(st)->getElementOffset(i), tyStr(st->getElementType(i)), (int64_t)DL->getTypeAllocSize(st->getElementType(i)), FieldTys[cleanStruct(st->getName())][DL->getStructLayout(st)->getElementOffset(i)]});
    Structs[cleanStruct(st->getName())] = json::Object{{"fields", std::move(fs)}, {"size", (int64_t)DL->getTypeAllocSize(st)}};
  }
  unsigned kind = ctx.getMDKindID("vt"), skind = ctx.getMDKindID("vs");
  for (auto &F : M) for (auto &BB : F) for (auto &I : BB) {
    if (auto *g = dyn_cast<GEPOperator>(&I)) {
      SmallVector<Metadata *, 8> ms;
      stepNames(g, [&](const std::string &x) { ms.push_back(MDString::get(ctx, x)); });
      ms.push_back(MDString::get(ctx, tyStr(g->getSourceElementType())));
      I.setMetadata(skind, MDNode::get(ctx, ms));
    }
    if (auto *a = dyn_cast<AllocaInst>(&I))
      I.setMetadata(skind, MDNode::get(ctx, {MDString::get(ctx, tyStr(a->getAllocatedType()))}));
    Value *p = nullptr;
    if (auto *x = dyn_cast<LoadInst>(&I)) p = x->getPointerOperand();
    else if (auto *x = dyn_cast<StoreInst>(&I)) p = x->getPointerOperand();
    else if (auto *x = dyn_cast<AtomicRMWInst>(&I)) p = x->getPointerOperand();
    else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) p = x->getPointerOperand();
    if (!p) continue;
    std::string sn, fn;
    for (int d = 0; d < 8 && sn.empty(); d++) {
      auto *g = dyn_cast<GEPOperator>(p);
      if (!g) break;
      for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
        if (StructType *st = it.getStructTypeOrNull()) {
          sn = st->hasName() ? cleanStruct(st->getName()) : std::string("anon");
          fn = fieldName(st, cast<ConstantInt>(it.getOperand())->getZExtValue());
        }
      p = g->getPointerOperand();
    }
    if (!sn.empty())
      I.setMetadata(kind, MDNode::get(ctx, {MDString::get(ctx, sn), MDString::get(ctx, fn)}));
  }
}

int main(int argc, char **argv) {
  LLVMContext ctx;
  std::set<std::string> extra, keep;
  std::vector<std::string> inputs;
  std::string out;
  bool noinl = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--inline=", 0) == 0) {
      StringRef r(a); r = r.drop_front(9);
      SmallVector<StringRef, 16> parts; r.split(parts, ',', -1, false);
      for (auto p : parts) extra.insert(p.str());
    } else if (a.rfind("--keep=", 0) == 0) {
      StringRef r(a); r = r.drop_front(7);
      SmallVector<StringRef, 16> parts; r.split(parts, ',', -1, false);
      for (auto p : parts) keep.insert(p.str());
    } else if (a == "--no-inline") noinl = true;
    else if (a == "-o") out = argv[++i];
    else inputs.push_back(a);
  }
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> L;
  for (auto &in : inputs) {
    SMDiagnostic err;
    auto m = parseIRFile(in, err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    annotate(*m, ctx);
    if (!M) { M = std::move(m); L = std::make_unique<Linker>(*M); }
    else if (L->linkInModule(std::move(m))) { errs() << "link failed " << in << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  std::set<std::string> internals;
  json::Object inlinedDefs;
  for (auto &F : *M) if (!F.isDeclaration() && F.hasLocalLinkage()) internals.insert(F.getName().str());
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (F.isDeclaration() || noinl) continue;
    bool inl = (F.hasLocalLinkage() || F.hasLinkOnceLinkage() || extra.count(F.getName().str()))
               && !keep.count(F.getName().str());
    if (inl) F.addFnAttr(Attribute::AlwaysInline);
    if (inl && extra.count(F.getName().str())) {}
  }
  unsigned kind = ctx.getMDKindID("vt"), skind = ctx.getMDKindID("vs");
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  for (int r = 0; r < 4; r++) {
    ModulePassManager MPM;
    if (!noinl) MPM.addPass(AlwaysInlinerPass(false));
    MPM.addPass(createModuleToFunctionPassAdaptor(PromotePass()));
    MPM.run(*M, MAM);
  }
  json::Array funcs;
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    json::Object fo;
    fo["name"] = F.getName().str();
    fo["decl"] = F.isDeclaration();
    fo["ret"] = tyStr(F.getReturnType());
    fo["vararg"] = F.isVarArg();
    fo["internal"] = F.hasLocalLinkage();
    fo["linkonce"] = F.hasLinkOnceLinkage();
    bool at = false;
    for (auto *u : F.users()) {
      if (auto *cb = dyn_cast<CallBase>(u)) { if (cb->getCalledOperand() == &F && !llvm::any_of(cb->args(), [&](const Use &x){return x.get()==&F;})) continue; }
      at = true;
    }
    fo["addr_taken"] = at;
    fo["noreturn"] = F.doesNotReturn();
    if (auto *sp = F.getSubprogram()) {
      json::Array ts;
      if (auto *st = sp->getType()) for (auto *t : st->getTypeArray()) ts.push_back(diTy(t));
      fo["dity"] = std::move(ts);
      json::Array pn;
      for (auto *rn : sp->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(rn)) if (lv->getArg()) pn.push_back(json::Array{(int64_t)lv->getArg(), lv->getName().str()});
      fo["dinames"] = std::move(pn);
    }
    Ids.clear();
    int n = 0;
    json::Array args;
    for (auto &A : F.args()) {
      Ids[&A] = n;
      json::Object ao;
      ao["id"] = n++; ao["name"] = A.getName().str(); ao["ty"] = tyStr(A.getType());
      ao["byval"] = A.hasByValAttr() ? tyStr(A.getParamByValType()) : std::string("");
      ao["sret"] = A.hasStructRetAttr() ? tyStr(A.getParamStructRetType()) : std::string("");
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    if (!F.isDeclaration()) {
      if (auto *sp = F.getSubprogram()) {
        fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine();
        fo["srcname"] = sp->getName().str();
      }
      for (auto &BB : F) { Ids[&BB] = n++; for (auto &I : BB) Ids[&I] = n++; }
      json::Object names, vtys;
      json::Array blocks;
      for (auto &BB : F) {
        json::Object bo; bo["id"] = Ids[&BB];
        json::Array insts;
        for (auto &I : BB) {
          if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
            for (auto *v : dv->location_ops())
              if (Ids.count(v)) { names[std::to_string(Ids[v])] = dv->getVariable()->getName().str(); vtys[std::to_string(Ids[v])] = diTy(dv->getVariable()->getType()); }
            continue;
          }
          if (isa<DbgInfoIntrinsic>(I)) continue;
          json::Object io; io["id"] = Ids[&I]; io["op"] = I.getOpcodeName();
          io["ty"] = tyStr(I.getType());
          if (I.getDebugLoc()) io["loc"] = loc(I.getDebugLoc());
          if (auto *md = I.getMetadata(kind))
            io["tag"] = json::Array{cast<MDString>(md->getOperand(0))->getString().str(), cast<MDString>(md->getOperand(1))->getString().str()};
          json::Array ops;
          if (auto *cb = dyn_cast<CallBase>(&I)) {
            io["op"] = "call";
            if (isa<InvokeInst>(I)) io["op"] = "invoke";
            io["callee"] = opnd(cb->getCalledOperand()->stripPointerCasts());
            for (auto &a : cb->args()) ops.push_back(opnd(a.get()));
            json::Array bv;
            for (unsigned i = 0; i < cb->arg_size(); i++)
              bv.push_back(cb->isByValArgument(i) ? tyStr(cb->getParamByValType(i)) : std::string(""));
            io["byval"] = std::move(bv);
            io["noret"] = cb->doesNotReturn();
            if (auto *iv = dyn_cast<InvokeInst>(&I)) {
              io["normal"] = Ids[iv->getNormalDest()]; io["unwind"] = Ids[iv->getUnwindDest()];
            }
          } else if (auto *p = dyn_cast<PHINode>(&I)) {
            json::Array in;
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
              in.push_back(json::Array{Ids[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
            io["in"] = std::move(in);
          } else if (auto *b = dyn_cast<BranchInst>(&I)) {
            if (b->isConditional()) {
              ops.push_back(opnd(b->getCondition()));
              io["succ"] = json::Array{Ids[b->getSuccessor(0)], Ids[b->getSuccessor(1)]};
            } else io["succ"] = json::Array{Ids[b->getSuccessor(0)]};
          } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(opnd(s->getCondition()));
            json::Array cs;
            for (auto &c : s->cases()) cs.push_back(json::Array{(int64_t)c.getCaseValue()->getSExtValue(), Ids[c.getCaseSuccessor()]});
            io["cases"] = std::move(cs); io["default"] = Ids[s->getDefaultDest()];
          } else {
            for (auto &o : I.operands()) ops.push_back(opnd(o.get()));
            if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
              json::Array steps = gepSteps(cast<GEPOperator>(g));
              io["srcty"] = tyStr(g->getSourceElementType());
              if (auto *md = I.getMetadata(skind)) {
                unsigned k = 0;
                auto nx = [&]() { return cast<MDString>(md->getOperand(k++))->getString().str(); };
                for (auto &x : steps) {
                  auto &a = *x.getAsArray();
                  if (*a[0].getAsString() == "f") { a[1] = nx(); a[3] = nx(); }
                  else a[3] = nx();
                }
                io["srcty"] = nx();
              }
              io["steps"] = std::move(steps);
            }
            if (auto *a = dyn_cast<AllocaInst>(&I)) {
              io["aty"] = tyStr(a->getAllocatedType());
              if (auto *md = I.getMetadata(skind)) io["aty"] = cast<MDString>(md->getOperand(0))->getString().str();
              io["asize"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
            }
            if (auto *c = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            if (auto *ld = dyn_cast<LoadInst>(&I)) { io["vol"] = ld->isVolatile() || ld->isAtomic(); io["atomic"] = ld->isAtomic(); }
            if (auto *st = dyn_cast<StoreInst>(&I)) { io["vol"] = st->isVolatile() || st->isAtomic(); io["atomic"] = st->isAtomic(); io["vty"] = tyStr(st->getValueOperand()->getType()); io["vsize"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()); }
            if (auto *ld = dyn_cast<LoadInst>(&I)) io["vsize"] = (int64_t)DL->getTypeStoreSize(ld->getType());
            if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) io["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str();
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); io["idx"] = std::move(ix); }
            if (auto *ev = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); io["idx"] = std::move(ix); }
            if (auto *c = dyn_cast<CastInst>(&I)) io["srcty"] = tyStr(c->getSrcTy());
          }
          io["ops"] = std::move(ops);
          insts.push_back(std::move(io));
        }
        bo["insts"] = std::move(insts);
        blocks.push_back(std::move(bo));
      }
      fo["blocks"] = std::move(blocks);
      fo["names"] = std::move(names);
      fo["vtys"] = std::move(vtys);
    }
    funcs.push_back(std::move(fo));
  }
  json::Array globals;
  Ids.clear();
  std::function<json::Value(const Constant *)> init = [&](const Constant *c) -> json::Value {
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
      if (s->isString()) return json::Array{"s", json::fixUTF8(s->getAsString())};
      json::Array a; for (unsigned i = 0; i < s->getNumElements(); i++) a.push_back(opnd(s->getElementAsConstant(i)));
      return json::Array{"agg", std::move(a)};
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
      json::Array a; for (auto &o : c->operands()) a.push_back(init(cast<Constant>(o.get())));
      return json::Array{"agg", std::move(a)};
    }
    return opnd(c);
  };
  for (auto &G : M->globals()) {
    json::Object go; go["name"] = G.getName().str(); go["ty"] = tyStr(G.getValueType());
    go["const"] = G.isConstant(); go["internal"] = G.hasLocalLinkage(); go["tls"] = G.isThreadLocal();
    go["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    if (G.hasInitializer()) go["init"] = init(G.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { go["file"] = gv[0]->getVariable()->getFilename().str(); go["line"] = (int64_t)gv[0]->getVariable()->getLine(); }
    globals.push_back(std::move(go));
  }
  // enumerations from debug info
  json::Object enums;
  {
    DebugInfoFinder F; F.processModule(*M);
    for (auto *t : F.types())
      if (auto *ct = dyn_cast<DICompositeType>(t))
        if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
          json::Array es;
          for (auto *e : ct->getElements())
            if (auto *en = dyn_cast_or_null<DIEnumerator>(e))
              es.push_back(json::Array{en->getName().str(), (int64_t)en->getValue().getSExtValue()});
          std::string nm = ct->getName().str();
          if (nm.empty()) nm = "anon@" + ct->getFilename().str() + ":" + std::to_string(ct->getLine());
          enums[nm] = std::move(es);
        }
  }
  json::Array ints; for (auto &s : internals) ints.push_back(s);
  json::Object root{{"functions", std::move(funcs)}, {"globals", std::move(globals)}, {"structs", std::move(Structs)}, {"enums", std::move(enums)}, {"internals", std::move(ints)}};
  std::error_code ec;
  raw_fd_ostream o(out.empty() ? "-" : out, ec);
  o << json::Value(std::move(root)) << "\n";
  return 0;
}
