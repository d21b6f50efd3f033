// Dumps an LLVM module (bitcode or .ll) as JSON for the Python dataflow engine.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>

using namespace llvm;
using json::Array;
using json::Object;

static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bbs;

static std::string qual(const DIScope* s) {
  std::string r;
  while (s) {
    if (auto* t = dyn_cast<DIType>(s)) {
      r = t->getName().str() + (r.empty() ? "" : "::" + r);
    } else if (auto* n = dyn_cast<DINamespace>(s)) {
      r = (n->getName().empty() ? std::string("(anon)") : n->getName().str()) + (r.empty() ? "" : "::" + r);
    } else if (auto* p = dyn_cast<DISubprogram>(s)) {
      r = p->getName().str() + (r.empty() ? "" : "::" + r);
    } else if (isa<DILexicalBlockBase>(s)) {
    } else {
      break;
    }
    s = s->getScope();
  }
  return r;
}
static std::string typeId(const DIType* t) {
  std::string pre;
  while (t) {
    if (auto* d = dyn_cast<DIDerivedType>(t)) {
      auto tag = d->getTag();
      if (tag == dwarf::DW_TAG_pointer_type || tag == dwarf::DW_TAG_reference_type ||
          tag == dwarf::DW_TAG_rvalue_reference_type) {
        pre += "*";
      }
      t = d->getBaseType();
      continue;
    }
    if (auto* c = dyn_cast<DICompositeType>(t)) {
      if (!c->getIdentifier().empty()) return pre + c->getIdentifier().str();
      return pre + qual(c);
    }
    return pre + t->getName().str();
  }
  return pre + "void";
}

static json::Value cst(const Constant* c);
static json::Value opv(const Value* v);

static json::Value cst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<32> s;
    ci->getValue().toStringUnsigned(s);
    if (ci->getBitWidth() <= 32) return Array{"c", (int64_t)ci->getZExtValue(), (int64_t)ci->getBitWidth()};
    return Array{"c", s.str().str(), (int64_t)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(c)) return Array{"c", 0, 64};
  if (isa<UndefValue>(c)) return Array{"u"};
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s;
    cf->getValueAPF().toString(s);
    return Array{"f", s.str().str()};
  }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return cst(ga->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) return Array{"g", g->getName().str(), 0};
  if (isa<ConstantAggregateZero>(c)) return Array{"z", (int64_t)DL->getTypeAllocSize(c->getType())};
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
        auto b = cst(cast<Constant>(ce->getOperand(0)));
        if (auto* a = b.getAsArray(); a && (*a)[0] == "g")
          return Array{"g", (*a)[1].getAsString()->str(), *(*a)[2].getAsInteger() + off.getSExtValue()};
      }
    }
    if (ce->isCast()) return cst(ce->getOperand(0));
    Array a{"e", ce->getOpcodeName()};
    for (auto& o : ce->operands()) a.push_back(cst(cast<Constant>(o)));
    return a;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    Array a;
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++)
      a.push_back(Array{(int64_t)sl->getElementOffset(i), cst(cs->getOperand(i)),
                        (int64_t)DL->getTypeStoreSize(cs->getOperand(i)->getType())});
    return Array{"a", std::move(a)};
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    Array a;
    auto es = (int64_t)DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) a.push_back(Array{i * es, cst(ca->getOperand(i)), es});
    return Array{"a", std::move(a)};
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    Array a;
    auto es = (int64_t)cd->getElementByteSize();
    if (cd->getNumElements() > 256) return Array{"u"};
    for (unsigned i = 0; i < cd->getNumElements(); i++)
      a.push_back(Array{i * es, cst(cd->getElementAsConstant(i)), es});
    return Array{"a", std::move(a)};
  }
  return Array{"u"};
}

static json::Value opv(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return cst(c);
  auto it = ids.find(v);
  if (it != ids.end()) return Array{"v", it->second};
  if (auto* m = dyn_cast<MetadataAsValue>(v)) {
    if (auto* s = dyn_cast<MDString>(m->getMetadata())) return Array{"m", s->getString().str()};
    return Array{"m", ""};
  }
  if (isa<InlineAsm>(v)) return Array{"asm"};
  return Array{"u"};
}

// type descr: int bits; "p" pointer; "f32"; "v"; aggregate -> [size, [[off, descr]...]]
static json::Value ty(Type* t) {
  if (t->isIntegerTy()) return (int64_t)t->getIntegerBitWidth();
  if (t->isPointerTy()) return "p";
  if (t->isVoidTy()) return "v";
  if (t->isFloatingPointTy()) return "f" + std::to_string(t->getPrimitiveSizeInBits().getFixedValue());
  if (auto* s = dyn_cast<StructType>(t)) {
    Array a;
    if (s->isSized()) {
      auto* sl = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++)
        a.push_back(Array{(int64_t)sl->getElementOffset(i), ty(s->getElementType(i))});
      return Array{(int64_t)DL->getTypeAllocSize(t), std::move(a)};
    }
    return "o";
  }
  if (auto* s = dyn_cast<ArrayType>(t)) {
    Array a;
    auto es = (int64_t)DL->getTypeAllocSize(s->getElementType());
    if (s->getNumElements() <= 16)
      for (unsigned i = 0; i < s->getNumElements(); i++) a.push_back(Array{i * es, ty(s->getElementType())});
    return Array{(int64_t)DL->getTypeAllocSize(t), std::move(a)};
  }
  if (t->isVectorTy()) return Array{(int64_t)DL->getTypeAllocSize(t), Array{}};
  return "o";
}
static int64_t sz(Type* t) { return t->isSized() ? (int64_t)DL->getTypeStoreSize(t).getFixedValue() : 0; }

static const char* ord(AtomicOrdering o) {
  switch (o) {
    case AtomicOrdering::NotAtomic: return "";
    case AtomicOrdering::Unordered: return "un";
    case AtomicOrdering::Monotonic: return "rlx";
    case AtomicOrdering::Acquire: return "acq";
    case AtomicOrdering::Release: return "rel";
    case AtomicOrdering::AcquireRelease: return "ar";
    case AtomicOrdering::SequentiallyConsistent: return "sc";
  }
  return "?";
}

int main(int argc, char** argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) {
    err.print(argv[0], errs());
    return 2;
  }
  DL = &m->getDataLayout();
  Object root;
  Object fns, globals, classes, tids;
  // classes
  DebugInfoFinder dif;
  dif.processModule(*m);
  for (auto* t : dif.types()) {
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c || c->isForwardDecl()) continue;
    auto tag = c->getTag();
    if (tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_union_type)
      continue;
    Array mem, bases, virt;
    for (auto* e : c->getElements()) {
      if (auto* d = dyn_cast<DIDerivedType>(e)) {
        if (d->isStaticMember()) continue;
        if (d->getTag() == dwarf::DW_TAG_inheritance)
          bases.push_back(Array{(int64_t)d->getOffsetInBits() / 8, typeId(d->getBaseType())});
        else if (d->getTag() == dwarf::DW_TAG_member)
          mem.push_back(Array{(int64_t)d->getOffsetInBits() / 8, d->getName().str(), typeId(d->getBaseType()),
                              (int64_t)d->getSizeInBits() / 8});
      } else if (auto* p = dyn_cast<DISubprogram>(e)) {
        if (p->getVirtuality()) virt.push_back(Array{(int64_t)p->getVirtualIndex(), p->getName().str()});
      }
    }
    std::string id = c->getIdentifier().empty() ? qual(c) : c->getIdentifier().str();
    classes[id] = Object{{"n", qual(c)},
                         {"s", (int64_t)c->getSizeInBits() / 8},
                         {"m", std::move(mem)},
                         {"b", std::move(bases)},
                         {"v", std::move(virt)}};
  }
  for (auto& g : m->globals()) {
    Object o;
    o["c"] = g.isConstant();
    o["s"] = sz(g.getValueType());
    if (g.hasInitializer()) o["i"] = cst(g.getInitializer());
    if (g.isThreadLocal()) o["tl"] = true;
    SmallVector<MDNode*> tm;
    g.getMetadata(LLVMContext::MD_type, tm);
    if (!tm.empty()) {
      Array a;
      for (auto* n : tm) {
        auto off = mdconst::extract<ConstantInt>(n->getOperand(0))->getSExtValue();
        if (auto* s = dyn_cast<MDString>(n->getOperand(1))) a.push_back(Array{off, s->getString().str()});
      }
      o["t"] = std::move(a);
    }
    SmallVector<DIGlobalVariableExpression*> gv;
    g.getDebugInfo(gv);
    if (!gv.empty()) o["n"] = qual(gv[0]->getVariable()->getScope()) + "::" + gv[0]->getVariable()->getName().str();
    globals[g.getName()] = std::move(o);
  }
  for (auto& f : *m) {
    Object fo;
    Array args;
    ids.clear();
    bbs.clear();
    int n = 0;
    Array attrs;
    for (auto& a : f.args()) {
      ids[&a] = n;
      Object ao{{"i", n}, {"t", ty(a.getType())}};
      if (a.hasStructRetAttr()) {
        ao["sret"] = sz(a.getParamStructRetType());
      }
      if (a.hasByValAttr()) ao["byval"] = sz(a.getParamByValType());
      args.push_back(std::move(ao));
      n++;
    }
    fo["args"] = std::move(args);
    fo["nt"] = f.doesNotThrow();
    fo["nr"] = f.doesNotReturn();
    fo["rt"] = ty(f.getReturnType());
    if (auto* sp = f.getSubprogram()) {
      fo["n"] = qual(sp);
      fo["line"] = sp->getLine();
      fo["file"] = sp->getFilename().str();
      auto* decl = sp->getDeclaration() ? sp->getDeclaration() : sp;
      if (auto* cs = dyn_cast_or_null<DICompositeType>(decl->getScope())) {
        bool st = false;
        // static member functions have no artificial this parameter
        if (auto* ft = decl->getType()) {
          auto ta = ft->getTypeArray();
          st = !(ta.size() > 1 && ta[1] && ta[1]->isArtificial());
        }
        fo["cls"] = cs->getIdentifier().empty() ? qual(cs) : cs->getIdentifier().str();
        fo["static"] = st;
      }
      Array pt;
      if (auto* ft = sp->getType()) {
        for (auto* t : ft->getTypeArray()) pt.push_back(t ? typeId(t) : std::string("void"));
      }
      fo["pt"] = std::move(pt);
    }
    if (!f.isDeclaration()) {
      for (auto& b : f) {
        bbs[&b] = bbs.size();
        for (auto& i : b)
          if (!i.getType()->isVoidTy()) ids[&i] = n++;
      }
      Array blocks;
      for (auto& b : f) {
        Array is;
        for (auto& i : b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          Object o;
          std::string op = i.getOpcodeName();
          if (!i.getType()->isVoidTy()) {
            o["i"] = ids[&i];
            o["t"] = ty(i.getType());
          }
          Array a;
          if (auto* al = dyn_cast<AllocaInst>(&i)) {
            o["s"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType());
            a.push_back(opv(al->getArraySize()));
          } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
            a.push_back(opv(g->getPointerOperand()));
            int64_t co = 0;
            Array var;
            MapVector<Value*, APInt> vo;
            APInt c(64, 0);
            if (g->collectOffset(*DL, 64, vo, c)) {
              co = c.getSExtValue();
              for (auto& [v, s] : vo) var.push_back(Array{opv(v), s.getSExtValue()});
            }
            o["o"] = co;
            if (!var.empty()) o["x"] = std::move(var);
          } else if (auto* l = dyn_cast<LoadInst>(&i)) {
            a.push_back(opv(l->getPointerOperand()));
            o["s"] = sz(l->getType());
            if (l->isAtomic()) o["ord"] = ord(l->getOrdering());
          } else if (auto* s = dyn_cast<StoreInst>(&i)) {
            a.push_back(opv(s->getValueOperand()));
            a.push_back(opv(s->getPointerOperand()));
            o["s"] = sz(s->getValueOperand()->getType());
            o["vt"] = ty(s->getValueOperand()->getType());
            if (s->isAtomic()) o["ord"] = ord(s->getOrdering());
          } else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) {
            for (auto& u : x->operands()) a.push_back(opv(u));
            o["so"] = ord(x->getSuccessOrdering());
            o["fo"] = ord(x->getFailureOrdering());
            o["weak"] = x->isWeak();
            o["s"] = sz(x->getNewValOperand()->getType());
            o["vt"] = ty(x->getNewValOperand()->getType());
          } else if (auto* x = dyn_cast<AtomicRMWInst>(&i)) {
            for (auto& u : x->operands()) a.push_back(opv(u));
            o["ord"] = ord(x->getOrdering());
            o["rmw"] = AtomicRMWInst::getOperationName(x->getOperation()).str();
            o["s"] = sz(x->getValOperand()->getType());
          } else if (auto* x = dyn_cast<FenceInst>(&i)) {
            o["ord"] = ord(x->getOrdering());
            o["ss"] = x->getSyncScopeID() == SyncScope::SingleThread;
          } else if (auto* cb = dyn_cast<CallBase>(&i)) {
            o["f"] = opv(cb->getCalledOperand());
            for (auto& u : cb->args()) a.push_back(opv(u.get()));
            o["nt"] = cb->doesNotThrow();
            if (cb->doesNotReturn()) o["nr"] = true;
            Array at;
            for (unsigned k = 0; k < cb->arg_size(); k++) {
              int64_t sr = 0;
              if (cb->paramHasAttr(k, Attribute::StructRet)) sr = sz(cb->getParamStructRetType(k));
              if (sr) o["sret"] = Array{(int64_t)k, sr};
            }
            if (auto* inv = dyn_cast<InvokeInst>(&i)) {
              o["n"] = bbs[inv->getNormalDest()];
              o["u"] = bbs[inv->getUnwindDest()];
            }
          } else if (auto* br = dyn_cast<BranchInst>(&i)) {
            if (br->isConditional()) {
              a.push_back(opv(br->getCondition()));
              o["b"] = Array{bbs[br->getSuccessor(0)], bbs[br->getSuccessor(1)]};
            } else {
              o["b"] = Array{bbs[br->getSuccessor(0)]};
            }
          } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
            a.push_back(opv(sw->getCondition()));
            Array cs;
            for (auto& c : sw->cases()) cs.push_back(Array{cst(c.getCaseValue()), bbs[c.getCaseSuccessor()]});
            o["cs"] = std::move(cs);
            o["def"] = bbs[sw->getDefaultDest()];
          } else if (auto* ph = dyn_cast<PHINode>(&i)) {
            Array in;
            for (unsigned k = 0; k < ph->getNumIncomingValues(); k++)
              in.push_back(Array{bbs[ph->getIncomingBlock(k)], opv(ph->getIncomingValue(k))});
            o["in"] = std::move(in);
          } else if (auto* ic = dyn_cast<CmpInst>(&i)) {
            o["p"] = CmpInst::getPredicateName(ic->getPredicate()).str();
            for (auto& u : i.operands()) a.push_back(opv(u));
            o["vt"] = ty(ic->getOperand(0)->getType());
          } else if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
            a.push_back(opv(ev->getAggregateOperand()));
            Array x;
            for (auto k : ev->indices()) x.push_back((int64_t)k);
            o["x"] = std::move(x);
          } else if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
            a.push_back(opv(iv->getAggregateOperand()));
            a.push_back(opv(iv->getInsertedValueOperand()));
            Array x;
            for (auto k : iv->indices()) x.push_back((int64_t)k);
            o["x"] = std::move(x);
          } else if (auto* lp = dyn_cast<LandingPadInst>(&i)) {
            o["cl"] = lp->isCleanup();
            Array c;
            for (unsigned k = 0; k < lp->getNumClauses(); k++)
              c.push_back(Array{lp->isCatch(k) ? "c" : "f", opv(lp->getClause(k))});
            o["c"] = std::move(c);
          } else {
            for (auto& u : i.operands()) a.push_back(opv(u));
            if (isa<CastInst>(i)) o["vt"] = ty(i.getOperand(0)->getType());
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) {
              if (ob->hasNoSignedWrap()) o["nsw"] = true;
              if (ob->hasNoUnsignedWrap()) o["nuw"] = true;
            }
          }
          o["op"] = op;
          o["a"] = std::move(a);
          if (i.isVolatile()) o["vol"] = true;
          if (auto& d = i.getDebugLoc()) {
            o["l"] = d.getLine();
            if (auto* sc = dyn_cast<DIScope>(d.getScope()))
              if (auto* sp = f.getSubprogram(); !sp || sc->getFilename() != sp->getFilename())
                o["fl"] = sc->getFilename().str();
          }
          is.push_back(std::move(o));
        }
        blocks.push_back(std::move(is));
      }
      fo["b"] = std::move(blocks);
    }
    fns[f.getName()] = std::move(fo);
  }
  // aliases of functions (constructor variants)
  Object aliases;
  for (auto& a : m->aliases())
    if (auto* g = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) aliases[a.getName()] = g->getName().str();
  root["aliases"] = std::move(aliases);
  root["functions"] = std::move(fns);
  root["globals"] = std::move(globals);
  root["classes"] = std::move(classes);
  outs() << json::Value(std::move(root));
}
