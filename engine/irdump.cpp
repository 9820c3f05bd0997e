// irdump BITCODE [REGEX]: the instructions of every function (whose demangled name matches), as JSON for analyses in Python.
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

struct D {
    const DataLayout& dl;
    std::map<const Value*, int> id;
    explicit D(const DataLayout& d) : dl(d) { }
    std::string ty(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return s; }

    json::Value gep(const GEPOperator* g)
    {
        json::Object o;
        APInt off(dl.getIndexSizeInBits(0), 0);
        MapVector<Value*, APInt> vars;
        o["base"] = val(g->getPointerOperand());
        if (g->collectOffset(dl, dl.getIndexSizeInBits(0), vars, off)) {
            o["off"] = off.getSExtValue();
            json::Array a;
            for (auto& [v, s] : vars) a.push_back(json::Array { val(v), s.getSExtValue() });
            if (!a.empty()) o["vars"] = std::move(a);
        }
        return o;
    }
    // "%n" a local value, "@g" a global, a number, "null", "undef", or an object for constant expressions
    json::Value val(const Value* v)
    {
        if (auto* c = dyn_cast<ConstantInt>(v)) {
            if (c->getBitWidth() <= 64) return c->getSExtValue();
            return json::Object { { "big", llvm::toString(c->getValue(), 10, true) } };
        }
        if (isa<ConstantPointerNull>(v)) return "null";
        if (isa<UndefValue>(v)) return "undef";
        if (auto* g = dyn_cast<GlobalValue>(v)) return "@" + g->getName().str();
        if (auto* c = dyn_cast<ConstantFP>(v)) { SmallString<16> s; c->getValueAPF().toString(s); return json::Object { { "fp", s.str().str() } }; }
        if (auto* ce = dyn_cast<ConstantExpr>(v)) {
            if (auto* g = dyn_cast<GEPOperator>(ce)) { auto x = gep(g); x.getAsObject()->insert({ "cop", "gep" }); return x; }
            json::Array a;
            for (auto& u : ce->operands()) a.push_back(val(u));
            return json::Object { { "cop", ce->getOpcodeName() }, { "ops", std::move(a) } };
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
            json::Array a;
            for (auto& u : ca->operands()) a.push_back(val(u));
            return json::Object { { "agg", std::move(a) } };
        }
        if (auto* cz = dyn_cast<ConstantAggregateZero>(v)) return json::Object { { "zero", ty(cz->getType()) } };
        if (auto* cd = dyn_cast<ConstantDataSequential>(v)) {
            json::Array a;
            for (unsigned i = 0; i < cd->getNumElements() && i < 4096; ++i) a.push_back(val(cd->getElementAsConstant(i)));
            return json::Object { { "agg", std::move(a) } };
        }
        auto it = id.find(v);
        if (it == id.end()) return json::Object { { "other", ty(v->getType()) } };
        return "%" + std::to_string(it->second);
    }
};

int main(int argc, char** argv)
{
    LLVMContext c;
    SMDiagnostic e;
    auto m = parseIRFile(argv[1], e, c);
    if (!m) { e.print("irdump", errs()); return 1; }
    Regex re(argc > 2 ? argv[2] : ".*");
    D d(m->getDataLayout());
    json::Object top, fs, gs;
    for (auto& g : m->globals()) {
        json::Object o;
        o["const"] = g.isConstant();
        o["ty"] = d.ty(g.getValueType());
        if (g.hasInitializer() && g.isConstant()) {
            if (auto* s = dyn_cast<ConstantDataArray>(g.getInitializer()); s && s->isString() && s->getNumElements() < 2000) { o["str"] = json::fixUTF8(s->getAsString()); o["len"] = int64_t(s->getNumElements()); }
            else if (d.dl.getTypeAllocSize(g.getValueType()) < 20000) o["init"] = d.val(g.getInitializer());
        }
        o["size"] = g.getValueType()->isSized() ? int64_t(d.dl.getTypeAllocSize(g.getValueType()).getFixedValue()) : -1;
        gs[g.getName().str()] = std::move(o);
    }
    for (auto& a : m->aliases()) gs[a.getName().str()] = json::Object { { "alias", d.val(a.getAliasee()) } };
    for (auto& f : *m) {
        std::string dn = demangle(f.getName().str());
        if (!re.match(dn)) continue;
        json::Object o;
        o["demangled"] = dn;
        o["decl"] = f.isDeclaration();
        o["nounwind"] = f.doesNotThrow();
        o["noreturn"] = f.doesNotReturn();
        o["local"] = f.hasLocalLinkage();
        if (auto* sp = f.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = int(sp->getLine()); }
        o["ret"] = d.ty(f.getReturnType());
        d.id.clear();
        int n = 0;
        json::Array args;
        for (auto& a : f.args()) {
            d.id[&a] = n;
            json::Object p { { "id", "%" + std::to_string(n++) }, { "ty", d.ty(a.getType()) } };
            if (a.hasStructRetAttr()) { p["sret"] = true; }
            if (a.hasByValAttr()) p["byval"] = true;
            if (a.getDereferenceableBytes()) p["deref"] = int64_t(a.getDereferenceableBytes());
            args.push_back(std::move(p));
        }
        o["args"] = std::move(args);
        for (auto& b : f) { d.id[&b] = n++; for (auto& i : b) d.id[&i] = n++; }
        json::Array bs;
        for (auto& b : f) {
            json::Object bo;
            bo["id"] = "%" + std::to_string(d.id[&b]);
            json::Array is;
            for (auto& i : b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(&i); ii && (ii->isLifetimeStartOrEnd() || ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)) continue;
                json::Object x;
                x["id"] = "%" + std::to_string(d.id[&i]);
                x["op"] = i.getOpcodeName();
                x["ty"] = d.ty(i.getType());
                if (auto& l = i.getDebugLoc()) {
                    x["line"] = int(l.getLine());
                    if (auto* s = dyn_cast<DILocalScope>(l.getScope())) {
                        x["file"] = s->getFilename().str();
                        if (auto* sp = s->getSubprogram()) x["fn"] = sp->getName().str();
                    }
                    json::Array in;
                    for (auto* a = l.getInlinedAt(); a; a = a->getInlinedAt()) {
                        std::string w;
                        if (auto* s = dyn_cast<DILocalScope>(a->getScope())) { w = s->getFilename().str() + ":" + std::to_string(a->getLine()); if (auto* sp = s->getSubprogram()) w += ":" + sp->getName().str(); }
                        in.push_back(w);
                    }
                    if (!in.empty()) x["inl"] = std::move(in);
                }
                json::Array ops;
                if (auto* g = dyn_cast<GetElementPtrInst>(&i)) x["gep"] = d.gep(cast<GEPOperator>(g));
                else if (auto* p = dyn_cast<PHINode>(&i)) {
                    json::Array a;
                    for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) a.push_back(json::Array { d.val(p->getIncomingValue(k)), "%" + std::to_string(d.id[p->getIncomingBlock(k)]) });
                    x["phi"] = std::move(a);
                } else if (auto* s = dyn_cast<SwitchInst>(&i)) {
                    ops.push_back(d.val(s->getCondition()));
                    x["default"] = "%" + std::to_string(d.id[s->getDefaultDest()]);
                    json::Array a;
                    for (auto& k : s->cases()) a.push_back(json::Array { d.val(k.getCaseValue()), "%" + std::to_string(d.id[k.getCaseSuccessor()]) });
                    x["cases"] = std::move(a);
                } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                    if (br->isConditional()) ops.push_back(d.val(br->getCondition()));
                    json::Array a;
                    for (unsigned k = 0; k < br->getNumSuccessors(); ++k) a.push_back("%" + std::to_string(d.id[br->getSuccessor(k)]));
                    x["succ"] = std::move(a);
                } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                    if (auto* t = cb->getCalledFunction()) x["callee"] = t->getName().str();
                    else x["target"] = d.val(cb->getCalledOperand());
                    for (auto& a : cb->args()) ops.push_back(d.val(a.get()));
                    if (cb->doesNotThrow()) x["nounwind"] = true;
                    if (cb->doesNotReturn()) x["noreturn"] = true;
                    for (unsigned k = 0; k < cb->arg_size(); ++k) if (cb->paramHasAttr(k, Attribute::StructRet)) x["sret"] = int(k);
                    if (auto* iv = dyn_cast<InvokeInst>(&i)) { x["succ"] = json::Array { "%" + std::to_string(d.id[iv->getNormalDest()]), "%" + std::to_string(d.id[iv->getUnwindDest()]) }; }
                } else {
                    for (auto& u : i.operands()) ops.push_back(d.val(u.get()));
                    if (auto* k = dyn_cast<CmpInst>(&i)) { x["pred"] = CmpInst::getPredicateName(k->getPredicate()).str(); x["opty"] = d.ty(k->getOperand(0)->getType()); }
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ob->hasNoUnsignedWrap()) x["nuw"] = true; if (ob->hasNoSignedWrap()) x["nsw"] = true; }
                    if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { json::Array a; for (auto k : ev->indices()) a.push_back(int(k)); x["idx"] = std::move(a); }
                    if (auto* ev = dyn_cast<InsertValueInst>(&i)) { json::Array a; for (auto k : ev->indices()) a.push_back(int(k)); x["idx"] = std::move(a); }
                    if (auto* s = dyn_cast<StoreInst>(&i)) { x["sty"] = d.ty(s->getValueOperand()->getType()); x["size"] = int64_t(d.dl.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue()); }
                    // what the access is to, as the type-based alias tags have it: record and offset, from the outside in
                    if (auto* md = i.getMetadata(LLVMContext::MD_tbaa)) {
                        if (md->getNumOperands() >= 3 && isa<MDNode>(md->getOperand(0))) {
                            json::Array tb;
                            auto* t = cast<MDNode>(md->getOperand(0));
                            uint64_t off = mdconst::extract<ConstantInt>(md->getOperand(2))->getZExtValue();
                            for (int depth = 0; t && depth < 8; ++depth) {
                                if (t->getNumOperands() == 0 || !isa<MDString>(t->getOperand(0))) break;
                                tb.push_back((cast<MDString>(t->getOperand(0))->getString() + "@" + Twine(off)).str());
                                MDNode* next = nullptr; uint64_t base = 0;
                                if (t->getNumOperands() > 3)
                                    for (unsigned k = 1; k + 1 < t->getNumOperands(); k += 2) {
                                        auto* c = mdconst::dyn_extract<ConstantInt>(t->getOperand(k + 1));
                                        if (c && c->getZExtValue() <= off && isa<MDNode>(t->getOperand(k))) { next = cast<MDNode>(t->getOperand(k)); base = c->getZExtValue(); }
                                    }
                                else if (t->getNumOperands() == 3 && isa<MDNode>(t->getOperand(1))) {
                                    auto* c = mdconst::dyn_extract<ConstantInt>(t->getOperand(2));
                                    if (c) { next = cast<MDNode>(t->getOperand(1)); base = c->getZExtValue(); }
                                }
                                if (!next || next == t) break;
                                t = next; off -= base;
                            }
                            x["tb"] = std::move(tb);
                        }
                    }
                    if (isa<LoadInst>(i)) x["size"] = int64_t(d.dl.getTypeStoreSize(i.getType()).getFixedValue());
                    if (auto* ai = dyn_cast<AllocaInst>(&i)) { auto s = ai->getAllocationSize(d.dl); x["size"] = s ? int64_t(s->getFixedValue()) : -1; x["aty"] = d.ty(ai->getAllocatedType()); }
                    if (auto* ca = dyn_cast<CastInst>(&i)) x["from"] = d.ty(ca->getSrcTy());
                    if (auto* lp = dyn_cast<LandingPadInst>(&i)) { x["cleanup"] = lp->isCleanup(); json::Array a; for (unsigned k = 0; k < lp->getNumClauses(); ++k) a.push_back(d.val(lp->getClause(k))); x["clauses"] = std::move(a); }
                }
                if (!ops.empty()) x["ops"] = std::move(ops);
                is.push_back(std::move(x));
            }
            bo["insts"] = std::move(is);
            bs.push_back(std::move(bo));
        }
        o["blocks"] = std::move(bs);
        fs[f.getName().str()] = std::move(o);
    }
    top["functions"] = std::move(fs);
    top["globals"] = std::move(gs);
    outs() << json::Value(std::move(top)) << "\n";
}
