// irfacts: dumps the facts about a linked LLVM module that the effect rules need, as JSON.
// It decides nothing itself.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;

static std::string typeStr(Type* t)
{
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    return s;
}

static std::string loc(const Instruction& i)
{
    DebugLoc d = i.getDebugLoc();
    if (!d) return "";
    // outermost source position is not interesting at -O0: nothing is inlined.
    std::string f;
    if (auto* sc = dyn_cast_or_null<DIScope>(d.getScope())) {
        f = sc->getFilename().str();
        if (!f.empty() && f[0] != '/' && !sc->getDirectory().empty())
            f = (sc->getDirectory() + "/" + f).str();
    }
    return f + ":" + std::to_string(d.getLine());
}

// All globals mentioned by a constant expression.
static void constGlobals(const Value* v, SmallPtrSetImpl<const GlobalValue*>& out,
                         SmallPtrSetImpl<const Value*>& seen)
{
    if (!seen.insert(v).second) return;
    if (auto* g = dyn_cast<GlobalValue>(v)) { out.insert(g); return; }
    if (auto* c = dyn_cast<Constant>(v))
        for (const Use& u : c->operands()) constGlobals(u.get(), out, seen);
}

// The objects a pointer may point into, looking through casts, GEPs, selects and phis.
static void roots(const Value* v, SmallPtrSetImpl<const Value*>& out, SmallPtrSetImpl<const Value*>& seen)
{
    v = v->stripPointerCasts();
    if (!seen.insert(v).second) return;
    if (auto* g = dyn_cast<GEPOperator>(v)) return roots(g->getPointerOperand(), out, seen);
    if (auto* s = dyn_cast<SelectInst>(v)) {
        roots(s->getTrueValue(), out, seen);
        roots(s->getFalseValue(), out, seen);
        return;
    }
    if (auto* p = dyn_cast<PHINode>(v)) {
        for (const Use& u : p->incoming_values()) roots(u.get(), out, seen);
        return;
    }
    if (auto* ii = dyn_cast<IntrinsicInst>(v))
        if (ii->getIntrinsicID() == Intrinsic::threadlocal_address)
            return roots(ii->getArgOperand(0), out, seen);
    out.insert(v);
}

static json::Array rootNames(const Value* ptr)
{
    SmallPtrSet<const Value*, 8> out, seen;
    roots(ptr, out, seen);
    json::Array a;
    for (auto* r : out) {
        if (auto* g = dyn_cast<GlobalValue>(r)) a.push_back(("@" + g->getName()).str());
    }
    return a;
}

// What an exception thrown by the callee of this invoke runs into first.
static std::string unwindKind(const InvokeInst& inv)
{
    const LandingPadInst* lp = inv.getLandingPadInst();
    bool all = false, typed = false;
    for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
        if (lp->isCatch(k)) {
            if (isa<ConstantPointerNull>(lp->getClause(k))) all = true;
            else typed = true;
        }
    }
    // terminate pad: catch-all whose block calls __clang_call_terminate without __cxa_begin_catch
    const BasicBlock* bb = inv.getUnwindDest();
    for (const Instruction& i : *bb)
        if (auto* cb = dyn_cast<CallBase>(&i))
            if (const Function* f = cb->getCalledFunction())
                if (f->getName() == "__clang_call_terminate" || f->getName() == "_ZSt9terminatev") return "terminate";
    if (all) return "catchall";
    if (typed) return "catch";
    return lp->isCleanup() ? "cleanup" : "none";
}

// ---- C++-precise resolution of indirect calls, from the type metadata that -fsanitize=cfi adds ----

static std::map<const Metadata*, std::string> typeIds;
static std::string typeId(const Metadata* md)
{
    if (auto* s = dyn_cast<MDString>(md)) return s->getString().str();
    auto it = typeIds.find(md);
    if (it == typeIds.end()) it = typeIds.emplace(md, "#" + std::to_string(typeIds.size())).first;
    return it->second;
}

// Functions of a vtable initializer by byte offset.
static void flatten(const Constant* c, uint64_t base, const DataLayout& dl, std::map<uint64_t, const Function*>& out)
{
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = dl.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            flatten(cs->getOperand(i), base + sl->getElementOffset(i), dl, out);
    } else if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = dl.getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), base + i * es, dl, out);
    } else if (auto* f = dyn_cast<Function>(c->stripPointerCasts())) {
        out[base] = f;
    }
}

// The type identifier an llvm.type.test checks for this pointer, if any.
static const Metadata* testedType(const Value* v)
{
    for (const User* u : v->users())
        if (auto* ii = dyn_cast<IntrinsicInst>(u))
            if (ii->getIntrinsicID() == Intrinsic::type_test) {
                const Metadata* md = cast<MetadataAsValue>(ii->getArgOperand(1))->getMetadata();
                if (auto* s = dyn_cast<MDString>(md); s && s->getString() == "all-vtables") continue;
                return md;
            }
    return nullptr;
}

// The integers an argument may be: constants, parameters of the enclosing function ("p3"), or null if unknown.
static void intValues(const Value* v, const Function& f, SmallPtrSetImpl<const Value*>& seen, json::Array& out, bool& ok)
{
    if (!seen.insert(v).second) return;
    if (auto* c = dyn_cast<ConstantInt>(v)) {
        if (c->getBitWidth() <= 64) out.push_back(c->getZExtValue() > 0x7fffffff ? int64_t(c->getSExtValue()) : int64_t(c->getZExtValue()));
        else ok = false;
    } else if (auto* a = dyn_cast<Argument>(v)) {
        out.push_back("p" + std::to_string(a->getArgNo()));
    } else if (auto* z = dyn_cast<ZExtInst>(v)) {
        intValues(z->getOperand(0), f, seen, out, ok);
    } else if (auto* s = dyn_cast<SelectInst>(v)) {
        intValues(s->getTrueValue(), f, seen, out, ok);
        intValues(s->getFalseValue(), f, seen, out, ok);
    } else if (auto* p = dyn_cast<PHINode>(v)) {
        for (const Use& u : p->incoming_values()) intValues(u.get(), f, seen, out, ok);
    } else ok = false;
}

// Whether c being true (or false, with neg) implies v != null; looks through negation.
static int nonNullSense(const Value* c, const Value* v, bool neg = false)
{
    if (auto* cmp = dyn_cast<ICmpInst>(c)) {
        const Value *a = cmp->getOperand(0), *b = cmp->getOperand(1);
        if (isa<ConstantPointerNull>(a)) std::swap(a, b);
        if (a->stripPointerCasts() != v || !isa<ConstantPointerNull>(b) || !cmp->isEquality()) return -1;
        return (cmp->getPredicate() == CmpInst::ICMP_NE) != neg;
    }
    if (auto* bo = dyn_cast<BinaryOperator>(c); bo && bo->getOpcode() == Instruction::Xor)
        if (auto* k = dyn_cast<ConstantInt>(bo->getOperand(1)); k && k->isOne())
            return nonNullSense(bo->getOperand(0), v, !neg);
    return -1;
}

// Uses of a pointer that may be null, other than comparing or returning it, that no null check guards.
static json::Array uncheckedUses(const CallBase& call, const DominatorTree& dt)
{
    json::Array out;
    std::vector<BasicBlockEdge> ok;
    for (const BasicBlock& b : *call.getFunction())
        if (auto* br = dyn_cast<BranchInst>(b.getTerminator()); br && br->isConditional()) {
            int k = nonNullSense(br->getCondition(), &call);
            if (k >= 0 && br->getSuccessor(0) != br->getSuccessor(1)) ok.emplace_back(&b, br->getSuccessor(k ? 0 : 1));
        }
    for (const Use& u : call.uses()) {
        auto* i = dyn_cast<Instruction>(u.getUser());
        if (!i || isa<ICmpInst>(i) || isa<ReturnInst>(i) || isa<IntrinsicInst>(i) || isa<PHINode>(i)) continue;
        bool guarded = false;
        for (auto& e : ok) guarded |= dt.dominates(e, u);
        if (!guarded) out.push_back(loc(*i));
    }
    return out;
}

// Where a function may return the result of one of its calls without having excluded null.
static std::string returnsMaybeNull(const Function& f, const DominatorTree& dt)
{
    for (const BasicBlock& b : f) {
        auto* r = dyn_cast<ReturnInst>(b.getTerminator());
        if (!r || !r->getReturnValue() || !r->getReturnValue()->getType()->isPointerTy()) continue;
        const Value* v = r->getReturnValue()->stripPointerCasts();
        if (isa<ConstantPointerNull>(v)) return loc(*r);
        if (auto* p = dyn_cast<PHINode>(v)) {
            for (const Use& u : p->incoming_values())
                if (isa<ConstantPointerNull>(u.get()->stripPointerCasts())) return loc(*r);
            continue;
        }
        if (!isa<CallBase>(v)) continue;
        bool guarded = false;
        for (const BasicBlock& c : f)
            if (auto* br = dyn_cast<BranchInst>(c.getTerminator()); br && br->isConditional()) {
                int k = nonNullSense(br->getCondition(), v);
                if (k >= 0 && br->getSuccessor(0) != br->getSuccessor(1))
                    guarded |= dt.dominates(BasicBlockEdge(&c, br->getSuccessor(k ? 0 : 1)), &b);
            }
        if (!guarded) return loc(*r);
    }
    return "";
}

static void promote(Function& f)
{
    if (f.isDeclaration()) return;
    DominatorTree dt(f);
    std::vector<AllocaInst*> as;
    for (Instruction& i : f.getEntryBlock())
        if (auto* a = dyn_cast<AllocaInst>(&i); a && isAllocaPromotable(a)) as.push_back(a);
    if (!as.empty()) PromoteMemToReg(as, dt);
}

int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }

    for (Function& f : *m) promote(f);

    json::Object top;
    json::Array globals;
    for (const GlobalVariable& g : m->globals()) {
        json::Object o;
        o["name"] = g.getName().str();
        o["demangled"] = demangle(g.getName().str());
        o["const"] = g.isConstant();
        o["tls"] = g.isThreadLocal();
        o["decl"] = g.isDeclaration();
        o["local"] = g.hasLocalLinkage();
        SmallVector<DIGlobalVariableExpression*, 1> dbg;
        g.getDebugInfo(dbg);
        if (!dbg.empty()) {
            auto* v = dbg[0]->getVariable();
            o["file"] = v->getFilename().str();
            o["line"] = int(v->getLine());
        }
        if (g.hasInitializer()) {
            SmallPtrSet<const GlobalValue*, 16> refs;
            SmallPtrSet<const Value*, 16> seen;
            constGlobals(g.getInitializer(), refs, seen);
            json::Array a;
            for (auto* r : refs) a.push_back(r->getName().str());
            o["refs"] = std::move(a);
        }
        globals.push_back(std::move(o));
    }
    top["globals"] = std::move(globals);

    // class id -> (vtable, offset of the address point)
    std::map<const Metadata*, std::vector<std::pair<const GlobalVariable*, uint64_t>>> vtables;
    for (const GlobalVariable& g : m->globals()) {
        SmallVector<MDNode*, 8> types;
        g.getMetadata(LLVMContext::MD_type, types);
        for (MDNode* n : types)
            vtables[n->getOperand(1).get()].emplace_back(
                &g, mdconst::extract<ConstantInt>(n->getOperand(0))->getZExtValue());
    }
    std::map<const Metadata*, std::vector<const Function*>> funcTypes;
    for (const Function& f : *m) {
        SmallVector<MDNode*, 2> types;
        f.getMetadata(LLVMContext::MD_type, types);
        for (MDNode* n : types) funcTypes[n->getOperand(1).get()].push_back(&f);
    }

    json::Array funcs;
    for (const Function& f : *m) {
        if (f.isIntrinsic()) continue;
        json::Object o;
        o["name"] = f.getName().str();
        o["demangled"] = demangle(f.getName().str());
        o["decl"] = f.isDeclaration();
        o["nounwind"] = f.doesNotThrow();
        o["noreturn"] = f.doesNotReturn();
        o["local"] = f.hasLocalLinkage();
        o["linkonce"] = f.hasLinkOnceLinkage();
        o["type"] = typeStr(f.getFunctionType());
        if (auto* sp = f.getSubprogram()) {
            o["file"] = sp->getFilename().str();
            o["dir"] = sp->getDirectory().str();
            o["line"] = int(sp->getLine());
        }
        json::Array calls, stores, loads, addr;
        std::set<std::string> addrSet;
        DominatorTree dt;
        if (!f.isDeclaration()) dt.recalculate(const_cast<Function&>(f));
        for (const Instruction& i : instructions(f)) {
            const Value* callee = nullptr;
            if (auto* cb = dyn_cast<CallBase>(&i)) {
                callee = cb->getCalledOperand()->stripPointerCasts();
                const Function* cf = dyn_cast<Function>(callee);
                if (cf && cf->isIntrinsic()) {
                    if (auto* mi = dyn_cast<AnyMemIntrinsic>(cb)) {
                        auto a = rootNames(mi->getDest());
                        if (!a.empty()) stores.push_back(json::Object { { "to", std::move(a) }, { "loc", loc(i) } });
                    } else if (cf->getIntrinsicID() == Intrinsic::trap) {
                        calls.push_back(json::Object { { "to", "llvm.trap" }, { "loc", loc(i) }, { "kind", "call" }, { "nounwind", true } });
                    }
                    continue;
                }
                json::Object c;
                if (cf) c["to"] = cf->getName().str();
                else if (isa<InlineAsm>(callee)) c["to"] = "<asm>";
                else {
                    c["to"] = nullptr;
                    c["type"] = typeStr(cb->getFunctionType());
                    if (auto* ld = dyn_cast<LoadInst>(callee)) {
                        auto a = rootNames(ld->getPointerOperand());
                        if (!a.empty()) c["via"] = std::move(a);
                        // virtual call: the callee is loaded from a slot of a loaded vtable pointer
                        const Value* p = ld->getPointerOperand()->stripPointerCasts();
                        APInt off(64, 0);
                        if (auto* g = dyn_cast<GEPOperator>(p)) {
                            (void)g->accumulateConstantOffset(m->getDataLayout(), off);
                            p = g->getPointerOperand()->stripPointerCasts();
                        }
                        if (isa<LoadInst>(p)) {
                            if (const Metadata* cls = testedType(p)) {
                                json::Array tg;
                                std::set<std::string> names;
                                for (auto& [g, at] : vtables[cls]) {
                                    if (!g->hasInitializer()) continue;
                                    std::map<uint64_t, const Function*> slots;
                                    flatten(g->getInitializer(), 0, m->getDataLayout(), slots);
                                    auto it = slots.find(at + off.getZExtValue());
                                    if (it != slots.end()) names.insert(it->second->getName().str());
                                }
                                for (auto& n : names) tg.push_back(n);
                                c["targets"] = std::move(tg);
                                c["virtual"] = true;
                            }
                        }
                    }
                    if (!c.get("targets"))
                        if (const Metadata* ft = testedType(callee)) {
                            json::Array tg;
                            for (const Function* t : funcTypes[ft]) tg.push_back(t->getName().str());
                            c["targets"] = std::move(tg);
                            c["ctype"] = typeId(ft);
                        }
                }
                json::Array args;
                for (const Use& u : cb->args()) {
                    if (!u->getType()->isIntegerTy()) { args.push_back(nullptr); continue; }
                    json::Array vals;
                    SmallPtrSet<const Value*, 8> seen;
                    bool ok = true;
                    intValues(u.get(), f, seen, vals, ok);
                    if (ok) args.push_back(std::move(vals));
                    else args.push_back(nullptr);
                }
                c["args"] = std::move(args);
                if (cf && (cf->getName() == "ulight_alloc" || cf->getName() == "ulight_new" || cf->getName().contains("nothrow_t")))
                    c["unchecked"] = uncheckedUses(*cb, dt);
                c["loc"] = loc(i);
                c["nounwind"] = cb->doesNotThrow();
                if (auto* inv = dyn_cast<InvokeInst>(cb)) { c["kind"] = "invoke"; c["unwind"] = unwindKind(*inv); }
                else c["kind"] = "call";
                calls.push_back(std::move(c));
            } else if (auto* st = dyn_cast<StoreInst>(&i)) {
                auto a = rootNames(st->getPointerOperand());
                if (!a.empty()) stores.push_back(json::Object { { "to", std::move(a) }, { "loc", loc(i) } });
            } else if (auto* ld = dyn_cast<LoadInst>(&i)) {
                auto a = rootNames(ld->getPointerOperand());
                if (!a.empty()) loads.push_back(json::Object { { "from", std::move(a) }, { "loc", loc(i) } });
            } else if (isa<AtomicRMWInst>(&i) || isa<AtomicCmpXchgInst>(&i)) {
                auto a = rootNames(i.getOperand(0));
                if (!a.empty()) stores.push_back(json::Object { { "to", std::move(a) }, { "loc", loc(i) } });
            }
            // functions and globals whose address is used other than as a direct callee / access pointer
            for (const Use& u : i.operands()) {
                if (auto* cb = dyn_cast<CallBase>(&i))
                    if (cb->isCallee(&u)) continue;
                SmallPtrSet<const GlobalValue*, 4> refs;
                SmallPtrSet<const Value*, 8> seen;
                if (isa<Constant>(u.get())) constGlobals(u.get(), refs, seen);
                for (auto* r : refs) {
                    if (auto* st = dyn_cast<StoreInst>(&i); st && st->getPointerOperand() == u.get()) continue;
                    if (auto* ld = dyn_cast<LoadInst>(&i)) { (void)ld; continue; }
                    addrSet.insert(r->getName().str());
                }
            }
        }
        for (auto& s : addrSet) addr.push_back(s);
        json::Object sw;
        bool dynalloca = false;
        for (const Instruction& i : instructions(f)) {
            if (auto* a = dyn_cast<AllocaInst>(&i); a && !a->isStaticAlloca()) dynalloca = true;
            auto* s = dyn_cast<SwitchInst>(&i);
            if (!s) continue;
            const Value* c = s->getCondition();
            if (auto* z = dyn_cast<ZExtInst>(c)) c = z->getOperand(0);
            auto* a = dyn_cast<Argument>(c);
            if (!a) continue;
            json::Object cases;
            auto callees = [&](const BasicBlock* from) {
                std::set<const BasicBlock*> seen { from };
                std::vector<const BasicBlock*> work { from };
                std::set<std::string> names;
                while (!work.empty()) {
                    const BasicBlock* b = work.back();
                    work.pop_back();
                    for (const Instruction& j : *b)
                        if (auto* cb = dyn_cast<CallBase>(&j))
                            if (auto* cf = cb->getCalledFunction()) names.insert(cf->getName().str());
                    for (const BasicBlock* n : successors(b))
                        if (seen.insert(n).second) work.push_back(n);
                }
                json::Array r;
                for (auto& n : names) r.push_back(n);
                return r;
            };
            for (auto cs : s->cases()) cases[std::to_string(cs.getCaseValue()->getZExtValue())] = callees(cs.getCaseSuccessor());
            cases["default"] = callees(s->getDefaultDest());
            sw[std::to_string(a->getArgNo())] = std::move(cases);
        }
        if (!sw.empty()) o["switch_params"] = std::move(sw);
        std::string vol;
        std::set<std::string> intr;
        for (const Instruction& i : instructions(f)) {
            if (i.isVolatile() || i.isAtomic()) vol = loc(i);
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) intr.insert(ii->getCalledFunction()->getName().str());
        }
        if (!vol.empty()) o["volatile"] = vol;
        json::Array ia;
        for (auto& n : intr) ia.push_back(n);
        o["intrinsics"] = std::move(ia);
        if (!f.isDeclaration())
            if (std::string w = returnsMaybeNull(f, dt); !w.empty()) o["returns_maybe_null"] = w;
        if (dynalloca) o["dynalloca"] = true;
        o["calls"] = std::move(calls);
        o["stores"] = std::move(stores);
        o["loads"] = std::move(loads);
        o["addr"] = std::move(addr);
        funcs.push_back(std::move(o));
    }
    top["functions"] = std::move(funcs);
    outs() << json::Value(std::move(top)) << "\n";
    return 0;
}
