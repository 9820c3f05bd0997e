// astfacts: dumps facts of the type-checked AST of one translation unit as JSON: enumerations, record layouts, constants,
// functions, calls, array subscripts and member accesses of everything declared under the given root directory.
// It decides nothing itself.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Lex/Lexer.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string root;
static json::Object top;

static int64_t ext(const llvm::APSInt& i) { return i.isRepresentableByInt64() ? i.getExtValue() : -1; }

struct V : RecursiveASTVisitor<V> {
    ASTContext& c;
    std::unique_ptr<MangleContext> mc;
    std::vector<json::Object*> fn;
    json::Array enums, records, vars, funcs, cx, cxv, edits, exits;
    std::vector<const CXXRecordDecl*> vrec;
    std::vector<const FunctionDecl*> fnDecl;

    explicit V(ASTContext& c)
        : c(c)
        , mc(c.createMangleContext())
    {
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string file(SourceLocation l)
    {
        PresumedLoc p = c.getSourceManager().getPresumedLoc(c.getSourceManager().getExpansionLoc(l));
        return p.isValid() ? p.getFilename() : "";
    }
    int line(SourceLocation l)
    {
        PresumedLoc p = c.getSourceManager().getPresumedLoc(c.getSourceManager().getExpansionLoc(l));
        return p.isValid() ? int(p.getLine()) : 0;
    }
    bool mine(SourceLocation l) { return file(l).rfind(root, 0) == 0; }
    std::string qt(QualType t)
    {
        PrintingPolicy p(c.getLangOpts());
        p.SuppressTagKeyword = true;
        p.FullyQualifiedName = true;
        p.PrintCanonicalTypes = true;
        return t.getCanonicalType().getAsString(p);
    }
    std::string mangled(const FunctionDecl* f)
    {
        if (f->isDependentContext()) return "";
        std::string s;
        llvm::raw_string_ostream os(s);
        GlobalDecl gd;
        if (auto* k = dyn_cast<CXXConstructorDecl>(f)) gd = GlobalDecl(k, Ctor_Complete);
        else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) gd = GlobalDecl(d, Dtor_Complete);
        else gd = GlobalDecl(f);
        if (!mc->shouldMangleDeclName(f)) return f->getNameAsString();
        mc->mangleName(gd, os);
        return s;
    }

    // ---- constant values ----
    static constexpr int maxDepth = 12;
    json::Value val(const APValue& v, QualType t, int depth = 0)
    {
        if (depth > maxDepth) return nullptr;
        switch (v.getKind()) {
        case APValue::Int: {
            llvm::SmallString<32> s;
            v.getInt().toString(s);
            if (v.getInt().getBitWidth() <= 64 && v.getInt().isRepresentableByInt64()) return v.getInt().getExtValue();
            return std::string(s.str());
        }
        case APValue::Float: return v.getFloat().convertToDouble();
        case APValue::Array: {
            json::Array a;
            const auto* at = c.getAsArrayType(t);
            QualType et = at ? at->getElementType() : QualType();
            for (unsigned i = 0; i < v.getArrayInitializedElts(); ++i) a.push_back(val(v.getArrayInitializedElt(i), et, depth + 1));
            uint64_t n = v.getArraySize();
            if (v.hasArrayFiller() && n <= 4096)
                for (uint64_t i = v.getArrayInitializedElts(); i < n; ++i) a.push_back(val(v.getArrayFiller(), et, depth + 1));
            return a;
        }
        case APValue::Struct: {
            const auto* rd = t->getAsCXXRecordDecl();
            json::Object o;
            if (!rd) {
                const auto* r = t->getAsRecordDecl();
                if (!r) return nullptr;
                unsigned k = 0;
                for (auto* f : r->fields()) o[f->getNameAsString()] = val(v.getStructField(k++), f->getType(), depth + 1);
                return o;
            }
            if (rd->getName() == "basic_string_view" && v.getStructNumFields() == 2) {
                const APValue *len = nullptr, *ptr = nullptr;
                for (unsigned i = 0; i < 2; ++i) (v.getStructField(i).isInt() ? len : ptr) = &v.getStructField(i);
                if (len && ptr) return str(*ptr, ext(len->getInt()));
            }
            unsigned b = 0;
            for (auto& base : rd->bases()) {
                o["base" + std::to_string(b)] = val(v.getStructBase(b), base.getType(), depth + 1);
                ++b;
            }
            unsigned k = 0;
            for (auto* f : rd->fields()) o[f->getNameAsString()] = val(v.getStructField(k++), f->getType(), depth + 1);
            return o;
        }
        case APValue::Union: {
            json::Object o;
            if (const FieldDecl* f = v.getUnionField()) o[f->getNameAsString()] = val(v.getUnionValue(), f->getType(), depth + 1);
            return o;
        }
        case APValue::LValue: {
            if (v.isNullPointer()) return json::Object { { "null", true } };
            return str(v, -1);
        }
        default: return nullptr;
        }
    }
    // A pointer to characters: the text, of the given length or up to the terminator.
    json::Value str(const APValue& p, int64_t len)
    {
        if (!p.isLValue()) return nullptr;
        if (len == 0) return json::Object { { "s", "" } };
        APValue::LValueBase base = p.getLValueBase();
        if (const Expr* e = base.dyn_cast<const Expr*>()) {
            if (auto* sl = dyn_cast<StringLiteral>(e->IgnoreParenImpCasts())) {
                int64_t off = p.getLValueOffset().getQuantity();
                std::string s;
                if (sl->getCharByteWidth() == 1) {
                    llvm::StringRef b = sl->getBytes();
                    if (off > int64_t(b.size())) return nullptr;
                    b = b.substr(off);
                    int64_t avail = int64_t(b.size()) + 1;
                    s = len < 0 ? b.substr(0, b.find('\0')).str() : b.substr(0, len).str();
                    json::Object o;
                    o["s"] = json::fixUTF8(s);
                    if (len > 0 && len > avail - 1) o["overrun"] = true;
                    if (json::fixUTF8(s) != s) o["raw"] = true;
                    return o;
                }
                json::Array a;
                for (unsigned i = 0; i < sl->getLength(); ++i) a.push_back(int64_t(sl->getCodeUnit(i)));
                return json::Object { { "units", std::move(a) }, { "len", len } };
            }
        }
        if (const ValueDecl* d = base.dyn_cast<const ValueDecl*>()) {
            json::Object o { { "ref", d->getQualifiedNameAsString() }, { "off", int64_t(p.getLValueOffset().getQuantity()) }, { "len", len } };
            if (auto* vd = dyn_cast<VarDecl>(d))
                if (const APValue* w = const_cast<VarDecl*>(vd)->evaluateValue(); w && w->isArray() && len >= 0 && !p.getLValueOffset().getQuantity()) {
                    std::string s;
                    for (int64_t i = 0; i < len && i < int64_t(w->getArraySize()); ++i) {
                        const APValue& e = i < int64_t(w->getArrayInitializedElts()) ? w->getArrayInitializedElt(i) : w->getArrayFiller();
                        if (!e.isInt()) return o;
                        s += char(ext(e.getInt()));
                    }
                    o["s"] = json::fixUTF8(s);
                }
            return o;
        }
        return nullptr;
    }

    // ---- declarations ----
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!e->isThisDeclarationADefinition() || !mine(e->getLocation()) || e->isDependentContext()) return true;
        json::Object o;
        o["name"] = e->getQualifiedNameAsString();
        o["file"] = file(e->getLocation());
        o["line"] = line(e->getLocation());
        o["type"] = qt(e->getIntegerType());
        o["scoped"] = e->isScoped();
        json::Array a;
        for (auto* k : e->enumerators()) {
            json::Array p;
            p.push_back(k->getNameAsString());
            p.push_back(ext(k->getInitVal()));
            a.push_back(std::move(p));
        }
        o["values"] = std::move(a);
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitRecordDecl(RecordDecl* r)
    {
        if (auto* x = dyn_cast<CXXRecordDecl>(r); x && x->isThisDeclarationADefinition() && !x->isDependentType() && mine(x->getLocation()) && x->getNumVBases()
            && !isa<ClassTemplateSpecializationDecl>(x) && x->getLocation().isFileID()) vrec.push_back(x);
        if (!r->isThisDeclarationADefinition() || !mine(r->getLocation()) || r->isDependentContext() || r->isInvalidDecl()) return true;
        if (!r->isCompleteDefinition()) return true;
        const ASTRecordLayout& l = c.getASTRecordLayout(r);
        json::Object o;
        o["name"] = r->getQualifiedNameAsString();
        o["file"] = file(r->getLocation());
        o["line"] = line(r->getLocation());
        o["size"] = int64_t(l.getSize().getQuantity());
        o["align"] = int64_t(l.getAlignment().getQuantity());
        json::Array a;
        for (auto* f : r->fields()) {
            json::Object p;
            p["name"] = f->getNameAsString();
            p["type"] = qt(f->getType());
            p["offset"] = int64_t(l.getFieldOffset(f->getFieldIndex()) / 8);
            if (f->isBitField()) p["bit"] = int64_t(l.getFieldOffset(f->getFieldIndex()));
            else p["size"] = f->getType()->isReferenceType() ? int64_t(8) : int64_t(c.getTypeSizeInChars(f->getType()).getQuantity());
            a.push_back(std::move(p));
        }
        o["fields"] = std::move(a);
        if (auto* cr = dyn_cast<CXXRecordDecl>(r)) {
            json::Array b;
            for (auto& k : cr->bases()) b.push_back(qt(k.getType()));
            o["bases"] = std::move(b);
        }
        records.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* d)
    {
        if (cur() && !isa<ParmVarDecl>(d) && d->isLocalVarDecl() && d->hasInit()) {
            json::Array a;
            mentions(d->getInit(), a);
            cur()->getArray("inits")->push_back(json::Object { { "var", d->getQualifiedNameAsString() }, { "line", line(d->getLocation()) }, { "from", std::move(a) } });
        }
        if (isa<ParmVarDecl>(d) || !mine(d->getLocation()) || d->getType()->isDependentType()) return true;
        if (d->getDeclContext()->isDependentContext()) return true;
        if (!d->hasInit() || !d->getInit() || d->getInit()->isValueDependent()) return true;
        if (!d->getType().isConstQualified() && !d->isConstexpr()) {
            const auto* at = c.getAsArrayType(d->getType());
            if (!at || !at->getElementType().isConstQualified()) return true;
        }
        bool global = d->hasGlobalStorage();
        const APValue* v = nullptr;
        if (global || d->isConstexpr()) v = d->evaluateValue();
        if (!v) return true;
        json::Object o;
        o["name"] = d->getQualifiedNameAsString();
        o["file"] = file(d->getLocation());
        o["line"] = line(d->getLocation());
        o["type"] = qt(d->getType());
        o["constexpr"] = d->isConstexpr();
        if (const auto* at = c.getAsConstantArrayType(d->getType())) {
            o["extent"] = int64_t(at->getSize().getZExtValue());
            o["elem"] = qt(at->getElementType());
        }
        // big bit sets are of no use as text
        o["value"] = val(*v, d->getType());
        vars.push_back(std::move(o));
        return true;
    }

    // ---- functions ----
    bool TraverseFn(FunctionDecl* f, bool (V::*base)(FunctionDecl*)) { return true; }
    json::Object* cur() { return fn.empty() ? nullptr : fn.back(); }

    bool dataTraverse(FunctionDecl* f) { return true; }

    bool TraverseDecl(Decl* d)
    {
        auto* f = dyn_cast_or_null<FunctionDecl>(d);
        bool lambda = f && isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda();
        if (!f || isa<FunctionTemplateDecl>(d) || lambda || !mine(f->getLocation()) || f->isDependentContext() || f->isImplicit())
            return RecursiveASTVisitor<V>::TraverseDecl(d);
        auto o = std::make_unique<json::Object>();
        (*o)["name"] = f->getQualifiedNameAsString();
        (*o)["mangled"] = mangled(f);
        (*o)["file"] = file(f->getLocation());
        (*o)["line"] = line(f->getLocation());
        (*o)["ret"] = qt(f->getReturnType());
        (*o)["def"] = f->isThisDeclarationADefinition();
        (*o)["externc"] = f->isExternC();
        (*o)["constexpr"] = f->isConstexpr();
        if (auto* ft = f->getType()->getAs<FunctionProtoType>()) (*o)["noexcept"] = !f->isDependentContext() && ft->getExceptionSpecType() != EST_Unevaluated && ft->getExceptionSpecType() != EST_Uninstantiated && ft->getExceptionSpecType() != EST_Unparsed && ft->isNothrow();
        json::Array ps;
        for (auto* p : f->parameters()) ps.push_back(json::Object { { "name", p->getNameAsString() }, { "type", qt(p->getType()) } });
        (*o)["params"] = std::move(ps);
        (*o)["calls"] = json::Array();
        (*o)["subs"] = json::Array();
        (*o)["members"] = json::Array();
        (*o)["enumrefs"] = json::Array();
        (*o)["cmps"] = json::Array();
        (*o)["inits"] = json::Array();
        fn.push_back(o.get());
        bool r = RecursiveASTVisitor<V>::TraverseDecl(d);
        fn.pop_back();
        funcs.push_back(std::move(*o));
        return r;
    }

    // Where `constexpr` can be inserted to let the constant evaluator see a function.
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        lowerGotos(f);
        attempt(f);
        if (f->isImplicit() || f->isConstexpr() || f->isDefaulted() || f->isDeletedAsWritten() || f->isMain()) return true;
        auto* m = dyn_cast<CXXMethodDecl>(f);
        if (m && m->getParent()->isLambda()) return true;
        SourceLocation l = f->getInnerLocStart();
        if (!l.isFileID() || !mine(l)) return true;
        auto& sm = c.getSourceManager();
        (m && m->getParent()->hasDefinition() && m->getParent()->getNumVBases() ? cxv : cx).push_back(json::Object { { "file", file(l) }, { "off", int64_t(sm.getFileOffset(l)) } });
        return true;
    }

    // ---- attempts: methods of a highlighter that recognise something and say whether they did ----
    static bool hasField(const CXXRecordDecl* r, StringRef name)
    {
        if (!r || !r->hasDefinition()) return false;
        for (auto* x : r->fields())
            if (x->getName() == name) return true;
        for (auto& b : r->bases())
            if (hasField(b.getType()->getAsCXXRecordDecl(), name)) return true;
        return false;
    }
    struct Returns : RecursiveASTVisitor<Returns> {
        std::vector<const ReturnStmt*> all;
        bool shouldVisitTemplateInstantiations() const { return false; }
        bool VisitReturnStmt(ReturnStmt* r) { all.push_back(r); return true; }
        bool TraverseLambdaExpr(LambdaExpr*) { return true; }
    };
    void attempt(FunctionDecl* f)
    {
        auto* m = dyn_cast<CXXMethodDecl>(f);
        if (!m || m->isStatic() || !m->getDeclName().isIdentifier() || !f->doesThisDeclarationHaveABody() || f->isImplicit() || m->getParent()->isLambda()) return;
        StringRef n = m->getName();
        bool pure = n.starts_with("match_") || n.starts_with("peek_") || n.starts_with("starts_with");
        bool tries = n.starts_with("expect_") || n.starts_with("try_");
        if (!(pure || (tries && !f->getReturnType()->isVoidType() && !f->getReturnType()->isEnumeralType() && !f->getReturnType()->isReferenceType()))) return;
        if (!hasField(m->getParent(), "index") || !hasField(m->getParent(), "remainder") || !hasField(m->getParent(), "out")) return;
        auto* b = dyn_cast_or_null<CompoundStmt>(f->getBody());
        if (!b || !b->getLBracLoc().isFileID() || !mine(b->getLBracLoc())) return;
        Returns rs;
        rs.TraverseStmt(b);
        if (rs.all.empty()) return;
        auto& sm = c.getSourceManager();
        for (auto* r : rs.all) {
            auto* e = r->getRetValue();
            if (!e || !r->getBeginLoc().isFileID() || !e->getBeginLoc().isFileID() || !e->getEndLoc().isFileID() || isa<InitListExpr>(e->IgnoreImplicit())) return;
        }
        auto put = [&](SourceLocation l, std::string text) {
            exits.push_back(json::Object { { "file", file(l) }, { "off", off(l) }, { "len", 0 }, { "text", text }, { "fn", m->getQualifiedNameAsString() } });
        };
        put(b->getLBracLoc().getLocWithOffset(1), " const auto vp_was = ::vp_mark(*this);");
        for (auto* r : rs.all) {
            put(r->getRetValue()->getBeginLoc(), pure ? "::vp_pure(*this, vp_was, " : "::vp_left(*this, vp_was, ");
            put(Lexer::getLocForEndOfToken(r->getRetValue()->getEndLoc(), 0, sm, c.getLangOpts()), ")");
        }
    }

    // ---- equivalent rewritings of constructs the constant evaluator does not know: goto, and virtual base classes ----
    struct Jumps : RecursiveASTVisitor<Jumps> {
        std::vector<const GotoStmt*> gotos;
        std::vector<const LabelStmt*> labels;
        bool returns = false;
        bool VisitGotoStmt(GotoStmt* g) { gotos.push_back(g); return true; }
        bool VisitLabelStmt(LabelStmt* l) { labels.push_back(l); return true; }
        bool VisitReturnStmt(ReturnStmt*) { returns = true; return true; }
        bool TraverseLambdaExpr(LambdaExpr*) { return true; }
    };
    int64_t off(SourceLocation l) { return int64_t(c.getSourceManager().getFileOffset(l)); }
    void edit(SourceLocation l, int64_t len, std::string text)
    {
        edits.push_back(json::Object { { "file", file(l) }, { "off", off(l) }, { "len", len }, { "text", text } });
    }
    const Stmt* up(const Stmt* s)
    {
        auto ps = c.getParents(*s);
        return ps.empty() ? nullptr : ps[0].get<Stmt>();
    }
    const Stmt* breakable(const Stmt* s)
    {
        for (s = up(s); s; s = up(s))
            if (isa<SwitchStmt, ForStmt, WhileStmt, DoStmt, CXXForRangeStmt>(s)) return s;
        return nullptr;
    }
    static bool escapes(const Stmt* s, bool loop, bool sw)
    {
        if (!s) return false;
        if (isa<BreakStmt>(s)) return !loop && !sw;
        if (isa<ContinueStmt>(s)) return !loop;
        if (isa<LambdaExpr>(s)) return false;
        bool l = loop || isa<ForStmt, WhileStmt, DoStmt, CXXForRangeStmt>(s), w = sw || isa<SwitchStmt>(s);
        for (auto* k : s->children())
            if (escapes(k, l, w)) return true;
        return false;
    }
    std::set<std::pair<std::string, int64_t>> gotoDone;
    void lowerGotos(FunctionDecl* f)
    {
        if (f->isTemplateInstantiation() || !f->doesThisDeclarationHaveABody()) return;
        Jumps j;
        j.TraverseStmt(f->getBody());
        auto& sm = c.getSourceManager();
        for (auto* l : j.labels) {
            if (!l->getBeginLoc().isFileID() || !mine(l->getBeginLoc()) || !gotoDone.insert({ file(l->getBeginLoc()), off(l->getBeginLoc()) }).second) continue;
            std::vector<const GotoStmt*> gs;
            for (auto* g : j.gotos) if (g->getLabel() == l->getDecl()) gs.push_back(g);
            if (gs.empty()) continue;
            auto len = [&](const GotoStmt* g) { return off(Lexer::getLocForEndOfToken(g->getLabelLoc(), 0, sm, c.getLangOpts())) - off(g->getBeginLoc()); };
            if (auto* cs = dyn_cast_or_null<CompoundStmt>(up(l))) {
                std::vector<const Stmt*> kids(cs->body_begin(), cs->body_end());
                size_t at = std::find(kids.begin(), kids.end(), l) - kids.begin(), first = at;
                bool ok = at < kids.size();
                for (auto* g : gs) {
                    const Stmt *s = g, *p = up(g);
                    while (p && p != cs) { s = p; p = up(p); }
                    size_t i = std::find(kids.begin(), kids.end(), s) - kids.begin();
                    if (!p || i >= at) ok = false;
                    first = std::min(first, i);
                }
                for (size_t i = first; ok && i < at; ++i) {
                    Jumps k;
                    k.TraverseStmt(const_cast<Stmt*>(kids[i]));
                    if (k.returns || !k.labels.empty() || isa<DeclStmt>(kids[i]) || escapes(kids[i], false, false)) ok = false;
                    for (auto* g : k.gotos) if (g->getLabel() != l->getDecl()) ok = false;
                }
                if (ok) {
                    edit(kids[first]->getBeginLoc(), 0, "[&] { ");
                    edit(l->getBeginLoc(), 0, "}(); ");
                    for (auto* g : gs) edit(g->getBeginLoc(), len(g), "return");
                    continue;
                }
            }
            auto* body = dyn_cast<CompoundStmt>(l->getSubStmt());
            if (!body || body->body_empty() || !isa<BreakStmt, ContinueStmt, ReturnStmt>(body->body_back())) continue;
            Jumps k;
            k.TraverseStmt(const_cast<CompoundStmt*>(body));
            if (!k.labels.empty() || !k.gotos.empty()) continue;
            std::string text = Lexer::getSourceText(CharSourceRange::getTokenRange(body->getSourceRange()), sm, c.getLangOpts()).str();
            for (auto* g : gs)
                if (breakable(g) == breakable(l)) edit(g->getBeginLoc(), len(g), text);
        }
    }
    void lowerVirtualBases()
    {
        auto& sm = c.getSourceManager();
        auto& lo = c.getLangOpts();
        auto textOf = [&](SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), sm, lo).str(); };
        std::map<const CXXRecordDecl*, std::string> mixin;
        for (auto* r : vrec) {
            if (r->getNumBases() != 2) continue;
            auto it = r->bases_begin();
            auto &a = *it, &b = *++it;
            auto *ra = a.getType()->getAsCXXRecordDecl(), *rb = b.getType()->getAsCXXRecordDecl();
            auto simple = [](const CXXRecordDecl* x) { return x && x->getNumBases() == 1 && x->bases_begin()->isVirtual(); };
            if (a.isVirtual() || b.isVirtual() || !simple(ra) || !simple(rb) || ra->bases_begin()->getType()->getAsCXXRecordDecl() != rb->bases_begin()->getType()->getAsCXXRecordDecl()) continue;
            mixin[rb] = textOf(rb->bases_begin()->getTypeSourceInfo()->getTypeLoc().getSourceRange());
            edit(a.getBeginLoc(), off(Lexer::getLocForEndOfToken(b.getEndLoc(), 0, sm, lo)) - off(a.getBeginLoc()), textOf(b.getTypeSourceInfo()->getTypeLoc().getSourceRange()) + "_vp<" + textOf(a.getTypeSourceInfo()->getTypeLoc().getSourceRange()) + ">");
        }
        for (auto* r : vrec) {
            if (r->getNumBases() != 1 || !r->bases_begin()->isVirtual()) continue;
            auto& b = *r->bases_begin();
            int64_t len = off(Lexer::getLocForEndOfToken(b.getEndLoc(), 0, sm, lo)) - off(b.getBeginLoc());
            auto m = mixin.find(r);
            if (m == mixin.end()) {
                edit(b.getBeginLoc(), len, textOf(b.getTypeSourceInfo()->getTypeLoc().getSourceRange()));
                continue;
            }
            std::string n = r->getNameAsString();
            edit(r->getBeginLoc(), 0, "template <class Vp_W> ");
            edit(r->getLocation(), int64_t(n.size()), n + "_vp");
            edit(b.getBeginLoc(), len, "Vp_W");
            edit(r->getEndLoc(), 1, "}; using " + n + " = " + n + "_vp<" + m->second + ">");
        }
    }

    // What an argument is: a constant, a variable, a parameter, or something else.
    json::Value arg(const Expr* e)
    {
        json::Object o;
        o["type"] = qt(e->getType());
        const Expr* s = e->IgnoreParenImpCasts();
        while (true) {
            if (auto* ce = dyn_cast<CXXConstructExpr>(s); ce && ce->getNumArgs() == 1) s = ce->getArg(0)->IgnoreParenImpCasts();
            else if (auto* fc = dyn_cast<ExplicitCastExpr>(s)) s = fc->getSubExpr()->IgnoreParenImpCasts();
            else if (auto* mt = dyn_cast<MaterializeTemporaryExpr>(s)) s = mt->getSubExpr()->IgnoreParenImpCasts();
            else if (auto* bt = dyn_cast<CXXBindTemporaryExpr>(s)) s = bt->getSubExpr()->IgnoreParenImpCasts();
            else break;
        }
        if (auto* dr = dyn_cast<DeclRefExpr>(s)) {
            o["var"] = dr->getDecl()->getQualifiedNameAsString();
            o["vtype"] = qt(dr->getDecl()->getType());
            if (auto* v = dyn_cast<VarDecl>(dr->getDecl())) {
                if (v->isLocalVarDecl() && v->hasInit()) o["local"] = true;
                o["line"] = line(v->getLocation());
            }
        } else if (auto* m = dyn_cast<MemberExpr>(s)) {
            o["member"] = m->getMemberDecl()->getQualifiedNameAsString();
        } else if (auto* k = dyn_cast<CallExpr>(s)) {
            if (auto* f = k->getDirectCallee()) o["call"] = f->getQualifiedNameAsString();
        } else if (isa<LambdaExpr>(s)) o["lambda"] = true;
        else if (auto* uo = dyn_cast<UnaryOperator>(s); uo && uo->getOpcode() == UO_AddrOf)
            if (auto* fd = dyn_cast<DeclRefExpr>(uo->getSubExpr()->IgnoreParens())) o["memptr"] = fd->getDecl()->getQualifiedNameAsString();
        if (!e->isValueDependent() && !e->isTypeDependent()) {
            Expr::EvalResult r;
            if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, c)) o["int"] = ext(r.Val.getInt());
            else if (auto* sl = dyn_cast<StringLiteral>(s); sl && sl->getCharByteWidth() == 1) o["str"] = json::fixUTF8(sl->getBytes());
        }
        return o;
    }
    void call(const Expr* e, const FunctionDecl* f, llvm::ArrayRef<const Expr*> args, const Expr* obj)
    {
        if (!cur() || !f) return;
        json::Object o;
        o["to"] = f->getQualifiedNameAsString();
        if (!mine(f->getLocation()) && f->getTemplateSpecializationArgs()) { }
        o["line"] = line(e->getExprLoc());
        o["file"] = file(e->getExprLoc());
        json::Array a;
        for (auto* x : args) a.push_back(arg(x));
        o["args"] = std::move(a);
        if (obj) o["obj"] = arg(obj);
        cur()->getArray("calls")->push_back(std::move(o));
    }
    // Names of the variables, members and functions an expression mentions.
    void mentions(const Stmt* e, json::Array& a)
    {
        if (!e) return;
        if (auto* dr = dyn_cast<DeclRefExpr>(e)) a.push_back(dr->getDecl()->getQualifiedNameAsString());
        else if (auto* m = dyn_cast<MemberExpr>(e)) a.push_back(m->getMemberDecl()->getQualifiedNameAsString());
        for (auto* k : e->children()) mentions(k, a);
    }
    void compare(llvm::StringRef op, const Expr* l, const Expr* r, const Expr* at)
    {
        json::Array a, b;
        mentions(l, a);
        mentions(r, b);
        cur()->getArray("cmps")->push_back(json::Object { { "op", op.str() }, { "l", std::move(a) }, { "r", std::move(b) }, { "line", line(at->getExprLoc()) } });
    }
    bool VisitBinaryOperator(BinaryOperator* e)
    {
        if (cur() && e->isComparisonOp()) compare(e->getOpcodeStr(), e->getLHS(), e->getRHS(), e);
        return true;
    }
    bool VisitCXXRewrittenBinaryOperator(CXXRewrittenBinaryOperator* e)
    {
        if (cur()) { auto d = e->getDecomposedForm(); compare(BinaryOperator::getOpcodeStr(d.Opcode), d.LHS, d.RHS, e); }
        return true;
    }
    bool VisitCallExpr(CallExpr* e)
    {
        if (!cur()) return true;
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e); oc && oc->isComparisonOp() && oc->getNumArgs() == 2)
            compare(getOperatorSpelling(oc->getOperator()), oc->getArg(0), oc->getArg(1), e);
        else if (auto* m = dyn_cast<CXXMemberCallExpr>(e); m && m->getNumArgs() >= 1 && m->getMethodDecl() && m->getImplicitObjectArgument()) {
            auto n = m->getMethodDecl()->getNameAsString();
            if (n == "starts_with" || n == "ends_with" || n == "compare") compare(n, m->getImplicitObjectArgument(), m->getArg(m->getNumArgs() - 1), e);
        }
        else if (auto* f = e->getDirectCallee(); f && e->getNumArgs() == 2 && !isa<CXXOperatorCallExpr>(e)) {
            auto n = f->getNameAsString();
            if (n.find("equal") != std::string::npos || n.find("compare") != std::string::npos || n.find("starts_with") != std::string::npos) compare(n, e->getArg(0), e->getArg(1), e);
        }
        const FunctionDecl* f = e->getDirectCallee();
        llvm::SmallVector<const Expr*, 8> as(e->arg_begin(), e->arg_end());
        const Expr* obj = nullptr;
        if (auto* m = dyn_cast<CXXMemberCallExpr>(e)) obj = m->getImplicitObjectArgument();
        call(e, f, as, obj);
        // array subscripts through operator[]
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e); oc && oc->getOperator() == OO_Subscript && oc->getNumArgs() == 2)
            sub(oc->getArg(0), oc->getArg(1), e);
        return true;
    }
    bool VisitCXXConstructExpr(CXXConstructExpr* e)
    {
        if (!cur()) return true;
        llvm::SmallVector<const Expr*, 8> as(e->arg_begin(), e->arg_end());
        call(e, e->getConstructor(), as, nullptr);
        return true;
    }
    std::string enumUnder(const Expr* e)
    {
        e = e->IgnoreParens();
        for (int i = 0; i < 20; ++i) {
            if (e->getType()->isEnumeralType()) return qt(e->getType().getUnqualifiedType());
            if (auto* k = dyn_cast<CastExpr>(e)) e = k->getSubExpr()->IgnoreParens();
            else if (auto* k = dyn_cast<CallExpr>(e); k && k->getNumArgs() == 1) e = k->getArg(0)->IgnoreParens();
            else break;
        }
        return "";
    }
    void sub(const Expr* b, const Expr* i, const Expr* at)
    {
        std::string en = enumUnder(i);
        json::Object o;
        o["base"] = arg(b);
        o["enum"] = en;
        o["line"] = line(at->getExprLoc());
        o["file"] = file(at->getExprLoc());
        cur()->getArray("subs")->push_back(std::move(o));
    }
    // `T {}` whose default member initializers read other members: clang 18 resolves their `this` wrongly inside of lambdas.
    bool VisitCXXFunctionalCastExpr(CXXFunctionalCastExpr* e)
    {
        auto* l = dyn_cast<InitListExpr>(e->getSubExpr()->IgnoreImplicit());
        if (!l || !e->getBeginLoc().isFileID() || !e->getEndLoc().isFileID() || !mine(e->getBeginLoc())) return true;
        auto* syn = l->isSyntacticForm() ? l : l->getSyntacticForm();
        auto* sem = l->isSemanticForm() ? l : l->getSemanticForm();
        if (!sem || (syn && syn->getNumInits() != 0)) return true;
        struct This : RecursiveASTVisitor<This> { bool found = false; bool VisitCXXThisExpr(CXXThisExpr*) { found = true; return true; } } t;
        for (auto* i : sem->inits())
            if (auto* d = dyn_cast_or_null<CXXDefaultInitExpr>(i)) t.TraverseStmt(d->getExpr());
        if (!t.found) return true;
        auto& sm = c.getSourceManager();
        auto type = Lexer::getSourceText(CharSourceRange::getTokenRange(e->getTypeInfoAsWritten()->getTypeLoc().getSourceRange()), sm, c.getLangOpts()).str();
        edit(e->getBeginLoc(), off(Lexer::getLocForEndOfToken(e->getEndLoc(), 0, sm, c.getLangOpts())) - off(e->getBeginLoc()), "::vp_make<" + type + ">()");
        return true;
    }
    bool VisitArraySubscriptExpr(ArraySubscriptExpr* e)
    {
        if (cur()) sub(e->getBase(), e->getIdx(), e);
        return true;
    }
    bool VisitMemberExpr(MemberExpr* e)
    {
        if (!cur() || !isa<FieldDecl>(e->getMemberDecl()) || !mine(e->getMemberDecl()->getLocation())) return true;
        json::Object o;
        o["field"] = e->getMemberDecl()->getQualifiedNameAsString();
        o["line"] = line(e->getExprLoc());
        bool write = false, addr = false;
        const Expr* x = e;
        for (int i = 0; i < 4; ++i) {
            auto ps = c.getParents(*x);
            if (ps.empty()) break;
            if (auto* p = ps[0].get<ParenExpr>()) { x = p; continue; }
            if (auto* bo = ps[0].get<BinaryOperator>()) { if (bo->isAssignmentOp() && bo->getLHS() == x) write = true; }
            else if (auto* uo = ps[0].get<UnaryOperator>()) {
                if (uo->isIncrementDecrementOp()) write = true;
                if (uo->getOpcode() == UO_AddrOf) addr = true;
            }
            break;
        }
        if (write) o["w"] = true;
        if (addr) o["addr"] = true;
        cur()->getArray("members")->push_back(std::move(o));
        return true;
    }
    // The characters and short strings a source file mentions.
    std::map<std::string, std::set<std::string>> lits;
    void lit(SourceLocation l, std::string s)
    {
        if (!l.isFileID() || !mine(l)) return;
        lits[file(l)].insert(std::move(s));
    }
    bool VisitCharacterLiteral(CharacterLiteral* e)
    {
        std::string s;
        for (unsigned v = e->getValue(); s.empty() || v; v >>= 8) s.push_back(char(v));
        if (e->getValue() < 0x80) lit(e->getBeginLoc(), s);
        return true;
    }
    bool VisitStringLiteral(StringLiteral* e)
    {
        if (e->getCharByteWidth() == 1 && e->getLength() && e->getLength() <= 12) lit(e->getBeginLoc(), e->getBytes().str());
        return true;
    }
    bool VisitDeclRefExpr(DeclRefExpr* e)
    {
        if (!cur()) return true;
        if (auto* k = dyn_cast<EnumConstantDecl>(e->getDecl()))
            if (mine(k->getLocation())) cur()->getArray("enumrefs")->push_back(k->getQualifiedNameAsString());
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& c) override
    {
        V v(c);
        v.TraverseDecl(c.getTranslationUnitDecl());
        v.lowerVirtualBases();
        top["cxv"] = std::move(v.cxv);
        top["edits"] = std::move(v.edits);
        top["exits"] = std::move(v.exits);
        json::Object lits;
        for (auto& [f, set] : v.lits) {
            json::Array a;
            for (auto& s : set) a.push_back(llvm::toHex(s));
            lits[f] = std::move(a);
        }
        top["lits"] = std::move(lits);
        top["enums"] = std::move(v.enums);
        top["records"] = std::move(v.records);
        top["vars"] = std::move(v.vars);
        top["functions"] = std::move(v.funcs);
        top["cx"] = std::move(v.cx);
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv)
{
    // astfacts ROOT FILE -- FLAGS
    if (argc < 4) return 2;
    root = argv[1];
    std::vector<std::string> flags(argv + 4, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool t(db, { argv[2] });
    if (t.run(tooling::newFrontendActionFactory<Action>().get())) return 1;
    llvm::outs() << json::Value(std::move(top)) << "\n";
    return 0;
}
