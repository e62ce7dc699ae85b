// irx: turns one LLVM bitcode module into JSON facts for the rule engine.
//
//   irx facts IN.bc OUT.json --root DIR [--root DIR...]
//   irx roots IN.bc OUT.json SPEC.txt --root DIR ...
//
// "facts"  mem2reg/SROA + EarlyCSE, then every function whose debug location lies below one of the
//          roots is dumped in full; all other defined functions only with the functions they reference.
// "roots"  as facts, but every function matching an "R regex" line of SPEC (demangled name) gets its
//          callees inlined first (except those matching an "N regex" line); only the roots are dumped.
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/AliasAnalysis.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/JumpThreading.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <llvm/Transforms/Utils/Local.h>

#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;

static std::vector<std::string> g_roots;
static const DataLayout*        DL;

static bool in_roots(StringRef path)
{
    for (auto& r : g_roots)
        if (path.starts_with(r))
            return true;
    return false;
}

static std::string full_path(const DIFile* f)
{
    if (!f)
        return "";
    std::string n = f->getFilename().str();
    if (!n.empty() && n[0] == '/')
        return n;
    return (f->getDirectory() + "/" + n).str();
}

static std::string jesc(StringRef s)
{
    std::string r;
    r.reserve(s.size() + 2);
    r.push_back('"');
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r.push_back('\\');
            r.push_back(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char buf[8];
            snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        } else
            r.push_back(c);
    }
    r.push_back('"');
    return r;
}

// ---- debug-info types -------------------------------------------------------------------------

struct Field {
    uint64_t    off, size;
    std::string name, type;
    bool        base, is_static;
};

struct Composite {
    std::string        qname, file;
    uint64_t           size;
    unsigned           line;
    std::vector<Field> fields;
};

static std::map<std::string, std::vector<Composite>> g_comps; // by qualified name without template args

static std::string strip_tpl(StringRef n)
{
    // strip template arguments
    std::string r;
    int         d = 0;
    for (size_t i = 0; i < n.size(); ++i) {
        char c = n[i];
        if (c == '<') {
            ++d;
            continue;
        }
        if (c == '>' && d > 0) {
            --d;
            continue;
        }
        if (!d)
            r.push_back(c);
    }
    return r;
}

static std::string di_qname(const DIScope* s)
{
    if (!s)
        return "";
    std::string n;
    const DIScope* p = s->getScope();
    if (isa<DINamespace>(s)) {
        n = s->getName().empty() ? "(anonymous namespace)" : s->getName().str();
        if (cast<DINamespace>(s)->getExportSymbols() && !s->getName().empty())
            return di_qname(p); // inline namespaces
    } else if (auto* sp = dyn_cast<DISubprogram>(s)) {
        n = sp->getName().str() + "()";
    } else if (isa<DIType>(s)) {
        n = s->getName().empty() ? "(anon)" : s->getName().str();
    } else if (isa<DILexicalBlockBase>(s))
        return di_qname(p);
    else
        return "";
    std::string q = di_qname(p);
    return q.empty() ? n : q + "::" + n;
}

static std::string di_typename(const DIType* t, int depth = 0)
{
    if (!t || depth > 8)
        return "void";
    if (auto* d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type: return di_typename(d->getBaseType(), depth + 1) + "*";
        case dwarf::DW_TAG_reference_type: return di_typename(d->getBaseType(), depth + 1) + "&";
        case dwarf::DW_TAG_const_type: return di_typename(d->getBaseType(), depth + 1);
        case dwarf::DW_TAG_volatile_type: return di_typename(d->getBaseType(), depth + 1);
        case dwarf::DW_TAG_typedef: return d->getName().str();
        default: return di_qname(t);
        }
    }
    if (auto* c = dyn_cast<DICompositeType>(t))
        if (c->getTag() == dwarf::DW_TAG_array_type)
            return di_typename(c->getBaseType(), depth + 1) + "[]";
    return di_qname(t);
}

static void collect_types(Module& M, raw_ostream& os)
{
    DebugInfoFinder dif;
    dif.processModule(M);
    bool first = true;
    os << "\"enums\":{";
    std::set<std::string> seen;
    for (auto* t : dif.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl())
            continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
            std::string q = di_qname(c);
            std::string f = full_path(c->getFile());
            if (!in_roots(f))
                continue;
            if (c->getName().empty())
                q += "@" + std::to_string(c->getLine());
            if (!seen.insert(q).second)
                continue;
            os << (first ? "" : ",") << jesc(q) << ":{\"file\":" << jesc(f) << ",\"v\":{";
            first   = false;
            bool f2 = true;
            for (auto* e : c->getElements())
                if (auto* en = dyn_cast<DIEnumerator>(e)) {
                    os << (f2 ? "" : ",") << jesc(en->getName()) << ":";
                    SmallString<32> sv;
                    en->getValue().toString(sv, 10, !en->isUnsigned());
                    os << sv;
                    f2 = false;
                }
            os << "}}";
        } else if (
            c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type
            || c->getTag() == dwarf::DW_TAG_union_type
        ) {
            Composite comp;
            comp.qname = di_qname(c);
            comp.file  = full_path(c->getFile());
            comp.size  = c->getSizeInBits() / 8;
            comp.line  = c->getLine();
            for (auto* e : c->getElements()) {
                auto* d = dyn_cast<DIDerivedType>(e);
                if (!d)
                    continue;
                if (d->getTag() == dwarf::DW_TAG_member)
                    comp.fields.push_back({ d->getOffsetInBits() / 8, d->getSizeInBits() / 8, d->getName().str(),
                                            di_typename(d->getBaseType()), false, d->isStaticMember() });
                else if (d->getTag() == dwarf::DW_TAG_inheritance)
                    comp.fields.push_back(
                        { d->getOffsetInBits() / 8, 0, "<base>", di_typename(d->getBaseType()), true, false }
                    );
            }
            g_comps[strip_tpl(comp.qname)].push_back(comp);
        }
    }
    os << "},\n\"structs\":[";
    first = true;
    for (auto& p : g_comps)
        for (auto& c : p.second) {
            if (!in_roots(c.file))
                continue;
            os << (first ? "\n" : ",\n") << "{\"n\":" << jesc(c.qname) << ",\"file\":" << jesc(c.file)
               << ",\"l\":" << c.line << ",\"size\":" << c.size << ",\"fields\":[";
            bool f2 = true;
            for (auto& f : c.fields) {
                os << (f2 ? "" : ",") << "[" << jesc(f.name) << "," << jesc(f.type) << "," << f.off << "," << f.size
                   << "," << (f.base ? 1 : f.is_static ? 2 : 0) << "]";
                f2 = false;
            }
            os << "]}";
            first = false;
        }
    os << "],\n";
}

static std::map<const StructType*, const Composite*> g_st2comp;
static std::map<const StructType*, std::string>      g_stname;

static std::string clean_struct_name(const StructType* st)
{
    if (!st->hasName())
        return "{}";
    auto it = g_stname.find(st);
    if (it != g_stname.end())
        return it->second;
    StringRef n = st->getName();
    for (const char* p : { "class.", "struct.", "union." })
        if (n.starts_with(p)) {
            n = n.drop_front(strlen(p));
            break;
        }
    // numeric suffix
    auto dot = n.rfind('.');
    if (dot != StringRef::npos && dot + 1 < n.size()
        && n.drop_front(dot + 1).find_first_not_of("0123456789") == StringRef::npos)
        n = n.take_front(dot);
    if (n.ends_with(".base"))
        n = n.drop_back(5);
    return g_stname[st] = n.str();
}

static const Composite* find_comp(const StructType* st)
{
    auto it = g_st2comp.find(st);
    if (it != g_st2comp.end())
        return it->second;
    const Composite* res = nullptr;
    if (st->isSized() && !st->isOpaque()) {
        std::string n    = strip_tpl(clean_struct_name(st));
        uint64_t    size = DL->getTypeAllocSize(const_cast<StructType*>(st));
        auto        ci   = g_comps.find(n);
        if (ci == g_comps.end()) {
            // function-local types: match by last component
            std::string suffix = "::" + n;
            for (auto& p : g_comps)
                if (p.first.size() > suffix.size() && StringRef(p.first).ends_with(suffix)
                    && p.first.find("()") != std::string::npos)
                    for (auto& c : p.second)
                        if (c.size == size && !res)
                            res = &c;
        } else {
            for (auto& c : ci->second)
                if (c.size == size && (!res || c.fields.size() > res->fields.size()))
                    res = &c;
            if (!res && ci->second.size() == 1)
                res = &ci->second.front();
        }
    }
    return g_st2comp[st] = res;
}

static std::string field_comp(StructType* st, unsigned idx)
{
    std::string sn = clean_struct_name(st);
    if (auto* c = find_comp(st)) {
        uint64_t     off  = DL->getStructLayout(st)->getElementOffset(idx);
        const Field* best = nullptr;
        for (auto& f : c->fields)
            if (f.off == off && !f.is_static)
                if (!best || (best->base && best->size == 0))
                    best = &f;
        if (best) {
            if (best->base)
                return ""; // base subobject: transparent
            return sn + "::" + best->name;
        }
        return sn + "::@" + std::to_string(off);
    }
    if (sn == "{}")
        return "." + std::to_string(idx);
    return sn + "::#" + std::to_string(idx);
}

// ---- values -------------------------------------------------------------------------------------

struct FnEmitter;
static std::unordered_map<const Value*, int> g_ids;
static std::unordered_map<const BasicBlock*, int> g_bbs;

static std::string ty_str(Type* t)
{
    if (t->isPointerTy())
        return "ptr";
    if (auto* s = dyn_cast<StructType>(t))
        return clean_struct_name(s);
    std::string        s;
    raw_string_ostream o(s);
    t->print(o, false, true);
    return o.str();
}

static const char* cstr_of(const GlobalVariable* gv, std::string& out)
{
    if (!gv->hasInitializer() || !gv->isConstant())
        return nullptr;
    if (auto* cda = dyn_cast<ConstantDataSequential>(gv->getInitializer())) {
        if (cda->isString(8)) {
            out = cda->getAsString().str();
            if (!out.empty() && out.back() == '\0')
                out.pop_back();
            return out.c_str();
        }
    } else if (isa<ConstantAggregateZero>(gv->getInitializer())) {
        if (auto* at = dyn_cast<ArrayType>(gv->getValueType()))
            if (at->getElementType()->isIntegerTy(8) && at->getNumElements() == 1) {
                out = "";
                return out.c_str();
            }
    }
    return nullptr;
}

static void gep_path(const GEPOperator* g, std::vector<std::string>& comps, std::vector<const Value*>& idxvals)
{
    Type* t     = g->getSourceElementType();
    bool  first = true;
    for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
        const Value* v = it->get();
        if (first) {
            first = false;
            if (auto* ci = dyn_cast<ConstantInt>(v)) {
                if (ci->isZero())
                    continue;
                comps.push_back(
                    (t->isIntegerTy(8) ? "+" : "[") + std::to_string(ci->getSExtValue()) + (t->isIntegerTy(8) ? "" : "]")
                );
            } else {
                comps.push_back("[*]");
                idxvals.push_back(v);
            }
            continue;
        }
        if (auto* st = dyn_cast<StructType>(t)) {
            unsigned    i = cast<ConstantInt>(v)->getZExtValue();
            std::string c = field_comp(st, i);
            if (!c.empty())
                comps.push_back(c);
            t = st->getElementType(i);
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
            if (auto* ci = dyn_cast<ConstantInt>(v))
                comps.push_back("[" + std::to_string(ci->getSExtValue()) + "]");
            else {
                comps.push_back("[*]");
                idxvals.push_back(v);
            }
            t = at->getElementType();
        } else if (auto* vt = dyn_cast<VectorType>(t)) {
            comps.push_back("[v]");
            t = vt->getElementType();
        }
    }
}

static std::string opnd(const Value* v);



static bool typed_path(Type* t, uint64_t off, std::vector<std::string>& comps)
{
    while (true) {
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL->getStructLayout(st);
            if (off >= sl->getSizeInBytes())
                return false;
            unsigned i = sl->getElementContainingOffset(off);
            // offset 0 is the aggregate itself
            if (off == 0)
                return true;
            std::string c = field_comp(st, i);
            if (!c.empty())
                comps.push_back(c);
            off -= sl->getElementOffset(i);
            t = st->getElementType(i);
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            if (!es)
                return false;
            if (off / es >= at->getNumElements() && off)
                return false;
            if (off / es)
                comps.push_back("[" + std::to_string(off / es) + "]");
            off %= es;
            t = at->getElementType();
        } else
            return off == 0;
    }
}

static bool g_offsets = false; // roots mode: report byte offsets
static std::map<std::string, uint64_t> g_cgep; // address inside a global -> byte offset

static std::string const_str(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        SmallString<24> s;
        ci->getValue().toString(s, 10, ci->getBitWidth() > 1);
        return ("#" + s).str();
    }
    if (auto* fp = dyn_cast<ConstantFP>(c)) {
        SmallString<24> s;
        fp->getValueAPF().toString(s);
        return ("f:" + s).str();
    }
    if (isa<ConstantPointerNull>(c))
        return "null";
    if (isa<UndefValue>(c))
        return "undef";
    if (auto* gv = dyn_cast<GlobalVariable>(c)) {
        std::string s;
        if (gv->hasPrivateLinkage() && cstr_of(gv, s))
            return "s:" + s;
        return "@" + gv->getName().str();
    }
    if (auto* gv = dyn_cast<GlobalValue>(c))
        return "@" + gv->getName().str();
    if (isa<ConstantAggregateZero>(c))
        return "zero";
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) {
            std::vector<std::string>  comps;
            std::vector<const Value*> iv;
            if (DL) {
                // address inside a global: canonical typed path, whatever shape the expression has
                APInt off(DL->getIndexTypeSizeInBits(g->getType()), 0);
                auto* base = dyn_cast<GlobalVariable>(g->stripAndAccumulateConstantOffsets(*DL, off, true));
                if (base && !off.isNegative() && typed_path(base->getValueType(), off.getZExtValue(), comps)) {
                    std::string r = const_str(base);
                    for (auto& s : comps)
                        r += "/" + s;
                    if (g_offsets && !comps.empty())
                        g_cgep[r] = off.getZExtValue();
                    return r;
                }
                comps.clear();
            }
            gep_path(g, comps, iv);
            std::string r = const_str(cast<Constant>(g->getPointerOperand()));
            for (auto& s : comps)
                r += "/" + s;
            if (g_offsets && DL) {
                APInt off(DL->getIndexTypeSizeInBits(g->getType()), 0);
                if (isa<GlobalVariable>(g->stripAndAccumulateConstantOffsets(*DL, off, true)) && !off.isNegative())
                    g_cgep[r] = off.getZExtValue();
            }
            return r;
        }
        if (ce->isCast())
            return const_str(ce->getOperand(0));
        return std::string("ce:") + ce->getOpcodeName();
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        // small aggregate of integers: "g:1,?,0"
        std::string r = "g:";
        for (unsigned k = 0; k < cs->getNumOperands(); ++k) {
            auto* ci = dyn_cast<ConstantInt>(cs->getOperand(k));
            r += (k ? "," : "") + (ci && ci->getBitWidth() <= 64 ? std::to_string(ci->getZExtValue()) : std::string("?"));
        }
        return r;
    }
    return "const";
}

static std::string opnd(const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v))
        return const_str(c);
    if (auto* a = dyn_cast<Argument>(v))
        return "a" + std::to_string(a->getArgNo());
    if (auto* b = dyn_cast<BasicBlock>(v))
        return "b" + std::to_string(g_bbs[b]);
    if (isa<InlineAsm>(v))
        return "asm";
    if (isa<MetadataAsValue>(v))
        return "md";
    auto it = g_ids.find(v);
    if (it != g_ids.end())
        return "%" + std::to_string(it->second);
    return "?";
}

static void emit_const_json(const Constant* c, raw_ostream& os, int depth = 0)
{
    if (depth > 12) {
        os << "null";
        return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        SmallString<24> s;
        ci->getValue().toString(s, 10, ci->getBitWidth() > 1);
        os << s;
        return;
    }
    if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        if (auto* cds = dyn_cast<ConstantDataSequential>(c))
            if (cds->isString(8)) {
                StringRef s = cds->getAsString();
                // arrays of char holding a C string
                os << "{\"s\":" << jesc(s.ends_with(StringRef("\0", 1)) ? s.take_front(s.find('\0')) : s) << "}";
                return;
            }
        unsigned n = 0;
        if (auto* at = dyn_cast<ArrayType>(c->getType()))
            n = at->getNumElements();
        else if (auto* st = dyn_cast<StructType>(c->getType()))
            n = st->getNumElements();
        if (n > 4096)
            n = 4096;
        if (isa<ConstantAggregateZero>(c) && n > 64)
            n = 0;
        os << "[";
        for (unsigned i = 0; i < n; ++i) {
            if (i)
                os << ",";
            emit_const_json(c->getAggregateElement(i), os, depth + 1);
        }
        os << "]";
        return;
    }
    os << jesc(const_str(c));
}

// ---- functions ----------------------------------------------------------------------------------

static std::map<std::string, int> g_locs;
static std::vector<std::string>   g_loclist;

static int loc_id(const DebugLoc& dl, const Function& F)
{
    std::string s;
    if (dl) {
        auto* di    = dl.get();
        auto* scope = cast<DILocalScope>(di->getScope());
        s           = full_path(scope->getFile()) + ":" + std::to_string(dl.getLine());
        // innermost function (differs from F after inlining)
        if (auto* sp = scope->getSubprogram()) {
            s += "|";
            s += sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
        }
        if (auto* ia = di->getInlinedAt()) {
            // outermost position
            while (ia->getInlinedAt())
                ia = ia->getInlinedAt();
            s += "|" + std::to_string(ia->getLine());
        }
    }
    auto it = g_locs.find(s);
    if (it != g_locs.end())
        return it->second;
    int id = g_loclist.size();
    g_loclist.push_back(s);
    g_locs[s] = id;
    return id;
}

static bool is_boring(const Instruction& I)
{
    if (isa<DbgInfoIntrinsic>(I))
        return true;
    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::experimental_noalias_scope_decl:
            return true;
        default:
            break;
        }
    }
    return false;
}

static bool is_private(const DISubprogram* sp)
{
    if (!sp)
        return false;
    const DISubprogram* d = sp->getDeclaration() ? sp->getDeclaration() : sp;
    auto*               t = dyn_cast_or_null<DICompositeType>(d->getScope());
    if (!t)
        return false;
    if (d->isPrivate() || d->isProtected())
        return true;
    return !d->isPublic() && t->getTag() == dwarf::DW_TAG_class_type;
}


static void emit_function(const Function& F, raw_ostream& os)
{
    g_ids.clear();
    g_bbs.clear();
    int n = 0, b = 0;
    for (auto& B : F) {
        g_bbs[&B] = b++;
        for (auto& I : B)
            if (!is_boring(I))
                g_ids[&I] = n++;
    }
    auto* sp = F.getSubprogram();
    os << "{\"n\":" << jesc(F.getName()) << ",\"d\":" << jesc(demangle(F.getName().str())) << ",\"f\":"
       << jesc(sp ? full_path(sp->getFile()) : "") << ",\"l\":" << (sp ? sp->getLine() : 0) << ",\"lk\":"
       << (F.hasLocalLinkage() ? 1 : F.hasLinkOnceLinkage() ? 2 : 0) << ",\"at\":" << (F.hasAddressTaken() ? 1 : 0)
       << ",\"priv\":" << (is_private(sp) ? 1 : 0) << ",\"ret\":" << jesc(ty_str(F.getReturnType()));
    std::map<unsigned, std::string> argn;
    if (sp) {
        for (auto* rn : sp->getRetainedNodes())
            if (auto* lv = dyn_cast<DILocalVariable>(rn))
                if (lv->getArg())
                    argn[lv->getArg()] = lv->getName().str();
    }
    os << ",\"args\":[";
    for (auto& a : F.args()) {
        os << (a.getArgNo() ? "," : "") << "[" << jesc(a.getName()) << "," << jesc(ty_str(a.getType())) << ","
           << (a.hasStructRetAttr() ? 1 : a.hasByValAttr() ? 2 : 0) << "]";
    }
    os << "],";
    // declared parameter types
    os << "\"dt\":[";
    if (sp && sp->getType()) {
        bool f = true;
        for (auto* t : sp->getType()->getTypeArray()) {
            os << (f ? "" : ",") << jesc(di_typename(t));
            f = false;
        }
    }
    os << "],\"B\":[";
    bool fb = true;
    for (auto& B : F) {
        os << (fb ? "\n[" : ",\n[");
        fb      = false;
        bool fi = true;
        for (auto& I : B) {
            if (is_boring(I))
                continue;
            os << (fi ? "" : ",") << "[" << g_ids[&I] << ",";
            fi = false;
            std::string              op = I.getOpcodeName();
            std::vector<std::string> args;
            std::string              extra;
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                args.push_back(opnd(cb->getCalledOperand()));
                for (auto& a : cb->args())
                    args.push_back(opnd(a.get()));
                if (auto* inv = dyn_cast<InvokeInst>(&I))
                    extra = "[" + std::to_string(g_bbs[inv->getNormalDest()]) + ","
                            + std::to_string(g_bbs[inv->getUnwindDest()]) + "]";
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional())
                    args.push_back(opnd(br->getCondition()));
                extra = "[";
                for (unsigned i = 0; i < br->getNumSuccessors(); ++i)
                    extra += (i ? "," : "") + std::to_string(g_bbs[br->getSuccessor(i)]);
                extra += "]";
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                args.push_back(opnd(sw->getCondition()));
                extra = "[" + std::to_string(g_bbs[sw->getDefaultDest()]);
                for (auto& c : sw->cases()) {
                    SmallString<24> s;
                    c.getCaseValue()->getValue().toString(s, 10, true);
                    extra += (",[" + s + "," + Twine(g_bbs[c.getCaseSuccessor()]) + "]").str();
                }
                extra += "]";
            } else if (auto* phi = dyn_cast<PHINode>(&I)) {
                extra = "[";
                for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i) {
                    args.push_back(opnd(phi->getIncomingValue(i)));
                    extra += (i ? "," : "") + std::to_string(g_bbs[phi->getIncomingBlock(i)]);
                }
                extra += "]";
            } else if (auto* g = dyn_cast<GEPOperator>(&I)) {
                std::vector<std::string>  comps;
                std::vector<const Value*> iv;
                gep_path(g, comps, iv);
                args.push_back(opnd(g->getPointerOperand()));
                for (auto* v : iv)
                    args.push_back(opnd(v));
                extra = "[";
                for (size_t i = 0; i < comps.size(); ++i)
                    extra += (i ? "," : "") + jesc(comps[i]);
                extra += "]";
            } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                extra = "[" + jesc(al->getName()) + "," + jesc(ty_str(al->getAllocatedType())) + "]";
                if (!isa<ConstantInt>(al->getArraySize()))
                    args.push_back(opnd(al->getArraySize()));
            } else if (auto* cmp = dyn_cast<CmpInst>(&I)) {
                op += "." + CmpInst::getPredicateName(cmp->getPredicate()).str();
                for (auto& o : I.operands())
                    args.push_back(opnd(o.get()));
                extra = jesc(ty_str(cmp->getOperand(0)->getType()));
            } else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
                op += "." + AtomicRMWInst::getOperationName(rmw->getOperation()).str();
                for (auto& o : I.operands())
                    args.push_back(opnd(o.get()));
                extra = jesc(toIRString(rmw->getOrdering()));
            } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                for (auto& o : I.operands())
                    args.push_back(opnd(o.get()));
                extra = jesc(toIRString(cx->getSuccessOrdering()));
            } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
                args.push_back(opnd(ld->getPointerOperand()));
                if (ld->isAtomic())
                    extra = jesc(toIRString(ld->getOrdering()));
                else if (ld->isVolatile())
                    extra = "\"volatile\"";
            } else if (auto* st = dyn_cast<StoreInst>(&I)) {
                args.push_back(opnd(st->getValueOperand()));
                args.push_back(opnd(st->getPointerOperand()));
                if (st->isAtomic())
                    extra = jesc(toIRString(st->getOrdering()));
                else if (st->isVolatile())
                    extra = "\"volatile\"";
            } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                args.push_back(opnd(ev->getAggregateOperand()));
                extra = "[";
                for (unsigned i = 0; i < ev->getNumIndices(); ++i)
                    extra += (i ? "," : "") + std::to_string(ev->getIndices()[i]);
                extra += "]";
            } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                args.push_back(opnd(iv->getAggregateOperand()));
                args.push_back(opnd(iv->getInsertedValueOperand()));
                extra = "[";
                for (unsigned i = 0; i < iv->getNumIndices(); ++i)
                    extra += (i ? "," : "") + std::to_string(iv->getIndices()[i]);
                extra += "]";
            } else {
                for (auto& o : I.operands())
                    args.push_back(opnd(o.get()));
            }
            Type* t = I.getType();
            if (isa<StoreInst>(I))
                t = I.getOperand(0)->getType();
            os << jesc(op) << "," << jesc(ty_str(t)) << ",[";
            for (size_t i = 0; i < args.size(); ++i)
                os << (i ? "," : "") << jesc(args[i]);
            os << "]," << loc_id(I.getDebugLoc(), F);
            std::string y;
            if (g_offsets) {
                if (auto* g = dyn_cast<GEPOperator>(&I)) {
                    unsigned                  w = DL->getIndexTypeSizeInBits(g->getType());
                    MapVector<Value*, APInt>  vo;
                    APInt                     co(w, 0);
                    if (g->collectOffset(*DL, w, vo, co)) {
                        y = "[" + std::to_string(co.getSExtValue());
                        for (auto& p : vo)
                            y += ",[" + jesc(opnd(p.first)) + "," + std::to_string(p.second.getSExtValue()) + "]";
                        y += "]";
                    }
                } else if (isa<LoadInst>(I) || isa<StoreInst>(I)) {
                    y = std::to_string(DL->getTypeStoreSize(t).getKnownMinValue());
                } else if (isa<CastInst>(I)) {
                    y = std::to_string(DL->getTypeSizeInBits(I.getOperand(0)->getType()).getKnownMinValue());
                } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                    y = std::to_string(DL->getTypeAllocSize(al->getAllocatedType()).getKnownMinValue());
                }
            }
            if (!extra.empty())
                os << "," << extra;
            else if (!y.empty())
                os << ",null";
            if (!y.empty())
                os << "," << y;
            os << "]";
        }
        os << "]";
    }
    os << "]}";
}

static void fn_refs(const Function& F, std::set<std::string>& out)
{
    SmallVector<const Value*, 16> wl;
    std::set<const Value*>        seen;
    for (auto& B : F)
        for (auto& I : B) {
            if (is_boring(I))
                continue;
            for (auto& o : I.operands())
                wl.push_back(o.get());
        }
    while (!wl.empty()) {
        const Value* v = wl.pop_back_val();
        auto*        c = dyn_cast<Constant>(v);
        if (!c || !seen.insert(v).second)
            continue;
        if (isa<Function>(c)) {
            out.insert(c->getName().str());
            continue;
        }
        if (auto* gv = dyn_cast<GlobalVariable>(c)) {
            if (gv->getName().starts_with("_ZTV"))
                out.insert(gv->getName().str());
            continue;
        }
        for (auto& o : c->operands())
            wl.push_back(o.get());
    }
}

// ---- inlining -----------------------------------------------------------------------------------

static std::vector<std::unique_ptr<Regex>> g_rootre, g_noinl, g_doinl;
static size_t                              g_maxinst = 60000;

static bool match_any(const std::vector<std::unique_ptr<Regex>>& v, StringRef s)
{
    for (auto& r : v)
        if (r->match(s))
            return true;
    return false;
}

static const char* g_std_inline[] = {
    "std::lock_guard<",
    "std::move<", "std::forward<", "std::__addressof<", "std::addressof<",
    "std::atomic<", "std::__atomic_base<", "std::operator&(std::memory_order",
    "std::max<", "std::min<",
    "std::get<", "std::__get_helper<", "std::_Head_base<", "std::_Tuple_impl<",
};

static bool want_inline(Function* callee)
{
    if (!callee || callee->isDeclaration() || callee->isVarArg())
        return false;
    std::string d = demangle(callee->getName().str());
    if (match_any(g_noinl, d))
        return false;
    if (match_any(g_doinl, d))
        return true;
    if (auto* sp = callee->getSubprogram())
        if (in_roots(full_path(sp->getFile())))
            return true;
    // return-type prefix in the demangled name of templates
    for (const char* p : g_std_inline) {
        size_t pos = d.find(p);
        if (pos != std::string::npos && (pos == 0 || d[pos - 1] == ' ')) {
            // keep it to the function's own name: no '(' before
            if (d.find('(') > pos)
                return true;
        }
    }
    if (StringRef(d).contains("::operator->() const") || StringRef(d).contains("::operator*() const")
        || StringRef(d).contains("::get() const"))
        if (StringRef(d).starts_with("std::unique_ptr<") || StringRef(d).starts_with("std::shared_ptr<")
            || StringRef(d).starts_with("std::__shared_ptr<") || StringRef(d).starts_with("std::__shared_ptr_access<")
            || StringRef(d).starts_with("std::__uniq_ptr_impl<"))
            return true;
    return false;
}

static void inline_all(Function& F)
{
    struct Item {
        CallBase* cb;
        int       hist;
    };
    std::vector<std::pair<Function*, int>> hist; // (callee, parent)
    std::vector<Item>                      wl;
    auto add = [&](BasicBlock::iterator, BasicBlock::iterator) {};
    (void) add;
    for (auto& B : F)
        for (auto& I : B)
            if (auto* cb = dyn_cast<CallBase>(&I))
                wl.push_back({ cb, -1 });
    while (!wl.empty()) {
        Item it = wl.back();
        wl.pop_back();
        Function* callee = it.cb->getCalledFunction();
        if (!want_inline(callee) || callee == &F)
            continue;
        bool rec   = false;
        int  depth = 0;
        for (int h = it.hist; h >= 0; h = hist[h].second, ++depth)
            if (hist[h].first == callee)
                rec = true;
        if (rec || depth > 24 || F.getInstructionCount() > g_maxinst)
            continue;
        InlineFunctionInfo ifi;
        auto               res = InlineFunction(*it.cb, ifi);
        if (!res.isSuccess())
            continue;
        hist.push_back({ callee, it.hist });
        int h = hist.size() - 1;
        for (auto* c : ifi.InlinedCallSites)
            wl.push_back({ c, h });
    }
}

int main(int argc, char** argv)
{
    if (argc < 4) {
        errs() << "usage: irx facts|roots IN OUT [SPEC] --root DIR...\n";
        return 2;
    }
    std::string mode = argv[1], in = argv[2], out = argv[3], spec;
    for (int i = 4; i < argc; ++i) {
        if (std::string(argv[i]) == "--root" && i + 1 < argc)
            g_roots.push_back(argv[++i]);
        else
            spec = argv[i];
    }
    bool thread = false;
    g_offsets = mode == "roots";
    if (mode == "roots") {
        std::ifstream is(spec);
        std::string   l;
        while (std::getline(is, l)) {
            if (l.size() < 3)
                continue;
            auto re = std::make_unique<Regex>(l.substr(2));
            std::string err;
            if (!re->isValid(err)) {
                errs() << "bad regex " << l << ": " << err << "\n";
                return 2;
            }
            if (l[0] == 'R')
                g_rootre.push_back(std::move(re));
            else if (l[0] == 'N')
                g_noinl.push_back(std::move(re));
            else if (l[0] == 'I')
                g_doinl.push_back(std::move(re));
            else if (l[0] == 'T')
                thread = true;
        }
    }
    LLVMContext  ctx;
    SMDiagnostic err;
    auto         M = parseIRFile(in, err, ctx);
    if (!M) {
        err.print("irx", errs());
        return 2;
    }
    DL = &M->getDataLayout();

    LoopAnalysisManager     LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager    CGAM;
    ModuleAnalysisManager   MAM;
    PassBuilder             PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

    std::vector<Function*> roots;
    if (mode == "roots") {
        for (auto& F : *M)
            if (!F.isDeclaration() && match_any(g_rootre, demangle(F.getName().str())))
                roots.push_back(&F);
        // a root may be a callee of another root: work on clones
        std::vector<Function*> clones;
        for (auto* F : roots) {
            ValueToValueMapTy vm;
            Function*         C = CloneFunction(F, vm);
            clones.push_back(C);
            inline_all(*C);
        }
        for (size_t i = 0; i < roots.size(); ++i) {
            std::string n = roots[i]->getName().str();
            roots[i]->setName(n + ".orig");
            clones[i]->setName(n);
            roots[i] = clones[i];
        }
    }

    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(EarlyCSEPass(mode == "roots"));
    FPM.addPass(DCEPass());
    if (thread) {
        FPM.addPass(JumpThreadingPass());
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(DCEPass());
    }

    auto prepare = [&](Function& F) {
        F.removeFnAttr(Attribute::OptimizeNone);
        EliminateUnreachableBlocks(F);
        FPM.run(F, FAM);
        // fold constant branches left behind by inlining
        bool ch = false;
        for (auto& B : F)
            ch |= ConstantFoldTerminator(&B);
        EliminateUnreachableBlocks(F);
    };

    std::string        body;
    raw_string_ostream fo(body);
    std::string        hdr;
    raw_string_ostream ho(hdr);

    ho << "{\"module\":" << jesc(M->getSourceFileName()) << ",\n";
    collect_types(*M, ho);

    if (mode == "roots") {
        bool first = true;
        fo << "\"functions\":[";
        for (auto* F : roots) {
            prepare(*F);
            fo << (first ? "\n" : ",\n");
            first = false;
            emit_function(*F, fo);
        }
        fo << "],\n";
    } else {
        bool        first = true, first2 = true;
        std::string lib;
        raw_string_ostream lo(lib);
        fo << "\"functions\":[";
        for (auto& F : *M) {
            if (F.isDeclaration())
                continue;
            auto* sp = F.getSubprogram();
            bool  ours =
                (sp && in_roots(full_path(sp->getFile()))) || (!sp && F.getName().starts_with("_GLOBAL__sub_I"))
                || F.getName().starts_with("__cxx_global_var_init") || F.getName().starts_with("__cxx_global_array_dtor");
            std::set<std::string> refs;
            fn_refs(F, refs);
            if (ours) {
                prepare(F);
                fo << (first ? "\n" : ",\n");
                first = false;
                emit_function(F, fo);
            } else {
                lo << (first2 ? "\n" : ",\n") << jesc(F.getName()) << ":[";
                first2  = false;
                bool f3 = true;
                for (auto& r : refs) {
                    lo << (f3 ? "" : ",") << jesc(r);
                    f3 = false;
                }
                lo << "]";
            }
        }
        fo << "],\n\"lib\":{" << lo.str() << "},\n\"demangle\":{";
        bool f4 = true;
        for (auto& F : *M)
            if (F.getName().starts_with("_Z")) {
                fo << (f4 ? "" : ",") << jesc(F.getName()) << ":" << jesc(demangle(F.getName().str()));
                f4 = false;
            }
        fo << "},\n\"globals\":{";
        bool f5 = true;
        for (auto& G : M->globals()) {
            if (!G.hasInitializer())
                continue;
            std::string s;
            if (G.hasPrivateLinkage() && cstr_of(&G, s))
                continue;
            SmallVector<DIGlobalVariableExpression*, 1> gves;
            G.getDebugInfo(gves);
            std::string f, dn;
            unsigned    line = 0;
            if (!gves.empty()) {
                auto* gv = gves[0]->getVariable();
                f        = full_path(gv->getFile());
                dn       = gv->getName().str();
                line     = gv->getLine();
                if (!in_roots(f))
                    continue;
            }
            fo << (f5 ? "\n" : ",\n") << jesc(G.getName()) << ":{\"d\":" << jesc(demangle(G.getName().str()))
               << ",\"f\":" << jesc(f) << ",\"l\":" << line << ",\"const\":" << (G.isConstant() ? 1 : 0)
               << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"t\":" << jesc(ty_str(G.getValueType()))
               << ",\"init\":";
            f5 = false;
            emit_const_json(G.getInitializer(), fo);
            fo << "}";
        }
        fo << "},\n";
    }
    if (g_offsets) {
        fo << "\"cgep\":{";
        bool f6 = true;
        for (auto& p : g_cgep) {
            fo << (f6 ? "" : ",") << jesc(p.first) << ":" << p.second;
            f6 = false;
        }
        fo << "},\n";
    }
    fo << "\"locs\":[";
    for (size_t i = 0; i < g_loclist.size(); ++i)
        fo << (i ? "," : "") << jesc(g_loclist[i]);
    fo << "]}\n";

    std::error_code ec;
    raw_fd_ostream  os(out, ec);
    if (ec) {
        errs() << ec.message() << "\n";
        return 2;
    }
    os << ho.str() << fo.str();
    return 0;
}
