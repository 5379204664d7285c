// C08 structure of values, C09 copies, C10 equality, C13 unions, C23 immutability and handlers
#include "tree.h"
using namespace g;
using namespace vh;

static pvd::PVDataCreatePtr dc() { return pvd::getPVDataCreate(); }
static Opt valOpt() { Opt O; O.depth = 2; O.width = 3; O.longStrings = false; O.bigArrays = false; return O; }
#define SAMEV(F, T, V, KEY, EXTRA) do { Val got_ = read(F, T); if(!eqVal(T, V, got_)) \
    VFAIL(KEY, EXTRA << " type " << descTy(T) << " want " << descVal(T, V) << " got " << descVal(T, got_)); } while(0)

// ------------------------------------------------------------------ C08
// build the value in one of the ways the library offers
static pvd::PVFieldPtr buildBy(Rng& R, const Ty& t, int depth = 0);
static pvd::PVStructurePtr fromParts(Rng& R, const Ty& t, int depth) {
    pvd::StringArray names; pvd::PVFieldPtrArray f;
    for(size_t i = 0; i < t.kids.size(); i++) {
        names.push_back(t.names[i]);
        f.push_back(buildBy(R, *t.kids[i], depth + 1));
        // look at it while it is still on its own
        if(R.coin()) { f.back()->getFieldOffset(); f.back()->getNextFieldOffset(); }
        if(R.chance(1, 3) && f.back()->getField()->getType() == pvd::structure) {
            pvd::PVStructure& s = static_cast<pvd::PVStructure&>(*f.back());
            if(s.getPVFields().size()) s.getPVFields()[R.below(s.getPVFields().size())]->getNumberFields();
        }
    }
    if(t.id == "structure" && R.coin()) return dc()->createPVStructure(names, f);
    return pvd::PVStructurePtr(new pvd::PVStructure(buildStruct(t), f));
}
static pvd::PVFieldPtr buildBy(Rng& R, const Ty& t, int depth) {
    if(t.k == KStruct) switch(R.below(5)) {
    case 0: return fromParts(R, t, depth);
    case 1: return dc()->createPVStructure(std::tr1::static_pointer_cast<pvd::PVStructure>(buildBy(R, t, depth + 1)));
    case 2: return dc()->createPVField(buildBy(R, t, depth + 1));
    default: break;
    }
    return make(t, &R);
}
template<typename T> static bool isA(const pvd::PVFieldPtr& f) { return dynamic_cast<T*>(f.get()) != 0; }
template<typename T> static void lookup(pvd::PVStructure& s, const std::string& name, size_t off, const pvd::PVFieldPtr& f, const char *tn) {
    bool is = isA<T>(f);
    const pvd::PVStructure& cs = s;
    VCHECK((s.getSubField<T>(name).get() != 0) == is, "lookup-type-name", name << " as " << tn);
    VCHECK((s.getSubField<T>(name.c_str()).get() != 0) == is, "lookup-type-name", name << " as " << tn);
    VCHECK((cs.getSubField<T>(off).get() != 0) == is, "lookup-type-offset", name << " as " << tn);
    if(is) {
        VCHECK(static_cast<pvd::PVField*>(s.getSubFieldT<T>(name).get()) == f.get() && static_cast<const pvd::PVField*>(cs.getSubFieldT<T>(off).get()) == f.get(), "lookup-type-same", name << " as " << tn);
    } else {
        VTHROWS(s.getSubFieldT<T>(name), "lookup-type-throws", name << " as " << tn);
        VTHROWS(cs.getSubFieldT<T>(off), "lookup-type-throws", name << " as " << tn);
        VTHROWS(s.getSubFieldT<T>(name.c_str()), "lookup-type-throws", name << " as " << tn);
    }
    count("typed_lookups");
}
static void badName(pvd::PVStructure& s, const std::string& n) {
    const pvd::PVStructure& cs = s;
    VCHECK(!s.getSubField(n) && !cs.getSubField(n) && !s.getSubField(n.c_str()) && !s.getSubField<pvd::PVField>(n), "lookup-missing", q(n));
    VTHROWS(s.getSubFieldT(n), "lookup-missing-throws", q(n));
    VTHROWS(cs.getSubFieldT<pvd::PVField>(n), "lookup-missing-throws", q(n));
    count("missing_names");
}
// the lookups of a type, by name and by index, plain and asking for a class of type
static bool tyIs(const Ty& t, const pvd::Scalar*) { return t.k == KScalar || t.k == KBStr; }
static bool tyIs(const Ty& t, const pvd::BoundedString*) { return t.k == KBStr; }
static bool tyIs(const Ty& t, const pvd::ScalarArray*) { return t.k == KSArr; }
static bool tyIs(const Ty& t, const pvd::Array*) { return t.k == KSArr || t.k == KStructArr || t.k == KUnionArr || t.k == KVarArr; }
static bool tyIs(const Ty& t, const pvd::Structure*) { return t.k == KStruct; }
static bool tyIs(const Ty& t, const pvd::StructureArray*) { return t.k == KStructArr; }
static bool tyIs(const Ty& t, const pvd::Union*) { return t.k == KUnion || t.k == KVariant; }
static bool tyIs(const Ty& t, const pvd::UnionArray*) { return t.k == KUnionArr || t.k == KVarArr; }
static bool tyIs(const Ty&, const pvd::Field*) { return true; }
template<typename FT, typename S> static void typeLookup(const S& T, const Ty& kt, const std::string& nm, size_t i, const pvd::FieldConstPtr& have, const char *cn) {
    bool is = tyIs(kt, (const FT*)0);
    std::tr1::shared_ptr<const FT> a(T.template getField<FT>(nm)), b(T.template getField<FT>(i));
    VCHECK((a.get() != 0) == is && (b.get() != 0) == is, "type-lookup-class", nm << " as " << cn << ": " << descTy(kt));
    if(is) {
        VCHECK(static_cast<const pvd::Field*>(a.get()) == have.get() && a == b && T.template getFieldT<FT>(nm) == a && T.template getFieldT<FT>(i) == a, "type-lookup-class-same", nm << " as " << cn << ": " << descTy(kt));
    } else {
        VTHROWS(T.template getFieldT<FT>(nm), "type-lookup-class-throws", nm << " as " << cn << ": " << descTy(kt));
        VTHROWS(T.template getFieldT<FT>(i), "type-lookup-class-throws", nm << " as " << cn << ": " << descTy(kt));
    }
    count("type_lookups");
}
template<typename S> static void typeLookups(Rng& R, const S& T, const Ty& t) {
    size_t k = t.kids.size();
    VCHECK(T.getNumberFields() == k && T.getFields().size() == k && T.getFieldNames().size() == k, "type-lookup-count", descTy(t));
    for(size_t i = 0; i < k; i++) {
        const std::string& nm = t.names[i]; pvd::FieldConstPtr h(T.getFields()[i]);
        VCHECK(T.getFieldIndex(nm) == i && T.getField(nm) == h && T.getField(i) == h && T.getFieldT(nm) == h && T.getFieldT(i) == h && T.getFieldName(i) == nm && T.getFieldNames()[i] == nm, "type-lookup", nm << " in " << descTy(t));
#define L(C) typeLookup<pvd::C>(T, *t.kids[i], nm, i, h, #C);
        if(R.chance(1, 4)) { L(Field) L(Scalar) L(BoundedString) L(ScalarArray) L(Array) L(Structure) L(StructureArray) L(Union) L(UnionArray) }
#undef L
    }
    VTHROWS(T.getField(k), "type-lookup-range", ""); VTHROWS(T.getFieldT(k + 5), "type-lookup-range", ""); VTHROWS(T.getFieldName(k), "type-lookup-range", "");
    VTHROWS(T.template getField<pvd::Field>(k), "type-lookup-range", ""); VTHROWS(T.template getFieldT<pvd::Field>(k), "type-lookup-range", "");
    std::string no(R.coin() && k ? t.names[R.below(k)] + (R.coin() ? "x" : ".") : genName(R) + "~");
    for(size_t i = 0; i < k; i++) if(t.names[i] == no) no += "~";
    VCHECK(!T.getField(no) && T.getFieldIndex(no) == (size_t)-1 && !T.template getField<pvd::Field>(no), "type-lookup-missing", q(no));
    VTHROWS(T.getFieldT(no), "type-lookup-missing", q(no)); VTHROWS(T.template getFieldT<pvd::Field>(no), "type-lookup-missing", q(no));
}
static void checkTree(Rng& R, const Ty& t, const pvd::PVStructurePtr& top, const std::string& how) {
    std::vector<Node> n(flat(t));
    // the real fields, by walking down
    std::vector<pvd::PVFieldPtr> f(n.size()); f[0] = top;
    for(size_t i = 1; i < n.size(); i++) {
        const pvd::PVFieldPtrArray& c = static_cast<pvd::PVStructure&>(*f[n[i].parent]).getPVFields();
        VCHECK(c.size() == n[n[i].parent].t->kids.size(), "children", how << " " << descTy(t));
        f[i] = c[n[i].idx];
    }
    std::vector<size_t> order(n.size());
    for(size_t i = 0; i < n.size(); i++) order[i] = i;
    for(size_t i = n.size(); i-- > 1;) std::swap(order[i], order[R.below(i + 1)]);
    for(size_t i : order) {
        pvd::PVField& x = *f[i];
        int first = R.below(3);
        for(int k = 0; k < 3; k++) switch((first + k) % 3) {
        case 0: VCHECK(x.getFieldOffset() == n[i].off, "offset", how << " " << n[i].full << " got " << x.getFieldOffset() << " want " << n[i].off << " in " << descTy(t)); break;
        case 1: VCHECK(x.getNextFieldOffset() == n[i].off + n[i].num, "next-offset", how << " " << n[i].full << " got " << x.getNextFieldOffset() << " want " << n[i].off + n[i].num << " in " << descTy(t)); break;
        case 2: VCHECK(x.getNumberFields() == n[i].num, "number-fields", how << " " << n[i].full << " got " << x.getNumberFields() << " want " << n[i].num << " in " << descTy(t)); break;
        }
        VCHECK(x.getFieldName() == n[i].name, "name", how << " " << n[i].full << " got " << x.getFieldName());
        VCHECK(x.getFullName() == n[i].full, "full-name", how << " " << n[i].full << " got " << x.getFullName());
        VCHECK(x.getParent() == (i ? f[n[i].parent].get() : (pvd::PVField*)0), "parent", how << " " << n[i].full);
        VCHECK(eqTy(*tyOf(*x.getField()), *n[i].t), "field-type", how << " " << n[i].full << " " << descTy(*n[i].t));
        if(i) VCHECK(x.getField() == static_cast<pvd::PVStructure&>(*f[n[i].parent]).getStructure()->getField(n[i].idx), "field-type-same", n[i].full);
        count("fields");
    }
    // lookups from every structure
    for(size_t s = 0; s < n.size(); s++) {
        if(n[s].t->k != KStruct) continue;
        pvd::PVStructure& S = static_cast<pvd::PVStructure&>(*f[s]);
        const pvd::PVStructure& CS = S;
        for(size_t o = 0; o < n.size() + 2; o++) {
            bool in = o > n[s].off && o < n[s].off + n[s].num;
            pvd::PVFieldPtr g(S.getSubField(o));
            VCHECK(g == (in ? f[o] : pvd::PVFieldPtr()), "lookup-offset", how << " from " << s << " offset " << o << " in " << descTy(t));
            VCHECK(CS.getSubField(o).get() == g.get(), "lookup-offset-const", "");
            if(in) VCHECK(S.getSubFieldT(o) == f[o] && CS.getSubFieldT(o) == f[o], "lookup-offsetT", how << " from " << s << " offset " << o);
            else { VTHROWS(S.getSubFieldT(o), "lookup-offset-throws", how << " from " << s << " offset " << o); VTHROWS(CS.getSubFieldT<pvd::PVField>(o), "lookup-offset-throws", o); count("missing_offsets"); }
        }
        VCHECK(!S.getSubField((size_t)-1) && !S.getSubField((size_t)1 << 32), "lookup-offset-huge", "");
        for(size_t i = s + 1; i < n[s].off + n[s].num; i++) {
            std::string rel(s ? n[i].full.substr(n[s].full.size() + 1) : n[i].full);
            VCHECK(S.getSubField(rel) == f[i] && CS.getSubField(rel) == f[i] && S.getSubField(rel.c_str()) == f[i] && S.getSubFieldT(rel) == f[i], "lookup-name", how << " " << rel << " from " << s << " in " << descTy(t));
            if(n[i].t->k != KStruct && R.coin()) badName(S, rel + "." + R.pick(n[i].t->names.size() ? n[i].t->names : t.names));
        }
        // names which do not exist here
        std::set<std::string> known; for(size_t i = s + 1; i < n[s].off + n[s].num; i++) known.insert(s ? n[i].full.substr(n[s].full.size() + 1) : n[i].full);
        for(int k = 0; k < 8; k++) {
            std::string b(n.size() > 1 ? n[1 + R.below(n.size() - 1)].full : "x");
            switch(R.below(10)) {
            case 0: b += "x"; break;
            case 1: b = b.substr(0, b.size() - 1); break;
            case 2: b += "."; break;
            case 3: b = "." + b; break;
            case 4: b += " "; break;
            case 5: b = " " + b; break;
            case 6: { size_t p = b.find('.'); if(p != std::string::npos) b.insert(p, "."); else b += ".."; break; }
            case 7: b = genName(R); break;
            case 8: b = b + "." + genName(R); break;
            case 9: b = R.coin() ? "" : "."; break;
            }
            if(!known.count(b)) badName(S, b);
        }
        VCHECK(!S.getSubField((const char*)0), "lookup-null", "");
        VTHROWS(S.getSubFieldT((const char*)0), "lookup-null", "");
        // the type's own lookups
        typeLookups(R, *S.getStructure(), *n[s].t);
        for(size_t i = 0; i < n[s].t->kids.size(); i++) {
            const Ty& c = *n[s].t->kids[i]; pvd::FieldConstPtr g(S.getStructure()->getField(i));
            if(c.k == KUnion) typeLookups(R, static_cast<const pvd::Union&>(*g), c);
            else if(c.k == KVariant) typeLookups(R, static_cast<const pvd::Union&>(*g), Ty());
            else if(c.k == KUnionArr) typeLookups(R, *static_cast<const pvd::UnionArray&>(*g).getUnion(), *c.kids[0]);
            else if(c.k == KStructArr) typeLookups(R, *static_cast<const pvd::StructureArray&>(*g).getStructure(), *c.kids[0]);
        }
    }
    // wrong static types
    if(n.size() > 1) for(int k = 0; k < 3; k++) {
        size_t i = 1 + R.below(n.size() - 1);
#define L(T) lookup<pvd::T>(*top, n[i].full, i, f[i], #T);
        L(PVInt) L(PVDouble) L(PVUByte) L(PVBoolean) L(PVString) L(PVScalar) L(PVScalarArray) L(PVArray) L(PVStructure) L(PVUnion)
        L(PVStructureArray) L(PVUnionArray) L(PVIntArray) L(PVStringArray) L(PVField)
#undef L
    }
    distinct(hstr(descTy(t), hstr(how)));
    if(n.size() > 3 && n.size() < 9) sample(how + " " + descTy(t));
}
MODE(offsets) {
    Opt O; O.depth = 1 + R.below(4); O.width = 1 + R.below(6);
    if(R.chance(1, 40)) { O.width = 40; O.depth = 2; }
    TyP t(genStruct(R, O));
    if(R.chance(1, 100)) { // a long chain
        for(size_t n = 8 + R.below(70); n--;) { std::shared_ptr<Ty> c(new Ty); c->k = KStruct; c->id = genId(R, O, "structure"); c->names = genNames(R, 1 + R.below(3)); size_t at = R.below(c->names.size()); for(size_t i = 0; i < c->names.size(); i++) c->kids.push_back(i == at ? t : mkScalar(pvd::pvInt)); t = c; }
        count("long_chains"); }
    const char *how = "create"; pvd::PVStructurePtr s;
    switch(R.below(5)) {
    case 0: s = std::tr1::static_pointer_cast<pvd::PVStructure>(buildBy(R, *t)); how = "mixed"; break;
    case 1: s = fromParts(R, *t, 0); how = "parts"; break;
    case 2: { Val v(genVal(R, *t, valOpt())); s = dc()->createPVStructure(makeStruct(*t, v, &R)); how = "clone"; break; }
    case 3: { // as an element of a structure array, or the value of a union
        pvd::PVUnionPtr u(dc()->createPVVariantUnion()); u->set(make(*t, &R)); s = u->get<pvd::PVStructure>(); how = "in-union";
        checkTree(R, *t, s, how); return; }
    default: s = std::tr1::static_pointer_cast<pvd::PVStructure>(make(*t, &R));
    }
    if(R.coin() && s->getNumberFields() > 1) s->getSubField(1 + R.below(s->getNumberFields() - 1));
    checkTree(R, *t, s, how);
}

// ------------------------------------------------------------------ in-place changes of a value
static void mutateIn(Rng& R, pvd::PVField& f, const Ty& t, Val& v, int depth = 0);
template<typename T> static void mutArr(Rng& R, pvd::PVField& f, const Ty& t, Val& v) {
    typedef pvd::PVValueArray<T> A; A& a = dynamic_cast<A&>(f);
    typename A::svector s(a.reuse());
    VCHECK(s.size() == v.na.size(), "reuse-size", descTy(t));
    for(int k = 0; k < 3 && s.size(); k++) { size_t i = R.below(s.size()); uint64_t x = genNum(R, t.st, Opt()); s[i] = fromBits<T>(x); v.na[i] = x; }
    if(t.pol == 0 || (t.pol == 1 && s.size() < t.bound)) { if(R.coin()) { uint64_t x = genNum(R, t.st, Opt()); s.push_back(fromBits<T>(x)); v.na.push_back(x); } }
    a.replace(pvd::freeze(s));
}
static void mutateIn(Rng& R, pvd::PVField& f, const Ty& t, Val& v, int depth) {
    switch(t.k) {
    case KStruct: if(t.kids.size()) { size_t i = R.below(t.kids.size()); mutateIn(R, *static_cast<pvd::PVStructure&>(f).getPVFields()[i], *t.kids[i], v.a[i], depth + 1); } return;
    case KUnion: if(v.sel >= 0 && R.chance(2, 3)) { mutateIn(R, *static_cast<pvd::PVUnion&>(f).get(), *t.kids[v.sel], v.a[0], depth + 1); return; } break;
    case KVariant: if(v.vt && R.chance(2, 3)) { mutateIn(R, *static_cast<pvd::PVUnion&>(f).get(), *v.vt, v.a[0], depth + 1); return; } break;
    case KSArr: if(R.coin()) { switch(t.st) {
#define X(E, T) case pvd::E: mutArr<T>(R, f, t, v); return;
        G_EACH_NUM(X)
#undef X
        case pvd::pvString: {
            pvd::PVStringArray& a = dynamic_cast<pvd::PVStringArray&>(f); pvd::PVStringArray::svector s(a.reuse());
            if(s.size()) { size_t i = R.below(s.size()); s[i] += "+"; v.sa[i] += "+"; }
            a.replace(pvd::freeze(s)); return; }
        } }
        if(t.pol == 0 && R.coin()) { size_t n = R.below((t.st == pvd::pvString ? v.sa.size() : v.na.size()) + 1); static_cast<pvd::PVArray&>(f).setLength(n); if(t.st == pvd::pvString) v.sa.resize(n); else v.na.resize(n); return; }
        break;
    default: break;
    }
    v = genVal(R, t, valOpt());
    if(R.chance(1, 3)) { // as a message
        bool be = R.coin(); Enc e(be); e.val(t, v);
        std::unique_ptr<In> in(newIn(R, e.b, be));
        f.deserialize(&in->buf, in.get());
        VCHECK(in->left() == 0, "receive-left", descTy(t));
        count("received_changes"); return; }
    assign(f, t, v, &R);
}

// ------------------------------------------------------------------ C09
static pvd::PVFieldPtr cloneOf(Rng& R, const pvd::PVFieldPtr& f, std::string& how) {
    pvd::PVDataCreatePtr d(dc());
    switch(R.below(4)) {
    case 0: how = "createPVField(PVField)"; return d->createPVField(f);
    case 1: switch(f->getField()->getType()) {
        case pvd::scalar: how = "createPVScalar"; return d->createPVScalar(std::tr1::static_pointer_cast<pvd::PVScalar>(f));
        case pvd::scalarArray: how = "createPVScalarArray"; return d->createPVScalarArray(std::tr1::static_pointer_cast<pvd::PVScalarArray>(f));
        case pvd::structure: how = "createPVStructure"; return d->createPVStructure(std::tr1::static_pointer_cast<pvd::PVStructure>(f));
        case pvd::union_: how = "createPVUnion"; return d->createPVUnion(std::tr1::static_pointer_cast<pvd::PVUnion>(f));
        default: how = "createPVField(PVField)"; return d->createPVField(f);
        }
    case 2: { how = "create+copyUnchecked"; pvd::PVFieldPtr g(d->createPVField(f->getField())); g->copyUnchecked(*f); return g; }
    default: { how = "create+copy"; pvd::PVFieldPtr g(d->createPVField(f->getField())); g->copy(*f); return g; }
    }
}
static void copyTyped(Rng& R, pvd::PVField& d, const pvd::PVField& s, std::string& how) {
    if(R.chance(1, 3)) { how = "PVField::copy"; d.copy(s); return; }
    how = "typed copy";
    switch(d.getField()->getType()) {
    case pvd::scalar: static_cast<pvd::PVScalar&>(d).copy(static_cast<const pvd::PVScalar&>(s)); break;
    case pvd::scalarArray: static_cast<pvd::PVScalarArray&>(d).copy(static_cast<const pvd::PVScalarArray&>(s)); break;
    case pvd::structure: static_cast<pvd::PVStructure&>(d).copy(static_cast<const pvd::PVStructure&>(s)); break;
    case pvd::structureArray: static_cast<pvd::PVStructureArray&>(d).copy(static_cast<const pvd::PVStructureArray&>(s)); break;
    case pvd::union_: static_cast<pvd::PVUnion&>(d).copy(static_cast<const pvd::PVUnion&>(s)); break;
    case pvd::unionArray: static_cast<pvd::PVUnionArray&>(d).copy(static_cast<const pvd::PVUnionArray&>(s)); break;
    }
}
static void independent(Rng& R, pvd::PVField& a, Val& va, pvd::PVField& b, Val& vb, const Ty& t, const std::string& how) {
    SAMEV(a, t, va, "copy-source", how); SAMEV(b, t, vb, "copy-value", how);
    for(int k = 0; k < 4; k++) {
        if(R.coin()) mutateIn(R, a, t, va); else mutateIn(R, b, t, vb);
        SAMEV(a, t, va, "copy-alias", how << " original"); SAMEV(b, t, vb, "copy-alias", how << " copy");
        count("independent_changes");
    }
}
// every field object which belongs to f: array elements may be shared, anything else may not
static void fieldsOf(const pvd::PVField& f, std::vector<const pvd::PVField*>& out) {
    out.push_back(&f);
    if(f.getField()->getType() == pvd::structure) for(auto& c : static_cast<const pvd::PVStructure&>(f).getPVFields()) fieldsOf(*c, out);
    else if(f.getField()->getType() == pvd::union_) { auto v(static_cast<const pvd::PVUnion&>(f).get()); if(v) fieldsOf(*v, out); }
}
static size_t freezeSome(Rng& R, pvd::PVField& f) {
    std::vector<const pvd::PVField*> a; fieldsOf(f, a); size_t n = 0;
    for(auto x : a) if(R.chance(1, 3)) { const_cast<pvd::PVField*>(x)->setImmutable(); n++; }
    return n;
}
static void disjoint(const pvd::PVField& a, const pvd::PVField& b, const std::string& how) {
    std::vector<const pvd::PVField*> x, y; fieldsOf(a, x); fieldsOf(b, y);
    std::set<const pvd::PVField*> sx(x.begin(), x.end());
    for(auto p : y) {
        VCHECK(!sx.count(p), "copy-shared-field", how << ": " << p->getFullName() << " " << p->getField()->getID() << " belongs to both");
        VCHECK(!p->isImmutable(), "copy-immutable", how << ": " << p->getFullName() << " " << p->getField()->getID() << " became immutable");
    }
}
MODE(frozensource) {
    Opt O; O.depth = R.below(4); O.width = 1 + R.below(5);
    TyP t(genTy(R, O)); Val v(genVal(R, *t, O)), w(genVal(R, *t, O));
    pvd::PVFieldPtr a(make(*t, v, &R)), b; std::string how;
    count("frozen_fields", freezeSome(R, *a));
    if(R.coin()) b = cloneOf(R, a, how);
    else { b = make(*t, w, &R); copyTyped(R, *b, *a, how); }
    disjoint(*a, *b, how);
    SAMEV(*b, *t, v, "frozen-copy", how); w = v;
    for(int k = 0; k < 3; k++) { mutateIn(R, *b, *t, w); SAMEV(*a, *t, v, "frozen-alias", how); SAMEV(*b, *t, w, "frozen-alias", how); }
    count("frozen_sources"); distinct(hashCase(*t, v) ^ hstr(how));
}
MODE(clone) {
    Opt O; O.depth = R.below(4); O.width = 1 + R.below(5); O.bigArrays = R.chance(1, 5);
    TyP t(genTy(R, O)); Val v(genVal(R, *t, O));
    pvd::PVFieldPtr a(make(*t, v, &R)); std::string how;
    pvd::PVFieldPtr b(cloneOf(R, a, how));
    VCHECK(b.get() != a.get() && eqTy(*tyOf(*b->getField()), *t), "clone-type", how << " of " << descTy(*t) << " is " << descTy(*tyOf(*b->getField())));
    VCHECK(b->getField() == a->getField(), "clone-type-same", how << " " << descTy(*t));
    if(t->k == KStruct) { // also the tree of both
        checkTree(R, *t, std::tr1::static_pointer_cast<pvd::PVStructure>(b), how);
        checkTree(R, *t, std::tr1::static_pointer_cast<pvd::PVStructure>(a), how + " (original)");
    }
    Val w(v);
    disjoint(*a, *b, how);
    independent(R, *a, v, *b, w, *t, how);
    count("clones"); distinct(hashCase(*t, v) ^ hstr(how));
    if(t->kids.size()) sample(how + " " + descTy(*t) + " = " + descVal(*t, v));
    // bounds still apply to the copy
    if(t->k == KBStr) { VTHROWS(static_cast<pvd::PVString&>(*b).put(std::string(t->bound + 1, 'x')), "clone-bound", how << " " << descTy(*t)); count("clone_bounds"); }
    if(t->k == KSArr && t->pol) { VTHROWS(static_cast<pvd::PVArray&>(*b).setLength(t->bound + 1), "clone-bound", how << " " << descTy(*t)); count("clone_bounds"); }
}
MODE(copy) {
    Opt O; O.depth = R.below(4); O.width = 1 + R.below(5); O.bigArrays = R.chance(1, 5);
    TyP t(genTy(R, O)); Val v(genVal(R, *t, O)), w(genVal(R, *t, O));
    pvd::PVFieldPtr a(make(*t, v, &R)), b(make(*t, w, &R)); std::string how;
    copyTyped(R, *b, *a, how); w = v;
    disjoint(*a, *b, how);
    independent(R, *a, v, *b, w, *t, how);
    copyTyped(R, *a, *b, how); v = w;
    SAMEV(*a, *t, v, "copy-back", how); SAMEV(*b, *t, w, "copy-back", how);
    copyTyped(R, *a, *a, how); SAMEV(*a, *t, v, "copy-self", how);
    count("copies"); distinct(hashCase(*t, v) ^ hstr(how));
    // between incompatible types
    TyP t2(genTy(R, O)); Val v2(genVal(R, *t2, O)); pvd::PVFieldPtr c(make(*t2, v2, &R));
    if(!eqTy(*t, *t2)) {
        VTHROWS(a->copy(*c), "copy-mismatch", descTy(*t2) << " to " << descTy(*t));
        SAMEV(*a, *t, v, "copy-mismatch-dest", descTy(*t2)); SAMEV(*c, *t2, v2, "copy-mismatch-source", descTy(*t));
        if(t->k == t2->k && (t->k == KStruct || t->k == KStructArr || t->k == KUnion || t->k == KUnionArr)) {
            std::string h; VTHROWS(copyTyped(R, *a, *c, h), "copy-mismatch", descTy(*t2) << " to " << descTy(*t));
            SAMEV(*a, *t, v, "copy-mismatch-dest", descTy(*t2));
            count("typed_mismatch");
        }
        count("mismatches");
    }
    // a nearly equal type
    if(t->k == KStruct && t->kids.size()) {
        std::shared_ptr<Ty> m(new Ty(*t));
        switch(R.below(3)) { case 0: m->names[R.below(m->names.size())] += "_q"; break; case 1: m->id += "?"; break; default: m->kids.pop_back(); m->names.pop_back(); }
        Val vm(genVal(R, *m, O)); pvd::PVStructurePtr pm(makeStruct(*m, vm));
        VTHROWS(static_cast<pvd::PVStructure&>(*a).copy(*pm), "copy-near", descTy(*m) << " to " << descTy(*t));
        VTHROWS(a->copy(*pm), "copy-near", descTy(*m) << " to " << descTy(*t));
        SAMEV(*a, *t, v, "copy-near-dest", ""); count("mismatches");
    }
}
// only the selected fields of the destination change
MODE(masked) {
    Opt O; O.depth = 1 + R.below(3); O.width = 1 + R.below(5);
    if(R.chance(1, 40)) { O.width = 40; O.depth = 2; }
    TyP t(genStruct(R, O)); std::vector<Node> n(flat(*t)); Opt VO(valOpt());
    Val v(genVal(R, *t, VO)), w(genVal(R, *t, VO));
    pvd::PVStructurePtr a(makeStruct(*t, v, &R)), b(makeStruct(*t, w, &R));
    for(int k = 0; k < 3; k++) {
        pvd::BitSet m; std::set<size_t> ref; genBits(R, m, ref, n.size());
        pvd::BitSet m0(m);
        size_t root = 0;
        if(R.chance(1, 4)) { std::vector<size_t> c; for(auto& x : n) if(x.t->k == KStruct) c.push_back(x.off); root = R.pick(c); }
        pvd::PVStructurePtr sa(root ? a->getSubFieldT<pvd::PVStructure>(root) : a), sb(root ? b->getSubFieldT<pvd::PVStructure>(root) : b);
        bool inv = R.chance(1, 3);
        Sel sel = [&](size_t i) { return inv != (ref.count(i) != 0); };
        // a clear bit of a structure counts as selected by the inverse form: set all structure bits so that leaves decide
        if(inv) for(auto& x : n) if(x.t->k == KStruct && x.t->kids.size()) { m.set(x.off); ref.insert(x.off); }
        m0 = m;
        sb->copyUnchecked(*sa, m, inv);
        if(R.chance(1, 4)) { sa->copyUnchecked(*sa, m, inv); sa->copyUnchecked(*sa); static_cast<pvd::PVField&>(*sa).copyUnchecked(*sa); count("self_copies"); }
        mergeSel(n, root, at(n, w, root), at(n, v, root), sel);
        VCHECK(m == m0, "masked-mask", "");
        disjoint(*a, *b, "masked copy");
        SAMEV(*b, *t, w, "masked-dest", "root " << root << " inverse " << inv << " bits " << descBits(ref));
        SAMEV(*a, *t, v, "masked-source", "");
        std::set<size_t> lv; leaves(n, root, sel, false, lv);
        count("masked_copies"); count("masked_fields", lv.size());
        distinct(hstr(descTy(*t)) ^ hstr(descBits(ref)) ^ (root * 2 + inv));
        mutateIn(R, *a, *t, v); mutateIn(R, *b, *t, w);
        SAMEV(*a, *t, v, "masked-alias", ""); SAMEV(*b, *t, w, "masked-alias", "");
    }
}

// ------------------------------------------------------------------ C10
static bool numEq(pvd::ScalarType st, uint64_t a, uint64_t b) {
    if(st == pvd::pvFloat) return fromBits<float>(a) == fromBits<float>(b);
    if(st == pvd::pvDouble) return fromBits<double>(a) == fromBits<double>(b);
    return a == b;
}
static bool ieeeEq(const Ty& t, const Val& a, const Val& b) {
    switch(t.k) {
    case KScalar: return t.st == pvd::pvString ? a.s == b.s : numEq(t.st, a.n, b.n);
    case KBStr: return a.s == b.s;
    case KSArr: if(t.st == pvd::pvString) return a.sa == b.sa;
        if(a.na.size() != b.na.size()) return false;
        for(size_t i = 0; i < a.na.size(); i++) if(!numEq(t.st, a.na[i], b.na[i])) return false;
        return true;
    case KStruct: for(size_t i = 0; i < t.kids.size(); i++) if(!ieeeEq(*t.kids[i], a.a[i], b.a[i])) return false; return true;
    case KUnion: return a.sel == b.sel && (a.sel < 0 || ieeeEq(*t.kids[a.sel], a.a[0], b.a[0]));
    case KVariant: if(!a.vt || !b.vt) return !a.vt && !b.vt; 
        if(!eqTy(*a.vt, *b.vt)) { // top level bounds are not part of a value's equality
            Ty x(*a.vt), y(*b.vt);
            if(x.k == KBStr) { x = Ty(); x.st = pvd::pvString; } if(y.k == KBStr) { y = Ty(); y.st = pvd::pvString; }
            if(x.k == KSArr) x.pol = 0; if(y.k == KSArr) y.pol = 0;
            return eqTy(x, y) && ieeeEq(x, a.a[0], b.a[0]);
        }
        return ieeeEq(*a.vt, a.a[0], b.a[0]);
    default:
        if(a.a.size() != b.a.size()) return false;
        for(size_t i = 0; i < a.a.size(); i++) {
            if(a.a[i].null != b.a[i].null) return false;
            if(!a.a[i].null && !ieeeEq(elemTy(t), a.a[i], b.a[i])) return false;
        }
        return true;
    }
}
// a value which differs from v in one small place
static bool nudge(Rng& R, const Ty& t, Val& v) {
    switch(t.k) {
    case KScalar: if(t.st == pvd::pvString) { if(v.s.size() && R.coin()) v.s[R.below(v.s.size())] ^= 1 << R.below(8); else v.s += 'z'; }
        else if(t.st == pvd::pvBoolean) v.n ^= 1;
        else v.n ^= 1ull << R.below(8 * width(t.st));
        return true;
    case KBStr: if(v.s.size()) v.s[v.s.size() - 1] ^= 1; else v.s = "q"; return true;
    case KSArr:
        if(t.st == pvd::pvString) { if(v.sa.size() && (t.pol == 2 || R.chance(2, 3))) { v.sa[R.below(v.sa.size())] += "y"; return true; } if(t.pol == 0) { v.sa.push_back(""); return true; } return false; }
        if(v.na.size() && (t.pol == 2 || R.chance(2, 3))) { v.na[R.coin() ? v.na.size() - 1 : R.below(v.na.size())] ^= t.st == pvd::pvBoolean ? 1 : 1ull << R.below(8 * width(t.st)); return true; }
        if(v.na.size() && R.coin()) { if(t.pol == 2) return false; v.na.pop_back(); return true; }
        if(t.pol == 0 || (t.pol == 1 && v.na.size() < t.bound)) { v.na.push_back(0); return true; }
        return false;
    case KStruct: if(t.kids.empty()) return false; { size_t i = R.below(t.kids.size()); return nudge(R, *t.kids[i], v.a[i]); }
    case KUnion:
        if(v.sel < 0) { v.sel = R.below(t.kids.size()); v.a.assign(1, zeroVal(*t.kids[v.sel])); return true; }
        if(R.chance(1, 4)) { v.sel = -1; v.a.clear(); return true; }
        if(R.chance(1, 3) && t.kids.size() > 1) { int s = (v.sel + 1) % t.kids.size(); if(eqTy(*t.kids[s], *t.kids[v.sel])) { v.sel = s; return true; } v.sel = s; v.a.assign(1, zeroVal(*t.kids[s])); return true; }
        return nudge(R, *t.kids[v.sel], v.a[0]);
    case KVariant:
        if(!v.vt) { v.vt = mkScalar(pvd::pvInt); v.a.assign(1, Val()); return true; }
        if(R.chance(1, 4)) { v.vt.reset(); v.a.clear(); return true; }
        if(R.chance(1, 4) && v.vt->k == KScalar && v.vt->st != pvd::pvString) { v.vt = mkScalar(v.vt->st == pvd::pvLong ? pvd::pvULong : pvd::pvLong); v.a[0].n = 0; return true; }
        return nudge(R, *v.vt, v.a[0]);
    default:
        if(v.a.empty()) { Val e; if(R.coin()) e.null = true; else e = zeroVal(elemTy(t)); v.a.push_back(e); return true; }
        { size_t i = R.below(v.a.size());
          if(v.a[i].null) { v.a[i] = zeroVal(elemTy(t)); return true; }
          switch(R.below(4)) {
          case 0: { Val e; e.null = true; v.a[i] = e; return true; }
          case 1: v.a.pop_back(); return true;
          default: return nudge(R, elemTy(t), v.a[i]); } }
    }
}
static void cmp(const pvd::PVFieldPtr& a, const pvd::PVFieldPtr& b, bool want, const char *key, const std::string& ctx) {
    bool r[6] = { *a == *b, *b == *a, !(*a != *b), !(*b != *a), a->equals(*b), b->equals(*a) };
    for(int i = 0; i < 6; i++) VCHECK(r[i] == want, key, "form " << i << " got " << r[i] << " " << ctx);
    count(want ? "equal_pairs" : "unequal_pairs");
}
MODE(equal) {
    Opt O; O.depth = R.below(4); O.width = 1 + R.below(5); O.bigArrays = R.chance(1, 6);
    TyP t(genTy(R, O)); Val v(genVal(R, *t, O)), w(v);
    int n = R.below(3); for(int i = 0; i < n; i++) nudge(R, *t, w);
    if(R.chance(1, 8)) w = genVal(R, *t, O);
    Val x(R.coin() ? v : w); if(R.coin()) nudge(R, *t, x);
    pvd::PVFieldPtr a(make(*t, v, &R)), b(make(*t, w, &R)), c(make(*t, x, &R));
    std::string ctx(descTy(*t) + " " + descVal(*t, v) + " | " + descVal(*t, w) + " | " + descVal(*t, x));
    cmp(a, b, ieeeEq(*t, v, w), "equal", ctx);
    cmp(b, c, ieeeEq(*t, w, x), "equal", ctx);
    cmp(a, c, ieeeEq(*t, v, x), "equal", ctx);
    cmp(a, a, true, "equal-self", ctx);
    if(*a == *b && *b == *c) VCHECK(*a == *c, "equal-transitive", ctx);
    SAMEV(*a, *t, v, "equal-modified", ""); SAMEV(*b, *t, w, "equal-modified", ""); SAMEV(*c, *t, x, "equal-modified", "");
    distinct(hstr(ctx)); if(t->kids.size()) sample(ctx);
    // change and change back
    if(t->k == KStruct && !ieeeEq(*t, v, w)) { assign(*b, *t, v, &R); cmp(a, b, ieeeEq(*t, v, v), "equal-restored", ctx); count("restored"); }
    // other types
    TyP t2(genTy(R, O)); pvd::PVFieldPtr d(make(*t2, genVal(R, *t2, O), &R));
    bool comparable = t->k == t2->k || (t->k == KScalar && t2->k == KBStr) || (t->k == KBStr && t2->k == KScalar);
    if(!eqTy(*t, *t2) && !(comparable && (t->k == KScalar || t->k == KBStr || t->k == KSArr))) { cmp(a, d, false, "equal-types", descTy(*t) + " and " + descTy(*t2)); count("other_types"); }
    else if(!eqTy(*t, *t2) && (t->k == KBStr ? pvd::pvString : t->st) != (t2->k == KBStr ? pvd::pvString : t2->st)) { cmp(a, d, false, "equal-types", descTy(*t) + " and " + descTy(*t2)); count("other_types"); }
}

// ------------------------------------------------------------------ C13
static void checkUnion(const pvd::PVUnionPtr& u, const Ty& t, const Val& v, const std::string& ctx) {
    Val got; 
    try { got = read(*u, t); } catch(std::logic_error& e) { VFAIL("union-invariant", e.what() << " after " << ctx << " of " << descTy(t)); }
    VCHECK(eqVal(t, v, got), "union-state", ctx << " of " << descTy(t) << " want " << descVal(t, v) << " got " << descVal(t, got));
    if(t.k == KUnion) VCHECK(u->getSelectedFieldName() == (v.sel < 0 ? std::string() : t.names[v.sel]), "union-name", ctx);
    else VCHECK(u->getSelectedFieldName().empty() && u->getSelectedIndex() == -1, "union-name", ctx);
}
#define REFUSED(STMT) do { bool th_ = false; try { STMT; } catch(std::invalid_argument&) { th_ = true; } catch(std::exception& e) { th_ = true; } \
    VCHECK(th_, "union-refuse", ctx << " accepted: " #STMT << " of " << descTy(*t)); count("refused"); } while(0)
MODE(unions) {
    Opt O; O.depth = 1 + R.below(2); O.width = 1 + R.below(5); O.bigArrays = false;
    std::shared_ptr<Ty> tv(new Ty); tv->k = KVariant;
    TyP t(R.chance(1, 3) ? TyP(tv) : genStruct(R, O, KUnion));
    if(t->k == KUnion && t->kids.size() > 1 && R.coin()) { std::shared_ptr<Ty> m(new Ty(*t)); m->kids[1] = m->kids[0]; t = m; } // two members of one type
    pvd::PVUnionPtr u; pvd::PVFieldPtr owner;
    if(R.coin()) { std::shared_ptr<Ty> st(new Ty); st->k = KStruct; st->id = "structure"; st->names = { "a", "u" }; st->kids = { mkScalar(pvd::pvInt), t }; owner = make(*st); u = static_cast<pvd::PVStructure&>(*owner).getSubFieldT<pvd::PVUnion>("u"); }
    else u = std::tr1::static_pointer_cast<pvd::PVUnion>(make(*t, &R));
    Val v; std::string log; int steps = 4 + R.below(25);
    checkUnion(u, *t, v, "fresh");
    int N = t->kids.size(); bool var = t->k == KVariant;
    for(int k = 0; k < 4; k++) { // which member to take for a value
        const bool arr = R.coin(); const pvd::ScalarType st = (pvd::ScalarType)R.below(12); int want = -1, exact = -1;
        for(int i = N; i--; ) { const Ty& c = *t->kids[i]; if(c.k != (arr ? KSArr : KScalar) && !(!arr && c.k == KBStr)) continue; want = i; if((c.k == KBStr ? pvd::pvString : c.st) == st) exact = i; }
        if(exact >= 0) want = exact;
        VCHECK(u->getUnion()->guess(arr ? pvd::scalarArray : pvd::scalar, st) == want, "union-guess", descTy(*t) << " " << arr << " " << (int)st << " gave " << u->getUnion()->guess(arr ? pvd::scalarArray : pvd::scalar, st));
        static const pvd::Type bad[] = { pvd::structure, pvd::structureArray, pvd::union_, pvd::unionArray };
        VTHROWS(u->getUnion()->guess(bad[R.below(4)], st), "union-guess-type", "");
        count("guesses");
    }
    for(int s = 0; s < steps; s++) {
        unsigned op = R.below(20); std::string ctx(log + " " + std::to_string(op)); log = ctx;
        int i = N ? R.below(N) : 0;
        static const int badi[] = { -2, -100, INT32_MIN, INT32_MAX, 1000 };
        int bad = R.coin() ? N : badi[R.below(5)];
        std::string badn(R.coin() ? "" : R.coin() ? "nosuch" : N ? t->names[i] + "x" : "value");
        bool clash = false; for(auto& x : t->names) if(x == badn) clash = true;
        switch(op) {
        case 0: case 1:
            if(var) { REFUSED(u->select(i)); break; }
            { bool same = v.sel == i; pvd::PVFieldPtr before(u->get()), p(u->select(i));
              VCHECK(p == u->get() && u->getSelectedIndex() == i, "union-select", ctx);
              if(same) VCHECK(p == before, "union-select-same", ctx); else { v.sel = i; v.a.assign(1, zeroVal(*t->kids[i])); } }
            break;
        case 2:
            if(var) { REFUSED(u->select("value")); break; }
            { bool same = v.sel == i; pvd::PVFieldPtr p(u->select(t->names[i])); VCHECK(p == u->get(), "union-select", ctx); if(!same) { v.sel = i; v.a.assign(1, zeroVal(*t->kids[i])); } }
            break;
        case 3: { pvd::PVFieldPtr p(u->select(pvd::PVUnion::UNDEFINED_INDEX)); VCHECK(!p && !u->get(), "union-unselect", ctx); v = Val(); break; }
        case 4: REFUSED(u->select(bad)); break;
        case 5: if(!clash) REFUSED(u->select(badn)); break;
        case 6: case 7: { // a value by reference
            TyP mt(var ? genTy(R, O) : t->kids[i]); Val x(genVal(R, *mt, O)); pvd::PVFieldPtr p(make(*mt, x, &R));
            if(var) { if(R.coin()) u->set(p); else u->set(-1, p); v.vt = mt; }
            else { if(R.coin()) u->set(i, p); else u->set(t->names[i], p); v.sel = i; }
            v.a.assign(1, x);
            VCHECK(u->get() == p, "union-set-reference", ctx);
            break; }
        case 8: { // a value of another type
            TyP mt(genTy(R, O)); pvd::PVFieldPtr p(make(*mt));
            if(var) { REFUSED(u->set(i, p)); REFUSED(u->set("value", p)); }
            else if(!eqTy(*mt, *t->kids[i])) { REFUSED(u->set(i, p)); REFUSED(u->set(t->names[i], p)); if(v.sel == i) REFUSED(u->set(p)); }
            break; }
        case 9: if(!var) { REFUSED(u->set(i, pvd::PVFieldPtr())); REFUSED(u->set(t->names[i], pvd::PVFieldPtr())); }
            else { u->set(pvd::PVFieldPtr()); v = Val(); } break;
        case 10: if(!var) { REFUSED(u->set(-1, make(*t->kids[i]))); if(R.coin()) { u->set(-1, pvd::PVFieldPtr()); v = Val(); } } break;
        case 11: { pvd::PVFieldPtr p(make(N ? *t->kids[i] : *mkScalar(pvd::pvInt))); REFUSED(u->set(bad, p)); if(!clash) REFUSED(u->set(badn, p)); break; }
        case 12: { // copy
            Val x(genVal(R, *t, O)); pvd::PVUnionPtr o(std::tr1::static_pointer_cast<pvd::PVUnion>(make(*t, x, &R)));
            std::string h; if(R.coin()) copyTyped(R, *u, *o, h); else u->copyUnchecked(*o);
            v = x; if(R.coin() && x.sel >= 0) mutateIn(R, *o, *t, x); // must not show through
            break; }
        case 13: { TyP t2(genStruct(R, O, KUnion)); pvd::PVUnionPtr o(std::tr1::static_pointer_cast<pvd::PVUnion>(make(*t2, genVal(R, *t2, O)))); if(!eqTy(*t, *t2)) { REFUSED(u->copy(*o)); } break; }
        case 14: case 15: case 16: { // received
            bool be = R.coin(); Val x(genVal(R, *t, O)); Enc e(be); e.val(*t, x);
            std::vector<uint8_t> b(e.b); int kind = op == 14 ? 0 : 1 + R.below(2);
            if(kind == 1 && b.size()) b.resize(R.below(b.size()));
            if(kind == 2 && b.size()) { if(R.coin()) b[0] = 0xff - R.below(4); else b[R.below(b.size())] ^= 1 << R.below(8); }
            std::unique_ptr<In> in(newIn(R, b, be));
            bool ok = true;
            try { u->deserialize(&in->buf, in.get()); } catch(std::exception&) { ok = false; }
            if(kind == 0) { VCHECK(ok, "union-receive", ctx << " " << descVal(*t, x)); v = x; }
            else { count(ok ? "received_odd" : "receive_failed");
                try { v = read(*u, *t); } catch(std::logic_error& e) { VFAIL("union-invariant", e.what() << " after receiving " << hex(b) << " " << ctx << " of " << descTy(*t)); } }
            break; }
        case 17: mutateIn(R, *u, *t, v); break;
        case 18: { pvd::PVUnionPtr c(dc()->createPVUnion(u)); checkUnion(c, *t, v, ctx + " clone"); if(R.coin() && !owner) u = c; break; }
        case 19: { // typed forms
            const pvd::PVUnion& cu = *u; pvd::PVFieldPtr p(u->get());
            VCHECK((u->get<pvd::PVInt>().get() != 0) == (p && dynamic_cast<pvd::PVInt*>(p.get())), "union-get-typed", ctx);
            VCHECK((cu.get<pvd::PVStructure>().get() != 0) == (p && dynamic_cast<pvd::PVStructure*>(p.get())), "union-get-typed", ctx);
            VCHECK(cu.get() == p, "union-get-const", ctx);
            if(!var) { bool same = v.sel == i; pvd::PVIntPtr q2(R.coin() ? u->select<pvd::PVInt>(i) : u->select<pvd::PVInt>(t->names[i])); if(!same) { v.sel = i; v.a.assign(1, zeroVal(*t->kids[i])); }
                VCHECK((q2.get() != 0) == (dynamic_cast<pvd::PVInt*>(u->get().get()) != 0), "union-select-typed", ctx); }
            break; }
        }
        checkUnion(u, *t, v, ctx);
        count("union_ops");
    }
    distinct(hstr(descTy(*t), hstr(log)));
    if(steps < 9 && N > 1) sample(descTy(*t) + " ops" + log);
}

// ------------------------------------------------------------------ C23
struct Counter : public pvd::PostHandler { int n; Counter() : n(0) {} virtual void postPut() { n++; } };
typedef std::tr1::shared_ptr<Counter> CounterP;
// a mutating operation on one field: 1 done, 0 refused, -1 not applicable; posts: expected number of handler calls when done
struct Act { const char *name; int posts; std::function<bool()> run; };
template<typename T> static void arrActs(Rng& R, pvd::PVField& f, const Ty& t, const Val& nv, std::vector<Act>& out, Val& after, std::vector<Val>& res) {
    typedef pvd::PVValueArray<T> A; A *a = &dynamic_cast<A&>(f);
    out.push_back({ "replace", 1, [=]() { typename A::svector s(nv.na.size()); for(size_t i = 0; i < s.size(); i++) s[i] = fromBits<T>(nv.na[i]); a->replace(pvd::freeze(s)); return true; } }); res.push_back(nv);
    out.push_back({ "swap", 0, [=]() { typename A::svector s(nv.na.size()); for(size_t i = 0; i < s.size(); i++) s[i] = fromBits<T>(nv.na[i]); typename A::const_svector c(pvd::freeze(s)); a->swap(c); return true; } }); res.push_back(nv);
    if(t.pol == 0) { out.push_back({ "reuse", 0, [=]() { a->reuse(); return true; } }); res.push_back(Val()); }
}
MODE(immutable) {
    Opt O; O.depth = 1 + R.below(2); O.width = 2 + R.below(5); O.emptyStruct = false; O.bigArrays = false;
    TyP t(genStruct(R, O)); std::vector<Node> n(flat(*t)); Opt VO(valOpt()); VO.nullElems = true;
    Val v(genVal(R, *t, VO)); pvd::PVStructurePtr top(makeStruct(*t, v, &R));
    std::vector<pvd::PVFieldPtr> f(n.size()); std::vector<bool> imm(n.size()); std::vector<CounterP> h(n.size());
    for(size_t i = 0; i < n.size(); i++) { f[i] = i ? top->getSubFieldT(i) : pvd::PVFieldPtr(top);
        if(R.chance(4, 5)) { h[i].reset(new Counter); f[i]->setPostHandler(h[i]); f[i]->setPostHandler(h[i]); CounterP other(new Counter); VTHROWS(f[i]->setPostHandler(other), "handler-twice", n[i].full); } }
    std::string log; int steps = 4 + R.below(25);
    for(int s = 0; s < steps; s++) {
        size_t i = R.below(n.size());
        if(R.chance(1, 8)) { // freeze a subtree
            f[i]->setImmutable(); for(size_t k = i; k < i + n[i].num; k++) imm[k] = true;
            log += " freeze " + std::to_string(i);
            for(size_t k = 0; k < n.size(); k++) VCHECK(f[k]->isImmutable() == imm[k], "immutable-flag", log << " field " << k << " of " << descTy(*t));
            count("frozen"); continue;
        }
        const Ty& ft = *n[i].t; pvd::PVField& x = *f[i]; Val nv(genVal(R, ft, VO)); Val& cur = at(n, v, i);
        pvd::PVFieldPtr src(make(ft, nv, &R));
        std::vector<Act> acts; std::vector<Val> res; Val dummy;
        std::string hc;
        if(ft.k != KStruct) {
            acts.push_back({ "copy", 1, [&]() { x.copy(*src); return true; } }); res.push_back(nv);
            acts.push_back({ "typed copy", 1, [&]() { copyTyped(R, x, *src, hc); return true; } }); res.push_back(nv);
        } else {
            bool any = false; for(size_t k = i + 1; k < i + n[i].num; k++) any = any || imm[k];
            // copying into a structure does not consult the flags of its members
            if(!any || imm[i]) { acts.push_back({ "copy", -1, [&]() { x.copy(*src); return true; } }); res.push_back(nv); acts.push_back({ "struct copy", -1, [&]() { static_cast<pvd::PVStructure&>(x).copy(static_cast<pvd::PVStructure&>(*src)); return true; } }); res.push_back(nv); }
        }
        if(ft.k == KScalar || ft.k == KBStr) { acts.push_back({ "assign", 1, [&]() { static_cast<pvd::PVScalar&>(x).assign(static_cast<pvd::PVScalar&>(*src)); return true; } }); res.push_back(nv);
            if(!imm[i]) { acts.push_back({ "put", 1, [&]() { Rng r(1); if(ft.st == pvd::pvString || ft.k == KBStr) static_cast<pvd::PVString&>(x).put(nv.s); else switch(ft.st) {
#define X(E, T) case pvd::E: { pvd::PVScalarValue<T>& s = static_cast<pvd::PVScalarValue<T>&>(x); if(R.coin()) s.put(fromBits<T>(nv.n)); else if(R.coin()) s <<= fromBits<T>(nv.n); else s.template putFrom<T>(fromBits<T>(nv.n)); break; }
                G_EACH_NUM(X)
#undef X
                default: break; } return true; } }); res.push_back(nv);
              if(ft.k == KBStr) { acts.push_back({ "!put too long", 0, [&]() { static_cast<pvd::PVString&>(x).put(std::string(ft.bound + 1, 'l')); return true; } }); res.push_back(cur); } } }
        if(ft.k == KSArr) { switch(ft.st) {
#define X(E, T) case pvd::E: arrActs<T>(R, x, ft, nv, acts, dummy, res); break;
            G_EACH_NUM(X)
#undef X
            case pvd::pvString: acts.push_back({ "replace", 1, [&]() { assignStrArr(x, nv); return true; } }); res.push_back(nv); break; }
            acts.push_back({ "assign", 1, [&]() { static_cast<pvd::PVScalarArray&>(x).assign(static_cast<pvd::PVScalarArray&>(*src)); return true; } }); res.push_back(nv);
        }
        if(ft.k == KSArr || ft.k == KStructArr || ft.k == KUnionArr || ft.k == KVarArr) {
            pvd::PVArray& a = static_cast<pvd::PVArray&>(x); size_t len = a.getLength();
            if(ft.k != KSArr || ft.pol == 0) {
                size_t nl = R.below(len + 1); Val r(cur); if(ft.k == KSArr) { if(ft.st == pvd::pvString) r.sa.resize(nl); else r.na.resize(nl); } else { Val e; e.null = true; r.a.resize(nl, e); }
                acts.push_back({ "setLength", 0, [&a, nl]() { a.setLength(nl); return true; } }); res.push_back(r);
                acts.push_back({ "setCapacity", 0, [&a, len]() { a.setCapacity(len + 5); return true; } }); res.push_back(cur);
            } else { acts.push_back({ "!setLength", 0, [&a, &ft]() { a.setLength(ft.bound + 1); return true; } }); res.push_back(cur); }
        }
        if(ft.k == KStructArr) { pvd::PVStructureArray& a = static_cast<pvd::PVStructureArray&>(x); Val r(cur); r.a.push_back(zeroVal(elemTy(ft)));
            acts.push_back({ "append", 0, [&a]() { a.append(1); return true; } }); res.push_back(r);
            Val r2(cur); if(r2.a.size()) { r2.a.erase(r2.a.begin()); acts.push_back({ "remove", 0, [&a]() { return a.remove(0, 1); } }); res.push_back(r2); }
            Val r3; for(auto& e : cur.a) if(!e.null) r3.a.push_back(e); acts.push_back({ "compress", 0, [&a]() { a.compress(); return true; } }); res.push_back(r3);
            acts.push_back({ "replace", 1, [&]() { a.replace(static_cast<pvd::PVStructureArray&>(*src).view()); return true; } }); res.push_back(nv); }
        if(ft.k == KUnionArr || ft.k == KVarArr) { pvd::PVUnionArray& a = static_cast<pvd::PVUnionArray&>(x); Val r(cur); r.a.push_back(zeroVal(elemTy(ft)));
            acts.push_back({ "append", 0, [&a]() { a.append(1); return true; } }); res.push_back(r);
            Val r3; for(auto& e : cur.a) if(!e.null) r3.a.push_back(e); acts.push_back({ "compress", 0, [&a]() { a.compress(); return true; } }); res.push_back(r3);
            acts.push_back({ "replace", 1, [&]() { a.replace(static_cast<pvd::PVUnionArray&>(*src).view()); return true; } }); res.push_back(nv); }
        if(ft.k == KUnion && !imm[i]) { int m = R.below(ft.kids.size()); Val r; r.sel = m; r.a.push_back(zeroVal(*ft.kids[m])); acts.push_back({ "set", 1, [&x, &ft, m]() { static_cast<pvd::PVUnion&>(x).set(m, make(*ft.kids[m])); return true; } }); res.push_back(r);
            acts.push_back({ "!set", 0, [&x]() { static_cast<pvd::PVUnion&>(x).set(-5, pvd::PVFieldPtr()); return true; } }); res.push_back(cur); }
        { // values of another type
            TyP ot(genTy(R, VO)); if(!eqTy(*ot, ft)) { pvd::PVFieldPtr o(make(*ot)); acts.push_back({ "!copy", 0, [&x, o]() { x.copy(*o); return true; } }); res.push_back(cur); }
        }
        if(acts.empty()) continue;
        size_t k = R.below(acts.size());
        bool mustFail = imm[i] || acts[k].name[0] == '!';
        log += std::string(" ") + acts[k].name + "@" + std::to_string(i);
        std::vector<int> n0(n.size()); for(size_t j = 0; j < n.size(); j++) n0[j] = h[j] ? h[j]->n : 0;
        bool done = false; std::string why;
        try { done = acts[k].run(); } catch(Abandon&) { throw; } catch(std::exception& e) { done = false; why = e.what(); }
        std::string ctx(log + " of " + descTy(*t));
        VCHECK(done == !mustFail, mustFail ? "immutable-changed" : "mutable-refused", ctx << " " << why);
        if(done) cur = res[k];
        SAMEV(*top, *t, v, mustFail ? "immutable-value" : "put-value", ctx);
        int posts = done ? acts[k].posts : 0;
        for(size_t j = 0; j < n.size(); j++) if(h[j]) {
            int d = h[j]->n - n0[j];
            if(posts < 0) { // whole structure: every leaf below once
                if(n[j].t->k == KStruct) continue;
                bool in = j > i && j < i + n[i].num;
                VCHECK(d == (in ? 1 : 0), "handler-calls", ctx << " field " << j << " calls " << d);
            } else VCHECK(d == (j == i ? posts : 0), "handler-calls", ctx << " field " << j << " calls " << d << " expected " << (j == i ? posts : 0));
            count("handler_checks");
        }
        count(mustFail ? "refused" : "performed");
        if(imm[i] && R.coin()) { // what must still work
            std::ostringstream o; o << x; Val r; r = read(x, ft); pvd::PVFieldPtr c(dc()->createPVField(f[i])); SAMEV(*c, ft, cur, "immutable-clone", ctx);
            VCHECK(!c->isImmutable(), "immutable-clone-flag", ctx);
            pvd::PVFieldPtr d(make(ft)); d->copy(x); SAMEV(*d, ft, cur, "immutable-copy-from", ctx);
            VCHECK(x == x && !(x != x), "immutable-compare", ctx); (void)(*d == x);
            if(dynamic_cast<pvd::PVArray*>(&x)) { VCHECK(!static_cast<pvd::PVArray&>(x).isCapacityMutable(), "immutable-capacity", ctx); VTHROWS(static_cast<pvd::PVArray&>(x).setCapacityMutable(true), "immutable-capacity", ctx); }
            std::unique_ptr<Out> o2(newOut(R, true)); x.serialize(&o2->buf, o2.get());
            SAMEV(*top, *t, v, "immutable-read", ctx); count("immutable_reads");
        }
    }
    for(size_t k = 0; k < n.size(); k++) VCHECK(f[k]->isImmutable() == imm[k], "immutable-flag", log);
    distinct(hstr(descTy(*t), hstr(log)));
    if(steps < 8) sample(descTy(*t) + log);
}
VH_MAIN
