// C21: FieldBuilder, ValueBuilder, FieldCreate::appendField(s), StandardField and StandardPVField build exactly
// what was asked for, judged against an independent model (gen.h's Ty/Val).
#include "gen.h"
#include <pv/valueBuilder.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
using namespace g;
using vh::count;

typedef std::shared_ptr<Ty> MTyP;
static bool validName(const std::string& n) {
    if(n.empty() || (n[0] >= '0' && n[0] <= '9')) return false;
    for(unsigned char c : n) if(!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) return false;
    return true;
}
static std::string poolName(Rng& R) {
    static const char *p[] = { "a", "b", "c", "d", "e", "ab", "value", "_x", "A", "a1" };
    if(R.chance(1, 60)) { static const char *bad[] = { "", "1a", "a.b", "a b", "a-b", "\xc3\xa4", "a/", "a\n" }; return bad[R.below(8)]; }
    if(R.chance(1, 8)) return genName(R);
    return p[R.below(R.chance(1, 2) ? 4 : 10)];
}
static Opt smallOpt(Rng& R) { Opt O; O.depth = R.below(3); O.width = 3; return O; }
static TyP arrOf(const TyP& e) {
    std::shared_ptr<Ty> t(new Ty);
    if(e->k == KStruct) { t->k = KStructArr; t->kids.push_back(e); }
    else if(e->k == KUnion) { t->k = KUnionArr; t->kids.push_back(e); }
    else if(e->k == KVariant) t->k = KVarArr;
    else if(e->k == KScalar) { t->k = KSArr; t->st = e->st; }
    else return TyP();
    return t;
}
// a class of types as the builder sees it
static pvd::Type kindOf(const Ty& t) {
    switch(t.k) {
    case KScalar: case KBStr: return pvd::scalar;
    case KSArr: return pvd::scalarArray;
    case KStruct: return pvd::structure;
    case KStructArr: return pvd::structureArray;
    case KUnion: case KVariant: return pvd::union_;
    default: return pvd::unionArray;
    }
}

// ---------- FieldBuilder
struct Level {
    pvd::FieldBuilderPtr b;
    std::string id; bool idSet;
    std::vector<std::string> names; std::vector<TyP> kids;
    std::string nname; bool un, arr, cont; // how it was opened
    Level() : idSet(false), un(false), arr(false), cont(false) {}
    int find(const std::string& n) const { for(size_t i = 0; i < names.size(); i++) if(names[i] == n) return (int)i; return -1; }
    void clear() { id.clear(); idSet = false; names.clear(); kids.clear(); }
};
// the type a level denotes, null when it is not a valid one
static TyP denote(const Level& l, bool un) {
    std::shared_ptr<Ty> t(new Ty);
    if(un && l.names.empty()) { t->k = KVariant; return t; }
    t->k = un ? KUnion : KStruct;
    t->id = l.idSet ? l.id : un ? "union" : "structure";
    if(t->id.empty()) return TyP();
    for(auto& n : l.names) if(!validName(n)) return TyP();
    t->names = l.names; t->kids = l.kids;
    return t;
}
struct Built { pvd::FieldConstPtr f; TyP t; };

// 0 unchanged, 1 added, -1 refused
static int modelAdd(Level& l, const std::string& n, const TyP& t) {
    int i = l.find(n);
    if(i < 0) { l.names.push_back(n); l.kids.push_back(t); return 1; }
    return eqTy(*l.kids[i], *t) ? 0 : -1;
}

MODE(field) {
    std::vector<Level> st(1);
    std::vector<Built> built;
    std::ostringstream log;
    auto fresh = [&]() {
        st.clear(); st.push_back(Level());
        Level& l = st.back();
        unsigned c = R.below(4);
        if(c == 0) { l.b = pvd::FieldBuilder::begin(); log << " begin"; }
        else if(c == 1) { l.b = pvd::getFieldCreate()->createFieldBuilder(); log << " create"; }
        else {
            TyP t; pvd::StructureConstPtr s;
            for(auto& b : built) if(b.t->k == KStruct && R.coin()) { t = b.t; s = std::tr1::static_pointer_cast<const pvd::Structure>(b.f); }
            if(!t) { Opt O(smallOpt(R)); t = genStruct(R, O); s = buildStruct(*t); Built b = { s, t }; built.push_back(b); }
            l.b = c == 2 ? pvd::FieldBuilder::begin(s) : pvd::getFieldCreate()->createFieldBuilder(s);
            l.id = t->id; l.idSet = true; l.names = t->names; l.kids = t->kids;
            log << " begin(" << descTy(*t) << ")";
            count("extended");
        }
    };
    fresh();
    size_t nops = 3 + R.below(R.chance(1, 4) ? 60 : 22);
    for(size_t op = 0; op < nops; op++) {
        Level& l = st.back();
        unsigned c = R.below(20);
        std::string n = R.chance(1, 3) && !l.names.empty() ? R.pick(l.names) : poolName(R);
        if(c < 2) {
            static const char *ids[] = { "id1", "any", "structure", "union", "epics:nt/NTScalar:1.0", "" };
            std::string id = ids[R.below(R.chance(1, 10) ? 6 : 5)];
            log << " setId(" << id << ")";
            pvd::FieldBuilderPtr r(l.b->setId(id));
            VCHECK(r.get() == l.b.get(), "setId-chain", log.str());
            l.id = id; l.idSet = true; count("ids");
        } else if(c < 11) {
            TyP t; std::function<pvd::FieldBuilderPtr()> f;
            pvd::ScalarType s = (pvd::ScalarType)R.below(12);
            size_t bound = 1 + R.below(20);
            pvd::FieldBuilderPtr B(l.b);
            std::shared_ptr<Ty> m(new Ty); t = m;
            unsigned k = R.below(8);
            if(k == 0 || k == 1) { m->k = KScalar; m->st = s; f = [=]() { return B->add(n, s); }; log << " add(" << n << "," << (int)s << ")"; }
            else if(k == 2) { m->k = KBStr; m->bound = bound; m->st = pvd::pvString; f = [=]() { return B->addBoundedString(n, bound); }; log << " bstr(" << n << "," << bound << ")"; }
            else if(k == 3) { m->k = KSArr; m->st = s; f = [=]() { return B->addArray(n, s); }; log << " arr(" << n << "," << (int)s << ")"; }
            else if(k == 4) { m->k = KSArr; m->st = s; m->pol = 1; m->bound = bound; f = [=]() { return B->addBoundedArray(n, s, bound); }; log << " barr(" << n << "," << (int)s << ")"; }
            else if(k == 5) { m->k = KSArr; m->st = s; m->pol = 2; m->bound = bound; f = [=]() { return B->addFixedArray(n, s, bound); }; log << " farr(" << n << "," << (int)s << ")"; }
            else {
                pvd::FieldConstPtr fld;
                if(!built.empty() && R.coin()) { const Built& b = R.pick(built); t = b.t; fld = b.f; }
                else { t = genTy(R, smallOpt(R)); fld = build(*t); }
                if(k == 6) { f = [=]() { return B->add(n, fld); }; log << " add(" << n << "," << descTy(*t) << ")"; }
                else {
                    log << " arr(" << n << "," << descTy(*t) << ")";
                    f = [=]() { return B->addArray(n, fld); };
                    t = arrOf(t);
                }
            }
            if(!t) { VTHROWS(f(), "array-of-unsupported", log.str()); count("refused"); continue; }
            Level before(l);
            int r = modelAdd(l, n, t);
            if(r < 0) { VTHROWS(f(), "duplicate", log.str()); l = before; count("refused_duplicates"); continue; }
            pvd::FieldBuilderPtr rb(f());
            VCHECK(rb.get() == l.b.get(), "add-chain", log.str());
            count(r ? "members" : "repeated_members");
        } else if(c < 14 && st.size() < 5) {
            unsigned k = R.below(4);
            Level nl; nl.nname = n; nl.un = k & 1; nl.arr = k & 2;
            log << " nest" << (nl.un ? "U" : "S") << (nl.arr ? "A" : "") << "(" << n;
            pvd::FieldBuilderPtr B(l.b);
            auto f = [=]() { return k == 0 ? B->addNestedStructure(n) : k == 1 ? B->addNestedUnion(n) : k == 2 ? B->addNestedStructureArray(n) : B->addNestedUnionArray(n); };
            int i = l.find(n);
            if(i >= 0) {
                const Ty& e = *l.kids[i];
                pvd::Type want = nl.un ? (nl.arr ? pvd::unionArray : pvd::union_) : (nl.arr ? pvd::structureArray : pvd::structure);
                if(kindOf(e) != want) { log << ")"; VTHROWS(f(), "nested-other-kind", log.str()); count("refused_nested"); continue; }
                const Ty& el = nl.arr ? elemTy(e) : e;
                nl.cont = true; nl.idSet = true; nl.id = el.k == KVariant ? "any" : el.id;
                nl.names = el.names; nl.kids = el.kids;
                log << "..continue"; count("continued");
            }
            log << ")";
            nl.b = f();
            VCHECK(nl.b && nl.b.get() != l.b.get(), "nested-builder", log.str());
            st.push_back(nl);
            count("nested");
        } else if(c < 18) {
            log << " end";
            if(st.size() == 1) { VTHROWS(l.b->endNested(), "end-of-top", log.str()); count("misplaced_end"); continue; }
            if(R.chance(1, 8)) { // not a place to create
                if(R.coin()) VTHROWS(l.b->createStructure(), "create-in-nested", log.str()); else VTHROWS(l.b->createUnion(), "create-in-nested", log.str());
                count("misplaced_create");
            }
            TyP t = denote(l, l.un);
            if(t && l.arr) t = arrOf(t);
            Level& p = st[st.size() - 2];
            if(!t) { VTHROWS(l.b->endNested(), "nested-invalid", log.str()); st.pop_back(); count("refused_invalid"); continue; }
            if(l.cont) p.kids[p.find(l.nname)] = t;
            else if(modelAdd(p, l.nname, t) < 0) VFAIL("harness", "duplicate at end");
            pvd::FieldBuilderPtr r(l.b->endNested());
            VCHECK(r.get() == p.b.get(), "end-chain", log.str());
            st.pop_back(); count("ended");
        } else {
            if(st.size() > 1) {
                if(R.coin()) continue;
                if(R.coin()) VTHROWS(l.b->createStructure(), "create-in-nested", log.str()); else VTHROWS(l.b->createUnion(), "create-in-nested", log.str());
                count("misplaced_create"); continue;
            }
            bool un = R.chance(1, 3);
            log << (un ? " union" : " structure");
            TyP t = denote(l, un);
            if(!t) {
                if(un) VTHROWS(l.b->createUnion(), "create-invalid", log.str()); else VTHROWS(l.b->createStructure(), "create-invalid", log.str());
                count("refused_invalid"); fresh(); continue;
            }
            pvd::FieldConstPtr f;
            if(un) f = l.b->createUnion(); else f = l.b->createStructure();
            VCHECK(f && eqTy(*tyOf(*f), *t), "built-type", log.str() << " gave " << descTy(*tyOf(*f)) << " expected " << descTy(*t));
            VCHECK(*f == *build(*t), "built-same", log.str());
            Built b = { f, t }; built.push_back(b);
            vh::distinct(vh::hstr(descTy(*t), vh::hstr(log.str())));
            count(un ? "unions" : "structures");
            l.clear(); // the builder starts afresh
            if(R.coin()) fresh(); else count("reused");
        }
    }
    while(st.size() > 1) { // finish what is open
        Level& l = st.back();
        TyP t = denote(l, l.un); if(t && l.arr) t = arrOf(t);
        Level& p = st[st.size() - 2];
        if(!t) { VTHROWS(l.b->endNested(), "nested-invalid", log.str()); }
        else { if(l.cont) p.kids[p.find(l.nname)] = t; else modelAdd(p, l.nname, t); l.b->endNested(); }
        st.pop_back();
    }
    TyP t = denote(st[0], false);
    if(!t) VTHROWS(st[0].b->createStructure(), "create-invalid", log.str());
    else {
        pvd::StructureConstPtr s(st[0].b->createStructure());
        VCHECK(eqTy(*tyOf(*s), *t), "built-type", log.str() << " gave " << descTy(*tyOf(*s)) << " expected " << descTy(*t));
        Built b = { s, t }; built.push_back(b);
        count("structures");
    }
    for(auto& b : built) VCHECK(eqTy(*tyOf(*b.f), *b.t), "earlier-type-changed", log.str() << " : " << descTy(*b.t) << " became " << descTy(*tyOf(*b.f)));
    if(vh::st().samples.size() < 3) vh::sample(log.str());
}

// ---------- ValueBuilder
struct Node {
    TyP t; Val v;                       // scalar or scalar array
    bool str; std::string id; std::map<std::string, Node> kids;
    Node() : str(false) {}
    bool valid() const {
        for(auto& k : kids) if(!validName(k.first) || (k.second.str && !k.second.valid())) return false;
        return true;
    }
    void toTy(Ty& o, Val& val) const {
        o.k = KStruct; o.id = id.empty() ? "structure" : id;
        for(auto& k : kids) {
            o.names.push_back(k.first);
            if(k.second.str) { std::shared_ptr<Ty> s(new Ty); Val sv; k.second.toTy(*s, sv); o.kids.push_back(s); val.a.push_back(sv); }
            else { o.kids.push_back(k.second.t); val.a.push_back(k.second.v); }
        }
    }
};
// the real structure against the node, whatever the order of the members
static bool sameNode(const Node& n, const pvd::PVStructure& s, std::string& why) {
    std::string id = n.id.empty() ? "structure" : n.id;
    if(s.getStructure()->getID() != id) { why = "id " + s.getStructure()->getID() + " instead of " + id; return false; }
    if(s.getStructure()->getNumberFields() != n.kids.size()) { why = "number of members"; return false; }
    for(auto& k : n.kids) {
        pvd::PVField::const_shared_pointer f(s.getSubField(k.first));
        if(!f) { why = "no " + k.first; return false; }
        if(k.second.str) {
            const pvd::PVStructure *sub = dynamic_cast<const pvd::PVStructure*>(f.get());
            if(!sub) { why = k.first + " not a structure"; return false; }
            if(!sameNode(k.second, *sub, why)) { why = k.first + "." + why; return false; }
        } else {
            if(!eqTy(*tyOf(*f->getField()), *k.second.t)) { why = k.first + " has another type"; return false; }
            Val v = read(*f, *k.second.t);
            if(!eqVal(*k.second.t, v, k.second.v)) { why = k.first + " is " + descVal(*k.second.t, v) + " instead of " + descVal(*k.second.t, k.second.v); return false; }
        }
    }
    return true;
}
static bool cloneNode(Node& n, const Ty& t, const Val& v) { // false: refused part-way
    for(size_t i = 0; i < t.kids.size(); i++) {
        const Ty& k = *t.kids[i];
        Node& c = n.kids[t.names[i]];
        if(k.k == KScalar || k.k == KBStr) {
            if(c.str) return false;
            c.t = mkScalar(k.k == KBStr ? pvd::pvString : k.st); c.v = v.a[i];
        } else if(k.k == KStruct) {
            if(c.t) return false;
            c.str = true; c.id = k.id;
            if(!cloneNode(c, k, v.a[i])) return false;
        } else return false;
    }
    return true;
}
template<pvd::ScalarType E> void addS(pvd::ValueBuilder& b, const std::string& n, const Val& v) {
    typedef typename pvd::ScalarTypeTraits<E>::type T;
    b.add<E>(n, (T)fromBits<T>(v.n));
}
template<> void addS<pvd::pvString>(pvd::ValueBuilder& b, const std::string& n, const Val& v) { b.add<pvd::pvString>(n, v.s); }
template<pvd::ScalarType E> void addA(pvd::ValueBuilder& b, const std::string& n, const Val& v) {
    typedef typename pvd::ScalarTypeTraits<E>::type T;
    pvd::shared_vector<T> a(v.na.size());
    for(size_t i = 0; i < a.size(); i++) a[i] = fromBits<T>(v.na[i]);
    pvd::shared_vector<const T> f(pvd::freeze(a));
    b.add(n, f);
}
template<> void addA<pvd::pvString>(pvd::ValueBuilder& b, const std::string& n, const Val& v) {
    pvd::shared_vector<std::string> a(v.sa.size());
    for(size_t i = 0; i < a.size(); i++) a[i] = v.sa[i];
    pvd::shared_vector<const std::string> f(pvd::freeze(a));
    b.add(n, f);
}
#define EACH(F, b, n, v, st) switch(st) { \
    case pvd::pvBoolean: F<pvd::pvBoolean>(b, n, v); break; case pvd::pvByte: F<pvd::pvByte>(b, n, v); break; \
    case pvd::pvShort: F<pvd::pvShort>(b, n, v); break; case pvd::pvInt: F<pvd::pvInt>(b, n, v); break; \
    case pvd::pvLong: F<pvd::pvLong>(b, n, v); break; case pvd::pvUByte: F<pvd::pvUByte>(b, n, v); break; \
    case pvd::pvUShort: F<pvd::pvUShort>(b, n, v); break; case pvd::pvUInt: F<pvd::pvUInt>(b, n, v); break; \
    case pvd::pvULong: F<pvd::pvULong>(b, n, v); break; case pvd::pvFloat: F<pvd::pvFloat>(b, n, v); break; \
    case pvd::pvDouble: F<pvd::pvDouble>(b, n, v); break; case pvd::pvString: F<pvd::pvString>(b, n, v); break; }

MODE(value) {
    std::ostringstream log;
    Node root; root.str = true;
    std::unique_ptr<pvd::ValueBuilder> B;
    Opt S; S.depth = 1 + R.below(2); S.width = 4; S.unions = false; S.arrays = R.chance(1, 3); S.bounded = R.coin();
    auto genS = [&](Ty *&) {};
    (void)genS;
    unsigned c0 = R.below(3);
    if(c0 == 0) { B.reset(new pvd::ValueBuilder); log << "ValueBuilder()"; }
    else if(c0 == 1) { root.id = R.coin() ? "top_t" : "any"; B.reset(new pvd::ValueBuilder(root.id)); log << "ValueBuilder(" << root.id << ")"; }
    else {
        TyP t = genStruct(R, S); Val v = genVal(R, *t, S);
        pvd::PVStructurePtr src(makeStruct(*t, v, &R));
        log << "ValueBuilder(" << descTy(*t) << ")";
        root.id = t->id;
        if(!cloneNode(root, *t, v)) { VTHROWS(pvd::ValueBuilder tmp(*src), "clone-unsupported", log.str()); count("refused_clone"); return; }
        B.reset(new pvd::ValueBuilder(*src)); count("cloned");
    }
    struct L { pvd::ValueBuilder *b; Node *n; };
    std::vector<L> st; L l0 = { B.get(), &root }; st.push_back(l0);
    std::vector<std::pair<pvd::PVStructurePtr, Node> > built;
    size_t nops = 2 + R.below(R.chance(1, 4) ? 40 : 14);
    for(size_t op = 0; op <= nops; op++) {
        L l = st.back();
        std::string n;
        if(R.chance(1, 3) && !l.n->kids.empty()) { auto it = l.n->kids.begin(); std::advance(it, R.below(l.n->kids.size())); n = it->first; }
        else n = poolName(R);
        auto it = l.n->kids.find(n);
        bool exists = it != l.n->kids.end();
        unsigned c = op == nops ? 99 : R.below(16);
        if(c < 9) {
            std::shared_ptr<Ty> t(new Ty); t->k = c < 5 ? KScalar : KSArr; t->st = (pvd::ScalarType)R.below(12);
            Val v = genVal(R, *t, S);
            log << " add(" << n << "," << descTy(*t) << "=" << descVal(*t, v) << ")";
            if(exists && it->second.str) {
                if(c < 5) VTHROWS(EACH(addS, *l.b, n, v, t->st), "scalar-over-structure", log.str());
                else VTHROWS(EACH(addA, *l.b, n, v, t->st), "array-over-structure", log.str());
                count("refused"); continue;
            }
            if(c < 5) { EACH(addS, *l.b, n, v, t->st) } else { EACH(addA, *l.b, n, v, t->st) }
            Node& k = l.n->kids[n]; k.t = t; k.v = v;
            count(exists ? "replaced" : "members");
        } else if(c < 11) {
            TyP t = genStruct(R, S); Val v = genVal(R, *t, S);
            pvd::PVStructurePtr src(makeStruct(*t, v, &R));
            log << " add(" << n << "," << descTy(*t) << ")";
            if(exists && !it->second.str) { VTHROWS(l.b->add(n, *src), "structure-over-leaf", log.str()); count("refused"); continue; }
            Node& k = l.n->kids[n];
            k.str = true; k.id = t->id;
            if(!cloneNode(k, *t, v)) { VTHROWS(l.b->add(n, *src), "clone-unsupported", log.str()); count("refused_clone"); return; }
            l.b->add(n, *src);
            assign(*src, *t, zeroVal(*t), &R); // the builder has its own copy
            count("structures_added");
        } else if(c < 13 && st.size() < 5) {
            std::string id = R.chance(1, 3) ? "sub_t" : "";
            log << " nest(" << n << "," << id << ")";
            if(exists && !it->second.str) { VTHROWS(l.b->addNested(n, pvd::structure, id), "nested-over-leaf", log.str()); count("refused"); continue; }
            if(R.chance(1, 10)) {
                static const pvd::Type bad[] = { pvd::scalar, pvd::scalarArray, pvd::structureArray, pvd::union_, pvd::unionArray };
                pvd::Type b = bad[R.below(5)];
                VTHROWS(l.b->addNested(n, b, id), "nested-not-structure", log.str()); count("refused"); continue;
            }
            Node& k = l.n->kids[n]; k.str = true; k.id = id;
            pvd::ValueBuilder& nb = l.b->addNested(n, pvd::structure, id);
            L nl = { &nb, &k }; st.push_back(nl);
            count(exists ? "continued" : "nested");
        } else if(c < 15) {
            log << " end";
            if(st.size() == 1) { VTHROWS(l.b->endNested(), "end-of-top", log.str()); count("misplaced_end"); continue; }
            if(R.chance(1, 6)) { VTHROWS(l.b->buildPVStructure(), "build-in-nested", log.str()); count("misplaced_build"); }
            pvd::ValueBuilder& p = l.b->endNested();
            st.pop_back();
            VCHECK(&p == st.back().b, "end-chain", log.str());
        } else {
            log << " build";
            if(!root.valid()) { VTHROWS(B->buildPVStructure(), "build-invalid-name", log.str()); count("refused_invalid"); continue; }
            pvd::PVStructurePtr p(B->buildPVStructure());
            std::string why;
            VCHECK(p && sameNode(root, *p, why), "built-value", why << " after " << log.str());
            for(auto& b : built) VCHECK(b.first.get() != p.get() && sameNode(b.second, *b.first, why), "earlier-value-changed", why << " after " << log.str());
            count("built");
            Ty t; Val v; root.toTy(t, v);
            vh::distinct(hashCase(t, v));
            if(R.chance(1, 3)) { // changing what was built does not reach the builder
                Ty bt(*tyOf(*p->getField())); assign(*p, bt, genVal(R, bt, S), &R); count("built_changed");
            } else { built.push_back(std::make_pair(p, root)); }
        }
    }
    if(vh::st().samples.size() < 3) vh::sample(log.str());
}

// ---------- FieldCreate
MODE(create) {
    Opt O(smallOpt(R)); O.width = 4; O.depth = 2;
    pvd::FieldCreatePtr fc(pvd::getFieldCreate());
    TyP t = genStruct(R, O);
    pvd::StructureConstPtr s(buildStruct(*t));
    TyP cur = t; pvd::StructureConstPtr cs(s);
    std::ostringstream log; log << descTy(*t);
    for(size_t i = 1 + R.below(4); i; i--) {
        size_t n = R.chance(1, 3) ? 1 : R.below(4);
        bool one = n == 1 && R.coin();
        pvd::StringArray names; pvd::FieldConstPtrArray fields;
        std::shared_ptr<Ty> nt(new Ty(*cur));
        bool bad = false;
        for(size_t k = 0; k < n; k++) {
            std::string nm = poolName(R);
            if(!validName(nm)) bad = true;
            for(auto& x : nt->names) if(x == nm) bad = true;
            TyP ft = genTy(R, O);
            names.push_back(nm); fields.push_back(build(*ft));
            nt->names.push_back(nm); nt->kids.push_back(ft);
            log << " +" << vh::q(nm) << ":" << descTy(*ft);
        }
        if(n && R.chance(1, 12)) { fields[R.below(n)].reset(); bad = true; log << " null"; }
        auto f = [&]() { return one ? fc->appendField(cs, names[0], fields[0]) : fc->appendFields(cs, names, fields); };
        if(bad) { VTHROWS(f(), "append-invalid", log.str()); VCHECK(eqTy(*tyOf(*cs), *cur), "append-changed", log.str()); count("refused"); continue; }
        pvd::StructureConstPtr r(f());
        VCHECK(eqTy(*tyOf(*r), *nt), "append", log.str() << " gave " << descTy(*tyOf(*r)));
        VCHECK(eqTy(*tyOf(*cs), *cur), "append-changed", log.str());
        cs = r; cur = nt; count("appended", n);
    }
    VCHECK(eqTy(*tyOf(*s), *t), "append-changed", log.str());
    // invalid lists
    {
        pvd::StringArray n; pvd::FieldConstPtrArray f; kidsOf(*cur, n, f);
        unsigned c = R.below(5);
        bool bad = true;
        if(c == 0) n.push_back("zz");
        else if(c == 1) f.push_back(fc->createScalar(pvd::pvInt));
        else if(c == 2 && !n.empty()) { n.push_back(R.pick(n)); f.push_back(fc->createScalar(pvd::pvInt)); }
        else if(c == 3) { n.push_back("zz"); f.push_back(pvd::FieldConstPtr()); }
        else { std::string x; while(validName(x = R.coin() ? genStr(R, O, 6) : poolName(R))) {} size_t at = R.below(n.size() + 1); n.insert(n.begin() + at, x); f.insert(f.begin() + at, fc->createScalar(pvd::pvInt)); log << " name " << vh::q(x); }
        if(bad) {
            VTHROWS(fc->createStructure(n, f), "invalid-structure", log.str() << " variant " << c);
            VTHROWS(fc->createStructure("id", n, f), "invalid-structure", log.str() << " variant " << c);
            VTHROWS(fc->createUnion(n, f), "invalid-union", log.str() << " variant " << c);
            VTHROWS(fc->createUnion("id", n, f), "invalid-union", log.str() << " variant " << c);
            count("invalid_lists");
        }
        pvd::ScalarType inv = (pvd::ScalarType)(R.coin() ? 12 + (int)R.below(20) : 12);
        VTHROWS(fc->createScalar(inv), "invalid-scalar", (int)inv); VTHROWS(fc->createScalarArray(inv), "invalid-scalar", (int)inv);
        VTHROWS(fc->createFixedScalarArray(inv, 3), "invalid-scalar", (int)inv); VTHROWS(fc->createBoundedScalarArray(inv, 3), "invalid-scalar", (int)inv);
        VTHROWS(fc->createStructure("", pvd::StringArray(1, "a"), pvd::FieldConstPtrArray(1, fc->createScalar(pvd::pvInt))), "empty-id", "");
        VTHROWS(fc->createUnion("", pvd::StringArray(1, "a"), pvd::FieldConstPtrArray(1, fc->createScalar(pvd::pvInt))), "empty-id", "");
        VTHROWS(fc->createUnion("notany", pvd::StringArray(), pvd::FieldConstPtrArray()), "empty-union", "");
    }
    // values: built empty, cloned, put together
    {
        pvd::PVDataCreatePtr pc(pvd::getPVDataCreate());
        pvd::PVFieldPtr z(pc->createPVField(pvd::FieldConstPtr(cs)));
        VCHECK(eqVal(*cur, read(*z, *cur), zeroVal(*cur)), "fresh-not-empty", log.str());
        Val v = genVal(R, *cur, O);
        pvd::PVStructurePtr p(makeStruct(*cur, v, &R));
        pvd::PVFieldPtr c; if(R.coin()) c = pc->createPVField(pvd::PVFieldPtr(p)); else c = pc->createPVStructure(p);
        VCHECK(eqTy(*tyOf(*c->getField()), *cur) && eqVal(*cur, read(*c, *cur), v), "clone", log.str() << " " << descVal(*cur, v) << " gave " << descVal(*cur, read(*c, *cur)));
        Val w = genVal(R, *cur, O);
        assign(*p, *cur, w, &R);
        VCHECK(eqVal(*cur, read(*c, *cur), v), "clone-follows", log.str());
        count("clones");
        pvd::StringArray n; pvd::PVFieldPtrArray f;
        for(size_t i = 0; i < cur->kids.size(); i++) {
            n.push_back(cur->names[i]);
            pvd::PVFieldPtr one(make(*cur->kids[i], v.a[i], &R));
            pvd::PVFieldPtr cl(pc->createPVField(one));
            VCHECK(eqVal(*cur->kids[i], read(*cl, *cur->kids[i]), v.a[i]), "clone", log.str() << " member " << n.back() << " " << descVal(*cur->kids[i], v.a[i]));
            assign(*one, *cur->kids[i], w.a[i], &R);
            VCHECK(eqVal(*cur->kids[i], read(*cl, *cur->kids[i]), v.a[i]), "clone-follows", log.str() << " member " << n.back());
            f.push_back(cl);
        }
        if(R.chance(1, 20)) { pvd::PVStructurePtr z(pc->createPVStructure(pvd::PVStructurePtr())); VCHECK(z && z->getPVFields().empty() && z->getNumberFields() == 1 && z->getStructure()->getNumberFields() == 0, "clone-null", ""); }
        pvd::PVStructurePtr put(pc->createPVStructure(n, f));
        Ty pt(*cur); pt.id = "structure";
        VCHECK(eqTy(*tyOf(*put->getField()), pt) && eqVal(pt, read(*put, pt), v), "assembled", log.str());
        for(size_t i = 0; i < f.size(); i++) VCHECK(put->getPVFields()[i].get() == f[i].get() && f[i]->getParent() == put.get() && f[i]->getFieldName() == n[i], "assembled-member", log.str());
        count("assembled");
    }
    vh::distinct(vh::hstr(log.str()));
    if(vh::st().samples.size() < 3) vh::sample(log.str());
}

// ---------- StandardField
static MTyP mkS(const char *id) { MTyP t(new Ty); t->k = KStruct; t->id = id; return t; }
static void mem(MTyP& t, const char *n, pvd::ScalarType s) { t->names.push_back(n); t->kids.push_back(mkScalar(s)); }
static void mem(MTyP& t, const char *n, const TyP& k) { t->names.push_back(n); t->kids.push_back(k); }
static MTyP alarmT() { MTyP t = mkS("alarm_t"); mem(t, "severity", pvd::pvInt); mem(t, "status", pvd::pvInt); mem(t, "message", pvd::pvString); return t; }
static MTyP timeT() { MTyP t = mkS("time_t"); mem(t, "secondsPastEpoch", pvd::pvLong); mem(t, "nanoseconds", pvd::pvInt); mem(t, "userTag", pvd::pvInt); return t; }
static MTyP displayT() { MTyP t = mkS("display_t"); mem(t, "limitLow", pvd::pvDouble); mem(t, "limitHigh", pvd::pvDouble); mem(t, "description", pvd::pvString); mem(t, "format", pvd::pvString); mem(t, "units", pvd::pvString); return t; }
static MTyP controlT() { MTyP t = mkS("control_t"); mem(t, "limitLow", pvd::pvDouble); mem(t, "limitHigh", pvd::pvDouble); mem(t, "minStep", pvd::pvDouble); return t; }
static MTyP enumT() { MTyP t = mkS("enum_t"); mem(t, "index", pvd::pvInt); MTyP a(new Ty); a->k = KSArr; a->st = pvd::pvString; mem(t, "choices", TyP(a)); return t; }
static MTyP valarmT(pvd::ScalarType s) {
    MTyP t = mkS("valueAlarm_t");
    mem(t, "active", pvd::pvBoolean);
    if(s == pvd::pvBoolean) { mem(t, "falseSeverity", pvd::pvInt); mem(t, "trueSeverity", pvd::pvInt); mem(t, "changeStateSeverity", pvd::pvInt); return t; }
    static const char *lim[] = { "lowAlarmLimit", "lowWarningLimit", "highWarningLimit", "highAlarmLimit" };
    static const char *sev[] = { "lowAlarmSeverity", "lowWarningSeverity", "highWarningSeverity", "highAlarmSeverity" };
    for(int i = 0; i < 4; i++) mem(t, lim[i], s);
    for(int i = 0; i < 4; i++) mem(t, sev[i], pvd::pvInt);
    mem(t, "hysteresis", pvd::pvByte);
    return t;
}
static MTyP enumAlarmT() { MTyP t = mkS("valueAlarm_t"); mem(t, "active", pvd::pvBoolean); mem(t, "stateSeverity", pvd::pvInt); mem(t, "changeStateSeverity", pvd::pvInt); return t; }

MODE(standard) {
    pvd::StandardFieldPtr sf(pvd::getStandardField());
    pvd::StandardPVFieldPtr sp(pvd::getStandardPVField());
    static const char *P[] = { "alarm", "timeStamp", "display", "control", "valueAlarm" };
    unsigned mask = R.below(32);
    std::vector<std::string> words;
    for(int i = 0; i < 5; i++) if(mask & (1u << i)) words.push_back(P[i]);
    for(size_t i = words.size(); i > 1; i--) std::swap(words[i - 1], words[R.below(i)]);
    std::string props;
    for(size_t i = 0; i < words.size(); i++) { if(i) props += R.chance(1, 4) ? ", " : ","; props += words[i]; }
    pvd::ScalarType s = (pvd::ScalarType)R.below(12);
    Opt O(smallOpt(R)); O.depth = 1; O.width = 3;
    unsigned c = R.below(7);
    TyP val, va; const char *id;
    bool valOk = false;
    std::shared_ptr<Ty> m(new Ty);
    pvd::StructureConstPtr est, el; pvd::UnionConstPtr eun;
    switch(c) {
    case 0: val = mkScalar(s); id = "epics:nt/NTScalar:1.0"; valOk = s != pvd::pvString; va = valarmT(s); break;
    case 1: m->k = KSArr; m->st = s; val = m; id = "epics:nt/NTScalarArray:1.0"; valOk = s != pvd::pvString; va = valarmT(s); break;
    case 2: val = genStruct(R, O, KUnion); id = "epics:nt/NTUnion:1.0"; eun = buildUnion(*val); break;
    case 3: m->k = KVariant; val = m; id = "epics:nt/NTUnion:1.0"; break;
    case 4: { m->k = KStructArr; TyP e = genStruct(R, O); m->kids.push_back(e); val = m; id = "epics:nt/NTStructureArray:1.0"; el = buildStruct(*e); break; }
    case 5: { m->k = KUnionArr; TyP e = genStruct(R, O, KUnion); m->kids.push_back(e); val = m; id = "epics:nt/NTUnionArray:1.0"; eun = buildUnion(*e); break; }
    default: val = enumT(); id = "epics:nt/NTEnum:1.0"; valOk = true; va = enumAlarmT(); break;
    }
    std::vector<std::string> choices;
    for(size_t i = R.below(4); i; i--) choices.push_back(genStr(R, O, 12));
    std::string what = std::string("kind ") + std::to_string(c) + " type " + std::to_string((int)s) + " properties '" + props + "'";
    auto field = [&]() -> pvd::StructureConstPtr {
        switch(c) {
        case 0: return sf->scalar(s, props); case 1: return sf->scalarArray(s, props); case 2: return sf->regUnion(eun, props);
        case 3: return sf->variantUnion(props); case 4: return sf->structureArray(el, props); case 5: return sf->unionArray(eun, props);
        default: return sf->enumerated(props); }
    };
    auto value = [&]() -> pvd::PVStructurePtr {
        switch(c) {
        case 0: return sp->scalar(s, props); case 1: return sp->scalarArray(s, props);
        case 4: return sp->structureArray(el, props); case 5: return sp->unionArray(eun, props);
        case 6: return sp->enumerated(choices, props);
        default: return field()->build(); }
    };
    if((mask & 16) && !valOk) {
        VTHROWS(field(), "no-value-alarm", what); VTHROWS(value(), "no-value-alarm", what);
        count("refused"); return;
    }
    MTyP t = mkS(id);
    mem(t, "value", val);
    if(mask & 1) mem(t, "alarm", TyP(alarmT()));
    if(mask & 2) mem(t, "timeStamp", TyP(timeT()));
    if(mask & 4) mem(t, "display", TyP(displayT()));
    if(mask & 8) mem(t, "control", TyP(controlT()));
    if(mask & 16) mem(t, "valueAlarm", va);
    pvd::StructureConstPtr f(field());
    VCHECK(eqTy(*tyOf(*f), *t), "standard-type", what << " gave " << descTy(*tyOf(*f)) << " expected " << descTy(*t));
    pvd::PVStructurePtr v(value());
    Val z = zeroVal(*t);
    if(c == 6) z.a[0].a[1].sa = choices;
    VCHECK(eqTy(*tyOf(*v->getField()), *t), "standard-value-type", what);
    VCHECK(eqVal(*t, read(*v, *t), z), "standard-value", what << " gave " << descVal(*t, read(*v, *t)));
    pvd::PVStructurePtr e(sp->enumerated(choices));
    Val ez = zeroVal(*enumT()); ez.a[1].sa = choices;
    VCHECK(eqTy(*tyOf(*e->getField()), *enumT()) && eqVal(*enumT(), read(*e, *enumT()), ez), "standard-enum", what);
    // the parts by themselves
    VCHECK(eqTy(*tyOf(*sf->alarm()), *alarmT()) && eqTy(*tyOf(*sf->timeStamp()), *timeT()) && eqTy(*tyOf(*sf->display()), *displayT()) &&
           eqTy(*tyOf(*sf->control()), *controlT()) && eqTy(*tyOf(*sf->enumerated()), *enumT()) && eqTy(*tyOf(*sf->enumeratedAlarm()), *enumAlarmT()), "standard-part", "");
    struct { const pvd::StructureConstPtr& f; pvd::ScalarType s; } parts[] = {
        { sf->booleanAlarm(), pvd::pvBoolean }, { sf->byteAlarm(), pvd::pvByte }, { sf->shortAlarm(), pvd::pvShort }, { sf->intAlarm(), pvd::pvInt },
        { sf->longAlarm(), pvd::pvLong }, { sf->ubyteAlarm(), pvd::pvUByte }, { sf->ushortAlarm(), pvd::pvUShort }, { sf->uintAlarm(), pvd::pvUInt },
        { sf->ulongAlarm(), pvd::pvULong }, { sf->floatAlarm(), pvd::pvFloat }, { sf->doubleAlarm(), pvd::pvDouble } };
    for(auto& p : parts) VCHECK(eqTy(*tyOf(*p.f), *valarmT(p.s)), "standard-part", (int)p.s);
    count("standard_types"); if(mask & 16) count("value_alarms");
    vh::distinct(vh::hstr(what, vh::hstr(descTy(*val))));
    if(vh::st().samples.size() < 3) vh::sample(what);
}
VH_MAIN
