// C01 round trip, C02 wire format, C03 type descriptions
#include "gen.h"
#include <unordered_map>
#include <epicsString.h>
#include <pv/typeCast.h>
using namespace g;
using namespace vh;

static bool valid(const Ty& t, const Val& v);

// the object must still be what the model says
#define SAME(F, T, V, KEY, EXTRA) do { Val got_ = read(F, T); if(!eqVal(T, V, got_)) \
    VFAIL(KEY, EXTRA << " type " << descTy(T) << " want " << descVal(T, V) << " got " << descVal(T, got_)); } while(0)

static Opt optFor(Rng& R) {
    Opt O; O.depth = R.below(5); O.width = 1 + R.below(6);
    return O;
}

// whole value through a segmented transport into fresh / dirty objects
MODE(roundtrip) {
    Opt O(optFor(R));
    TyP t(genTy(R, O));
    Val v(genVal(R, *t, O));
    pvd::PVFieldPtr src(make(*t, v, &R));
    SAME(*src, *t, v, "assign-read", "before");
    bool be = R.coin();
    std::unique_ptr<Out> o(newOut(R, be));
    src->serialize(&o->buf, o.get());
    std::vector<uint8_t> bytes(o->finish());
    SAME(*src, *t, v, "serialize-modified-source", "");
    count("bytes", bytes.size()); count("flushes", o->flushes); count("direct_out", o->directs);

    std::unique_ptr<In> in(newIn(R, bytes, be));
    pvd::PVFieldPtr dst;
    bool dirty = R.coin();
    if(dirty) { Val w(genVal(R, *t, O)); dst = make(*t, w, &R); count("dirty_targets"); }
    else dst = pvd::getPVDataCreate()->createPVField(src->getField());
    dst->deserialize(&in->buf, in.get());
    count("refills", in->refills); count("direct_in", in->directs);
    std::ostringstream ctx; ctx << (be ? "BE" : "LE") << (dirty ? " dirty" : " fresh") << (o->direct ? " dout" : "") << (in->direct ? " din" : "");
    VCHECK(in->left() == 0, "roundtrip-consumed", ctx.str() << " left " << in->left() << " of " << bytes.size() << " " << descTy(*t) << " " << descVal(*t, v));
    SAME(*dst, *t, v, "roundtrip-value", ctx.str());
    SAME(*src, *t, v, "roundtrip-source", ctx.str());
    // decoded value may not share storage with the source in a mutable way: overwrite it
    if(R.chance(1, 4)) { Val w(genVal(R, *t, O)); assign(*dst, *t, w, &R); SAME(*src, *t, v, "roundtrip-alias", ""); }
    distinct(hashCase(*t, v) ^ mix(o->flushes * 977 + in->refills));
    if(t->kids.size() && bytes.size() < 200) sample(descTy(*t) + " = " + descVal(*t, v) + " -> " + hex(bytes));
}

// convenience entry points
MODE(vectors) {
    Opt O(optFor(R));
    TyP t(genTy(R, O));
    Val v(genVal(R, *t, O));
    pvd::PVFieldPtr src(make(*t, v, &R)), dst(make(*t));
    int bo = R.coin() ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE;
    std::vector<epicsUInt8> out;
    size_t junk = R.below(5); out.resize(junk, 0xa5);
    pvd::serializeToVector(src.get(), bo, out);
    Enc e(bo == EPICS_ENDIAN_BIG); e.val(*t, v);
    VCHECK(out.size() == junk + e.b.size() && std::equal(e.b.begin(), e.b.end(), out.begin() + junk), "vector-bytes",
           descTy(*t) << " " << descVal(*t, v) << " got " << hex(out));
    std::vector<epicsUInt8> in(out.begin() + junk, out.end());
    in.reserve(1);
    if(in.empty()) { in.push_back(0); pvd::ByteBuffer B((char*)&in[0], 0, bo); pvd::deserializeFromBuffer(dst.get(), B); }
    else pvd::deserializeFromVector(dst.get(), bo, in);
    SAME(*dst, *t, v, "vector-value", "");
    // too short: rejected
    if(in.size() > 1) {
        size_t cut = R.below(in.size());
        std::vector<char> m(in.begin(), in.begin() + cut); m.reserve(1);
        pvd::ByteBuffer B(m.data(), cut, bo);
        pvd::PVFieldPtr d2(make(*t));
        if(!e.b.empty()) { VTHROWS(pvd::deserializeFromBuffer(d2.get(), B), "vector-short", "cut " << cut << " of " << in.size() << " " << descTy(*t)); count("short_rejected"); }
    }
    distinct(hashCase(*t, v) ^ 1);
}

// element range of an array
MODE(partial) {
    std::shared_ptr<Ty> t(new Ty); Opt O; O.depth = 1 + R.below(2); O.width = 3;
    switch(R.below(4)) {
    case 0: t->k = KStructArr; t->kids.push_back(genStruct(R, O)); break;
    case 1: if(R.coin()) { t->k = KVarArr; } else { t->k = KUnionArr; t->kids.push_back(genStruct(R, O, KUnion)); } break;
    default: t->k = KSArr; t->st = (pvd::ScalarType)R.below(12); if(R.chance(1, 5)) { t->pol = 1; t->bound = 500; }
    }
    Val v(genVal(R, *t, O));
    pvd::PVFieldPtr src(make(*t, v, &R));
    size_t n = t->k == KSArr ? (t->st == pvd::pvString ? v.sa.size() : v.na.size()) : v.a.size();
    size_t off = R.chance(1, 8) ? n + R.below(4) : R.below(n + 1), cnt;
    switch(R.below(6)) { case 0: cnt = (size_t)-1 - R.below(3); break; case 1: cnt = n; break; case 2: cnt = 0; break; default: cnt = R.below(n + 3); }
    size_t o0 = off > n ? n : off, c0 = cnt > n - o0 ? n - o0 : cnt;
    Val w;
    if(t->k == KSArr) { if(t->st == pvd::pvString) w.sa.assign(v.sa.begin() + o0, v.sa.begin() + o0 + c0);
        else w.na.assign(v.na.begin() + o0, v.na.begin() + o0 + c0); }
    else w.a.assign(v.a.begin() + o0, v.a.begin() + o0 + c0);
    bool be = R.coin();
    std::unique_ptr<Out> o(newOut(R, be));
    const pvd::SerializableArray& sa = dynamic_cast<const pvd::SerializableArray&>(*src);
    sa.serialize(&o->buf, o.get(), off, cnt);
    std::vector<uint8_t> bytes(o->finish());
    Enc e(be); e.val(*t, w);
    VCHECK(bytes == e.b, "partial-bytes", descTy(*t) << " n=" << n << " off=" << off << " cnt=" << (int64_t)cnt << " got " << hex(bytes) << " want " << hex(e.b));
    std::unique_ptr<In> in(newIn(R, bytes, be));
    pvd::PVFieldPtr dst(make(*t));
    dst->deserialize(&in->buf, in.get());
    SAME(*dst, *t, w, "partial-value", "off " << off << " cnt " << cnt);
    SAME(*src, *t, v, "partial-source", "");
    distinct(hstr(descTy(*t)) ^ mix(n * 1000003 + off * 1009 + cnt));
    count("ranges");
}

// strings, sub-strings, sizes, status, bit sets
MODE(prims) {
    bool be = R.coin();
    Opt O;
    std::unique_ptr<Out> o(newOut(R, be));
    Enc e(be);
    switch(R.below(7)) {
    case 0: { // size
        size_t n; switch(R.below(4)) { case 0: n = R.below(260); break; case 1: n = (1u << R.below(31)) - R.below(2); break; case 2: n = R.below(0x80000000u); break; default: n = 250 + R.below(8); }
        if(R.chance(1, 10)) n = (size_t)-1;
        pvd::SerializeHelper::writeSize(n, &o->buf, o.get());
        e.size(n);
        std::vector<uint8_t> b(o->finish());
        VCHECK(b == e.b, "size-bytes", n << " got " << hex(b));
        std::unique_ptr<In> in(newIn(R, b, be));
        size_t m = pvd::SerializeHelper::readSize(&in->buf, in.get());
        VCHECK(m == n && in->left() == 0, "size-value", n << " got " << m);
        distinct(mix(n)); count("sizes");
        break; }
    case 1: { // string
        std::string s(genStr(R, O));
        pvd::SerializeHelper::serializeString(s, &o->buf, o.get());
        e.str(s);
        std::vector<uint8_t> b(o->finish());
        VCHECK(b == e.b, "string-bytes", q(s) << " got " << hex(b));
        std::unique_ptr<In> in(newIn(R, b, be));
        std::string r(pvd::SerializeHelper::deserializeString(&in->buf, in.get()));
        VCHECK(r == s && in->left() == 0, "string-value", q(s) << " got " << q(r));
        distinct(hstr(s)); count("strings");
        break; }
    case 2: { // sub string
        std::string s(genStr(R, O));
        size_t off = R.below(s.size() + 3), cnt = R.chance(1, 6) ? (size_t)-1 - R.below(4) : R.below(s.size() + 3);
        std::string want(off < s.size() ? s.substr(off, cnt) : std::string());
        if(R.coin()) pvd::SerializeHelper::serializeSubstring(s, off, cnt, &o->buf, o.get());
        else {
            pvd::PVStringPtr p(pvd::getPVDataCreate()->createPVScalar<pvd::PVString>());
            p->put(s); p->serialize(&o->buf, o.get(), off, cnt);
        }
        e.str(want);
        std::vector<uint8_t> b(o->finish());
        VCHECK(b == e.b, "substring-bytes", q(s) << " off " << off << " cnt " << (int64_t)cnt << " got " << hex(b) << " want " << hex(e.b));
        std::unique_ptr<In> in(newIn(R, b, be));
        std::string r(pvd::SerializeHelper::deserializeString(&in->buf, in.get()));
        VCHECK(r == want && in->left() == 0, "substring-value", q(s));
        distinct(hstr(s) ^ mix(off * 31 + cnt)); count("substrings");
        break; }
    case 3: case 4: { // status
        static const pvd::Status::StatusType ty[] = { pvd::Status::STATUSTYPE_OK, pvd::Status::STATUSTYPE_WARNING, pvd::Status::STATUSTYPE_ERROR, pvd::Status::STATUSTYPE_FATAL };
        int k = R.below(4);
        std::string m(genStr(R, O)), d(genStr(R, O));
        pvd::Status s(k ? pvd::Status(ty[k], m, d) : pvd::Status());
        s.serialize(&o->buf, o.get());
        if(k == 0) e.u8(0xff); else { e.u8(k); e.str(m); e.str(d); }
        std::vector<uint8_t> b(o->finish());
        VCHECK(b == e.b, "status-bytes", k << q(m) << q(d) << " got " << hex(b));
        std::unique_ptr<In> in(newIn(R, b, be));
        pvd::Status r(R.coin() ? pvd::Status(ty[1 + R.below(3)], "old", "olddump") : pvd::Status());
        r.deserialize(&in->buf, in.get());
        VCHECK(in->left() == 0, "status-consumed", "");
        VCHECK(r.getType() == ty[k] && r.getMessage() == (k ? m : "") && r.getStackDump() == (k ? d : "") && r.isOK() == (k == 0) && r.isSuccess() == (k <= 1),
               "status-value", k << q(m) << q(d) << " got " << r.getType() << q(r.getMessage()) << q(r.getStackDump()));
        distinct(hstr(m + d) ^ k); count("statuses");
        break; }
    default: { // bit set
        pvd::BitSet s; std::set<size_t> ref;
        size_t n = R.below(R.chance(1, 5) ? 300 : 12), span = R.chance(1, 10) ? 3000 + R.below(2000) : 1 + R.below(300);
        if(R.chance(1, 150)) span = 300000;
        for(size_t i = 0; i < n; i++) { size_t x = R.below(span); s.set(x); ref.insert(x); }
        for(size_t i = 0; i < n / 3; i++) { size_t x = R.below(span); s.clear(x); ref.erase(x); }
        s.serialize(&o->buf, o.get());
        std::vector<uint8_t> by;
        for(size_t x : ref) { if(by.size() <= x / 8) by.resize(x / 8 + 1); by[x / 8] |= 1 << (x % 8); }
        // full 64-bit words are in buffer byte order, the rest least significant byte first
        e.size(by.size());
        size_t w = 0;
        for(; w + 8 <= by.size(); w += 8) { uint64_t x; memcpy(&x, &by[w], 8); e.num(x, 8); }
        for(; w < by.size(); w++) e.u8(by[w]);
        std::vector<uint8_t> b(o->finish());
        VCHECK(b == e.b, "bitset-bytes", s << " got " << hex(b) << " want " << hex(e.b));
        if(R.chance(1, 3)) { // a sender may pad with zero bytes
            Enc p(be); std::vector<uint8_t> by2(by); by2.resize(by.size() + R.below(20)); p.size(by2.size()); size_t w2 = 0;
            for(; w2 + 8 <= by2.size(); w2 += 8) { uint64_t x; memcpy(&x, &by2[w2], 8); p.num(x, 8); }
            for(; w2 < by2.size(); w2++) p.u8(by2[w2]);
            b = p.b; count("bitset_padded");
        }
        std::unique_ptr<In> in(newIn(R, b, be));
        pvd::BitSet r; for(size_t i = 0; i < R.below(4); i++) r.set(R.below(500));
        r.deserialize(&in->buf, in.get());
        VCHECK(r == s && in->left() == 0, "bitset-value", s << " got " << r);
        uint64_t h = 7; for(size_t x : ref) h = mix(h ^ x);
        distinct(h); count("bitsets");
    } }
}

// bytes are exactly the specified ones, and the specified bytes decode
MODE(wire) {
    Opt O(optFor(R));
    TyP t(genTy(R, O));
    Val v(genVal(R, *t, O));
    bool be = R.coin();
    Enc e(be); e.val(*t, v);
    pvd::PVFieldPtr src(make(*t, v, &R));
    std::unique_ptr<Out> o(newOut(R, be));
    src->serialize(&o->buf, o.get());
    std::vector<uint8_t> b(o->finish());
    if(b != e.b) {
        size_t i = 0; while(i < b.size() && i < e.b.size() && b[i] == e.b[i]) i++;
        VFAIL("wire-bytes", (be ? "BE " : "LE ") << "differ at " << i << " " << descTy(*t) << " = " << descVal(*t, v) << " got " << hex(b) << " want " << hex(e.b));
    }
    std::unique_ptr<In> in(newIn(R, e.b, be));
    pvd::PVFieldPtr dst(make(*t, &R));
    dst->deserialize(&in->buf, in.get());
    VCHECK(in->left() == 0, "wire-consumed", descTy(*t));
    SAME(*dst, *t, v, "wire-value", "");
    distinct(hashCase(*t, v) ^ be); count("wire_values"); count("wire_bytes", b.size());
    if(t->kids.size() > 1 && b.size() < 160) sample(descTy(*t) + " = " + descVal(*t, v) + (be ? " BE " : " LE ") + hex(b));
}
MODE(wiretype) {
    Opt O(optFor(R));
    TyP t(genTy(R, O));
    bool be = R.coin();
    Enc e(be); e.ty(*t);
    pvd::FieldConstPtr f(build(*t));
    std::unique_ptr<Out> o(newOut(R, be));
    if(R.coin()) f->serialize(&o->buf, o.get()); else o->cachedSerialize(f, &o->buf);
    std::vector<uint8_t> b(o->finish());
    VCHECK(b == e.b, "type-bytes", (be ? "BE " : "LE ") << descTy(*t) << " got " << hex(b) << " want " << hex(e.b));
    std::unique_ptr<In> in(newIn(R, e.b, be));
    pvd::FieldConstPtr r(pvd::getFieldCreate()->deserialize(&in->buf, in.get()));
    VCHECK(r && in->left() == 0, "type-consumed", descTy(*t));
    TyP rt(tyOf(*r));
    VCHECK(eqTy(*t, *rt), "type-value", descTy(*t) << " got " << descTy(*rt));
    distinct(hstr(descTy(*t)) ^ be); count("wire_types"); count("wire_bytes", b.size());
    if(t->kids.size() > 1 && b.size() < 160) sample(descTy(*t) + (be ? " BE " : " LE ") + hex(b));
}

// ---- types: round trip, equality exactly on equal descriptions
static TyP mutate(Rng& R, const Ty& t) {
    std::shared_ptr<Ty> m(new Ty(t));
    if(!m->kids.empty() && R.chance(2, 3)) {
        size_t i = R.below(m->kids.size());
        m->kids[i] = mutate(R, *m->kids[i]);
        return m;
    }
    switch(t.k) {
    case KScalar: m->st = (pvd::ScalarType)((t.st + 1 + R.below(11)) % 12); if(t.st == pvd::pvString && R.coin()) { m->k = KBStr; m->bound = 7; } break;
    case KBStr: if(R.coin()) m->bound = t.bound + 1 + R.below(9); else { m->k = KScalar; m->st = pvd::pvString; } break;
    case KSArr: switch(R.below(4)) {
        case 0: m->st = (pvd::ScalarType)((t.st + 1 + R.below(11)) % 12); break;
        case 1: m->pol = (t.pol + 1 + R.below(2)) % 3; if(!m->bound) m->bound = 3; break;
        case 2: if(t.pol) m->bound = t.bound + 1 + R.below(7); else { m->pol = 1; m->bound = 5; } break;
        default: m->k = KScalar; } break;
    case KVariant: if(R.coin()) m->k = KVarArr; else { m->k = KUnion; m->id = "any"; m->names.push_back("x"); m->kids.push_back(mkScalar(pvd::pvInt)); } break;
    case KVarArr: m->k = KVariant; break;
    case KStructArr: case KUnionArr: return t.kids[0];
    case KStruct: case KUnion:
        switch(R.below(5)) {
        case 0: m->id = t.id + "x"; break;
        case 1: if(!t.names.empty()) { size_t i = R.below(t.names.size()); m->names[i] += "_m"; break; } // fallthrough
        case 2: m->names.push_back("added_"); m->kids.push_back(mkScalar(pvd::pvInt)); break;
        case 3: if(t.names.size() > 1) { size_t i = R.below(t.names.size()), j = R.below(t.names.size());
                std::swap(m->names[i], m->names[j]); if(R.coin()) std::swap(m->kids[i], m->kids[j]); break; } m->id += "y"; break;
        default: if(t.names.size() > 1) { m->names.pop_back(); m->kids.pop_back(); } else m->id += "z";
        }
    }
    return m;
}
static void cmpTypes(const Ty& a, const Ty& b, const pvd::FieldConstPtr& fa, const pvd::FieldConstPtr& fb, const char *what) {
    bool want = eqTy(a, b);
    bool got = *fa == *fb, got2 = *fb == *fa, ne = *fa != *fb;
    VCHECK(got == want && got2 == want && ne == !want, want ? "type-eq-missed" : "type-eq-false",
           what << ": " << descTy(a) << "  vs  " << descTy(b) << " : " << got << got2 << !ne);
    bool c1 = pvd::compare(*fa, *fb), c2 = pvd::compare(*fb, *fa);
    VCHECK(c1 == want && c2 == want, want ? "type-compare-missed" : "type-compare-false", what << ": " << descTy(a) << "  vs  " << descTy(b) << " : " << c1 << c2);
    count(want ? "types_equal" : "types_different");
}
// types whose descriptions share one 32 bit hash are still different types
static bool wireTy(Rng& R, const Ty& t, pvd::FieldConstPtr& r) {
    bool be = R.coin(); Enc e(be); e.ty(t);
    std::unique_ptr<In> in(newIn(R, e.b, be));
    r = pvd::getFieldCreate()->deserialize(&in->buf, in.get()); return true;
}
MODE(collide) {
    typedef std::pair<TyP, TyP> PP;
    static std::vector<PP> pairs;
    if(pairs.empty()) {
        for(int w = 0; w < 7; w++) { // bounded string, bounded and fixed arrays of three element types
            std::unordered_map<unsigned, size_t> seen; int found = 0;
            for(size_t n = 1; n < 200000 && found < 3; n++) {
                std::shared_ptr<Ty> t(new Ty); t->bound = n;
                if(w == 0) { t->k = KBStr; t->st = pvd::pvString; } else { t->k = KSArr; t->pol = 1 + w % 2; t->st = (pvd::ScalarType)((w * 5) % 12); }
                char b[64]; const char *nm = pvd::ScalarTypeFunc::name(t->st);
                snprintf(b, sizeof b, t->pol == 1 ? "%s<%zu>" : "%s[%zu]", nm, n);
                if(w == 0) snprintf(b, sizeof b, "string(%zu)", n);
                unsigned h = epicsStrHash(b, 0xbadc0de1);
                auto it = seen.find(h);
                if(it == seen.end()) seen[h] = n;
                else { std::shared_ptr<Ty> o(new Ty(*t)); o->bound = it->second; pairs.push_back(PP(o, t)); found++; }
            }
        }
        count("hash_collisions", pairs.size());
    }
    if(pairs.empty()) return;
    PP p(R.pick(pairs)); if(R.coin()) std::swap(p.first, p.second);
    std::shared_ptr<Ty> a(new Ty(*p.first)), b(new Ty(*p.second));
    if(R.chance(1, 3)) { // as members
        for(auto x : { &a, &b }) { std::shared_ptr<Ty> s(new Ty); s->k = KStruct; s->id = "structure"; s->names.push_back("m"); s->kids.push_back(*x); *x = s; }
    }
    pvd::FieldConstPtr fa, fb;
    if(R.coin()) fa = build(*a); else wireTy(R, *a, fa);
    if(R.coin()) fb = build(*b); else wireTy(R, *b, fb);
    TyP ta(tyOf(*fa)), tb(tyOf(*fb));
    VCHECK(eqTy(*a, *ta), "type-built", descTy(*a) << " got " << descTy(*ta));
    VCHECK(eqTy(*b, *tb), "type-built", descTy(*b) << " got " << descTy(*tb) << " while " << descTy(*a) << " exists");
    cmpTypes(*a, *b, fa, fb, "same hash");
    distinct(hstr(descTy(*a)) ^ hstr(descTy(*b))); count("collided");
}
// the id text of a type names its kind, element type and bound in full
static void checkIds(const Ty& t, const pvd::FieldConstPtr& f) {
    static const char *nm[] = { "boolean", "byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong", "float", "double", "string" };
    std::string e; std::string n(std::to_string((unsigned long long)t.bound));
    switch(t.k) {
    case KScalar: e = nm[t.st]; break;
    case KBStr: e = "string(" + n + ")"; break;
    case KSArr: e = std::string(nm[t.st]) + (t.pol == 0 ? "[]" : t.pol == 1 ? "<" + n + ">" : "[" + n + "]"); break;
    case KStruct: case KUnion: e = t.id; break;
    case KStructArr: case KUnionArr: e = t.kids[0]->id + "[]"; break;
    case KVariant: e = "any"; break;
    case KVarArr: e = "any[]"; break;
    }
    VCHECK(f->getID() == e, "type-id", descTy(t) << ": " << f->getID() << " instead of " << e);
    count("type_ids");
    if(t.k == KStruct) for(size_t i = 0; i < t.kids.size(); i++) checkIds(*t.kids[i], static_cast<const pvd::Structure&>(*f).getFields()[i]);
    if(t.k == KUnion) for(size_t i = 0; i < t.kids.size(); i++) checkIds(*t.kids[i], static_cast<const pvd::Union&>(*f).getFields()[i]);
    if(t.k == KStructArr) checkIds(*t.kids[0], static_cast<const pvd::StructureArray&>(*f).getStructure());
    if(t.k == KUnionArr) checkIds(*t.kids[0], static_cast<const pvd::UnionArray&>(*f).getUnion());
}
// the public comparison of each kind
template<typename T> static bool cmpAs(const pvd::FieldConstPtr& a, const pvd::FieldConstPtr& b, bool same) {
    const T *x = dynamic_cast<const T*>(a.get()), *y = dynamic_cast<const T*>(b.get());
    if(!x || !y) return true;
    vh::count("compared");
    return pvd::compare(*x, *y) == same && pvd::compare(*y, *x) == same && pvd::compare(*x, *x) && pvd::compare(*y, *y);
}
static bool plain(const Ty& t) { return t.k == KScalar; }
static void cmpPublic(const Ty& t, const Ty& u, const pvd::FieldConstPtr& a, const pvd::FieldConstPtr& b) {
    const bool same = eqTy(t, u);
    bool ok = cmpAs<pvd::Field>(a, b, same) && cmpAs<pvd::BoundedString>(a, b, same) && cmpAs<pvd::ScalarArray>(a, b, same) && cmpAs<pvd::Structure>(a, b, same) &&
              cmpAs<pvd::StructureArray>(a, b, same) && cmpAs<pvd::Union>(a, b, same) && cmpAs<pvd::UnionArray>(a, b, same);
    if(plain(t) && plain(u)) ok = ok && cmpAs<pvd::Scalar>(a, b, same);
    VCHECK(ok, "type-compare", descTy(t) << " and " << descTy(u));
}
// the table of typemap.h ties EPICS' types to those of this library
static void checkMap() {
    struct Row { const char *base, *dbf, *code; size_t baseSize, pvaSize; bool baseSigned, pvaSigned; pvd::ScalarType id, st; };
    static const Row rows[] = {
#define CASE_REAL_INT64
#define CASE(BASE, PVA, DBF, CODE) { #BASE, #DBF, #CODE, sizeof(epics##BASE), sizeof(PVA), (epics##BASE)-1 < (epics##BASE)1, (PVA)-1 < (PVA)1, (pvd::ScalarType)pvd::ScalarTypeID<PVA>::value, pvd::pv##CODE },
#include <pv/typemap.h>
#undef CASE
    };
    static const char *want[][3] = { { "UInt8", "UCHAR", "UByte" }, { "Int8", "CHAR", "Byte" }, { "UInt16", "USHORT", "UShort" }, { "Int16", "SHORT", "Short" }, { "UInt32", "ULONG", "UInt" },
        { "Int32", "LONG", "Int" }, { "Float32", "FLOAT", "Float" }, { "Float64", "DOUBLE", "Double" }, { "UInt8", "UCHAR", "Boolean" }, { "UInt64", "UINT64", "ULong" }, { "Int64", "INT64", "Long" } };
    size_t n = sizeof rows / sizeof *rows; unsigned found = 0;
    VCHECK(n == 11, "kind-map", n);
    for(auto& r : rows) {
        VCHECK(r.baseSize == r.pvaSize && r.id == r.st && (r.st == pvd::pvBoolean || r.baseSigned == r.pvaSigned), "kind-map", r.base << " " << r.code);
        for(int i = 0; i < 11; i++) if(!strcmp(want[i][0], r.base) && !strcmp(want[i][1], r.dbf) && !strcmp(want[i][2], r.code)) found |= 1u << i;
    }
    VCHECK(found == 0x7ff, "kind-map", std::hex << found);
}
static void checkKinds() {
    checkMap();
    static const char *names[] = { "boolean", "byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong", "float", "double", "string" };
    static const size_t size[] = { 1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8, sizeof(std::string) };
    for(int k = 0; k < 12; k++) {
        const pvd::ScalarType st = (pvd::ScalarType)k; using namespace pvd::ScalarTypeFunc;
        VCHECK(std::string(name(st)) == names[k] && getScalarType(names[k]) == st, "kind-name", names[k]);
        VCHECK(isInteger(st) == (k >= 1 && k <= 8) && isUInteger(st) == (k >= 5 && k <= 8) && isNumeric(st) == (k >= 1 && k <= 10) && isPrimitive(st) == (k <= 10), "kind-predicate", names[k]);
        VCHECK(elementSize(st) == size[k], "kind-size", names[k] << " " << elementSize(st));
        pvd::shared_vector<void> v(allocArray(st, k % 3));
        VCHECK(v.original_type() == st && v.size() == (k % 3) * size[k], "kind-array", names[k] << " " << v.size());
    }
    VTHROWS(pvd::ScalarTypeFunc::getScalarType("integer"), "kind-unknown", "");
    VTHROWS(pvd::ScalarTypeFunc::getScalarType(""), "kind-unknown", "");
    VTHROWS(pvd::ScalarTypeFunc::getScalarType("doubles"), "kind-unknown", "");
    VTHROWS(pvd::ScalarTypeFunc::getScalarType("INT"), "kind-unknown", "");
    vh::count("kinds");
}
MODE(types) {
    if(R.chance(1, 50)) checkKinds();
    Opt O(optFor(R)); bool huge = O.hugeBounds = R.chance(1, 3);
    TyP t(genTy(R, O));
    pvd::FieldConstPtr f(build(*t));
    TyP back(tyOf(*f));
    VCHECK(eqTy(*t, *back), "type-built", descTy(*t) << " got " << descTy(*back));
    // over the wire, possibly several times, in every byte order
    for(int k = 0; k < 2; k++) {
        bool be = R.coin();
        std::unique_ptr<Out> o(newOut(R, be));
        f->serialize(&o->buf, o.get());
        std::vector<uint8_t> b(o->finish());
        std::unique_ptr<In> in(newIn(R, b, be));
        pvd::FieldConstPtr r(pvd::getFieldCreate()->deserialize(&in->buf, in.get()));
        VCHECK(r && in->left() == 0, "type-consumed", descTy(*t));
        TyP rt(tyOf(*r));
        VCHECK(eqTy(*t, *rt), "type-roundtrip", descTy(*t) << " got " << descTy(*rt));
        checkIds(*t, r);
        cmpTypes(*t, *rt, f, r, "decoded");
        // a value of the decoded type is interchangeable
        if(k == 0 && !huge) { Val v(genVal(R, *t, O)); pvd::PVFieldPtr p(pvd::getPVDataCreate()->createPVField(r)); assign(*p, *t, v, &R); Val g(read(*p, *t));
            VCHECK(eqVal(*t, v, g), "type-decoded-usable", descTy(*t)); }
    }
    pvd::FieldConstPtr f2(build(*t));
    cmpTypes(*t, *t, f, f2, "rebuilt");
    TyP m(mutate(R, *t));
    pvd::FieldConstPtr fm(build(*m));
    TyP mb(tyOf(*fm));
    VCHECK(eqTy(*m, *mb), "type-built-mutant", descTy(*m) << " got " << descTy(*mb) << " after " << descTy(*t));
    checkIds(*t, f); checkIds(*m, fm);
    cmpTypes(*t, *m, f, fm, "mutant");
    TyP u(genTy(R, O)); pvd::FieldConstPtr fu(build(*u));
    cmpTypes(*t, *u, f, fu, "other");
    cmpPublic(*t, *m, f, fm); cmpPublic(*t, *u, f, fu); cmpPublic(*t, *t, f, f2);
    TyP again(tyOf(*f));
    VCHECK(eqTy(*t, *again), "type-changed", descTy(*t) << " now " << descTy(*again));
    distinct(hstr(descTy(*t)) ^ hstr(descTy(*m)));
    if(weight(*t) < 6) sample(descTy(*t) + "  |  " + descTy(*m));
}
VH_MAIN
