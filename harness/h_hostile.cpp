// C04: arbitrary bytes
#include "dec.h"
using namespace g;
using namespace vh;

static std::vector<uint8_t> mutateBytes(Rng& R, std::vector<uint8_t> b) {
    static const uint8_t magic[] = { 0, 1, 2, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x88, 0x89, 0x8a, 0x8b, 0x90, 0x98, 0xfd, 0xfe, 0xff, 0x08, 0x10, 0x18, 0x60, 0x68, 0x70, 0x78, 0x43, 0x4b };
    size_t k = R.below(4);
    for(size_t i = 0; i < k + 1; i++) {
        size_t n = b.size();
        switch(R.below(9)) {
        case 0: if(n) b.resize(R.below(n)); break;
        case 1: if(n) b[R.below(n)] ^= 1 << R.below(8); break;
        case 2: if(n) b[R.below(n)] = magic[R.below(sizeof magic)]; break;
        case 3: if(n) b[R.below(n)] = R.next(); break;
        case 4: { size_t at = R.below(n + 1); std::vector<uint8_t> x(1 + R.below(6)); for(auto& c : x) c = R.coin() ? R.next() : magic[R.below(sizeof magic)];
            b.insert(b.begin() + at, x.begin(), x.end()); break; }
        case 5: if(n) { size_t a = R.below(n), l = 1 + R.below(n - a); if(l > 16) l = 16; b.erase(b.begin() + a, b.begin() + a + l); } break;
        case 6: if(n) { size_t a = R.below(n); uint32_t v = R.coin() ? (uint32_t)R.next() : (uint32_t)(1u << R.below(32)) - (uint32_t)R.below(3); uint8_t x[5] = { 0xfe, (uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24) };
            b[a] = x[0]; b.insert(b.begin() + a + 1, x + 1, x + 5); } break;
        case 7: if(n) { size_t a = R.below(n), c = R.below(n), l = R.below(12); for(size_t j = 0; j < l && a + j < b.size() && c + j < b.size(); j++) b[a + j] = b[c + j]; } break;
        default: if(k == 0) return b; // sometimes leave it valid
        }
    }
    return b;
}

// an encoder which goes wrong at one chosen place, in a way that fits the grammar there
struct Wrong : Enc {
    Rng& R; long at; // nodes left until the fault; negative: none
    Wrong(Rng& R, bool be, long at) : Enc(be), R(R), at(at) {}
    bool hit() { return at-- == 0; }
    void wsize(size_t n) {
        if(!hit()) { size(n); return; }
        count("wrong_sizes");
        switch(R.below(8)) {
        case 0: u8(0xfe); num(n, 4); break; // longer than needed
        case 1: size(n + 1); break;
        case 2: size(n ? n - 1 : 1); break;
        case 3: u8(0xff); break;
        case 4: u8(0xfe); num(0x80000000u + R.below(3), 4); break;
        case 5: u8(0xfe); num(0xffffffffu - R.below(3), 4); break;
        case 6: u8(0xfe); num(0x7fffffffu - R.below(3), 4); break;
        default: size(n + 2 + R.below(300)); break;
        }
    }
    void wstr(const std::string& s) { wsize(s.size()); b.insert(b.end(), s.begin(), s.end()); }
    void wname(const std::string& s, const std::string& other) {
        if(!hit()) { wstr(s); return; }
        count("wrong_names");
        switch(R.below(7)) {
        case 0: str(""); break;
        case 1: str(other); break;
        case 2: str("1" + s); break;
        case 3: str(s + "."); break;
        case 4: str(s + std::string(1, '\0')); break;
        case 5: str(s + "\xc3\xa9"); break;
        default: { std::string x(s); if(x.size()) x[R.below(x.size())] = (char)R.next(); str(x); } break;
        }
    }
    void anyTy() { Opt O; O.depth = 1; O.width = 2; TyP u(genTy(R, O)); Enc::ty(*u); }
    void wty(const Ty& t) {
        if(hit()) {
            count("wrong_types");
            switch(R.below(8)) {
            case 0: u8(0xff); return; // no type
            case 1: u8(0x84 + R.below(4) + 8 * R.below(4)); Enc::ty(t); return; // unknown kinds
            case 2: u8(0xa0 + R.below(0x60)); if(R.coin()) Enc::ty(t); return;
            case 3: anyTy(); return; // another type than announced
            case 4: u8(0x80 + R.below(4) + 8 * (1 + R.below(3))); if(R.chance(3, 4)) size(R.below(5)); Enc::ty(t); return; // arrays of this
            case 5: u8(0x81); str(R.coin() ? "any" : R.coin() ? "" : genName(R)); size(0); return; // union without members
            case 6: u8(0x83); size(R.coin() ? 0 : (size_t)-1); return;
            default: if(t.k == KSArr || t.k == KScalar) { u8((code(t.st) + R.below(3)) | (R.below(4) * 8)); if(t.pol || R.coin()) size(t.bound); return; }
                if(t.k == KStructArr || t.k == KUnionArr || t.k == KVarArr) { // of fixed size or bounded
                    u8((t.k == KStructArr ? 0x80 : t.k == KUnionArr ? 0x81 : 0x82) | (R.coin() ? 0x10 : 0x18)); size(R.below(4)); if(t.kids.size()) Enc::ty(*t.kids[0]); return; }
                u8((t.k == KStruct ? 0x80 : t.k == KUnion ? 0x81 : t.k == KVariant ? 0x82 : 0x83) | 8 * (1 + R.below(3))); if(R.coin()) size(R.below(4)); Enc::ty(t); return;
            }
        }
        switch(t.k) {
        case KStruct: case KUnion:
            u8(t.k == KStruct ? 0x80 : 0x81);
            wstr(t.id == (t.k == KStruct ? "structure" : "union") ? std::string() : t.id);
            wsize(t.kids.size());
            for(size_t i = 0; i < t.kids.size(); i++) { wname(t.names[i], t.names[R.below(i + 1)]); wty(*t.kids[i]); }
            break;
        case KStructArr: u8(0x88); wty(*t.kids[0]); break;
        case KUnionArr: u8(0x89); wty(*t.kids[0]); break;
        case KBStr: u8(0x83); wsize(t.bound); break;
        case KSArr: if(t.pol) { u8(code(t.st) | (t.pol == 1 ? 0x10 : 0x18)); wsize(t.bound); break; }
            // fall through
        default: Enc::ty(t);
        }
    }
    void wval(const Ty& t, const Val& v) {
        switch(t.k) {
        case KScalar: if(t.st == pvd::pvString) wstr(v.s); else num(v.n, width(t.st)); break;
        case KBStr: if(hit()) { count("wrong_lengths"); str(std::string(t.bound < 70000 ? t.bound + R.below(2) : R.below(9), 'x')); } else wstr(v.s); break;
        case KSArr: {
            size_t n = t.st == pvd::pvString ? v.sa.size() : v.na.size();
            if(t.pol == 1 && t.bound < 3000 && hit()) { // exactly full, or one too many
                count("wrong_lengths"); n = t.bound + R.below(2); size(n);
                for(size_t i = 0; i < n; i++) if(t.st == pvd::pvString) str("s"); else num(R.next(), width(t.st));
                break; }
            if(t.pol != 2) wsize(n);
            for(size_t i = 0; i < n; i++) if(t.st == pvd::pvString) { if(i < 20) wstr(v.sa[i]); else str(v.sa[i]); } else num(v.na[i], width(t.st));
            break; }
        case KStruct: for(size_t i = 0; i < t.kids.size(); i++) wval(*t.kids[i], v.a[i]); break;
        case KUnion: if(v.sel < 0) { u8(0xff); break; }
            if(hit()) { count("wrong_selectors"); size_t k = R.below(t.kids.size() + 2); size(R.chance(1, 4) ? t.kids.size() + R.below(400) : k); } else wsize(v.sel);
            wval(*t.kids[v.sel], v.a[0]); break;
        case KVariant: if(!v.vt) u8(0xff); else { wty(*v.vt); wval(*v.vt, v.a[0]); } break;
        default:
            wsize(v.a.size());
            for(auto& e : v.a) { bool h = hit(); u8(e.null ? 0 : h ? 2 + R.below(254) : 1); if(!e.null) wval(elemTy(t), e); }
        }
    }
};

// everything a user does with a healthy object
static void exerciseObj(Rng& R, const pvd::PVFieldPtr& f, const Ty& t, const char *when) {
    Val v;
    TyP now(tyOf(*f->getField()));
    VCHECK(eqTy(*now, t), "hostile-type-changed", when << descTy(t) << " now " << descTy(*now));
    try { v = read(*f, t); }
    catch(std::bad_alloc&) { count("too_big_to_compare"); return; } // the model (8 bytes per element) of a fixed size array within the limit is beyond it; reading allocates nothing else
    catch(std::exception& e) { VFAIL("hostile-inconsistent", when << " " << descTy(t) << " : " << e.what()); }
    try {
        std::ostringstream o; f->dumpValue(o); o << *f;
        bool be = R.coin();
        std::unique_ptr<Out> out(newOut(R, be));
        f->serialize(&out->buf, out.get());
        Enc e(be); e.val(t, v);
        VCHECK(out->finish() == e.b, "hostile-serialize", when << " " << descTy(t) << " " << descVal(t, v));
        pvd::PVFieldPtr c(pvd::getPVDataCreate()->createPVField(f->getField()));
        c->copy(*f);
        Val w(read(*c, t));
        VCHECK(eqVal(t, v, w), "hostile-copy", when << " " << descTy(t) << " " << descVal(t, v) << " got " << descVal(t, w));
        (void)(*c == *f);
        Opt O; O.depth = 2; O.width = 3;
        Val n(genVal(R, t, O));
        assign(*f, t, n, &R);
        Val r(read(*f, t));
        VCHECK(eqVal(t, n, r), "hostile-assign", when << " " << descTy(t) << " want " << descVal(t, n) << " got " << descVal(t, r));
        Val n2(genVal(R, t, O)); Enc e2(be); e2.val(t, n2);
        std::unique_ptr<In> in(newIn(R, e2.b, be));
        f->deserialize(&in->buf, in.get());
        Val r2(read(*f, t));
        VCHECK(in->left() == 0 && eqVal(t, n2, r2), "hostile-reuse", when << " " << descTy(t) << " want " << descVal(t, n2) << " got " << descVal(t, r2));
        count("exercised");
    } catch(Abandon&) { throw; }
    catch(std::exception& e) { VFAIL("hostile-unusable", when << " " << descTy(t) << " " << descVal(t, v) << " : " << e.what()); }
}

// bounds above which creating an object is only a waste of memory here
static bool modest(const Ty& t) {
    if(t.k == KSArr && t.pol == 2 && t.bound > 20000) return false;
    for(auto& k : t.kids) if(!modest(*k)) return false;
    return true;
}

MODE(values) {
    Opt O; O.depth = R.below(4); O.width = 1 + R.below(5);
    TyP t(genTy(R, O));
    bool be = R.coin();
    Enc e(be);
    std::vector<uint8_t> b;
    if(R.chance(1, 12)) { b.resize(R.below(60)); for(auto& c : b) c = R.coin() ? R.next() : R.below(8); }
    else {
        Val v(genVal(R, *t, O));
        if(R.coin()) { Wrong c(R, be, 1L << 40); c.wval(*t, v); long n = (1L << 40) - c.at; Wrong w(R, be, n ? R.below(n) : -1); w.wval(*t, v); b = R.chance(1, 8) ? mutateBytes(R, w.b) : w.b; }
        else { e.val(*t, v); b = mutateBytes(R, e.b); } }
    Val ref; bool ok = true, unsure = false; size_t used = 0; std::string why;
    try { Dec d(b, be); ref = d.val(*t); used = d.p; } catch(Bad& x) { ok = false; why = x.why; } catch(Unsure&) { unsure = true; }
    pvd::PVFieldPtr f;
    bool dirty = R.coin();
    Val before;
    if(dirty) { before = genVal(R, *t, O); f = make(*t, before, &R); } else f = make(*t);
    std::unique_ptr<In> in(newIn(R, b, be));
    bool threw = false; std::string what;
    try { f->deserialize(&in->buf, in.get()); } catch(std::exception& x) { threw = true; what = x.what(); }
    if(unsure) count("reserved_codes");
    else if(ok) {
        VCHECK(!threw, "hostile-rejected-valid", descTy(*t) << " bytes " << hex(b) << " : " << what);
        Val got(read(*f, *t));
        VCHECK(eqVal(*t, ref, got), "hostile-decoded", descTy(*t) << " bytes " << hex(b) << " want " << descVal(*t, ref) << " got " << descVal(*t, got));
        VCHECK(in->left() == b.size() - used, "hostile-consumed", descTy(*t) << " bytes " << hex(b) << " left " << in->left() << " want " << b.size() - used);
        count("accepted");
    } else {
        VCHECK(threw, "hostile-accepted", descTy(*t) << " bytes " << hex(b) << " reference says " << why);
        count("rejected");
    }
    distinct(hstr(descTy(*t)) ^ hstr(std::string(b.begin(), b.end())));
    if(!ok && b.size() < 60 && t->kids.size()) sample(descTy(*t) + " <- " + hex(b) + " rejected: " + what.substr(0, 60));
    exerciseObj(R, f, *t, ok ? "accepted" : "rejected");
}

MODE(types) {
    Opt O; O.depth = R.below(4); O.width = 1 + R.below(4);
    bool be = R.coin();
    std::vector<uint8_t> b;
    if(R.chance(1, 6)) { b.resize(1 + R.below(40)); for(auto& c : b) c = R.coin() ? R.next() : 0x80 + R.below(12); }
    else {
        TyP t(genTy(R, O));
        if(R.coin()) { Wrong c(R, be, 1L << 40); c.wty(*t); long n = (1L << 40) - c.at; Wrong w(R, be, n ? R.below(n) : -1); w.wty(*t); b = R.chance(1, 8) ? mutateBytes(R, w.b) : w.b; }
        else { Enc e(be); e.ty(*t); b = mutateBytes(R, e.b); } }
    TyP ref; bool ok = true, unsure = false; size_t used = 0; std::string why;
    try { Dec d(b, be); ref = d.ty(); used = d.p; } catch(Bad& x) { ok = false; why = x.why; } catch(Unsure&) { unsure = true; }
    std::unique_ptr<In> in(newIn(R, b, be));
    pvd::FieldConstPtr r; bool threw = false; std::string what;
    try { r = pvd::getFieldCreate()->deserialize(&in->buf, in.get()); } catch(std::exception& x) { threw = true; what = x.what(); }
    if(unsure) {
        count("reserved_codes");
        if(r) { ref = tyOf(*r); if(modest(*ref)) exerciseObj(R, pvd::getPVDataCreate()->createPVField(r), *ref, "reserved"); }
    } else if(ok) {
        VCHECK(!threw, "hostile-type-rejected", hex(b) << " : " << what);
        VCHECK(!!r == !!ref, "hostile-type-null", hex(b));
        VCHECK(in->left() == b.size() - used, "hostile-type-consumed", hex(b));
        count("types_accepted");
        if(r) {
            TyP g(tyOf(*r));
            VCHECK(eqTy(*ref, *g), "hostile-type-decoded", hex(b) << " want " << descTy(*ref) << " got " << descTy(*g));
            std::ostringstream o; o << *r;
            if(modest(*ref)) exerciseObj(R, pvd::getPVDataCreate()->createPVField(r), *ref, "type");
        }
    } else {
        VCHECK(threw, "hostile-type-accepted", hex(b) << " reference says " << why << " got " << (r ? descTy(*tyOf(*r)) : std::string("null")));
        count("types_rejected");
    }
    distinct(hstr(std::string(b.begin(), b.end())) ^ be);
    if(!ok && b.size() < 60) sample(hex(b) + " rejected: " + what.substr(0, 80));
    // the factory still works
    TyP t(genTy(R, O)); pvd::FieldConstPtr f(build(*t)); TyP u(tyOf(*f));
    VCHECK(eqTy(*t, *u), "hostile-factory", descTy(*t));
}

MODE(prims) {
    bool be = R.coin(); Opt O;
    Enc e(be);
    int kind = R.below(4);
    if(kind == 0) { if(R.coin()) e.u8(R.below(6)); else e.u8(R.next()); e.str(genStr(R, O)); e.str(genStr(R, O)); }
    else if(kind == 1) { size_t n = R.below(40); e.size(n); for(size_t i = 0; i < n; i++) e.u8(R.coin() ? 0 : R.next()); }
    else if(kind == 2) e.str(genStr(R, O));
    else e.size(R.next() & 0x7fffffff);
    std::vector<uint8_t> b(mutateBytes(R, e.b));
    std::unique_ptr<In> in(newIn(R, b, be));
    Dec d(b, be);
    bool ok = true, threw = false; std::string what;
    distinct(hstr(std::string(b.begin(), b.end())) ^ kind);
    switch(kind) {
    case 0: {
        unsigned ty = 0; std::string m, s;
        try { ty = d.num(1); if(ty != 0xff) { if(ty > 3) d.bad("type"); m = d.str(); s = d.str(); } } catch(Bad&) { ok = false; }
        pvd::Status st(pvd::Status::STATUSTYPE_WARNING, "w", "d");
        try { st.deserialize(&in->buf, in.get()); } catch(std::exception& x) { threw = true; what = x.what(); }
        VCHECK(ok == !threw, "status-verdict", hex(b) << " ref " << ok << " got " << what);
        std::ostringstream o; o << st; st.dump(o); // must not crash
        VCHECK(st.getType() >= 0 && st.getType() <= 3, "status-type", hex(b));
        if(ok) VCHECK((unsigned)st.getType() == (ty == 0xff ? 0 : ty) && st.getMessage() == m && st.getStackDump() == s, "status-decoded", hex(b));
        count(ok ? "status_accepted" : "status_rejected");
        break; }
    case 1: {
        std::vector<uint8_t> by; size_t n = 0;
        try { n = d.count(1); if(n == (size_t)-1) d.bad("null"); std::vector<uint64_t> w; size_t i = 0; for(; i + 8 <= n; i += 8) { uint64_t x = d.num(8); for(int k = 0; k < 8; k++) by.push_back(x >> (8 * k)); } for(; i < n; i++) by.push_back(d.num(1)); }
        catch(Bad&) { ok = false; }
        pvd::BitSet s; s.set(5); s.set(300);
        try { s.deserialize(&in->buf, in.get()); } catch(std::exception& x) { threw = true; what = x.what(); }
        VCHECK(ok == !threw, "bitset-verdict", hex(b) << " ref " << ok << " got " << what);
        std::ostringstream o; o << s;
        if(ok) { size_t card = 0; for(size_t i = 0; i < by.size() * 8; i++) { bool x = by[i / 8] >> (i % 8) & 1; card += x; VCHECK(s.get(i) == x, "bitset-decoded", hex(b) << " bit " << i); }
            VCHECK(s.cardinality() == card, "bitset-cardinality", hex(b)); pvd::BitSet t; for(int i = s.nextSetBit(0); i >= 0; i = s.nextSetBit(i + 1)) t.set(i); VCHECK(t == s, "bitset-normal", hex(b)); }
        s.set(70); s.clear(); VCHECK(s.isEmpty() && s == pvd::BitSet(), "bitset-usable", hex(b));
        count(ok ? "bitset_accepted" : "bitset_rejected");
        break; }
    case 2: {
        std::string s, r;
        try { s = d.str(); } catch(Bad&) { ok = false; }
        try { r = pvd::SerializeHelper::deserializeString(&in->buf, in.get()); } catch(std::exception& x) { threw = true; }
        VCHECK(ok == !threw && (!ok || s == r), "string-verdict", hex(b));
        count(ok ? "string_accepted" : "string_rejected");
        break; }
    default: {
        size_t s = 0, r = 0;
        try { s = d.size(); } catch(Bad&) { ok = false; }
        try { r = pvd::SerializeHelper::readSize(&in->buf, in.get()); } catch(std::exception& x) { threw = true; }
        VCHECK(ok == !threw && (!ok || s == r), "size-verdict", hex(b));
        count(ok ? "size_accepted" : "size_rejected");
    } }
}

static size_t countFields(const Ty& t) { size_t n = 1; if(t.k == KStruct) for(auto& k : t.kids) n += countFields(*k); return n; }
static void decUpdate(Dec& d, const Ty& t, Val& v, const std::vector<bool>& sel, size_t& at) {
    bool on = at < sel.size() && sel[at];
    if(on) { at += countFields(t); v = d.val(t); return; }
    at++;
    if(t.k == KStruct) for(size_t i = 0; i < t.kids.size(); i++) decUpdate(d, *t.kids[i], v.a[i], sel, at);
}
// update message (bit set + fields) over arbitrary bytes
MODE(updates) {
    Opt O; O.depth = 1 + R.below(3); O.width = 1 + R.below(5);
    TyP t(genStruct(R, O));
    Val v(genVal(R, *t, O)), before(genVal(R, *t, O));
    pvd::PVStructurePtr s(makeStruct(*t, before, &R)), src(makeStruct(*t, v, &R));
    size_t nf = s->getNumberFields();
    pvd::BitSet bits; for(size_t i = 0; i < nf; i++) if(R.chance(1, 3)) bits.set(i);
    bool be = R.coin();
    std::unique_ptr<Out> o(newOut(R, be));
    bits.serialize(&o->buf, o.get());
    src->serialize(&o->buf, o.get(), &bits);
    std::vector<uint8_t> b(mutateBytes(R, o->finish()));
    std::unique_ptr<In> in(newIn(R, b, be));
    Val ref(before); bool ok = true, unsure = false; size_t used = 0; std::string why;
    try {
        Dec d(b, be); size_t nb = d.size(); if(nb == (size_t)-1) d.bad("no bits");
        if(nb > b.size() - d.p) d.bad("short");
        std::vector<bool> sel;
        for(size_t w = 0; w + 8 <= nb; w += 8) { uint64_t x = d.num(8); for(int k = 0; k < 64; k++) sel.push_back(x >> k & 1); }
        for(size_t w = nb & ~(size_t)7; w < nb; w++) { uint64_t x = d.num(1); for(int k = 0; k < 8; k++) sel.push_back(x >> k & 1); }
        size_t at = 0; decUpdate(d, *t, ref, sel, at); used = d.p;
    } catch(Bad& x) { ok = false; why = x.why; } catch(Unsure&) { unsure = true; }
    bool threw = false; std::string what;
    try {
        pvd::BitSet rx; rx.deserialize(&in->buf, in.get());
        s->deserialize(&in->buf, in.get(), &rx);
    } catch(std::exception& x) { threw = true; what = x.what(); }
    if(unsure) count("reserved_codes");
    else if(ok) {
        count("updates_accepted");
        VCHECK(!threw, "hostile-update-rejected-valid", descTy(*t) << " bytes " << hex(b) << " : " << what);
        Val got(read(*s, *t));
        VCHECK(eqVal(*t, ref, got), "hostile-update-decoded", descTy(*t) << " bytes " << hex(b) << " want " << descVal(*t, ref) << " got " << descVal(*t, got));
        VCHECK(in->left() == b.size() - used, "hostile-update-consumed", descTy(*t) << " bytes " << hex(b) << " left " << in->left() << " want " << b.size() - used);
    } else {
        count("updates_rejected");
        VCHECK(threw, "hostile-update-accepted", descTy(*t) << " bytes " << hex(b) << " reference says " << why);
    }
    distinct(hstr(descTy(*t)) ^ hstr(std::string(b.begin(), b.end())));
    exerciseObj(R, s, *t, "update");
}

// the transport fails part way
MODE(faults) {
    Opt O; O.depth = R.below(4); O.width = 1 + R.below(5);
    TyP t(genTy(R, O));
    Val v(genVal(R, *t, O));
    bool be = R.coin();
    pvd::PVFieldPtr f(make(*t, v, &R));
    if(R.chance(1, 3)) {
        std::unique_ptr<Out> o(newOut(R, be));
        o->failAt = R.below(6);
        try { f->serialize(&o->buf, o.get()); count("send_ok"); } catch(std::exception&) { count("send_failed"); }
        Val r(read(*f, *t));
        VCHECK(eqVal(*t, v, r), "fault-source", descTy(*t));
    } else {
        Val w(genVal(R, *t, O)); Enc e(be); e.val(*t, w);
        std::unique_ptr<In> in(newIn(R, e.b, be));
        in->failAt = R.below(1 + R.below(20));
        try { f->deserialize(&in->buf, in.get()); count("receive_ok"); } catch(std::exception&) { count("receive_failed"); }
    }
    distinct(hashCase(*t, v));
    exerciseObj(R, f, *t, "fault");
}
// type nesting: 5 bytes per level
MODE(nested) {
    size_t depth = R.chance(1, 2) ? 1 + R.below(100) : 100 + R.below(60);
    TyP t(mkScalar(pvd::pvInt));
    for(size_t i = 0; i < depth; i++) {
        std::shared_ptr<Ty> s(new Ty); unsigned c = R.below(6);
        if(c == 0 && t->k == KStruct) { s->k = KStructArr; s->kids.push_back(t); }
        else if(c == 1 && t->k == KUnion) { s->k = KUnionArr; s->kids.push_back(t); }
        else { s->k = c == 2 ? KUnion : KStruct; s->id = c == 2 ? "union" : "structure"; s->names.push_back("a"); s->kids.push_back(t); }
        t = s;
    }
    Enc e(true); e.ty(*t);
    std::unique_ptr<In> in(newIn(R, e.b, true));
    pvd::FieldConstPtr f(pvd::getFieldCreate()->deserialize(&in->buf, in.get()));
    TyP g(tyOf(*f));
    VCHECK(eqTy(*t, *g), "nested-type", "depth " << depth);
    pvd::PVFieldPtr p(pvd::getPVDataCreate()->createPVField(f));
    std::ostringstream o; o << *p;
    distinct(depth); count("deep_types");
}
// far deeper than the stack (known finding)
MODE(bomb) {
    std::vector<uint8_t> b;
    static const uint8_t lvl[5] = { 0x80, 0, 1, 1, 'a' };
    for(size_t i = 0; i < 200000; i++) b.insert(b.end(), lvl, lvl + 5);
    std::unique_ptr<In> in(new In(b, 8192, true, 1, false, 0));
    count("bombs"); distinct(1);
    try { pvd::getFieldCreate()->deserialize(&in->buf, in.get()); } catch(std::exception&) {}
}
VH_MAIN
