// Independent model of types and values (Ty/Val), generators, a reference wire
// encoder/decoder, and the glue that builds / assigns / reads the real objects.
#ifndef GEN_H
#define GEN_H
#include "vh.h"
#include <math.h>
#include <limits>
#include <epicsEndian.h>
#include <pv/pvIntrospect.h>
#include <pv/pvData.h>
#include <pv/bitSet.h>
#include <pv/serialize.h>
#include <pv/serializeHelper.h>
#include <pv/byteBuffer.h>
#include <pv/sharedVector.h>
#include <pv/status.h>

namespace pvd = epics::pvData;

namespace g {
using vh::Rng;

enum K { KScalar, KBStr, KSArr, KStruct, KStructArr, KUnion, KVariant, KUnionArr, KVarArr };
struct Ty;
typedef std::shared_ptr<const Ty> TyP;
struct Ty {
    K k;
    pvd::ScalarType st;   // KScalar, KSArr
    int pol;              // KSArr: 0 variable 1 bounded 2 fixed
    size_t bound;         // KBStr, bounded/fixed
    std::string id;       // KStruct, KUnion: effective id
    std::vector<std::string> names;
    std::vector<TyP> kids; // KStruct, KUnion; KStructArr/KUnionArr: kids[0] is the element
    Ty() : k(KScalar), st(pvd::pvInt), pol(0), bound(0) {}
};

struct Val {
    uint64_t n;              // numeric bits
    std::string s;           // string
    std::vector<uint64_t> na;
    std::vector<std::string> sa;
    std::vector<Val> a;      // struct members; array elements; union value (a[0])
    bool null;               // array element is null
    int sel;                 // union selection, -1 none
    TyP vt;                  // variant's type (null: none)
    Val() : n(0), null(false), sel(-1) {}
};

inline unsigned width(pvd::ScalarType t) {
    switch(t) {
    case pvd::pvBoolean: case pvd::pvByte: case pvd::pvUByte: return 1;
    case pvd::pvShort: case pvd::pvUShort: return 2;
    case pvd::pvInt: case pvd::pvUInt: case pvd::pvFloat: return 4;
    case pvd::pvLong: case pvd::pvULong: case pvd::pvDouble: return 8;
    default: return 0;
    }
}
inline uint64_t maskw(unsigned w) { return w >= 8 ? ~0ull : ((1ull << (8 * w)) - 1); }

// ---------- equality of the models
inline bool eqTy(const Ty& a, const Ty& b) {
    if(a.k != b.k) return false;
    switch(a.k) {
    case KScalar: return a.st == b.st;
    case KBStr: return a.bound == b.bound;
    case KSArr: return a.st == b.st && a.pol == b.pol && (a.pol == 0 || a.bound == b.bound);
    case KVariant: case KVarArr: return true;
    case KStruct: case KUnion:
        if(a.id != b.id || a.names != b.names || a.kids.size() != b.kids.size()) return false;
        for(size_t i = 0; i < a.kids.size(); i++) if(!eqTy(*a.kids[i], *b.kids[i])) return false;
        return true;
    case KStructArr: case KUnionArr: return eqTy(*a.kids[0], *b.kids[0]);
    }
    return false;
}
inline bool eqVal(const Ty& t, const Val& a, const Val& b) {
    switch(t.k) {
    case KScalar: return t.st == pvd::pvString ? a.s == b.s : a.n == b.n;
    case KBStr: return a.s == b.s;
    case KSArr: return t.st == pvd::pvString ? a.sa == b.sa : a.na == b.na;
    case KStruct:
        if(a.a.size() != b.a.size()) return false;
        for(size_t i = 0; i < a.a.size(); i++) if(!eqVal(*t.kids[i], a.a[i], b.a[i])) return false;
        return true;
    case KUnion:
        if(a.sel != b.sel) return false;
        return a.sel < 0 || eqVal(*t.kids[a.sel], a.a[0], b.a[0]);
    case KVariant:
        if(!a.vt || !b.vt) return !a.vt && !b.vt;
        return eqTy(*a.vt, *b.vt) && eqVal(*a.vt, a.a[0], b.a[0]);
    case KStructArr: case KUnionArr: case KVarArr: {
        if(a.a.size() != b.a.size()) return false;
        static const Ty var = []{ Ty v; v.k = KVariant; return v; }();
        for(size_t i = 0; i < a.a.size(); i++) {
            if(a.a[i].null != b.a[i].null) return false;
            if(a.a[i].null) continue;
            if(!eqVal(t.k == KVarArr ? var : *t.kids[0], a.a[i], b.a[i])) return false;
        }
        return true;
    }
    }
    return false;
}
// value equality with IEEE rules for floats: NaN present anywhere?
inline bool numIsNaN(pvd::ScalarType st, uint64_t n) {
    if(st == pvd::pvFloat) { return (n & 0x7f800000u) == 0x7f800000u && (n & 0x7fffffu); }
    if(st == pvd::pvDouble) { return (n & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (n & 0xfffffffffffffull); }
    return false;
}
inline const Ty& variantTy() { static const Ty var = []{ Ty v; v.k = KVariant; return v; }(); return var; }
inline const Ty& elemTy(const Ty& t) { return t.k == KVarArr ? variantTy() : *t.kids[0]; }

// ---------- description (for messages and hashing)
inline void descTy(std::ostream& o, const Ty& t) {
    switch(t.k) {
    case KScalar: o << pvd::ScalarTypeFunc::name(t.st); break;
    case KBStr: o << "string(" << t.bound << ")"; break;
    case KSArr: o << pvd::ScalarTypeFunc::name(t.st);
        if(t.pol == 0) o << "[]"; else if(t.pol == 1) o << "<" << t.bound << ">"; else o << "[" << t.bound << "]"; break;
    case KVariant: o << "any"; break;
    case KVarArr: o << "any[]"; break;
    case KStructArr: case KUnionArr: o << "array of "; descTy(o, *t.kids[0]); break;
    case KStruct: case KUnion:
        o << (t.k == KStruct ? "struct " : "union ") << vh::q(t.id) << "{";
        for(size_t i = 0; i < t.kids.size(); i++) { o << (i ? "," : "") << t.names[i] << ":"; descTy(o, *t.kids[i]); }
        o << "}"; break;
    }
}
inline std::string descTy(const Ty& t) { std::ostringstream o; descTy(o, t); return o.str(); }
inline void descVal(std::ostream& o, const Ty& t, const Val& v) {
    switch(t.k) {
    case KScalar: if(t.st == pvd::pvString) o << vh::q(v.s); else o << std::hex << "0x" << v.n << std::dec; break;
    case KBStr: o << vh::q(v.s); break;
    case KSArr: o << "["; if(t.st == pvd::pvString) { for(auto& x : v.sa) o << vh::q(x) << ","; }
        else { size_t c = 0; for(auto x : v.na) { if(c++ > 20) { o << "..x" << v.na.size(); break; } o << std::hex << x << std::dec << ","; } } o << "]"; break;
    case KStruct: o << "{"; for(size_t i = 0; i < v.a.size(); i++) { o << t.names[i] << "="; descVal(o, *t.kids[i], v.a[i]); o << ";"; } o << "}"; break;
    case KUnion: if(v.sel < 0) o << "(none)"; else { o << t.names[v.sel] << ":"; descVal(o, *t.kids[v.sel], v.a[0]); } break;
    case KVariant: if(!v.vt) o << "(none)"; else { o << "<"; descTy(o, *v.vt); o << ">"; descVal(o, *v.vt, v.a[0]); } break;
    default: o << "["; for(auto& e : v.a) { if(e.null) o << "null"; else descVal(o, elemTy(t), e); o << ","; } o << "]";
    }
}
inline std::string descVal(const Ty& t, const Val& v) { std::ostringstream o; descVal(o, t, v); return o.str(); }

// ---------- generators
struct Opt {
    int depth;          // remaining nesting
    int width;          // max members
    bool unions, arrays, bounded, fixedArr, nullElems, ids, emptyStruct, nan, longStrings;
    bool jsonable;      // only values JSON can carry
    bool rawIds;        // ids with arbitrary bytes
    bool bigArrays;
    bool wide; // now and then a structure or union with very many members, or an array with very many elements
    bool hugeBounds;    // types only: values of fixed size would be huge
    Opt() : depth(3), width(5), unions(true), arrays(true), bounded(true), fixedArr(true), nullElems(true),
        ids(true), emptyStruct(true), nan(true), longStrings(true), jsonable(false), rawIds(true), bigArrays(true), wide(true), hugeBounds(false) {}
};

inline std::string genName(Rng& R) {
    static const char *pool[] = { "a", "b", "c", "ab", "abc", "a1", "value", "val", "v", "x", "y", "_z", "alarm",
        "severity", "status", "timeStamp", "Field", "field", "index", "choices", "a_b", "A", "display", "valueA", "record", "_options" };
    if(R.chance(5, 6)) return pool[R.below(sizeof(pool) / sizeof(*pool))];
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    std::string s; size_t n = 1 + R.below(R.chance(1, 20) ? 300 : 12);
    for(size_t i = 0; i < n; i++) s += cs[R.below(i ? 63 : 53)];
    return s;
}
inline std::vector<std::string> genNames(Rng& R, size_t n) {
    std::vector<std::string> v; std::set<std::string> seen;
    unsigned k = 0;
    while(v.size() < n) {
        std::string s = genName(R);
        if(!seen.insert(s).second) { char b[32]; snprintf(b, sizeof b, "n%u", k++); s = b; if(!seen.insert(s).second) continue; }
        v.push_back(s);
    }
    return v;
}
inline std::string genStr(Rng& R, const Opt& O, size_t maxlen = (size_t)-1) {
    size_t n;
    switch(R.below(8)) {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = O.longStrings ? 240 + R.below(30) : R.below(30); break; // around the 254 size escape
    case 3: n = O.longStrings && R.chance(1, 8) ? 1000 + R.below(3000) : R.below(60); break;
    default: n = R.below(16);
    }
    if(O.longStrings && R.chance(1, 80)) { // around the sizes of buffers
        static const size_t big[] = { 4096, 8192, 16384, 32768, 65536 };
        n = big[R.below(R.chance(1, 3) ? 5 : 2)] - 2 + R.below(5);
    }
    if(n > maxlen) n = maxlen;
    std::string s(n, 'x');
    int style = R.below(4);
    for(size_t i = 0; i < n; i++) {
        if(style == 0 && !O.jsonable) s[i] = (char)R.below(256);
        else if(style == 1) s[i] = "\"\\/\b\n\r\t {}[]:,\x01\x1f\x7f'"[R.below(19)];
        else s[i] = (char)(32 + R.below(95));
    }
    if(O.jsonable && style == 0 && n >= 8) { // some valid UTF-8
        static const char *u[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x80" };
        std::string r; while(r.size() + 4 <= n) r += u[R.below(4)];
        s = r;
    }
    return s;
}
inline std::string genId(Rng& R, const Opt& O, const char *dflt) {
    if(!O.ids || R.chance(1, 3)) return dflt;
    static const char *pool[] = { "structure", "union", "any", "id:1.0", "epics:nt/NTScalar:1.0", "alarm_t", "x", "double", "time_t" };
    std::string s;
    if(R.chance(2, 3)) s = pool[R.below(sizeof(pool) / sizeof(*pool))];
    else { Opt o; o.longStrings = true; s = genStr(R, o); if(!O.rawIds) for(auto& c : s) c = 'a' + ((unsigned char)c % 26); }
    if(s.empty()) s = dflt;
    return s;
}
inline TyP mkScalar(pvd::ScalarType st) { std::shared_ptr<Ty> t(new Ty); t->k = KScalar; t->st = st; return t; }
TyP genTy(Rng& R, const Opt& O);
inline TyP genStruct(Rng& R, const Opt& O, K k = KStruct) {
    std::shared_ptr<Ty> t(new Ty); t->k = k;
    size_t n = R.below(O.width + 1);
    if(n == 0 && (k == KUnion || !O.emptyStruct)) n = 1;
    Opt o(O); o.depth--;
    if(O.wide && R.chance(1, 250)) {
        static const size_t W[] = { 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 300 };
        n = W[R.below(16)]; o.depth = 0; o.bigArrays = o.longStrings = o.wide = false;
    }
    t->id = genId(R, O, k == KStruct ? "structure" : "union");
    t->names = genNames(R, n);
    for(size_t i = 0; i < n; i++) t->kids.push_back(genTy(R, o));
    return t;
}
inline TyP genTy(Rng& R, const Opt& O) {
    std::shared_ptr<Ty> t(new Ty);
    unsigned c = R.below(O.depth > 0 ? 16 : 7);
    if(c < 4) { t->k = KScalar; t->st = (pvd::ScalarType)R.below(12); return t; }
    if(c == 4 && O.bounded) { t->k = KBStr; t->bound = 1 + R.below(R.chance(1, 4) ? 400 : 10); if(O.hugeBounds && R.chance(1, 3)) t->bound = 1 + (R.next() >> (33 + R.below(31))) % 0x7fffffff; return t; }
    if(c <= 6) {
        if(!O.arrays) { t->k = KScalar; t->st = (pvd::ScalarType)R.below(12); return t; }
        t->k = KSArr; t->st = (pvd::ScalarType)R.below(12);
        t->pol = R.below(5); if(t->pol > 2) t->pol = 0;
        if((t->pol == 1 && !O.bounded) || (t->pol == 2 && !O.fixedArr)) t->pol = 0;
        if(t->pol) t->bound = R.below(R.chance(1, 8) ? 300 : 8);
        if(t->pol && O.hugeBounds && R.chance(1, 3)) t->bound = R.next() >> (33 + R.below(31));
        return t;
    }
    if(c <= 10) return genStruct(R, O);
    if(c == 11 && O.arrays) { t->k = KStructArr; Opt o(O); o.depth--; t->kids.push_back(genStruct(R, o)); return t; }
    if(c == 12 && O.unions) return genStruct(R, O, KUnion);
    if(c == 13 && O.unions) { t->k = KVariant; return t; }
    if(c == 14 && O.unions && O.arrays) {
        if(R.chance(1, 3)) { t->k = KVarArr; return t; }
        t->k = KUnionArr; Opt o(O); o.depth--; t->kids.push_back(genStruct(R, o, KUnion)); return t; }
    return genStruct(R, O);
}

inline uint64_t genNum(Rng& R, pvd::ScalarType st, const Opt& O) {
    unsigned w = width(st);
    if(st == pvd::pvBoolean) return R.below(2);
    uint64_t v;
    if(st == pvd::pvFloat || st == pvd::pvDouble) {
        double d;
        switch(R.below(8)) {
        case 0: d = 0; break;
        case 1: d = -0.0; break;
        case 2: d = (double)R.range(-1000, 1000); break;
        case 3: d = (double)R.range(-1000000, 1000000) / 64.0; break;
        case 4: d = O.jsonable ? 1.5 : std::numeric_limits<double>::infinity() * (R.coin() ? 1 : -1); break;
        case 5: d = O.nan && !O.jsonable ? std::numeric_limits<double>::quiet_NaN() : 2.25; break;
        default: {
            uint64_t b = R.next();
            if(st == pvd::pvFloat) { b &= 0xffffffff; if(numIsNaN(st, b) || (O.jsonable && (b & 0x7f800000) == 0x7f800000)) b = 0x3f800000; }
            else if(numIsNaN(st, b) || (O.jsonable && (b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull)) b = 0x3ff0000000000000ull;
            return b; }
        }
        if(st == pvd::pvFloat) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return b; }
        memcpy(&v, &d, 8); return v;
    }
    switch(R.below(6)) {
    case 0: v = 0; break;
    case 1: v = ~0ull; break;
    case 2: v = 1ull << R.below(8 * w); break;
    case 3: v = (1ull << R.below(8 * w)) - 1; break;
    case 4: v = R.below(256); break;
    default: v = R.next();
    }
    return v & maskw(w);
}
inline size_t genLen(Rng& R, const Opt& O) {
    if(O.bigArrays) {
        if(R.chance(1, 30)) return 250 + R.below(10);
        if(R.chance(1, 60)) return R.below(3000);
        if(O.wide && R.chance(1, 250)) { static const size_t N[] = { 127, 128, 129, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537 }; return N[R.below(15)]; }
    }
    switch(R.below(4)) { case 0: return 0; case 1: return 1; default: return R.below(9); }
}
inline Val genVal(Rng& R, const Ty& t, const Opt& O) {
    Val v;
    switch(t.k) {
    case KScalar: if(t.st == pvd::pvString) v.s = genStr(R, O); else v.n = genNum(R, t.st, O); break;
    case KBStr: v.s = genStr(R, O, t.bound); if(R.chance(1, 4)) v.s = std::string(t.bound < 5000 ? t.bound : 5000, 'f'); break;
    case KSArr: {
        size_t n = t.pol == 2 ? t.bound : genLen(R, O);
        if(t.pol == 1 && n > t.bound) n = t.bound;
        if(t.pol != 2 && n > 3000 && t.st == pvd::pvString) n = 256;
        for(size_t i = 0; i < n; i++) if(t.st == pvd::pvString) v.sa.push_back(genStr(R, O)); else v.na.push_back(genNum(R, t.st, O));
        break; }
    case KStruct: for(size_t i = 0; i < t.kids.size(); i++) v.a.push_back(genVal(R, *t.kids[i], O)); break;
    case KUnion: if(R.chance(4, 5)) { v.sel = R.chance(1, 4) ? t.kids.size() - 1 : R.below(t.kids.size()); v.a.push_back(genVal(R, *t.kids[v.sel], O)); } break;
    case KVariant: if(R.chance(4, 5)) { Opt o(O); o.depth = O.depth > 1 ? 1 : O.depth - 1; if(o.depth < 0) o.depth = 0; o.width = 3;
            if(O.depth <= -2) break;
            Opt o2(O); o2.depth = O.depth - 2; v.vt = genTy(R, o); v.a.push_back(genVal(R, *v.vt, o2)); } break;
    case KStructArr: case KUnionArr: case KVarArr: {
        size_t n = R.below(5); Opt o(O); o.bigArrays = false; o.depth = O.depth - 1;
        if(O.depth > 0 && R.chance(1, 25)) n = 5 + R.below(30);
        if(O.bigArrays && R.chance(1, 200) && t.k == KStructArr && t.kids[0]->kids.size() < 3) n = 254 + R.below(4);
        for(size_t i = 0; i < n; i++) {
            if(O.nullElems && R.chance(1, 4)) { Val e; e.null = true; v.a.push_back(e); }
            else v.a.push_back(genVal(R, elemTy(t), o));
        }
        break; }
    }
    return v;
}
// the value of a freshly created object
inline Val zeroVal(const Ty& t) {
    Val v;
    if(t.k == KStruct) for(auto& k : t.kids) v.a.push_back(zeroVal(*k));
    if(t.k == KSArr && t.pol == 2) { if(t.st == pvd::pvString) v.sa.resize(t.bound); else v.na.resize(t.bound); }
    return v;
}

// ---------- reference wire encoding (pvAccess specification, data encoding)
struct Enc {
    std::vector<uint8_t> b; bool be;
    explicit Enc(bool be) : be(be) {}
    void u8(unsigned x) { b.push_back((uint8_t)x); }
    void num(uint64_t x, unsigned w) { for(unsigned i = 0; i < w; i++) b.push_back((uint8_t)(x >> (8 * (be ? w - 1 - i : i)))); }
    void size(size_t n) { if(n == (size_t)-1) u8(0xff); else if(n < 254) u8(n); else { u8(0xfe); num(n, 4); } }
    void str(const std::string& s) { size(s.size()); b.insert(b.end(), s.begin(), s.end()); }
    static unsigned code(pvd::ScalarType t) {
        switch(t) {
        case pvd::pvBoolean: return 0x00; case pvd::pvByte: return 0x20; case pvd::pvShort: return 0x21;
        case pvd::pvInt: return 0x22; case pvd::pvLong: return 0x23; case pvd::pvUByte: return 0x24;
        case pvd::pvUShort: return 0x25; case pvd::pvUInt: return 0x26; case pvd::pvULong: return 0x27;
        case pvd::pvFloat: return 0x42; case pvd::pvDouble: return 0x43; default: return 0x60;
        }
    }
    void ty(const Ty& t) {
        switch(t.k) {
        case KScalar: u8(code(t.st)); break;
        case KBStr: u8(0x83); size(t.bound); break;
        case KSArr: u8(code(t.st) | (t.pol == 0 ? 0x08 : t.pol == 1 ? 0x10 : 0x18)); if(t.pol) size(t.bound); break;
        case KStruct: case KUnion:
            u8(t.k == KStruct ? 0x80 : 0x81);
            str(t.id == (t.k == KStruct ? "structure" : "union") ? std::string() : t.id);
            size(t.kids.size());
            for(size_t i = 0; i < t.kids.size(); i++) { str(t.names[i]); ty(*t.kids[i]); }
            break;
        case KStructArr: u8(0x88); ty(*t.kids[0]); break;
        case KUnionArr: u8(0x89); ty(*t.kids[0]); break;
        case KVariant: u8(0x82); break;
        case KVarArr: u8(0x8a); break;
        }
    }
    void val(const Ty& t, const Val& v) {
        switch(t.k) {
        case KScalar: if(t.st == pvd::pvString) str(v.s); else num(v.n, width(t.st)); break;
        case KBStr: str(v.s); break;
        case KSArr: {
            size_t n = t.st == pvd::pvString ? v.sa.size() : v.na.size();
            if(t.pol != 2) size(n);
            for(size_t i = 0; i < n; i++) if(t.st == pvd::pvString) str(v.sa[i]); else num(v.na[i], width(t.st));
            break; }
        case KStruct: for(size_t i = 0; i < t.kids.size(); i++) val(*t.kids[i], v.a[i]); break;
        case KUnion: if(v.sel < 0) u8(0xff); else { size(v.sel); val(*t.kids[v.sel], v.a[0]); } break;
        case KVariant: if(!v.vt) u8(0xff); else { ty(*v.vt); val(*v.vt, v.a[0]); } break;
        default:
            size(v.a.size());
            for(auto& e : v.a) { u8(e.null ? 0 : 1); if(!e.null) val(elemTy(t), e); }
        }
    }
};

// ---------- real objects
inline pvd::FieldConstPtr build(const Ty& t);
inline void kidsOf(const Ty& t, pvd::StringArray& n, pvd::FieldConstPtrArray& f) {
    for(size_t i = 0; i < t.kids.size(); i++) { n.push_back(t.names[i]); f.push_back(build(*t.kids[i])); }
}
inline pvd::StructureConstPtr buildStruct(const Ty& t) {
    pvd::StringArray n; pvd::FieldConstPtrArray f; kidsOf(t, n, f);
    if(t.id == "structure") return pvd::getFieldCreate()->createStructure(n, f);
    return pvd::getFieldCreate()->createStructure(t.id, n, f);
}
inline pvd::UnionConstPtr buildUnion(const Ty& t) {
    pvd::StringArray n; pvd::FieldConstPtrArray f; kidsOf(t, n, f);
    if(t.id == "union") return pvd::getFieldCreate()->createUnion(n, f);
    return pvd::getFieldCreate()->createUnion(t.id, n, f);
}
inline pvd::FieldConstPtr build(const Ty& t) {
    pvd::FieldCreatePtr fc(pvd::getFieldCreate());
    switch(t.k) {
    case KScalar: return fc->createScalar(t.st);
    case KBStr: return fc->createBoundedString(t.bound);
    case KSArr: return t.pol == 0 ? fc->createScalarArray(t.st) : t.pol == 1 ? fc->createBoundedScalarArray(t.st, t.bound)
                : fc->createFixedScalarArray(t.st, t.bound);
    case KStruct: return buildStruct(t);
    case KUnion: return buildUnion(t);
    case KVariant: return fc->createVariantUnion();
    case KVarArr: return fc->createVariantUnionArray();
    case KStructArr: return fc->createStructureArray(buildStruct(*t.kids[0]));
    case KUnionArr: return fc->createUnionArray(buildUnion(*t.kids[0]));
    }
    return pvd::FieldConstPtr();
}
// read a real type back through its public interface
inline TyP tyOf(const pvd::Field& f) {
    std::shared_ptr<Ty> t(new Ty);
    switch(f.getType()) {
    case pvd::scalar: {
        const pvd::Scalar& s = dynamic_cast<const pvd::Scalar&>(f);
        if(const pvd::BoundedString *b = dynamic_cast<const pvd::BoundedString*>(&f)) { t->k = KBStr; t->bound = b->getMaximumLength(); t->st = pvd::pvString;
            if(s.getScalarType() != pvd::pvString) throw std::logic_error("bounded string not a string"); }
        else { t->k = KScalar; t->st = s.getScalarType(); }
        break; }
    case pvd::scalarArray: {
        const pvd::ScalarArray& s = dynamic_cast<const pvd::ScalarArray&>(f);
        t->k = KSArr; t->st = s.getElementType();
        switch(s.getArraySizeType()) {
        case pvd::Array::variable: t->pol = 0; break;
        case pvd::Array::bounded: t->pol = 1; break;
        case pvd::Array::fixed: t->pol = 2; break;
        }
        if(t->pol) t->bound = s.getMaximumCapacity(); else if(s.getMaximumCapacity()) throw std::logic_error("capacity of a variable size array");
        break; }
    case pvd::structure: {
        const pvd::Structure& s = dynamic_cast<const pvd::Structure&>(f);
        t->k = KStruct; t->id = s.getID();
        t->names = s.getFieldNames();
        if(s.getNumberFields() != t->names.size()) throw std::logic_error("getNumberFields()");
        for(size_t i = 0; i < s.getFields().size(); i++) t->kids.push_back(tyOf(*s.getFields()[i]));
        break; }
    case pvd::union_: {
        const pvd::Union& s = dynamic_cast<const pvd::Union&>(f);
        if(s.isVariant()) { t->k = KVariant; break; }
        t->k = KUnion; t->id = s.getID();
        t->names = s.getFieldNames();
        for(size_t i = 0; i < s.getFields().size(); i++) t->kids.push_back(tyOf(*s.getFields()[i]));
        break; }
    case pvd::structureArray:
        if(dynamic_cast<const pvd::Array&>(f).getArraySizeType() != pvd::Array::variable || dynamic_cast<const pvd::Array&>(f).getMaximumCapacity()) throw std::logic_error("size of a structure array type");
        t->k = KStructArr; t->kids.push_back(tyOf(*dynamic_cast<const pvd::StructureArray&>(f).getStructure())); break;
    case pvd::unionArray: {
        const pvd::UnionArray& s = dynamic_cast<const pvd::UnionArray&>(f);
        if(s.getArraySizeType() != pvd::Array::variable || s.getMaximumCapacity()) throw std::logic_error("size of a union array type");
        if(s.getUnion()->isVariant()) { t->k = KVarArr; break; }
        t->k = KUnionArr; t->kids.push_back(tyOf(*s.getUnion())); break; }
    default: throw std::logic_error("bad Field::getType()");
    }
    return t;
}

template<typename T> inline T fromBits(uint64_t n) { T v; memcpy(&v, &n, sizeof(T)); return v; } // little endian host
template<typename T> inline uint64_t toBits(T v) { uint64_t n = 0; memcpy(&n, &v, sizeof(T)); return n; }

#define G_EACH_NUM(X) X(pvBoolean, pvd::boolean) X(pvByte, pvd::int8) X(pvShort, pvd::int16) X(pvInt, pvd::int32) \
    X(pvLong, pvd::int64) X(pvUByte, pvd::uint8) X(pvUShort, pvd::uint16) X(pvUInt, pvd::uint32) X(pvULong, pvd::uint64) \
    X(pvFloat, float) X(pvDouble, double)

void assign(pvd::PVField& f, const Ty& t, const Val& v, Rng *R = 0);

template<typename T> inline void assignArr(pvd::PVField& f, const Val& v, Rng *R) {
    typedef pvd::PVValueArray<T> A;
    A& a = dynamic_cast<A&>(f);
    typename A::svector s(v.na.size());
    for(size_t i = 0; i < v.na.size(); i++) s[i] = fromBits<T>(v.na[i]);
    if(R && R->chance(1, 4)) { // keep capacity / slice variety
        typename A::svector x(v.na.size() + 3);
        for(size_t i = 0; i < v.na.size(); i++) x[i + 1] = s[i];
        typename A::const_svector c(pvd::freeze(x));
        c.slice(1, v.na.size());
        a.replace(c);
    } else
        a.replace(pvd::freeze(s));
}
inline void assignStrArr(pvd::PVField& f, const Val& v) {
    pvd::PVStringArray& a = dynamic_cast<pvd::PVStringArray&>(f);
    pvd::PVStringArray::svector s(v.sa.size());
    for(size_t i = 0; i < v.sa.size(); i++) s[i] = v.sa[i];
    a.replace(pvd::freeze(s));
}
inline void assign(pvd::PVField& f, const Ty& t, const Val& v, Rng *R) {
    pvd::PVDataCreatePtr dc(pvd::getPVDataCreate());
    switch(t.k) {
    case KScalar:
        switch(t.st) {
#define X(E, T) case pvd::E: { pvd::PVScalarValue<T>& s = dynamic_cast<pvd::PVScalarValue<T>&>(f); T x = fromBits<T>(v.n); \
            if(R && R->coin()) s.putFrom(&x, pvd::E); else if(R && R->coin()) s <<= x; else s.put(x); break; }
        G_EACH_NUM(X)
#undef X
        case pvd::pvString: dynamic_cast<pvd::PVString&>(f).put(v.s); break;
        }
        break;
    case KBStr: dynamic_cast<pvd::PVString&>(f).put(v.s); break;
    case KSArr:
        switch(t.st) {
#define X(E, T) case pvd::E: assignArr<T>(f, v, R); break;
        G_EACH_NUM(X)
#undef X
        case pvd::pvString: assignStrArr(f, v); break;
        }
        break;
    case KStruct: {
        pvd::PVStructure& s = dynamic_cast<pvd::PVStructure&>(f);
        const pvd::PVFieldPtrArray& c = s.getPVFields();
        if(c.size() != t.kids.size()) throw std::logic_error("PVStructure::getPVFields() size");
        for(size_t i = 0; i < c.size(); i++) assign(*c[i], *t.kids[i], v.a[i], R);
        break; }
    case KUnion: {
        pvd::PVUnion& u = dynamic_cast<pvd::PVUnion&>(f);
        if(v.sel < 0) { u.select(pvd::PVUnion::UNDEFINED_INDEX); break; }
        if(R && R->coin()) {
            pvd::PVFieldPtr x(dc->createPVField(u.getUnion()->getField(v.sel)));
            assign(*x, *t.kids[v.sel], v.a[0], R);
            if(R->coin()) u.set(v.sel, x); else u.set(t.names[v.sel], x);
        } else {
            pvd::PVFieldPtr x(R && R->coin() ? u.select(t.names[v.sel]) : u.select(v.sel));
            assign(*x, *t.kids[v.sel], v.a[0], R);
        }
        break; }
    case KVariant: {
        pvd::PVUnion& u = dynamic_cast<pvd::PVUnion&>(f);
        if(!v.vt) { u.set(pvd::PVFieldPtr()); break; }
        pvd::PVFieldPtr x(dc->createPVField(build(*v.vt)));
        assign(*x, *v.vt, v.a[0], R);
        u.set(x);
        break; }
    case KStructArr: {
        pvd::PVStructureArray& a = dynamic_cast<pvd::PVStructureArray&>(f);
        pvd::PVStructureArray::svector s(v.a.size());
        for(size_t i = 0; i < v.a.size(); i++) if(!v.a[i].null) {
            s[i] = dc->createPVStructure(a.getStructureArray()->getStructure());
            assign(*s[i], *t.kids[0], v.a[i], R);
        }
        a.replace(pvd::freeze(s));
        break; }
    case KUnionArr: case KVarArr: {
        pvd::PVUnionArray& a = dynamic_cast<pvd::PVUnionArray&>(f);
        pvd::PVUnionArray::svector s(v.a.size());
        for(size_t i = 0; i < v.a.size(); i++) if(!v.a[i].null) {
            s[i] = dc->createPVUnion(a.getUnionArray()->getUnion());
            assign(*s[i], elemTy(t), v.a[i], R);
        }
        a.replace(pvd::freeze(s));
        break; }
    }
}

// read a real value through its public interface; throws logic_error when the
// object contradicts its own type
inline Val read(const pvd::PVField& f, const Ty& t) {
    Val v;
    switch(t.k) {
    case KScalar:
        switch(t.st) {
#define X(E, T) case pvd::E: { const pvd::PVScalarValue<T>& s = dynamic_cast<const pvd::PVScalarValue<T>&>(f); T y = T(); s >>= y; v.n = toBits<T>(s.get()); \
            if(toBits<T>(y) != v.n) throw std::logic_error("PVScalarValue: operator>>= is not get()"); break; }
        G_EACH_NUM(X)
#undef X
        case pvd::pvString: { const pvd::PVString& s = dynamic_cast<const pvd::PVString&>(f); s >>= v.s; if(v.s != s.get()) throw std::logic_error("PVString: operator>>= is not get()"); break; }
        }
        break;
    case KBStr: v.s = dynamic_cast<const pvd::PVString&>(f).get(); break;
    case KSArr:
        switch(t.st) {
#define X(E, T) case pvd::E: { const pvd::PVValueArray<T>& a = dynamic_cast<const pvd::PVValueArray<T>&>(f); \
            pvd::shared_vector<const T> s(a.view()); if(s.size() != a.getLength()) throw std::logic_error("getLength()"); \
            for(size_t i = 0; i < s.size(); i++) v.na.push_back(toBits<T>(s[i])); break; }
        G_EACH_NUM(X)
#undef X
        case pvd::pvString: { pvd::shared_vector<const std::string> s(dynamic_cast<const pvd::PVStringArray&>(f).view());
            for(size_t i = 0; i < s.size(); i++) v.sa.push_back(s[i]); break; }
        }
        break;
    case KStruct: {
        const pvd::PVStructure& s = dynamic_cast<const pvd::PVStructure&>(f);
        const pvd::PVFieldPtrArray& c = s.getPVFields();
        if(c.size() != t.kids.size()) throw std::logic_error("PVStructure::getPVFields() size");
        for(size_t i = 0; i < c.size(); i++) v.a.push_back(read(*c[i], *t.kids[i]));
        break; }
    case KUnion: {
        const pvd::PVUnion& u = dynamic_cast<const pvd::PVUnion&>(f);
        v.sel = u.getSelectedIndex();
        pvd::PVField::const_shared_pointer x(u.get());
        if(v.sel == -1) { if(x) throw std::logic_error("union: value without selection"); break; }
        if(v.sel < 0 || (size_t)v.sel >= t.kids.size()) throw std::logic_error("union: selection out of range");
        if(!x) throw std::logic_error("union: selection without value");
        if(u.getSelectedFieldName() != t.names[v.sel]) throw std::logic_error("union: selected name");
        TyP xt(tyOf(*x->getField()));
        if(!eqTy(*xt, *t.kids[v.sel])) throw std::logic_error("union: value is not of the selected type");
        v.a.push_back(read(*x, *t.kids[v.sel]));
        break; }
    case KVariant: {
        const pvd::PVUnion& u = dynamic_cast<const pvd::PVUnion&>(f);
        if(u.getSelectedIndex() != -1) throw std::logic_error("variant: has a selected index");
        pvd::PVField::const_shared_pointer x(u.get());
        if(!x) break;
        v.vt = tyOf(*x->getField());
        v.a.push_back(read(*x, *v.vt));
        break; }
    case KStructArr: {
        const pvd::PVStructureArray& a = dynamic_cast<const pvd::PVStructureArray&>(f);
        pvd::PVStructureArray::const_svector s(a.view());
        for(size_t i = 0; i < s.size(); i++) {
            if(!s[i]) { Val e; e.null = true; v.a.push_back(e); continue; }
            if(!eqTy(*tyOf(*s[i]->getField()), *t.kids[0])) throw std::logic_error("structure array: element type");
            v.a.push_back(read(*s[i], *t.kids[0]));
        }
        break; }
    case KUnionArr: case KVarArr: {
        const pvd::PVUnionArray& a = dynamic_cast<const pvd::PVUnionArray&>(f);
        pvd::PVUnionArray::const_svector s(a.view());
        for(size_t i = 0; i < s.size(); i++) {
            if(!s[i]) { Val e; e.null = true; v.a.push_back(e); continue; }
            if(!eqTy(*tyOf(*s[i]->getField()), elemTy(t))) throw std::logic_error("union array: element type");
            v.a.push_back(read(*s[i], elemTy(t)));
        }
        break; }
    }
    return v;
}

inline pvd::PVFieldPtr make(const Ty& t, Rng *R = 0) {
    pvd::FieldConstPtr f(build(t));
    if(R && R->coin()) return f->build();
    pvd::PVDataCreatePtr dc(pvd::getPVDataCreate());
    if(R && R->coin()) switch(t.k) { // the creator of that kind
    case KScalar: { pvd::ScalarConstPtr s(std::tr1::static_pointer_cast<const pvd::Scalar>(f)); return R->coin() ? dc->createPVScalar(s) : dc->createPVScalar(s->getScalarType()); }
    case KBStr: return dc->createPVScalar(std::tr1::static_pointer_cast<const pvd::Scalar>(f));
    case KSArr: {
        pvd::ScalarArrayConstPtr a(std::tr1::static_pointer_cast<const pvd::ScalarArray>(f));
        return a->getArraySizeType() == pvd::Array::variable && R->coin() ? dc->createPVScalarArray(a->getElementType()) : dc->createPVScalarArray(a); }
    case KStruct: {
        pvd::StructureConstPtr s(std::tr1::static_pointer_cast<const pvd::Structure>(f));
        return dc->createPVStructure(s); }
    case KUnion: return dc->createPVUnion(std::tr1::static_pointer_cast<const pvd::Union>(f));
    case KVariant: return dc->createPVVariantUnion();
    case KStructArr: {
        pvd::StructureArrayConstPtr a(std::tr1::static_pointer_cast<const pvd::StructureArray>(f));
        return R->coin() ? dc->createPVStructureArray(a) : dc->createPVStructureArray(a->getStructure()); }
    case KUnionArr: {
        pvd::UnionArrayConstPtr a(std::tr1::static_pointer_cast<const pvd::UnionArray>(f));
        return R->coin() ? dc->createPVUnionArray(a) : dc->createPVUnionArray(a->getUnion()); }
    case KVarArr: return dc->createPVVariantUnionArray();
    default: break;
    }
    return dc->createPVField(f);
}
inline pvd::PVFieldPtr make(const Ty& t, const Val& v, Rng *R = 0) {
    pvd::PVFieldPtr p(make(t, R));
    assign(*p, t, v, R);
    return p;
}
inline pvd::PVStructurePtr makeStruct(const Ty& t, const Val& v, Rng *R = 0) {
    return std::tr1::static_pointer_cast<pvd::PVStructure>(make(t, v, R));
}

// how interesting a type/value is
inline size_t weight(const Ty& t) {
    size_t n = 1;
    for(auto& k : t.kids) n += weight(*k);
    return n;
}
inline uint64_t hashCase(const Ty& t, const Val& v) { return vh::hstr(descVal(t, v), vh::hstr(descTy(t))); }

// ---------- transports
// SerializableControl over a buffer of the given size, which counts and may
// flush whenever the contract lets it.
struct Out : public pvd::SerializableControl {
    std::vector<char> mem; pvd::ByteBuffer buf; std::vector<uint8_t> out;
    Rng R; bool direct; int eager; size_t flushes, directs, ensures; int failAt;
    Out(size_t size, bool be, uint64_t seed, bool direct, int eager)
        : mem(size), buf(&mem[0], size, be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE), R(seed), direct(direct), eager(eager),
          flushes(0), directs(0), ensures(0), failAt(-1) {}
    virtual void flushSerializeBuffer() {
        flushes++;
        const char *p = buf.getBuffer();
        out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + buf.getPosition());
        buf.clear();
    }
    virtual void ensureBuffer(size_t n) {
        ensures++;
        if(failAt >= 0 && (int)ensures > failAt) throw std::runtime_error("injected send failure");
        if(n > mem.size()) throw std::runtime_error("ensureBuffer: request larger than the buffer");
        if(buf.getRemaining() < n || (eager && R.below(eager) == 0)) flushSerializeBuffer();
    }
    virtual bool directSerialize(pvd::ByteBuffer *b, const char *p, size_t count, size_t esize) {
        if(!direct || R.coin()) return false;
        directs++;
        flushSerializeBuffer();
        out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + count * esize);
        return true;
    }
    virtual void cachedSerialize(std::tr1::shared_ptr<const pvd::Field> const & f, pvd::ByteBuffer *b) { f->serialize(b, this); }
    std::vector<uint8_t>& finish() { flushSerializeBuffer(); return out; }
};
struct In : public pvd::DeserializableControl {
    std::vector<uint8_t> src; size_t pos; std::vector<char> mem; pvd::ByteBuffer buf; Rng R; bool direct; int chunk;
    size_t refills, directs, calls; int failAt;
    // chunk: at most this many bytes arrive per refill beyond what is required (0: everything)
    In(const std::vector<uint8_t>& s, size_t size, bool be, uint64_t seed, bool direct, int chunk)
        : src(s), pos(0), mem(size), buf(&mem[0], size, be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE), R(seed), direct(direct),
          chunk(chunk), refills(0), directs(0), calls(0), failAt(-1) {
        buf.clear(); buf.setLimit(0);
    }
    size_t left() const { return src.size() - pos + buf.getRemaining(); }
    virtual void ensureData(size_t n) {
        calls++;
        if(failAt >= 0 && (int)calls > failAt) throw std::runtime_error("injected receive failure");
        size_t have = buf.getRemaining();
        if(have >= n) return;
        if(n > mem.size()) throw std::runtime_error("ensureData: request larger than the buffer");
        if(left() < n) throw std::runtime_error("ensureData: end of data");
        refills++;
        memmove(&mem[0], &mem[buf.getPosition()], have);
        size_t room = mem.size() - have, avail = src.size() - pos, need = n - have;
        size_t take = room < avail ? room : avail;
        if(chunk) { size_t c = need + R.below(chunk); if(c < take) take = c; }
        if(take) memcpy(&mem[have], &src[pos], take);
        pos += take;
        buf.clear();
        buf.setLimit(have + take);
    }
    virtual bool directDeserialize(pvd::ByteBuffer *b, char *to, size_t count, size_t esize) {
        if(!direct || R.coin()) return false;
        size_t n = count * esize, have = buf.getRemaining();
        if(left() < n) return false;
        directs++;
        size_t m = n < have ? n : have;
        if(m) memcpy(to, &mem[buf.getPosition()], m);
        buf.setPosition(buf.getPosition() + m);
        if(n - m) memcpy(to + m, &src[pos], n - m);
        pos += n - m;
        return true;
    }
    virtual std::tr1::shared_ptr<const pvd::Field> cachedDeserialize(pvd::ByteBuffer *b) {
        return pvd::getFieldCreate()->deserialize(b, this);
    }
};
inline size_t genBufSize(Rng& R) {
    switch(R.below(4)) { case 0: return 16 + R.below(8); case 1: return 24 + R.below(100); case 2: return 256 + R.below(64); default: return R.chance(1, 4) ? 4096u << R.below(6) : 8192; }
}
inline Out *newOut(Rng& R, bool be, bool direct = true) {
    return new Out(genBufSize(R), be, R.next(), direct && R.coin(), R.chance(1, 3) ? (int)(1 + R.below(6)) : 0);
}
inline In *newIn(Rng& R, const std::vector<uint8_t>& s, bool be, bool direct = true) {
    return new In(s, genBufSize(R), be, R.next(), direct && R.coin(), R.chance(2, 3) ? (int)(1 + R.below(12)) : 0);
}

// everything a user can do with a healthy object; used after hostile input
void exercise(const pvd::PVFieldPtr& f);

} // namespace g
#endif
