// Reference decoder: what the bytes mean, or that they mean nothing.
#ifndef DEC_H
#define DEC_H
#include "gen.h"
namespace g {
struct Bad { std::string why; };
struct Unsure {}; // reserved codes: refuse or not, as the decoder likes
struct Dec {
    const std::vector<uint8_t>& b; size_t p; bool be; int depth;
    Dec(const std::vector<uint8_t>& b, bool be) : b(b), p(0), be(be), depth(0) {}
    void bad(const char *w) { Bad x; x.why = w; throw x; }
    uint64_t num(unsigned w) {
        if(b.size() - p < w) bad("short");
        uint64_t r = 0;
        for(unsigned i = 0; i < w; i++) r |= (uint64_t)b[p + i] << (8 * (be ? w - 1 - i : i));
        p += w;
        return r;
    }
    size_t size() { uint64_t x = num(1); if(x == 255) return (size_t)-1; if(x == 254) { x = num(4); if(x & 0x80000000u) bad("negative size"); } return x; }
    // a size followed by at least n*unit bytes
    size_t count(size_t unit) { size_t n = size(); if(unit && n > (b.size() - p) / unit) bad("short"); return n; }
    std::string str() { size_t n = size(); if(n == (size_t)-1) return std::string(); if(n > b.size() - p) bad("short");
        std::string s(b.begin() + p, b.begin() + p + n); p += n; return s; }
    static bool nameOk(const std::string& n) {
        if(n.empty() || isdigit((unsigned char)n[0])) return false;
        for(unsigned char c : n) if(!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) return false;
        return true;
    }
    TyP comp(K k) {
        std::shared_ptr<Ty> t(new Ty); t->k = k;
        t->id = str(); if(t->id.empty()) t->id = k == KStruct ? "structure" : "union";
        size_t n = count(2);
        for(size_t i = 0; i < n; i++) { t->names.push_back(str()); TyP c(ty()); if(!c) bad("null member type"); t->kids.push_back(c); }
        std::set<std::string> s;
        for(auto& x : t->names) { if(!nameOk(x)) bad("name"); if(!s.insert(x).second) bad("duplicate name"); }
        if(k == KUnion && n == 0) { if(t->id != "any") bad("empty union"); t->k = KVariant; t->id.clear(); }
        return t;
    }
    // null pointer: null type
    TyP ty() {
        struct D { int& d; D(int& d) : d(d) { d++; } ~D() { d--; } } guard(depth);
        if(depth > 200) bad("too deep");
        unsigned c = num(1);
        if(c == 0xff) return TyP();
        std::shared_ptr<Ty> t(new Ty);
        unsigned arr = c & 0x18, base = c & 0xe7;
        if(base >= 0x80) {
            if(arr == 0) {
                if(base == 0x80) return comp(KStruct);
                if(base == 0x81) return comp(KUnion);
                if(base == 0x82) { t->k = KVariant; return t; }
                if(base == 0x83) { t->k = KBStr; t->st = pvd::pvString; t->bound = size(); if(!t->bound) bad("bound 0"); return t; }
                bad("code");
            }
            size_t bnd = arr != 0x08 ? size() : 0; (void)bnd;
            if(arr != 0x08) bad("code");
            if(base == 0x80 || base == 0x81) {
                TyP e(ty());
                if(!e) bad("null element");
                if(base == 0x80 && e->k != KStruct) bad("element");
                if(base == 0x81 && e->k != KUnion && e->k != KVariant) bad("element");
                if(e->k == KVariant) { t->k = KVarArr; return t; }
                t->k = base == 0x80 ? KStructArr : KUnionArr; t->kids.push_back(e);
                return t;
            }
            if(base == 0x82) { t->k = KVarArr; return t; }
            bad("code");
        }
        size_t bnd = (arr == 0x10 || arr == 0x18) ? size() : 0;
        int st = -1;
        switch(base) {
        case 0x00: st = pvd::pvBoolean; break; case 0x20: st = pvd::pvByte; break; case 0x21: st = pvd::pvShort; break;
        case 0x22: st = pvd::pvInt; break; case 0x23: st = pvd::pvLong; break; case 0x24: st = pvd::pvUByte; break;
        case 0x25: st = pvd::pvUShort; break; case 0x26: st = pvd::pvUInt; break; case 0x27: st = pvd::pvULong; break;
        case 0x42: st = pvd::pvFloat; break; case 0x43: st = pvd::pvDouble; break; case 0x60: st = pvd::pvString; break;
        }
        if(st < 0) throw Unsure();
        t->st = (pvd::ScalarType)st;
        if(arr == 0) { t->k = KScalar; return t; }
        t->k = KSArr; t->pol = arr == 0x08 ? 0 : arr == 0x10 ? 1 : 2; t->bound = bnd;
        return t;
    }
    Val val(const Ty& t) {
        struct D { int& d; D(int& d) : d(d) { d++; } ~D() { d--; } } guard(depth);
        if(depth > 400) bad("too deep");
        Val v;
        switch(t.k) {
        case KScalar: if(t.st == pvd::pvString) v.s = str(); else v.n = num(width(t.st)); break;
        case KBStr: v.s = str(); if(v.s.size() > t.bound) bad("bound"); break;
        case KSArr: {
            size_t n = t.pol == 2 ? t.bound : size();
            if(t.pol == 1 && n > t.bound) bad("bound");
            unsigned u = t.st == pvd::pvString ? 1 : width(t.st);
            if(n > (b.size() - p) / u) bad("short");
            for(size_t i = 0; i < n; i++) if(t.st == pvd::pvString) v.sa.push_back(str()); else v.na.push_back(num(u));
            break; }
        case KStruct: for(auto& k : t.kids) v.a.push_back(val(*k)); break;
        case KUnion: { size_t s = size(); if(s == (size_t)-1) break; if(s >= t.kids.size()) bad("selector"); v.sel = s; v.a.push_back(val(*t.kids[s])); break; }
        case KVariant: v.vt = ty(); if(v.vt) v.a.push_back(val(*v.vt)); break;
        default: {
            size_t n = count(1);
            for(size_t i = 0; i < n; i++) { Val e; if(num(1) == 0) e.null = true; else e = val(elemTy(t)); v.a.push_back(e); } }
        }
        return v;
    }
};
}
#endif
