// C16 printing as JSON, C17 parsing of JSON text: independent JSON reader, independent model of "parse into"
#include "gen.h"
#include "tree.h"
#include <errno.h>
#include <pv/json.h>
#include <pv/valueBuilder.h>
#include <pv/typeCast.h>
using namespace g;

namespace {
struct Undecided {}; // the model does not judge this case
struct Reject { std::string why; explicit Reject(const std::string& w) : why(w) {} };

struct J {
    enum Kind { Null, Bool, Int, Dbl, Str, Obj, Arr } k;
    bool b; int64_t i; double d; std::string s; bool over; // over: number which does not fit
    std::vector<std::string> keys; std::vector<J> a;
    J() : k(Null), b(false), i(0), d(0), over(false) {}
};
std::string descJ(const J& j) {
    std::ostringstream o;
    switch(j.k) {
    case J::Null: o << "null"; break;
    case J::Bool: o << (j.b ? "true" : "false"); break;
    case J::Int: o << j.i << (j.over ? "(overflow)" : ""); break;
    case J::Dbl: o.precision(17); o << j.d << "d"; break;
    case J::Str: o << vh::q(j.s); break;
    case J::Obj: o << "{"; for(size_t n = 0; n < j.a.size(); n++) o << vh::q(j.keys[n]) << ":" << descJ(j.a[n]) << ","; o << "}"; break;
    case J::Arr: o << "["; for(auto& x : j.a) o << descJ(x) << ","; o << "]"; break;
    }
    return o.str();
}

// ---------------------------------------------------------------- reader
struct BadJson { std::string what; };
bool okUtf8(const std::string& s) {
    for(size_t i = 0; i < s.size();) {
        unsigned c = (unsigned char)s[i++]; int n; unsigned cp;
        if(c < 0x80) continue;
        else if(c >= 0xc2 && c < 0xe0) { n = 1; cp = c & 0x1f; }
        else if(c >= 0xe0 && c < 0xf0) { n = 2; cp = c & 0xf; }
        else if(c >= 0xf0 && c < 0xf5) { n = 3; cp = c & 7; }
        else return false;
        for(int k = 0; k < n; k++) { if(i >= s.size() || ((unsigned char)s[i] & 0xc0) != 0x80) return false; cp = cp << 6 | ((unsigned char)s[i++] & 0x3f); }
        if((n == 2 && cp < 0x800) || (n == 3 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp < 0xe000)) return false;
    }
    return true;
}
void putUtf8(std::string& o, unsigned c) {
    if(c < 0x80) o += (char)c;
    else if(c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 0x3f)); }
    else if(c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 0x3f)); o += (char)(0x80 | (c & 0x3f)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 0x3f)); o += (char)(0x80 | (c >> 6 & 0x3f)); o += (char)(0x80 | (c & 0x3f)); }
}
struct Reader {
    const std::string& t; size_t p; bool j5; unsigned depth;
    Reader(const std::string& t, bool j5) : t(t), p(0), j5(j5), depth(0) {}
    [[noreturn]] void bad(const char *w) { std::ostringstream o; o << w << " at " << p; throw BadJson{o.str()}; }
    void ws() { while(p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
    int peek() { return p < t.size() ? (unsigned char)t[p] : -1; }
    void need(char c) { if(peek() != (unsigned char)c) bad("unexpected character"); p++; }
    unsigned hexn(int n) { unsigned v = 0; while(n--) { int c = peek(); if(c < 0 || !isxdigit(c)) bad("bad hex digit"); v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); p++; } return v; }
    std::string str() {
        int quote = peek();
        if(quote != '"' && !(j5 && quote == '\'')) bad("no string");
        p++;
        std::string o;
        for(;;) {
            int c = peek();
            if(c < 0) bad("unterminated string");
            if(c < 0x20) bad("raw control character");
            p++;
            if(c == quote) return o;
            if(c != '\\') { o += (char)c; continue; }
            c = peek(); p++;
            switch(c) {
            case '"': case '\\': case '/': o += (char)c; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
            case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': {
                unsigned v = hexn(4);
                if(v >= 0xd800 && v < 0xdc00) {
                    if(peek() != '\\') throw Undecided();
                    p++; if(peek() != 'u') throw Undecided();
                    p++; unsigned w = hexn(4);
                    if(w < 0xdc00 || w >= 0xe000) throw Undecided();
                    v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                } else if(v >= 0xdc00 && v < 0xe000) throw Undecided();
                putUtf8(o, v); break; }
            case '\'': if(!j5) bad("bad escape"); o += '\''; break;
            case 'v': if(!j5) bad("bad escape"); o += '\v'; break;
            case '0': if(!j5) bad("bad escape"); o += '\0'; break;
            case 'x': if(!j5) bad("bad escape"); o += (char)hexn(2); break;
            default: bad("bad escape");
            }
        }
    }
    J num() {
        J j; size_t b = p; bool isd = false;
        if(j5 && peek() == '+') p++; else if(peek() == '-') p++;
        if(j5 && (t.compare(p, 3, "NaN") == 0 || t.compare(p, 8, "Infinity") == 0)) {
            j.k = J::Dbl; bool neg = t[b] == '-';
            j.d = t[p] == 'N' ? NAN : neg ? -INFINITY : INFINITY; p += t[p] == 'N' ? 3 : 8;
            return j;
        }
        if(peek() == '0') p++;
        else { if(!isdigit(peek())) bad("bad number"); while(isdigit(peek())) p++; }
        if(peek() == '.') { isd = true; p++; if(!isdigit(peek())) bad("no digits after the point"); while(isdigit(peek())) p++; }
        if(peek() == 'e' || peek() == 'E') { isd = true; p++; if(peek() == '+' || peek() == '-') p++; if(!isdigit(peek())) bad("no exponent"); while(isdigit(peek())) p++; }
        std::string x(t, b, p - b);
        if(x[0] == '+') x.erase(0, 1);
        errno = 0;
        if(isd) { j.k = J::Dbl; j.d = strtod(x.c_str(), 0); if(!std::isfinite(j.d)) j.over = true; }
        // EPICS Base refuses the most negative integer
        else { j.k = J::Int; j.i = strtoll(x.c_str(), 0, 10); if(errno == ERANGE || j.i == std::numeric_limits<int64_t>::min()) j.over = true; }
        return j;
    }
    J value() {
        if(++depth > 2000) throw Undecided();
        ws(); J j;
        int c = peek();
        if(c == '{') {
            p++; j.k = J::Obj; ws();
            if(peek() == '}') p++;
            else for(;;) {
                ws();
                std::string key;
                if(j5 && peek() != '"' && peek() != '\'') {
                    while(isalnum(peek()) || peek() == '_' || peek() == '$') key += t[p++];
                    if(key.empty() || isdigit((unsigned char)key[0])) bad("bad key");
                } else key = str();
                ws(); need(':');
                j.keys.push_back(key); j.a.push_back(value());
                ws(); if(peek() == ',') { p++; continue; }
                need('}'); break;
            }
        } else if(c == '[') {
            p++; j.k = J::Arr; ws();
            if(peek() == ']') p++;
            else for(;;) { j.a.push_back(value()); ws(); if(peek() == ',') { p++; continue; } need(']'); break; }
        } else if(c == '"' || (j5 && c == '\'')) { j.k = J::Str; j.s = str(); }
        else if(t.compare(p, 4, "true") == 0) { j.k = J::Bool; j.b = true; p += 4; }
        else if(t.compare(p, 5, "false") == 0) { j.k = J::Bool; p += 5; }
        else if(t.compare(p, 4, "null") == 0) { p += 4; }
        else j = num();
        depth--;
        return j;
    }
    J all() { J j(value()); ws(); if(p != t.size()) bad("trailing text"); return j; }
};

// ---------------------------------------------------------------- printed document against the value
bool nonFinite(const Ty& t, const Val& v, const Sel& sel) {
    auto nf = [](pvd::ScalarType st, uint64_t n) { return st == pvd::pvFloat ? (n & 0x7f800000u) == 0x7f800000u
            : st == pvd::pvDouble ? (n & 0x7ff0000000000000ull) == 0x7ff0000000000000ull : false; };
    switch(t.k) {
    case KScalar: return nf(t.st, v.n);
    case KBStr: return false;
    case KSArr: for(uint64_t n : v.na) if(nf(t.st, n)) return true; return false;
    case KStruct: for(size_t i = 0; i < v.a.size(); i++) if(nonFinite(*t.kids[i], v.a[i], sel)) return true; return false;
    case KUnion: return v.sel >= 0 && nonFinite(*t.kids[v.sel], v.a[0], sel);
    case KVariant: return v.vt && nonFinite(*v.vt, v.a[0], sel);
    default: for(auto& e : v.a) if(!e.null && nonFinite(elemTy(t), e, sel)) return true; return false;
    }
}
void cmpNum(const J& j, pvd::ScalarType st, uint64_t n, const std::string& at) {
    switch(st) {
    case pvd::pvBoolean: VCHECK(j.k == J::Bool && j.b == !!n, "json-bool", at << " printed " << descJ(j)); return;
    case pvd::pvFloat: case pvd::pvDouble: {
        double d = st == pvd::pvFloat ? (double)fromBits<float>(n) : fromBits<double>(n);
        VCHECK(j.k == J::Dbl || j.k == J::Int, "json-float", at << " printed " << descJ(j));
        double x = j.k == J::Dbl ? j.d : (double)j.i;
        VCHECK((d != d && x != x) || toBits(x) == toBits(d), "json-float", at << "=" << d << " printed " << descJ(j));
        return; }
    default: {
        int64_t i;
        switch(st) {
        case pvd::pvByte: i = (int8_t)n; break; case pvd::pvShort: i = (int16_t)n; break; case pvd::pvInt: i = (int32_t)n; break;
        default: i = (int64_t)n; // unsigned 64 bit values beyond the range of the JSON library are printed as signed
        }
        VCHECK(j.k == J::Int && j.i == i, "json-int", at << "=" << i << " printed " << descJ(j));
    } }
}
// flat index of the structure members, when a mask applies
void cmpDoc(const J& j, const Ty& t, const Val& v, const std::string& at, const std::vector<Node> *nodes, size_t me, const std::set<size_t> *shown) {
    switch(t.k) {
    case KScalar: if(t.st != pvd::pvString) { cmpNum(j, t.st, v.n, at); break; }
        // fall through
    case KBStr: VCHECK(j.k == J::Str && j.s == v.s, "json-string", at << "=" << vh::q(v.s) << " printed " << descJ(j)); break;
    case KSArr: {
        size_t n = t.st == pvd::pvString ? v.sa.size() : v.na.size();
        VCHECK(j.k == J::Arr && j.a.size() == n, "json-array", at << " has " << n << " elements, printed " << descJ(j));
        for(size_t i = 0; i < n; i++)
            if(t.st == pvd::pvString) VCHECK(j.a[i].k == J::Str && j.a[i].s == v.sa[i], "json-string", at << "[" << i << "] printed " << descJ(j.a[i]));
            else cmpNum(j.a[i], t.st, v.na[i], at + "[]");
        break; }
    case KStruct: {
        VCHECK(j.k == J::Obj, "json-struct", at << " printed " << descJ(j));
        size_t k = 0, c = me + 1;
        for(size_t i = 0; i < t.kids.size(); i++) {
            if(!shown || shown->count(c)) {
                VCHECK(k < j.keys.size() && j.keys[k] == t.names[i], "json-field", at << "." << t.names[i] << " is not in its place in " << descJ(j));
                cmpDoc(j.a[k], *t.kids[i], v.a[i], at + "." + t.names[i], nodes, c, shown);
                k++;
            }
            if(nodes) c += (*nodes)[c].num;
        }
        VCHECK(k == j.keys.size(), "json-extra", at << " prints too many fields: " << descJ(j));
        break; }
    case KUnion: if(v.sel < 0) VCHECK(j.k == J::Null, "json-union", at << " printed " << descJ(j)); else cmpDoc(j, *t.kids[v.sel], v.a[0], at, 0, 0, 0); break;
    case KVariant: if(!v.vt) VCHECK(j.k == J::Null, "json-union", at << " printed " << descJ(j)); else cmpDoc(j, *v.vt, v.a[0], at, 0, 0, 0); break;
    default:
        VCHECK(j.k == J::Arr && j.a.size() == v.a.size(), "json-array", at << " has " << v.a.size() << " elements, printed " << descJ(j));
        for(size_t i = 0; i < v.a.size(); i++)
            if(v.a[i].null) VCHECK(j.a[i].k == J::Null, "json-null", at << " printed " << descJ(j.a[i]));
            else cmpDoc(j.a[i], elemTy(t), v.a[i], at + "[]", 0, 0, 0);
    }
}

// ---------------------------------------------------------------- model of parsing into an object
// elem: as an array element (castUnsafe), otherwise as a field (castUnsafeV)
void conv(const J& j, Val& v, const Ty& t, bool elem = false) {
    if(j.k == J::Null || j.k == J::Obj || j.k == J::Arr) throw Reject("wrong kind");
    if(j.over) throw Reject("overflow");
    pvd::ScalarType st = t.k == KBStr ? pvd::pvString : t.st, from = j.k == J::Bool ? pvd::pvBoolean : j.k == J::Int ? pvd::pvLong : j.k == J::Dbl ? pvd::pvDouble : pvd::pvString;
    pvd::boolean b = j.b; pvd::int64 i = j.i;
    const void *src = j.k == J::Bool ? (const void*)&b : j.k == J::Int ? (const void*)&i : j.k == J::Dbl ? (const void*)&j.d : (const void*)&j.s;
    if(j.k == J::Dbl && width(st) && st != pvd::pvFloat && st != pvd::pvDouble) {
        if(st == pvd::pvBoolean) throw Undecided();
        bool sg = st == pvd::pvByte || st == pvd::pvShort || st == pvd::pvInt || st == pvd::pvLong;
        double lo = sg ? -ldexp(1, 8 * width(st) - 1) : 0, hi = ldexp(1, 8 * width(st) - (sg ? 1 : 0));
        if(!(trunc(j.d) >= lo && trunc(j.d) < hi)) throw Undecided();
    }
    if(elem && j.k == J::Bool && st != pvd::pvString) { // as a number
        if(st == pvd::pvFloat) v.n = toBits<float>(j.b); else if(st == pvd::pvDouble) v.n = toBits<double>(j.b); else v.n = j.b;
        return;
    }
    if(elem && st == pvd::pvBoolean && j.k == J::Int) throw Undecided();
    std::string s; uint64_t n = 0;
    try { pvd::castUnsafeV(1, st, st == pvd::pvString ? (void*)&s : (void*)&n, from, src); }
    catch(std::exception& e) { throw Reject(e.what()); }
    if(t.k == KBStr && s.size() > t.bound) throw Reject("bound");
    v.s = s; v.n = n;
}
struct Into {
    std::set<size_t> assigned, touched;
    const std::vector<Node> *nodes;
    // o: flat index, or -1 inside an element
    void apply(const Ty& t, Val& v, const J& j, long o) {
        if(o >= 0 && t.k != KStruct) touched.insert(o);
        if(j.k == J::Null) throw Reject("null");
        switch(t.k) {
        case KScalar: case KBStr: conv(j, v, t); break;
        case KSArr:
            if(j.k != J::Arr) throw Reject("not an array");
            for(auto& e : j.a) {
                Val x; Ty et; et.k = KScalar; et.st = t.st;
                conv(e, x, et, true);
                size_t n = (t.st == pvd::pvString ? v.sa.size() : v.na.size()) + 1;
                if((t.pol == 1 && n > t.bound) || (t.pol == 2 && n != t.bound)) throw Reject("array size");
                if(t.st == pvd::pvString) v.sa.push_back(x.s); else v.na.push_back(x.n);
            }
            break;
        case KStruct:
            if(j.k != J::Obj) throw Reject("not an object");
            for(size_t i = 0; i < j.keys.size(); i++) {
                // a key may be a path
                const Ty *ct = &t; Val *cv = &v; long co = o; std::string rest = j.keys[i];
                for(;;) {
                    size_t dot = rest.find('.');
                    std::string first = rest.substr(0, dot);
                    if(ct->k != KStruct) throw Reject("no such field");
                    size_t k = 0; long c = co >= 0 ? co + 1 : -1;
                    while(k < ct->names.size() && ct->names[k] != first) { if(c >= 0) c += (*nodes)[c].num; k++; }
                    if(k == ct->names.size()) throw Reject("no such field");
                    cv = &cv->a[k]; ct = ct->kids[k].get(); co = c;
                    if(dot == std::string::npos) break;
                    rest = rest.substr(dot + 1);
                }
                apply(*ct, *cv, j.a[i], co);
            }
            return;
        case KStructArr:
            if(j.k != J::Arr) throw Reject("not an array");
            for(auto& e : j.a) {
                if(e.k != J::Obj) throw Reject("element is not an object");
                Val x(zeroVal(*t.kids[0]));
                apply(*t.kids[0], x, e, -1);
                v.a.push_back(x);
            }
            break;
        case KUnion: {
            if(j.k == J::Obj || j.k == J::Arr) throw Reject("not a scalar");
            bool ok = false;
            for(size_t i = 0; i < t.kids.size() && !ok; i++) {
                if(t.kids[i]->k != KScalar && t.kids[i]->k != KBStr) continue;
                Val x;
                try { conv(j, x, *t.kids[i]); ok = true; } catch(Reject&) {}
                if(ok) { v = Val(); v.sel = (int)i; v.a.push_back(x); }
            }
            if(!ok) throw Reject("no member");
            break; }
        case KVariant: {
            pvd::ScalarType st;
            switch(j.k) {
            case J::Bool: st = pvd::pvBoolean; break; case J::Int: st = pvd::pvLong; break; case J::Dbl: st = pvd::pvDouble; break;
            case J::Str: st = pvd::pvString; break; default: throw Reject("not a scalar");
            }
            Val x; TyP vt(mkScalar(st));
            conv(j, x, *vt);
            v = Val(); v.vt = vt; v.a.push_back(x);
            break; }
        case KUnionArr: case KVarArr: throw Reject("array of unions");
        }
        if(o >= 0) assigned.insert(o);
    }
};

// ---------------------------------------------------------------- text from a tree
static size_t longLen(vh::Rng& R) { static const size_t N[] = { 120, 250, 1000, 1020, 4090, 8186, 16380 }; return N[R.below(7)] + R.below(12); }
struct Writer {
    vh::Rng& R; std::string o; bool j5, comments, wild;
    Writer(vh::Rng& R) : R(R), j5(R.chance(1, 3)), comments(R.chance(1, 3)), wild(R.coin()) {}
    void gap() {
        if(!wild) return;
        while(R.chance(1, 3)) {
            switch(R.below(comments ? 7 : 5)) {
            case 0: o += "\n"; break; case 1: o += "\t"; break; case 2: o += "\r\n"; break; case 3: o += "  "; break; case 4: o += " "; break;
            case 5: if(R.chance(1, 60)) { size_t n = longLen(R); o += "/*" + std::string(n, R.coin() ? ' ' : '"') + "*/"; break; } o += R.coin() ? "/* {c\n} \" */" : "/**/"; break;
            case 6: if(R.chance(1, 60)) { size_t n = longLen(R); o += "//" + std::string(n, '}') + "\n"; break; } o += R.coin() ? "// x \" { \n" : "//\n"; break;
            }
        }
    }
    void u4(unsigned c) { char b[8]; snprintf(b, sizeof b, R.coin() ? "\\u%04x" : "\\u%04X", c); o += b; }
    void str(const std::string& s) {
        char qc = j5 && R.coin() ? '\'' : '"';
        o += qc;
        for(size_t i = 0; i < s.size(); i++) {
            unsigned c = (unsigned char)s[i];
            if(c == (unsigned)qc || c == '\\') { o += '\\'; o += (char)c; }
            else if(c < 0x20) {
                switch(R.coin() ? c : 0) {
                case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break;
                case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; default: u4(c);
                }
            } else if(c < 0x80) {
                if(c == '/' && R.coin()) o += "\\/";
                else if(wild && R.chance(1, 12)) u4(c);
                else o += (char)c;
            } else { // whole sequence
                int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1;
                unsigned cp = c & (0x3f >> n);
                for(int k = 1; k <= n; k++) cp = cp << 6 | ((unsigned char)s[i + k] & 0x3f);
                if(R.chance(2, 3)) o.append(s, i, n + 1);
                else if(cp < 0x10000) u4(cp);
                else { u4(0xd800 + ((cp - 0x10000) >> 10)); u4(0xdc00 + ((cp - 0x10000) & 0x3ff)); }
                i += n;
            }
        }
        o += qc;
    }
    void put(const J& j) {
        char b[64];
        gap();
        switch(j.k) {
        case J::Null: o += "null"; break;
        case J::Bool: o += j.b ? "true" : "false"; break;
        case J::Int:
            if(j5 && R.chance(1, 4) && j.i >= 0) snprintf(b, sizeof b, R.coin() ? "0x%llx" : "0x%llX", (long long)j.i);
            else snprintf(b, sizeof b, j5 && j.i >= 0 && R.chance(1, 4) ? "+%lld" : "%lld", (long long)j.i);
            o += b; break;
        case J::Dbl: {
            if(!std::isfinite(j.d)) { o += j.d != j.d ? "NaN" : j.d < 0 ? "-Infinity" : R.coin() ? "Infinity" : "+Infinity"; break; }
            snprintf(b, sizeof b, R.chance(1, 3) ? "%.17e" : "%.17g", j.d);
            if(!strpbrk(b, ".e")) strcat(b, R.coin() ? ".0" : "e0");
            if(j5 && b[0] == '0' && b[1] == '.' && R.coin()) o += b + 1; else o += b;
            break; }
        case J::Str: str(j.s); break;
        case J::Obj:
            o += "{";
            for(size_t i = 0; i < j.a.size(); i++) {
                if(i) o += ",";
                gap();
                const std::string& k = j.keys[i];
                bool ident = !k.empty() && !isdigit((unsigned char)k[0]);
                for(char c : k) if(!isalnum((unsigned char)c) && c != '_') ident = false;
                if(j5 && ident && R.coin()) o += k; else str(k);
                gap(); o += ":"; put(j.a[i]);
            }
            if(j5 && !j.a.empty() && R.chance(1, 5)) o += ",";
            gap(); o += "}"; break;
        case J::Arr:
            o += "[";
            for(size_t i = 0; i < j.a.size(); i++) { if(i) o += ","; put(j.a[i]); }
            if(j5 && !j.a.empty() && R.chance(1, 5)) o += ",";
            gap(); o += "]"; break;
        }
        gap();
    }
};
Opt jopt(vh::Rng& R) { Opt O; O.jsonable = true; O.bigArrays = R.chance(1, 4); O.longStrings = R.chance(1, 4); O.rawIds = false; return O; }

J genScalarJ(vh::Rng& R, const Opt& O) {
    J j;
    switch(R.below(5)) {
    case 0: j.k = J::Bool; j.b = R.coin(); break;
    case 1: j.k = J::Int; j.i = (int64_t)genNum(R, pvd::pvLong, O); if(j.i == std::numeric_limits<int64_t>::min()) j.i++; break;
    case 2: j.k = J::Int; j.i = R.range(-130, 260); break;
    case 3: j.k = J::Dbl; j.d = R.coin() ? R.range(-1000, 1000) / 8.0 : fromBits<double>(genNum(R, pvd::pvDouble, O)); break;
    default: j.k = J::Str;
        switch(R.below(3)) { case 0: { std::ostringstream o; o << R.range(-200, 300); j.s = o.str(); break; }
            case 1: j.s = R.coin() ? "true" : "1.5"; break; default: j.s = genStr(R, O); }
    }
    return j;
}
// a document for the type; err is the chance (of 100) to go astray at each place
J genDoc(vh::Rng& R, const Ty& t, const Opt& O, unsigned err, int depth = 0) {
    J j;
    if(R.below(100) < err) {
        switch(R.below(5)) {
        case 0: return j; // null
        case 1: j.k = J::Obj; if(R.coin()) { j.keys.push_back(genName(R)); j.a.push_back(genScalarJ(R, O)); } return j;
        case 2: j.k = J::Arr; for(size_t n = R.below(3); n--;) j.a.push_back(genScalarJ(R, O)); return j;
        case 3: { j.k = J::Arr; J e; e.k = R.coin() ? J::Arr : J::Obj; if(R.coin()) { if(e.k == J::Obj) e.keys.push_back(genName(R)); e.a.push_back(genScalarJ(R, O)); } j.a.push_back(e); return j; }
        default: return genScalarJ(R, O);
        }
    }
    switch(t.k) {
    case KScalar: case KBStr: {
        pvd::ScalarType st = t.k == KBStr ? pvd::pvString : t.st;
        for(int n = 0; ; n++) {
            j = genScalarJ(R, O);
            if(n > 20 || err) break;
            try { Val x; conv(j, x, t); break; } catch(Reject&) {} catch(Undecided&) {}
        }
        (void)st; return j; }
    case KSArr: {
        Ty et; et.k = KScalar; et.st = t.st;
        j.k = J::Arr; for(size_t n = R.chance(1, 60) ? 30 + R.below(1200) : R.below(5); n--;) j.a.push_back(genDoc(R, et, O, j.a.size() > 40 ? 0 : err / 2, depth + 1)); return j; }
    case KStruct: {
        j.k = J::Obj;
        for(size_t i = 0; i < t.kids.size(); i++) {
            if(R.chance(1, 4)) continue;
            size_t at = R.below(j.a.size() + 1);
            if(!R.chance(1, 4)) at = j.a.size();
            std::string key = t.names[i]; const Ty *k = t.kids[i].get();
            while(k->k == KStruct && !k->kids.empty() && R.chance(1, 6)) { size_t c = R.below(k->kids.size()); key += "." + k->names[c]; k = k->kids[c].get(); }
            j.keys.insert(j.keys.begin() + at, key);
            j.a.insert(j.a.begin() + at, genDoc(R, *k, O, err, depth + 1));
        }
        if(!j.keys.empty() && R.chance(1, 30)) { size_t i = R.below(j.keys.size()); J c(j.a[i]); std::string k(j.keys[i]); j.keys.push_back(k); j.a.push_back(c); }
        if(R.below(100) < err) { static const char *n[] = { "", ".", "a.", ".a", "nosuch", "a b", "a..b" }; j.keys.push_back(n[R.below(7)]); j.a.push_back(genScalarJ(R, O)); }
        return j; }
    case KStructArr: j.k = J::Arr; for(size_t n = depth < 2 && R.chance(1, 60) ? 20 + R.below(100) : R.below(4); n--;) j.a.push_back(genDoc(R, *t.kids[0], O, err / 2, depth + 1)); return j;
    case KUnion: case KVariant: return genScalarJ(R, O);
    default: j.k = J::Arr; return j;
    }
}

// a stream which breaks down
struct FaultBuf : std::streambuf {
    std::string s; size_t n; bool thrw; char c;
    FaultBuf(const std::string& s, size_t n) : s(s), n(n), c(0) {}
    size_t pos = 0;
    virtual int_type underflow() {
        if(pos >= n) throw std::runtime_error("injected read failure");
        c = s[pos++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c);
    }
};

void usable(pvd::PVField& f, const Ty& t, const Val& want, vh::Rng& R, const char *why, const std::string& text) {
    // encodes, and takes a new value
    std::unique_ptr<Out> o(newOut(R, R.coin()));
    const pvd::PVField *p = &f;
    p->serialize(&o->buf, o.get()); o->finish();
    assign(f, t, want);
    Val now(read(f, t));
    VCHECK(eqVal(t, now, want), "json-unusable", why << " object cannot be assigned after parsing " << vh::q(text));
}
}

// ---------------------------------------------------------------- C16
MODE(print) {
    Opt O(jopt(R));
    bool raw = R.chance(1, 8);
    if(raw) O.jsonable = false;
    TyP t(R.chance(5, 6) ? genStruct(R, O) : genTy(R, O));
    if(weight(*t) > 200) return;
    Val v(genVal(R, *t, O));
    pvd::PVFieldPtr f(make(*t, v, &R));
    pvd::JSONPrintOptions po;
    po.multiLine = R.coin(); po.indent = R.below(4); po.json5 = R.coin(); po.ignoreUnprintable = R.coin();
    bool masked = t->k == KStruct && R.coin();
    std::set<size_t> bits, shown; pvd::BitSet mask;
    std::vector<Node> nodes;
    pvd::PVFieldPtr target(f); size_t root = 0; const Ty *tt = t.get(); Val tv(v);
    if(t->k == KStruct) {
        nodes = flat(t);
        if(masked) genBits(R, mask, bits, nodes.size());
        if(R.chance(1, 5)) { // a sub-structure
            size_t i = R.below(nodes.size());
            if(i && nodes[i].t->k == KStruct) {
                root = i; tt = nodes[i].t.get(); tv = at(nodes, v, i);
                target = std::tr1::static_pointer_cast<pvd::PVStructure>(f)->getSubFieldT(i);
            }
        }
        if(masked) {
            // selected: marked, inside a marked structure, or containing something selected
            for(size_t i = root; i < root + nodes[root].num; i++) {
                bool on = false;
                for(long k = (long)i; k >= 0; k = nodes[k].parent) if(bits.count(k)) on = true;
                if(on) for(long k = (long)i; k >= 0; k = nodes[k].parent) shown.insert(k);
            }
        }
    }
    bool viaPtr = R.coin();
    std::ostringstream strm;
    bool threw = false; std::string what;
    std::string maskBefore(descBits(bits));
    try {
        if(masked) pvd::printJSON(strm, dynamic_cast<pvd::PVStructure&>(*target), mask, po);
        else if(viaPtr) pvd::printJSON(strm, pvd::PVField::const_shared_pointer(target), po);
        else pvd::printJSON(strm, *target, po);
    } catch(std::exception& e) { threw = true; what = e.what(); }
    VCHECK(eqVal(*t, read(*f, *t), v), "json-print-modifies", "value changed by printing " << descVal(*t, v));
    if(masked) { std::set<size_t> now; for(int b = mask.nextSetBit(0); b >= 0; b = mask.nextSetBit(b + 1)) now.insert(b); VCHECK(now == bits, "json-mask-modified", maskBefore); }
    vh::distinct(vh::mix(hashCase(*tt, tv) + po.json5 + 2 * po.multiLine + vh::hstr(maskBefore)));
    bool nf = nonFinite(*tt, tv, Sel());
    if(threw) {
        // only NaN and infinities (without json5) cannot be printed
        VCHECK(nf && !po.json5, "json-print-throws", what << " printing " << descVal(*tt, tv));
        vh::count("not_printable"); return;
    }
    std::string text(strm.str());
    if(nf && !masked) VCHECK(po.json5, "json-nan", "printed without exception " << vh::q(text));
    if(masked && shown.empty()) { VCHECK(text.empty(), "json-nothing-selected", vh::q(text)); vh::count("nothing_selected"); return; }
    J j;
    try { Reader r(text, po.json5); j = r.all(); }
    catch(BadJson& e) { VFAIL("json-malformed", e.what << " in " << vh::q(text) << (text.size() > 300 ? text.substr(text.size() - 100) : "") << " for " << descVal(*tt, tv)); }
    catch(Undecided&) { vh::count("undecided"); return; }
    if(!po.multiLine) VCHECK(text.find('\n') == std::string::npos, "json-multiline", vh::q(text));
    cmpDoc(j, *tt, tv, tt->k == KStruct ? "" : "value", &nodes, root, masked ? &shown : 0);
    vh::count("printed"); if(masked) vh::count("masked"); if(root) vh::count("substructures");
    vh::sample(text);
    // and back
    pvd::PVFieldPtr back(make(*tt));
    std::vector<Node> bn(flat(*tt));
    Val want(zeroVal(*tt)); Into m; m.nodes = &bn;
    std::string why; bool ok = true;
    try { m.apply(*tt, want, j, 0); } catch(Reject& e) { ok = false; why = e.why; } catch(Undecided&) { vh::count("undecided"); return; }
    if(raw && !okUtf8(text)) return;
    pvd::BitSet assigned;
    bool got = true; what = "";
    try { errno = 0; /* EPICS Base looks at a stale errno */ std::istringstream in(text); pvd::parseJSON(in, *back, &assigned); } catch(std::exception& e) { got = false; what = e.what(); }
    VCHECK(got == ok, "json-back-verdict", (ok ? "refused: " + what : "accepted, but " + why) << " " << vh::q(text) << " into " << descTy(*tt));
    if(!ok) { vh::count("not_parsable"); return; }
    Val now(read(*back, *tt));
    VCHECK(eqVal(*tt, now, want), "json-back", vh::q(text) << " parsed as " << descVal(*tt, now) << " instead of " << descVal(*tt, want));
    vh::count("round_trips");
    // without unions and small floats (clamped to the smallest normal one, as EPICS does) this is the identity
    struct H { static bool plain(const Ty& t) { if(t.k == KUnion || t.k == KVariant || t.k == KUnionArr || t.k == KVarArr) return false; for(auto& k : t.kids) if(!plain(*k)) return false; return true; }
        static bool tiny(const Ty& t, const Val& v) {
            if(t.k == KScalar && t.st == pvd::pvFloat) return !(v.n & 0x7f800000u) && (v.n & 0x7fffffu);
            if(t.k == KSArr && t.st == pvd::pvFloat) for(uint64_t n : v.na) if(!(n & 0x7f800000u) && (n & 0x7fffffu)) return true;
            for(size_t i = 0; i < v.a.size(); i++) if(tiny(t.k == KStruct ? *t.kids[i] : elemTy(t), v.a[i])) return true;
            return false; } };
    if(H::plain(*tt) && !masked && !nf && !H::tiny(*tt, tv)) { VCHECK(eqVal(*tt, now, tv), "json-identity", vh::q(text) << " parsed as " << descVal(*tt, now) << " instead of " << descVal(*tt, tv)); vh::count("identities"); }
}

// ---------------------------------------------------------------- C17
static void parseInto(vh::Rng& R, const TyP& t, const J *j, const std::string& text, const Opt& O) {
    Val v(genVal(R, *t, O));
    pvd::PVFieldPtr f(make(*t, v, &R));
    std::vector<Node> nodes(flat(t));
    std::set<size_t> pre; pvd::BitSet assigned;
    if(R.coin()) genBits(R, assigned, pre, nodes.size());
    bool bits = R.chance(3, 4);
    Val want(v); Into m; m.nodes = &nodes; bool ok = true, judged = j != 0; std::string why;
    if(j) try { m.apply(*t, want, *j, 0); } catch(Reject& e) { ok = false; why = e.why; } catch(Undecided&) { judged = false; }
    bool got = true; std::string what;
    try {
        errno = 0;
        std::istringstream in(text);
        if(!bits && R.coin()) pvd::parseJSON(in, f);
        else pvd::parseJSON(in, *f, bits ? &assigned : 0);
    } catch(std::exception& e) { got = false; what = e.what(); }
    Val now(read(*f, *t)); // throws when the object is inconsistent
    if(judged) {
        VCHECK(got == ok, "json-into-verdict", (ok ? "refused: " + what : "accepted, but " + why) << " " << vh::q(text) << " into " << descTy(*t));
        if(ok) {
            VCHECK(eqVal(*t, now, want), "json-into", vh::q(text) << " over " << descVal(*t, v) << " gives " << descVal(*t, now) << " instead of " << descVal(*t, want));
            vh::count("into_accepted");
            if(bits) {
                std::set<size_t> a, w(pre); w.insert(m.assigned.begin(), m.assigned.end());
                for(int b = assigned.nextSetBit(0); b >= 0; b = assigned.nextSetBit(b + 1)) a.insert(b);
                VCHECK(a == w, "json-assigned", vh::q(text) << " assigned " << descBits(a) << " instead of " << descBits(w));
            }
        } else {
            vh::count("into_rejected");
            for(size_t i = 0; i < nodes.size(); i++) if(nodes[i].t->k != KStruct && !m.touched.count(i))
                VCHECK(eqVal(*nodes[i].t, at(nodes, now, i), at(nodes, v, i)), "json-unmentioned", nodes[i].full << " changed by " << vh::q(text));
        }
    } else vh::count(got ? "garbage_accepted" : "garbage_rejected");
    usable(*f, *t, v, R, got ? "accepting" : "rejecting", text);
}
MODE(into) {
    Opt O(jopt(R)); O.depth = 1 + R.below(3);
    TyP t(R.chance(7, 8) ? genStruct(R, O) : genTy(R, O));
    if(weight(*t) > 120) return;
    J j(genDoc(R, *t, O, R.coin() ? 0 : 1 + R.below(20)));
    Writer w(R); w.put(j);
    vh::distinct(vh::hstr(w.o, vh::hstr(descTy(*t))));
    parseInto(R, t, &j, w.o, O);
    vh::sample(descTy(*t) + " <- " + w.o);
    if(R.chance(1, 6)) { // the stream breaks at some point
        pvd::PVFieldPtr f(make(*t));
        FaultBuf b(w.o, R.below(w.o.size() + 1)); std::istream in(&b);
        VTHROWS(pvd::parseJSON(in, *f), "json-broken-stream", vh::q(w.o));
        read(*f, *t);
        FaultBuf b2(w.o, R.below(w.o.size() + 1)); std::istream in2(&b2);
        VTHROWS(pvd::parseJSON(in2), "json-broken-stream", vh::q(w.o));
        vh::count("broken_streams");
    }
}
static std::string anyName(vh::Rng& R) { return genName(R); }
static J genAny(vh::Rng& R, const Opt& O, int depth, unsigned err) {
    J j;
    unsigned c = R.below(depth > 0 ? 8 : 6);
    if(R.below(100) < err) {
        if(R.coin()) return j;
        j.k = J::Arr;
        for(size_t n = R.below(3); n--;) j.a.push_back(R.coin() ? genAny(R, O, depth - 1, 0) : genScalarJ(R, O));
        return j;
    }
    if(c < 4) return genScalarJ(R, O);
    if(c < 6) { j.k = J::Arr; J e(genScalarJ(R, O)); size_t n = R.chance(1, 60) ? 30 + R.below(1200) : 1 + R.below(5);
        while(j.a.size() < n) { J x(genScalarJ(R, O)); if(x.k == e.k || R.below(100) < err) j.a.push_back(x); } return j; }
    j.k = J::Obj;
    std::vector<std::string> names(genNames(R, R.below(5)));
    for(auto& n : names) { j.keys.push_back(n); j.a.push_back(genAny(R, O, depth - 1, err)); }
    if(R.below(100) < err) { static const char *n[] = { "", "a b", "a.b", "1a", "\xc3\xa9", "a-b" }; j.keys.push_back(n[R.below(6)]); j.a.push_back(genScalarJ(R, O)); }
    return j;
}
// what parseJSON(stream) should build
static TyP anyTy(const J& j, Val& v, bool top) {
    std::shared_ptr<Ty> t(new Ty);
    if(top && j.k != J::Obj) throw Reject("not an object");
    switch(j.k) {
    case J::Null: throw Reject("null");
    case J::Bool: t->k = KScalar; t->st = pvd::pvBoolean; v.n = j.b; break;
    case J::Int: if(j.over) throw Reject("overflow"); t->k = KScalar; t->st = pvd::pvLong; v.n = (uint64_t)j.i; break;
    case J::Dbl: if(j.over) throw Reject("overflow"); t->k = KScalar; t->st = pvd::pvDouble; v.n = toBits(j.d); break;
    case J::Str: t->k = KScalar; t->st = pvd::pvString; v.s = j.s; break;
    case J::Arr:
        t->k = KSArr;
        for(size_t i = 0; i < j.a.size(); i++) {
            if(j.a[i].k == J::Null || j.a[i].k == J::Obj || j.a[i].k == J::Arr) throw Reject("bad element");
            if(j.a[i].k != j.a[0].k) throw Reject("mixed");
            Val x; TyP et(anyTy(j.a[i], x, false)); t->st = et->st;
            if(et->st == pvd::pvString) v.sa.push_back(x.s); else v.na.push_back(x.n);
        }
        if(j.a.empty()) throw Undecided(); // no element type
        break;
    case J::Obj: {
        t->k = KStruct; t->id = "structure";
        std::map<std::string, size_t> order;
        bool und = false;
        for(size_t i = 0; i < j.keys.size(); i++) {
            const std::string& k = j.keys[i];
            if(!order.insert(std::make_pair(k, i)).second) und = true; // duplicate
            bool ok = !k.empty() && !isdigit((unsigned char)k[0]);
            for(char c : k) if(!isalnum((unsigned char)c) && c != '_') ok = false;
            if(!ok) throw Reject("name");
        }
        for(auto& kv : order) { Val x; bool u = false; try { t->kids.push_back(anyTy(j.a[kv.second], x, false)); } catch(Undecided&) { u = und = true; } if(u) continue; t->names.push_back(kv.first); v.a.push_back(x); }
        if(und) throw Undecided();
        break; }
    }
    return t;
}
static void parseAny(vh::Rng& R, const J *j, const std::string& text) {
    Val want; TyP t; bool ok = true, judged = j != 0; std::string why;
    if(j) try { t = anyTy(*j, want, true); } catch(Reject& e) { ok = false; why = e.why; } catch(Undecided&) { judged = false; }
    pvd::PVStructurePtr p; std::string what;
    try { errno = 0; std::istringstream in(text); p = pvd::parseJSON(in); } catch(std::exception& e) { what = e.what(); }
    if(judged) {
        VCHECK(!!p == ok, "json-any-verdict", (ok ? "refused: " + what : "accepted, but " + why) << " " << vh::q(text));
        vh::count(ok ? "any_accepted" : "any_rejected");
        if(ok) {
            TyP nt(tyOf(*p->getField()));
            VCHECK(eqTy(*nt, *t), "json-any-type", vh::q(text) << " gives " << descTy(*nt) << " instead of " << descTy(*t));
            Val now(read(*p, *nt));
            VCHECK(eqVal(*t, now, want), "json-any-value", vh::q(text) << " gives " << descVal(*t, now) << " instead of " << descVal(*t, want));
        }
    } else vh::count(p ? "garbage_accepted" : "garbage_rejected");
    if(p) { TyP nt(tyOf(*p->getField())); Val now(read(*p, *nt)); usable(*p, *nt, now, R, "new", text); }
}
MODE(any) {
    Opt O(jopt(R));
    J j(genAny(R, O, 3, R.coin() ? 0 : 3 + R.below(20)));
    if(j.k != J::Obj && R.chance(9, 10)) { J o; o.k = J::Obj; o.keys.push_back(anyName(R)); o.a.push_back(j); j = o; }
    Writer w(R); w.put(j);
    vh::distinct(vh::hstr(w.o));
    parseAny(R, &j, w.o);
}
// broken text; judged when it happens to be valid JSON
MODE(garbage) {
    Opt O(jopt(R)); O.depth = 1 + R.below(3);
    TyP t(R.chance(5, 6) ? genStruct(R, O) : genTy(R, O));
    if(weight(*t) > 120) return;
    std::string text;
    if(R.chance(1, 800)) { // deep
        size_t n = 1 + R.below(R.coin() ? 400 : 20000); bool obj = R.coin();
        for(size_t i = 0; i < n; i++) text += obj ? "{\"a\":" : "[";
        text += "1";
        if(R.coin()) for(size_t i = 0; i < n; i++) text += obj ? "}" : "]";
        vh::count("deep");
    } else {
        Writer w(R); w.put(R.coin() ? genDoc(R, *t, O, R.below(10)) : genAny(R, O, 3, R.below(10)));
        text = w.o;
        static const char *tok[] = { "{", "}", "[", "]", ",", ":", "\"", "'", "null", "true", "[[", "{}", "[]", "\\", "\n", "//", "/*", "-", "1e999", "\"a\":", "0x", "\\u", "\\ud800",
            "\xff", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "1.", ".5", "NaN", "-Infinity", "\xed\xa0\x80", "tru", "+", "e5" };
        for(size_t n = R.below(4); n--;) {
            size_t p = R.below(text.size() + 1);
            switch(R.below(6)) {
            case 0: text.insert(p, tok[R.below(sizeof(tok) / sizeof(*tok))]); break;
            case 1: if(!text.empty()) text[R.below(text.size())] = (char)R.below(256); break;
            case 2: text.erase(p); break;
            case 3: text.erase(p, 1 + R.below(5)); break;
            case 4: { size_t a = R.below(text.size() + 1); text.insert(p, text.substr(a, R.below(20))); break; }
            default: { size_t a = R.below(text.size() + 1); const char *s = tok[R.below(sizeof(tok) / sizeof(*tok))]; text.replace(a, R.below(3), s); }
            }
        }
    }
    vh::distinct(vh::hstr(text));
    J j; bool strict = false;
    try { Reader r(text, false); j = r.all(); strict = okUtf8(text); } catch(BadJson&) {} catch(Undecided&) {}
    if(strict) vh::count("still_json");
    parseInto(R, t, strict ? &j : 0, text, O);
    // deep documents may be refused
    parseAny(R, strict && text.size() < 1000 ? &j : 0, text);
}

VH_MAIN
