// C24: printing of values, types and strings
#include <iomanip>
#include <pv/anyscalar.h>
#include <pv/convert.h>
#include <pv/json.h>
#include <pv/bitSet.h>
#include <pv/status.h>
#include <pv/typeCast.h>
#include <epicsTime.h>
#include <epicsString.h>
#include <time.h>
#include "vh.h"
#include "gen.h"
#include "tree.h"
using namespace g;
using vh::count; using vh::distinct; using vh::sample; using vh::q;

namespace {
const char *SN[] = { "boolean", "byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong", "float", "double", "string" };

// ---- model of the text
bool plain(unsigned char c) { return c > 32 && c < 127 && c != '\\' && c != '\'' && c != '"'; }
std::string esc(const std::string& s, bool csv = false) {
    std::string o;
    for(size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        static const char *from = "\a\b\f\n\r\t\v\\'", *to = "abfnrtv\\'";
        const char *p = c ? strchr(from, c) : 0;
        if(p) { o += '\\'; o += to[p - from]; }
        else if(c == '"') { o += csv ? '"' : '\\'; o += '"'; }
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02X", c); o += b; }
        else o += (char)c;
    }
    return o;
}
std::string mq(const std::string& s) {
    for(size_t i = 0; i < s.size(); i++) if(!plain(s[i])) return '"' + esc(s) + '"';
    return s;
}
// what the escaped text says, read by the rules of C (two hex digits)
bool unesc(const std::string& s, std::string& o, bool csv) {
    o.clear();
    for(size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if(c < 32 || c > 126) return false;
        if(csv && c == '"') { if(++i >= s.size() || s[i] != '"') return false; o += '"'; continue; }
        if(c != '\\') { if(c == '"' || c == '\'') return false; o += (char)c; continue; }
        if(++i >= s.size()) return false;
        switch(s[i]) {
        case 'a': o += '\a'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
        case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'v': o += '\v'; break;
        case '\\': case '\'': case '"': o += s[i]; break;
        case 'x': { if(i + 2 >= s.size()) return false; unsigned v = 0;
            for(int k = 1; k <= 2; k++) { char d = s[i + k]; v = v * 16 + (d >= '0' && d <= '9' ? d - '0' : d >= 'A' && d <= 'F' ? d - 'A' + 10 : d >= 'a' && d <= 'f' ? d - 'a' + 10 : 999); }
            if(v > 255) return false; o += (char)v; i += 2; break; }
        default: return false;
        }
    }
    return true;
}
// formatting which the user set
struct Fmt { std::ios_base::fmtflags fl; std::streamsize prec; long ind; char fill;
    void set(std::ostream& o) const { o.flags(fl); o.precision(prec); o.fill(fill); o << pvd::format::indent_level(ind); }
    void check(std::ostream& o, const char *what, const std::string& d, bool failed = false) const {
        VCHECK(o.flags() == fl, "stream-flags", what << " left flags " << std::hex << o.flags() << " instead of " << fl << std::dec << " : " << d);
        VCHECK(o.precision() == prec, "stream-precision", what << " left precision " << o.precision() << " instead of " << prec << " : " << d);
        VCHECK(failed || o.width() == 0, "stream-width", what << " left a width: " << d);
        VCHECK(o.fill() == fill, "stream-fill", what << " left another fill character: " << d);
        VCHECK(pvd::format::indent_value(o) == ind, "stream-indent", what << " left indentation " << pvd::format::indent_value(o) << " instead of " << ind << " : " << d);
    }
};
Fmt genFmt(vh::Rng& R) {
    Fmt f; std::ostringstream o; f.fl = o.flags(); f.prec = 6; f.ind = 0; f.fill = ' ';
    if(R.chance(1, 3)) f.prec = R.below(18);
    if(R.chance(1, 3)) f.ind = R.below(4);
    if(R.chance(1, 4)) { f.fl &= ~std::ios_base::basefield; f.fl |= R.coin() ? std::ios_base::hex : std::ios_base::oct; }
    if(R.chance(1, 4)) f.fl |= R.coin() ? std::ios_base::fixed : std::ios_base::scientific;
    if(R.chance(1, 6)) f.fl |= std::ios_base::boolalpha;
    if(R.chance(1, 6)) f.fl |= std::ios_base::showpos;
    if(R.chance(1, 6)) f.fl |= std::ios_base::uppercase;
    if(R.chance(1, 6)) f.fl |= R.coin() ? std::ios_base::left : std::ios_base::right;
    return f;
}
std::string num(const Fmt& f, pvd::ScalarType st, uint64_t n) {
    std::ostringstream o; o.flags(f.fl); o.precision(f.prec);
    switch(st) {
    case pvd::pvBoolean: return n & 0xff ? "true" : "false";
    case pvd::pvByte: o << (int)(int8_t)n; break;   case pvd::pvUByte: o << (unsigned)(uint8_t)n; break;
    case pvd::pvShort: o << (int16_t)n; break;      case pvd::pvUShort: o << (uint16_t)n; break;
    case pvd::pvInt: o << (int32_t)n; break;        case pvd::pvUInt: o << (uint32_t)n; break;
    case pvd::pvLong: o << (int64_t)n; break;       case pvd::pvULong: o << (uint64_t)n; break;
    case pvd::pvFloat: { uint32_t u = n; float x; memcpy(&x, &u, 4); o << x; break; }
    case pvd::pvDouble: { double x; memcpy(&x, &n, 8); o << x; break; }
    default: break;
    }
    return o.str();
}
std::string idOf(const Ty& t) {
    std::string n(std::to_string((unsigned long long)t.bound));
    switch(t.k) {
    case KScalar: return SN[t.st];
    case KBStr: return "string(" + n + ")";
    case KSArr: return std::string(SN[t.st]) + (t.pol == 0 ? "[]" : t.pol == 1 ? "<" + n + ">" : "[" + n + "]");
    case KStruct: case KUnion: return t.id;
    case KStructArr: case KUnionArr: return t.kids[0]->id + "[]";
    case KVariant: return "any";
    case KVarArr: return "any[]";
    }
    return "?";
}
bool simple(const Ty& t) { return t.k == KScalar || t.k == KBStr || t.k == KSArr; }
std::string ind(long n) { return std::string(4 * n, ' '); }
std::string leaf(const Fmt& f, const Ty& t, const Val& v) {
    if(t.k == KBStr || (t.k == KScalar && t.st == pvd::pvString)) return mq(v.s);
    if(t.k == KScalar) return num(f, t.st, v.n);
    std::string o("[");
    if(t.st == pvd::pvString) { for(size_t i = 0; i < v.sa.size(); i++) o += (i ? ", " : "") + mq(v.sa[i]); }
    else for(size_t i = 0; i < v.na.size(); i++) o += (i ? "," : "") + num(f, t.st, v.na[i]);
    return o + "]";
}
void block(std::string& o, const Fmt& f, const Ty& t, const Val& v, long n, const std::string& name);
void member(std::string& o, const Fmt& f, const Ty& t, const Val& v, long n, const std::string& name) {
    if(simple(t)) o += ind(n) + idOf(t) + " " + name + " " + leaf(f, t, v) + "\n";
    else block(o, f, t, v, n, name);
}
void block(std::string& o, const Fmt& f, const Ty& t, const Val& v, long n, const std::string& name) {
    o += ind(n) + idOf(t) + " " + name + "\n";
    switch(t.k) {
    case KStruct: for(size_t i = 0; i < t.kids.size(); i++) member(o, f, *t.kids[i], v.a[i], n + 1, t.names[i]); break;
    case KUnion: if(v.sel < 0) o += ind(n + 1) + "(none)\n"; else member(o, f, *t.kids[v.sel], v.a[0], n + 1, ""); break;
    case KVariant: if(!v.vt) o += ind(n + 1) + "(none)\n"; else member(o, f, *v.vt, v.a[0], n + 1, ""); break;
    case KStructArr: case KUnionArr: case KVarArr:
        for(size_t i = 0; i < v.a.size(); i++) { if(v.a[i].null) o += ind(n + 1) + "(none)\n"; else block(o, f, elemTy(t), v.a[i], n + 1, ""); } break;
    default: break;
    }
}
std::string text(const Fmt& f, const Ty& t, const Val& v, const std::string& name) {
    if(simple(t)) return leaf(f, t, v);
    std::string o; block(o, f, t, v, f.ind, name); return o;
}
// types
void typeText(std::string& o, const Ty& t, long n);
void typeMembers(std::string& o, const Ty& t, long n) {
    for(size_t i = 0; i < t.kids.size(); i++) {
        const Ty& k = *t.kids[i];
        o += ind(n) + idOf(k) + " " + t.names[i] + "\n";
        switch(k.k) {
        case KStruct: case KUnion: case KVariant: typeMembers(o, k, n + 1); break;
        case KStructArr: case KUnionArr: case KVarArr: {
            static const Ty var = variantTy();
            const Ty& e = k.k == KVarArr ? var : *k.kids[0];
            if(t.k == KStruct) typeText(o, e, n + 1); // the element
            else { o += ind(n + 1) + idOf(k) + "\n"; typeText(o, e, n + 2); }
            break; }
        default: break;
        }
    }
}
void typeText(std::string& o, const Ty& t, long n) {
    o += ind(n) + idOf(t);
    switch(t.k) {
    case KScalar: case KBStr: case KSArr: return;
    case KStruct: case KUnion: case KVariant: o += "\n"; typeMembers(o, t, n + 1); return;
    case KStructArr: case KUnionArr: o += "\n"; typeText(o, *t.kids[0], n + 1); return;
    case KVarArr: o += "\n"; typeText(o, variantTy(), n + 1); return;
    }
}
std::string diff(const std::string& got, const std::string& want) {
    size_t i = 0; while(i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t from = i > 60 ? i - 60 : 0;
    return "at " + std::to_string(i) + ": " + q(got.substr(from, 160)) + " instead of " + q(want.substr(from, 160));
}
// a destination which fails after some characters
struct FailBuf : std::streambuf {
    std::string s; size_t left; bool thrw;
    FailBuf(size_t n, bool t) : left(n), thrw(t) {}
    virtual int_type overflow(int_type c) {
        if(!left) { if(thrw) throw std::runtime_error("injected write failure"); return traits_type::eof(); }
        left--; s += (char)c; return c;
    }
};
Opt popt(vh::Rng& R) {
    Opt O; O.depth = 1 + R.below(4); O.width = 1 + R.below(6);
    return O;
}
// ---- the well known structures
typedef std::shared_ptr<Ty> TP;
TP scal(pvd::ScalarType st) { TP t(new Ty); t->k = KScalar; t->st = st; return t; }
TP sarr(pvd::ScalarType st) { TP t(new Ty); t->k = KSArr; t->st = st; return t; }
pvd::ScalarType anInt(vh::Rng& R) { return (pvd::ScalarType)(pvd::pvByte + R.below(8)); }
TP like(vh::Rng& R, pvd::ScalarType usual) {
    if(R.chance(3, 4)) return scal(usual);
    switch(R.below(6)) { case 0: return scal(pvd::pvString); case 1: return scal(pvd::pvBoolean); case 2: return sarr(pvd::pvInt); default: return scal(anInt(R)); }
}
void mem(vh::Rng& R, Ty& t, const char *n, TP k, unsigned often = 12) { if(R.chance(often - 1, often)) { t.names.push_back(n); t.kids.push_back(k); } }
void extra(vh::Rng& R, Ty& t) { if(R.chance(1, 8)) { t.names.push_back("extra_"); t.kids.push_back(genTy(R, Opt())); } }
TP alarmTy(vh::Rng& R) { TP t(new Ty); t->k = KStruct; t->id = R.chance(5, 6) ? "alarm_t" : "structure";
    mem(R, *t, "severity", like(R, pvd::pvInt)); mem(R, *t, "status", like(R, pvd::pvInt)); mem(R, *t, "message", like(R, pvd::pvString)); extra(R, *t); return t; }
TP timeTy(vh::Rng& R) { TP t(new Ty); t->k = KStruct; t->id = R.chance(5, 6) ? "time_t" : "structure";
    mem(R, *t, "secondsPastEpoch", like(R, pvd::pvLong)); mem(R, *t, "nanoseconds", like(R, pvd::pvInt)); mem(R, *t, "userTag", like(R, pvd::pvInt)); extra(R, *t); return t; }
TP enumTy(vh::Rng& R) { TP t(new Ty); t->k = KStruct; t->id = R.chance(5, 6) ? "enum_t" : "structure";
    mem(R, *t, "index", like(R, pvd::pvInt)); mem(R, *t, "choices", R.chance(1, 8) ? sarr(pvd::pvInt) : sarr(pvd::pvString)); extra(R, *t); return t; }
// smaller numbers in them, so that the named cases are met
void tame(vh::Rng& R, const Ty& t, Val& v) {
    if(t.k != KStruct) return;
    for(size_t i = 0; i < t.kids.size(); i++) {
        const Ty& k = *t.kids[i]; const std::string& n = t.names[i];
        if(k.k == KStruct) { tame(R, k, v.a[i]); continue; }
        if(k.k != KScalar || k.st == pvd::pvString || k.st == pvd::pvFloat || k.st == pvd::pvDouble || k.st == pvd::pvBoolean) continue;
        uint64_t x = v.a[i].n;
        if(n == "severity" || n == "status") { if(R.chance(5, 6)) x = R.below(9); }
        else if(n == "index") { if(R.chance(5, 6)) x = R.below(5); }
        else if(n == "nanoseconds") { if(R.chance(3, 4)) x = R.below(1000000000); }
        else if(n == "userTag") { if(R.coin()) x = R.below(3); }
        else if(n == "secondsPastEpoch") switch(R.below(6)) {
            case 0: x = 631152000 + R.below(3); break; case 1: x = 631152000ull + 0xffffffffull - R.below(3); break;
            case 2: x = R.below(1u << 31); break; case 3: x = 1500000000 + R.below(1000000000); break; case 4: x = 0xfffffffeull + R.below(4); break; default: break; }
        v.a[i].n = x & maskw(width(k.st));
    }
}
int find(const Ty& t, const std::string& n) { for(size_t i = 0; i < t.names.size(); i++) if(t.names[i] == n) return (int)i; return -1; }
int64_t sext(pvd::ScalarType st, uint64_t n) {
    switch(st) { case pvd::pvByte: return (int8_t)n; case pvd::pvShort: return (int16_t)n; case pvd::pvInt: return (int32_t)n; default: return (int64_t)n; }
}
bool integer(const Ty& t) { return t.k == KScalar && t.st >= pvd::pvByte && t.st <= pvd::pvULong; }
std::string alarmText(const Fmt& f, const Ty& t, const Val& v) {
    int s = find(t, "severity"), a = find(t, "status"), m = find(t, "message");
    int32_t sv = s >= 0 && t.kids[s]->k == KScalar && t.kids[s]->st == pvd::pvInt ? (int32_t)v.a[s].n : 0;
    int32_t av = a >= 0 && t.kids[a]->k == KScalar && t.kids[a]->st == pvd::pvInt ? (int32_t)v.a[a].n : 0;
    if(!sv) return "";
    static const char *S[] = { "", "MINOR ", "MAJOR ", "INVALID ", "UNDEFINED " }, *A[] = { "", "DEVICE ", "DRIVER ", "RECORD ", "DB ", "CONF ", "UNDEFINED ", "CLIENT " };
    std::string o(sv > 0 && sv < 5 ? S[sv] : num(f, pvd::pvInt, (uint32_t)sv) + " ");
    o += av >= 0 && av < 8 ? A[av] : num(f, pvd::pvInt, (uint32_t)av) + " ";
    if(m >= 0 && ((t.kids[m]->k == KScalar && t.kids[m]->st == pvd::pvString) || t.kids[m]->k == KBStr) && !v.a[m].s.empty()) o += v.a[m].s + " ";
    return o;
}
std::string timeText(const Fmt& f, const Ty& t, const Val& v) {
    int s = find(t, "secondsPastEpoch"), n = find(t, "nanoseconds"), g = find(t, "userTag");
    int64_t sv = s >= 0 && integer(*t.kids[s]) ? sext(t.kids[s]->st, v.a[s].n) : 0;
    uint32_t nv = n >= 0 && integer(*t.kids[n]) ? (uint32_t)sext(t.kids[n]->st, v.a[n].n) : 0;
    int64_t gv = g >= 0 && integer(*t.kids[g]) ? sext(t.kids[g]->st, v.a[g].n) : 0;
    std::string o;
    const int64_t E = 631152000;
    uint32_t past = sv > E && sv - E <= 0xffffffffll ? (uint32_t)(sv - E) : 0;
    if(!past && !nv) o = "<undefined>";
    else {
        time_t tt = (time_t)past + E; struct tm tm; localtime_r(&tt, &tm);
        char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); o = b;
        if(nv >= 1000000000u) o += ".OVF"; else { snprintf(b, sizeof b, ".%03u", std::min(999u, (nv + 500000) / 1000000)); o += b; }
    }
    while(o.size() < 24) o += f.fill;
    o += " ";
    if(gv) o += num(f, pvd::pvLong, (uint64_t)gv) + " ";
    return o;
}
bool enumText(const Fmt& f, const Ty& t, const Val& v, std::string& o) {
    int i = find(t, "index"), c = find(t, "choices");
    if(i < 0 || !(integer(*t.kids[i]) || (t.kids[i]->k == KScalar && (t.kids[i]->st == pvd::pvFloat || t.kids[i]->st == pvd::pvDouble)))) return false;
    if(c < 0 || t.kids[c]->k != KSArr || t.kids[c]->st != pvd::pvString) return false;
    uint32_t x = (uint32_t)sext(t.kids[i]->st, v.a[i].n);
    o += "(" + num(f, pvd::pvUInt, x) + ")";
    o += x < v.a[c].sa.size() ? " " + mq(v.a[c].sa[x]) : " <undefined>";
    return true;
}
std::string rawText(const Fmt& f, const std::vector<Node>& nodes, Val& root, size_t top, const std::set<size_t>& shown, const std::set<size_t>& hl, bool ansi) {
    std::string o;
    if(!shown.count(top)) return o;
    std::map<size_t, long> depth; depth[top] = f.ind;
    for(size_t i = top; i < top + nodes[top].num; i++) {
        if(i != top) depth[i] = depth[nodes[i].parent] + 1;
        if(!shown.count(i)) continue;
        const Ty& t = *nodes[i].t; const Val& v = at(nodes, root, i);
        bool h = ansi && hl.count(i);
        if(h) o += "\x1b[1m";
        if(t.k == KStruct) {
            o += ind(depth[i]) + t.id + " " + nodes[i].name;
            if(t.id == "alarm_t") o += " " + alarmText(f, t, v);
            else if(t.id == "time_t") o += " " + timeText(f, t, v);
            else if(t.id == "enum_t") { o += " "; enumText(f, t, v, o); }
            o += "\n";
        } else member(o, f, t, v, depth[i], nodes[i].name);
        if(h) o += "\x1b[0m";
    }
    return o;
}
std::string cell(const std::string& s) {
    std::string e(esc(s, true));
    return s.find_first_of("\" ,\\") != std::string::npos ? "\"" + e + "\"" : e;
}
std::string pad(const Fmt& f, const std::string& s, size_t w) { return s.size() < w ? std::string(w - s.size(), f.fill) + s : s; }
const Ty *sub(const Ty& t, const Val& v, const char *n, const Val *&o) { int i = find(t, n); if(i < 0) return 0; o = &v.a[i]; return t.kids[i].get(); }
std::string metaTime(const Fmt& f, const Ty& t, const Val& v) { const Val *x = 0; const Ty *s = sub(t, v, "timeStamp", x); return s && s->k == KStruct ? timeText(f, *s, *x) : ""; }
std::string metaAlarm(const Fmt& f, const Ty& t, const Val& v) { const Val *x = 0; const Ty *s = sub(t, v, "alarm", x); return s && s->k == KStruct ? alarmText(f, *s, *x) : ""; }
bool ntText(const Fmt& f, const Ty& t, const Val& v, std::string& o) {
    const Val *x = 0; const Ty *s = sub(t, v, "value", x);
    if(!s) return false;
    if(t.id.substr(0, t.id.find('.')) == "epics:nt/NTTable:1") {
        if(s->k != KStruct || s->kids.empty()) return false;
        for(auto& k : s->kids) if(k->k != KSArr) return false;
        bool ht = find(t, "timeStamp") >= 0, ha = find(t, "alarm") >= 0;
        if(ht || ha) o += ind(f.ind);
        if(ht) o += metaTime(f, t, v) + " ";
        if(ha) o += metaAlarm(f, t, v) + " ";
        o += "\n";
        std::vector<std::string> lab;
        const Val *l = 0; const Ty *lt = sub(t, v, "labels", l);
        size_t nc = s->kids.size(), rows = (size_t)-1;
        if(lt && lt->k == KSArr && lt->st == pvd::pvString) for(size_t i = 0; i < nc && i < l->sa.size(); i++) lab.push_back(cell(l->sa[i]));
        while(lab.size() < nc) lab.push_back(s->names[lab.size()]);
        std::vector<std::vector<std::string> > col(nc);
        std::vector<size_t> w(nc);
        Fmt def; def.fl = std::ostringstream().flags(); def.prec = 6; def.ind = 0; def.fill = ' ';
        for(size_t c = 0; c < nc; c++) {
            w[c] = lab[c].size();
            const Val& cv = x->a[c];
            if(s->kids[c]->st == pvd::pvString) for(auto& e : cv.sa) col[c].push_back(cell(e));
            else for(auto e : cv.na) col[c].push_back(cell(num(def, s->kids[c]->st, e)));
            for(auto& e : col[c]) w[c] = std::max(w[c], e.size());
            rows = std::min(rows, col[c].size());
        }
        for(size_t r = 0; r <= rows; r++) {
            o += ind(f.ind);
            for(size_t c = 0; c < nc; c++) o += (c ? " " : "") + pad(f, r ? col[c][r - 1] : lab[c], w[c]);
            o += "\n";
        }
        count("tables");
        return true;
    }
    Fmt f6(f); f6.prec = 6;
    if(s->k == KScalar || s->k == KBStr) { o += ind(f.ind) + metaTime(f, t, v) + leaf(f6, *s, *x) + " " + metaAlarm(f6, t, v) + "\n"; count("nt_scalars"); return true; }
    if(s->k == KSArr) { o += ind(f.ind) + metaTime(f, t, v) + metaAlarm(f, t, v) + leaf(f6, *s, *x) + "\n"; count("nt_arrays"); return true; }
    if(s->k == KStruct) { std::string e; if(!enumText(f, *s, *x, e)) return false; o += ind(f.ind) + metaTime(f, t, v) + metaAlarm(f, t, v) + e + "\n"; count("nt_enums"); return true; }
    return false;
}
}

MODE(value) {
    Opt O(popt(R));
    TyP t(R.chance(2, 3) ? genStruct(R, O) : genTy(R, O));
    if(weight(*t) > 200) return;
    Val v(genVal(R, *t, O));
    pvd::PVFieldPtr p(make(*t, v, &R));
    pvd::PVFieldPtr top(p); const Ty *tt = t.get(); Val tv(v); std::string name;
    if(t->k == KStruct && !t->kids.empty() && R.chance(1, 3)) { // any field of it
        std::vector<Node> nodes(flat(t)); size_t i = R.below(nodes.size());
        if(i) { p = std::tr1::static_pointer_cast<pvd::PVStructure>(top)->getSubFieldT(i); tt = nodes[i].t.get(); tv = at(nodes, v, i); name = nodes[i].name; count("members"); }
    }
    Fmt f(genFmt(R));
    std::string want(text(f, *tt, tv, name));
    std::string d(descTy(*tt) + " = " + descVal(*tt, tv));
    std::ostringstream o; f.set(o);
    const pvd::PVField& cp = *p;
    std::string prefix;
    switch(R.below(3)) {
    case 0: o << cp; break;
    case 1: cp.dumpValue(o); break;
    default: prefix = "x"; o << prefix << cp << prefix; break;
    }
    VCHECK(o.good(), "print-failed", d);
    VCHECK(o.str() == prefix + want + prefix, "value-text", diff(o.str(), prefix + want + prefix) << " : " << d);
    f.check(o, "value", d);
    VCHECK(eqVal(*t, read(*top, *t), v), "print-modifies", d);
    count("values");
    // the same text for an equal value, however it was made
    pvd::PVFieldPtr c(name.empty() ? make(*tt, tv, &R) : pvd::PVFieldPtr());
    if(c) { std::ostringstream o2; f.set(o2); o2 << *c; VCHECK(o2.str() == want, "equal-values-differ", diff(o2.str(), want) << " : " << d); count("equal_values"); }
    { Fmt def; def.fl = std::ostringstream().flags(); def.prec = 6; def.ind = 0; def.fill = ' ';
      std::string s("old"); pvd::getConvert()->getString(&s, p); std::string w(text(def, *tt, tv, name) + "\n");
      VCHECK(s == w, "convert-string", diff(s, w) << " : " << d);
      s.clear(); pvd::getConvert()->getString(&s, p.get(), R.below(4)); VCHECK(s == w, "convert-string", diff(s, w) << " : " << d); }
    // single elements
    if(tt->k == KSArr || tt->k == KStructArr || tt->k == KUnionArr || tt->k == KVarArr) {
        size_t n = tt->k == KSArr ? (tt->st == pvd::pvString ? tv.sa.size() : tv.na.size()) : tv.a.size();
        size_t i = R.below(n + 2);
        std::ostringstream e; f.set(e);
        bool threw = false;
        try { e << pvd::format::array_at(i) << dynamic_cast<const pvd::PVArray&>(cp); } catch(std::out_of_range&) { threw = true; }
        std::string w;
        if(i >= n) VCHECK(threw == (tt->k == KSArr), "element-range", "element " << i << " of " << n << " : " << d);
        else {
            VCHECK(!threw, "element-range", "element " << i << " of " << n << " : " << d);
            if(tt->k == KSArr) w = tt->st == pvd::pvString ? mq(tv.sa[i]) : num(f, tt->st, tv.na[i]);
            else if(tv.a[i].null) w = ind(f.ind) + "(none)\n";
            else block(w, f, elemTy(*tt), tv.a[i], f.ind, "");
        }
        VCHECK(e.str() == w, "element-text", diff(e.str(), w) << " : element " << i << " of " << d);
        f.check(e, "element", d);
        count("elements");
    }
    distinct(vh::mix(hashCase(*tt, tv) + f.fl + 31 * f.prec + 7 * f.ind));
    if(weight(*tt) < 5) sample(want.substr(0, 300));
}

MODE(type) {
    Opt O(popt(R)); O.hugeBounds = R.chance(1, 4);
    TyP t(genTy(R, O));
    if(weight(*t) > 400) return;
    pvd::FieldConstPtr fld(build(*t));
    Fmt f(genFmt(R));
    std::string want; typeText(want, *t, f.ind);
    std::ostringstream o; f.set(o);
    std::string d(descTy(*t));
    switch(R.below(3)) {
    case 0: o << *fld; break;
    case 1: fld->dump(o); break;
    default: std::operator<<(o, fld.get());
    }
    VCHECK(o.good() && o.str() == want, "type-text", diff(o.str(), want) << " : " << d);
    f.check(o, "type", d);
    TyP again(tyOf(*fld));
    VCHECK(eqTy(*t, *again), "type-modified", d);
    count("types"); distinct(vh::mix(vh::hstr(d) + f.ind));
    if(weight(*t) < 5) sample(want);
}

MODE(format) {
    Opt O(popt(R));
    TP t(new Ty(*genStruct(R, O)));
    // recognized members at random places
    for(unsigned k = R.below(4); k--; ) {
        TP s; const char *n;
        switch(R.below(4)) { case 0: s = alarmTy(R); n = "alarm"; break; case 1: s = timeTy(R); n = "timeStamp"; break; case 2: s = enumTy(R); n = R.coin() ? "value" : "choice"; break;
            default: s = R.coin() ? scal((pvd::ScalarType)R.below(12)) : sarr((pvd::ScalarType)R.below(12)); n = "value"; }
        int i = find(*t, n);
        if(i >= 0) t->kids[i] = s; else { size_t p = R.below(t->kids.size() + 1); t->names.insert(t->names.begin() + p, n); t->kids.insert(t->kids.begin() + p, s); }
    }
    if(R.chance(1, 4)) { // a table
        static const char *ids[] = { "epics:nt/NTTable:1.0", "epics:nt/NTTable:1", "epics:nt/NTTable:1.9.9", "epics:nt/NTTable:2.0", "epics:nt/NTTable:10" };
        t->id = ids[R.chance(4, 5) ? R.below(3) : R.below(5)];
        TP s(new Ty); s->k = KStruct; s->id = "structure";
        size_t n = R.chance(1, 10) ? 0 : 1 + R.below(5);
        s->names = genNames(R, n); for(size_t i = 0; i < n; i++) s->kids.push_back(R.chance(1, 40) ? scal(pvd::pvInt) : sarr((pvd::ScalarType)R.below(12)));
        int i = find(*t, "value"); if(i >= 0) t->kids[i] = s; else { t->names.push_back("value"); t->kids.push_back(s); }
        if(find(*t, "labels") < 0 && R.chance(3, 4)) { t->names.push_back("labels"); t->kids.push_back(sarr(R.chance(1, 10) ? pvd::pvInt : pvd::pvString)); }
    }
    TyP ct(t);
    if(weight(*ct) > 200) return;
    if(R.chance(1, 4)) { // inside of another one
        TP w(new Ty); w->k = KStruct; w->id = "outer"; w->names = genNames(R, 1 + R.below(3));
        for(size_t i = 0; i < w->names.size(); i++) w->kids.push_back(TyP(scal(pvd::pvInt)));
        w->kids[R.below(w->kids.size())] = ct; ct = w;
    }
    Val v(genVal(R, *ct, O)); tame(R, *ct, v);
    { // tables with columns of the same length
        int i = find(*ct, "value");
        if(i >= 0 && ct->kids[i]->k == KStruct && R.chance(2, 3)) { size_t n = R.below(5); Val& x = v.a[i];
            for(size_t c = 0; c < ct->kids[i]->kids.size(); c++) if(ct->kids[i]->kids[c]->k == KSArr && ct->kids[i]->kids[c]->pol == 0) {
                if(ct->kids[i]->kids[c]->st == pvd::pvString) { x.a[c].sa.resize(n); if(R.coin()) for(auto& s : x.a[c].sa) s = genStr(R, O); } else x.a[c].na.resize(n); } } }
    // no float which can not be converted to an integer where a number of the recognized structures is expected
    std::function<bool(const Ty&)> floats = [&](const Ty& y) { if(y.k != KStruct) return false;
        for(size_t i = 0; i < y.kids.size(); i++) { const std::string& n = y.names[i];
            if(y.kids[i]->k == KScalar && (y.kids[i]->st == pvd::pvFloat || y.kids[i]->st == pvd::pvDouble) && (n == "index" || n == "nanoseconds" || n == "userTag" || n == "secondsPastEpoch")) return true;
            if(floats(*y.kids[i])) return true; }
        return false; };
    if(floats(*ct)) return;
    pvd::PVStructurePtr root(makeStruct(*ct, v, &R)), top(root);
    std::vector<Node> nodes(flat(ct)); size_t ti = 0;
    if(R.chance(1, 3)) { size_t i = R.below(nodes.size()); if(i && nodes[i].t->k == KStruct) { ti = i; top = std::tr1::static_pointer_cast<pvd::PVStructure>(root->getSubFieldT(i)); count("substructures"); } }
    const Ty& tt = *nodes[ti].t; Val tv(at(nodes, v, ti));
    Fmt f(genFmt(R)); if(R.chance(1, 6)) f.fill = '.';
    std::set<size_t> sb, hb, shown, hl; pvd::BitSet show, high;
    bool useShow = R.coin(), useHigh = R.coin();
    if(useShow) genBits(R, show, sb, nodes.size()); else sb.insert(0);
    if(useHigh) genBits(R, high, hb, nodes.size());
    for(size_t i = ti; i < ti + nodes[ti].num; i++) {
        bool on = false, h = false;
        for(long k = (long)i; k >= 0; k = nodes[k].parent) { if(sb.count(k)) on = true; if(hb.count(k)) h = true; }
        if(on) for(long k = (long)i; k >= 0; k = nodes[k].parent) shown.insert(k);
        if(h) hl.insert(i);
    }
    typedef pvd::PVStructure::Formatter F;
    F::format_t fm = R.pick(std::vector<F::format_t>{ F::Raw, F::Raw, F::NT, F::NT, F::JSON });
    F::mode_t mode = R.pick(std::vector<F::mode_t>{ F::Auto, F::Plain, F::ANSI });
    std::string want; std::string d(descTy(tt) + " = " + descVal(tt, tv) + (useShow ? " show " + descBits(sb) : "") + (useHigh ? " highlight " + descBits(hb) : ""));
    const pvd::PVStructure& cs = *top;
    if(fm == F::JSON) {
        std::ostringstream j; pvd::JSONPrintOptions po; po.multiLine = false; po.json5 = true;
        pvd::printJSON(j, cs, useShow ? show : pvd::BitSet().set(0), po); want = j.str() + "\n"; count("as_json");
    } else if(fm != F::NT || !ntText(f, tt, tv, want)) { want = rawText(f, nodes, v, ti, shown, hl, mode == F::ANSI); count(mode == F::ANSI ? "highlighted" : "raw"); }
    else count("as_nt");
    F fmt(cs.stream()); fmt.format(fm).mode(mode);
    if(useShow) fmt.show(show);
    if(useHigh) fmt.highlight(high);
    std::ostringstream o; f.set(o);
    std::string what; bool threw = false;
    try { if(fm == F::NT && mode == F::Auto && !useShow && !useHigh && R.coin()) o << cs.stream(); else o << fmt; } catch(std::exception& e) { threw = true; what = e.what(); }
    VCHECK(!threw, "format-throws", what << " : " << d);
    VCHECK(o.good() && o.str() == want, "format-text", (fm == F::NT ? "NT " : fm == F::JSON ? "JSON " : "Raw ") << diff(o.str(), want) << " : " << d);
    f.check(o, "formatter", d);
    VCHECK(eqVal(*ct, read(*root, *ct), v), "print-modifies", d);
    { std::set<size_t> a, b; for(int i = show.nextSetBit(0); i >= 0; i = show.nextSetBit(i + 1)) a.insert(i); for(int i = high.nextSetBit(0); i >= 0; i = high.nextSetBit(i + 1)) b.insert(i);
      VCHECK((!useShow || a == sb) && (!useHigh || b == hb), "selection-modified", d); }
    distinct(vh::mix(hashCase(tt, tv) + fm + 3 * mode) ^ vh::hstr(descBits(sb) + descBits(hb)));
    if(weight(tt) < 6) sample(want.substr(0, 300));
}

// text of strings
MODE(text) {
    Opt O; std::string s(genStr(R, O));
    if(R.chance(1, 2)) { s.clear(); for(size_t n = 1 + R.below(20); n--; ) s += (char)R.below(256); }
    bool csv = R.coin();
    std::string orig(s);
    pvd::escape e(s); if(csv) e.style(pvd::escape::CSV);
    Fmt f(genFmt(R)); std::ostringstream o; f.set(o); o << e;
    std::string t(o.str()), back;
    f.check(o, "escape", q(s));
    VCHECK(unesc(t, back, csv), "escape-malformed", q(s) << " as " << q(t));
    VCHECK(back == s && s == orig, "escape-roundtrip", q(s) << " as " << q(t) << " reads " << q(back));
    VCHECK(t == esc(s, csv) && e.str() == t, "escape-text", diff(t, esc(s, csv)));
    if(!csv) { // base reads the same
        std::vector<char> b(t.size() + 1); int n = epicsStrnRawFromEscaped(&b[0], b.size(), t.c_str(), t.size());
        VCHECK(n == (int)s.size() && std::string(&b[0], n) == s, "escape-base", q(s) << " as " << q(t)); }
    std::ostringstream m; f.set(m); m << pvd::maybeQuote(s);
    std::string x(m.str());
    f.check(m, "maybeQuote", q(s));
    for(unsigned char c : x) VCHECK(c >= 32 && c < 127, "quote-unprintable", q(s) << " as " << q(x));
    VCHECK(x == mq(s), "quote-text", diff(x, mq(s)));
    if(!x.empty() && x[0] == '"') { VCHECK(x.size() >= 2 && x[x.size() - 1] == '"' && unesc(x.substr(1, x.size() - 2), back, false) && back == s, "quote-roundtrip", q(s) << " as " << q(x)); count("quoted"); }
    else VCHECK(x == s, "quote-changed", q(s) << " as " << q(x));
    count("escaped"); distinct(vh::hstr(s) + csv);
}

template<typename T> static void vecText(vh::Rng& R, pvd::ScalarType st) {
    Opt O; size_t n = R.below(16);
    pvd::shared_vector<T> a(n); std::string w("{" + std::to_string(n) + "}[");
    Fmt f(genFmt(R));
    Fmt sz(f); std::ostringstream so; so.flags(f.fl); so << n; w = "{" + so.str() + "}[";
    for(size_t i = 0; i < n; i++) {
        uint64_t x = genNum(R, st, O); T y; memcpy(&y, &x, sizeof y); a[i] = y;
        if(i < 11) { w += num(f, st, x); if(i + 1 < n) w += ", "; } else if(i == 11) w += "...";
    }
    w += "]";
    std::ostringstream o; f.set(o); 
    if(R.coin()) o << a; else { pvd::shared_vector<const T> c(freeze(a)); o << c; }
    VCHECK(o.str() == w, "vector-text", diff(o.str(), w));
    f.check(o, "vector", w);
    count("vectors"); distinct(vh::hstr(w));
}
MODE(small) {
    Fmt f(genFmt(R)); std::ostringstream o; f.set(o);
    std::string w; Opt O;
    switch(R.below(6)) {
    case 0: { // bit sets
        pvd::BitSet b; std::set<size_t> ref; genBits(R, b, ref, 1 + R.below(200));
        w = "{"; for(size_t x : ref) { if(w.size() > 1) w += ", "; w += num(f, pvd::pvInt, x); } w += "}";
        o << b; count("bitsets"); break; }
    case 1: { // statuses
        static const char *T[] = { "OK", "WARNING", "ERROR", "FATAL" };
        int k = R.below(4); std::string m(R.coin() ? genStr(R, O) : ""), s(R.coin() ? genStr(R, O) : "");
        pvd::Status st;
        if(k || !m.empty() || !s.empty() || R.coin()) { if(k == 0) { m.clear(); s.clear(); } else st = pvd::Status((pvd::Status::StatusType)k, m, s); }
        w = std::string("Status [type=") + T[k]; if(!m.empty()) w += ", message=" + m; if(!s.empty()) w += ", stackDump=\n" + s; w += "]";
        if(R.chance(1, 4)) { w = T[k]; o << st.getType(); } else if(R.coin()) o << st; else st.dump(o);
        count("statuses"); break; }
    case 2: { // scalars without type
        pvd::ScalarType st = (pvd::ScalarType)R.below(13);
        if(st > 11) { o << pvd::AnyScalar(); w = "(nil)"; }
        else if(st == pvd::pvString) { std::string s(genStr(R, O)); pvd::AnyScalar a(s); o << a; w = s; }
        else { uint64_t x = genNum(R, st, O); if(st == pvd::pvBoolean) x &= 1; pvd::AnyScalar a(st, &x); o << a; w = num(f, st, x); }
        count("anyscalars"); break; }
    case 3: { // kinds of types
        static const char *K[] = { "scalar", "scalarArray", "structure", "structureArray", "union", "unionArray" };
        if(R.coin()) { int k = R.below(6); o << (pvd::Type)k; w = K[k]; VCHECK(w == pvd::TypeFunc::name((pvd::Type)k), "kind-name", w); }
        else { int k = R.below(12); o << (pvd::ScalarType)k; w = SN[k]; VCHECK(w == pvd::ScalarTypeFunc::name((pvd::ScalarType)k), "kind-name", w);
               VCHECK(pvd::ScalarTypeFunc::getScalarType(w) == (pvd::ScalarType)k, "kind-parse", w);
               std::string x(R.coin() ? w + genStr(R, O, 3) : R.coin() ? w.substr(0, R.below(w.size())) : genStr(R, O)); bool known = false; for(auto z : SN) known = known || x == z; 
               if(!known) VTHROWS(pvd::ScalarTypeFunc::getScalarType(x), "kind-parse-unknown", q(x)); }
        if(R.chance(1, 4)) { if(R.coin()) std::operator<<(o, (const pvd::Field*)0); else std::operator<<(o, (const pvd::PVField*)0); w += "nullptr"; }
        count("kinds"); break; }
    default:
        switch(R.below(8)) { case 0: vecText<pvd::int16>(R, pvd::pvShort); break; case 1: vecText<pvd::int32>(R, pvd::pvInt); break; case 2: vecText<pvd::int64>(R, pvd::pvLong); break;
            case 3: vecText<pvd::uint16>(R, pvd::pvUShort); break; case 4: vecText<pvd::uint32>(R, pvd::pvUInt); break; case 5: vecText<pvd::uint64>(R, pvd::pvULong); break;
            case 6: vecText<float>(R, pvd::pvFloat); break; default: vecText<double>(R, pvd::pvDouble); }
        return;
    }
    VCHECK(o.good() && o.str() == w, "small-text", diff(o.str(), w));
    f.check(o, "small", w);
    distinct(vh::hstr(w));
}

// the destination fails somewhere
MODE(faults) {
    Opt O(popt(R)); O.longStrings = false;
    TyP t(genStruct(R, O));
    if(weight(*t) > 60) return;
    Val v(genVal(R, *t, O));
    pvd::PVStructurePtr p(makeStruct(*t, v, &R));
    Fmt f(genFmt(R)); int how = R.below(3);
    auto print = [&](std::ostream& o) {
        switch(how) { case 0: o << *p; break; case 1: o << *p->getField(); break;
            default: o << p->stream().format(pvd::PVStructure::Formatter::Raw).mode(pvd::PVStructure::Formatter::Plain); } };
    std::ostringstream good; f.set(good); print(good);
    std::string full(good.str()), d(descTy(*t) + " = " + descVal(*t, v));
    for(int k = 0; k < 6; k++) {
        FailBuf b(R.below(full.size() + 1), R.coin());
        std::ostream o(&b); f.set(o);
        bool exc = R.coin(); if(exc) o.exceptions(R.coin() ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit);
        bool threw = false;
        try { print(o); } catch(std::exception&) { threw = true; }
        VCHECK(exc || !threw, "fault-throws", d);
        VCHECK(full.compare(0, b.s.size(), b.s) == 0, "fault-text", diff(b.s, full) << " : " << d);
        f.check(o, "failed print", d, true); o.width(0);
        std::ostringstream again; std::stringbuf sb;
        o.exceptions(std::ios_base::goodbit); o.clear(); o.rdbuf(&sb); print(o);
        VCHECK(sb.str() == full, "fault-again", diff(sb.str(), full) << " : " << d);
        count(threw ? "faults_thrown" : "faults_silent");
    }
    VCHECK(eqVal(*t, read(*p, *t), v), "print-modifies", d);
    distinct(vh::mix(hashCase(*t, v) + how));
}
VH_MAIN
