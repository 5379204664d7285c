// C18, C19: pvRequest strings, request mapper
#include "gen.h"
#include <pv/createRequest.h>
#include <algorithm>
using namespace vh;
using namespace g;
using namespace epics::pvData;

namespace {
typedef std::vector<std::pair<std::string, std::string> > Opts;
struct Item { std::string name; Opts opts; std::vector<Item> kids; };

// ---- generator
std::string reqName(Rng& R) {
    for(;;) {
        std::string s(genName(R));
        if(R.chance(1, 12)) { static const char *odd[] = {"record", "field", "getField", "putField", "myrecord", "xfield", "options", "record_", "Record"}; s = odd[R.below(9)]; }
        if(s != "_options") return s;
    }
}
std::vector<std::string> reqNames(Rng& R, size_t n) {
    std::vector<std::string> v; std::set<std::string> seen;
    while(v.size() < n) { std::string s(reqName(R)); if(seen.count(s)) s += std::to_string(v.size()); if(!seen.insert(s).second) continue; v.push_back(s); }
    return v;
}
Opts genOpts(Rng& R) {
    Opts o; size_t n = 1 + R.below(R.chance(1, 10) ? 12 : 3);
    std::vector<std::string> names(reqNames(R, n));
    for(auto& k : names) {
        static const char cs[] = "abcXYZ0129._-+:/=;!*<>@#$%^&|\\\"'?~`";
        std::string v; size_t len = R.below(6) ? R.below(9) : R.below(200);
        for(size_t i = 0; i < len; i++) v += cs[R.below(sizeof(cs) - 1)];
        if(R.chance(1, 3)) { static const char *c[] = {"true", "false", "3.14159", "2", "a=b", "onChange", ""}; v = c[R.below(7)]; }
        o.push_back(std::make_pair(k, v));
    }
    return o;
}
std::vector<Item> genItems(Rng& R, int depth, size_t width) {
    std::vector<Item> v;
    for(auto& n : reqNames(R, 1 + R.below(width))) {
        Item i; i.name = n;
        if(R.chance(1, 4)) i.opts = genOpts(R);
        if(depth > 0 && R.chance(1, 2)) i.kids = genItems(R, depth - 1, R.coin() ? 1 : width);
        v.push_back(i);
    }
    return v;
}
struct Text {
    Rng& R; unsigned blanks; std::string s;
    Text(Rng& R, unsigned b) : R(R), blanks(b) {}
    void tok(const std::string& x) { gap(); s += x; gap(); }
    void gap() { if(blanks) while(R.below(blanks) == 0) s += ' '; }
    void opts(const Opts& o) { tok("["); for(size_t i = 0; i < o.size(); i++) { if(i) tok(","); tok(o[i].first); tok("="); if(o[i].second.size()) tok(o[i].second); } tok("]"); }
    void item(const Item& i) {
        tok(i.name);
        if(!i.opts.empty()) opts(i.opts);
        if(i.kids.size() == 1 && R.coin()) { tok("."); item(i.kids[0]); }
        else if(!i.kids.empty()) { tok("{"); list(i.kids); tok("}"); }
    }
    void list(const std::vector<Item>& v) { for(size_t k = 0; k < v.size(); k++) { if(k) tok(","); item(v[k]); } }
};
// ---- what the request denotes
void model(const std::string& name, const Opts& o, const std::vector<Item>& kids, std::shared_ptr<Ty>& parent, Val& pv) {
    std::shared_ptr<Ty> t(new Ty); t->k = KStruct; t->id = "structure"; Val v;
    if(!o.empty()) {
        std::shared_ptr<Ty> ot(new Ty); ot->k = KStruct; ot->id = "structure"; Val ov;
        for(auto& x : o) { ot->names.push_back(x.first); ot->kids.push_back(mkScalar(pvString)); Val s; s.s = x.second; ov.a.push_back(s); }
        t->names.push_back("_options"); t->kids.push_back(ot); v.a.push_back(ov);
    }
    for(auto& k : kids) model(k.name, k.opts, k.kids, t, v);
    parent->names.push_back(name); parent->kids.push_back(t); pv.a.push_back(v);
}
struct Req {
    bool plain, sec[4]; Opts ro; std::vector<Item> lists[4]; // 0 record 1 field 2 getField 3 putField
    std::shared_ptr<Ty> ty() const; 
};
const char *secname[] = {"record", "field", "getField", "putField"};
Req genReq(Rng& R) {
    Req q; q.plain = R.chance(1, 3);
    for(int i = 0; i < 4; i++) q.sec[i] = q.plain ? i == 1 : R.coin();
    if(!q.plain && !(q.sec[0] || q.sec[1] || q.sec[2] || q.sec[3])) q.plain = R.coin();
    if(q.sec[0] && R.chance(5, 6)) q.ro = genOpts(R);
    int depth = R.below(5); size_t width = 1 + R.below(5);
    if(R.chance(1, 60)) { depth = 1; width = 50; } else if(R.chance(1, 60)) { depth = 40; width = 2; }
    for(int i = 1; i < 4; i++) if(q.sec[i] && R.chance(7, 8)) q.lists[i] = genItems(R, depth, width);
    if(q.plain) { q.sec[1] = true; for(;;) { // a plain list cannot contain something which looks like a section
        bool bad = q.lists[1].empty(); std::function<void(const std::vector<Item>&)> f = [&](const std::vector<Item>& v) { for(auto& i : v) f(i.kids); };
        for(auto& i : q.lists[1]) if(i.name == "record" && !i.opts.empty()) bad = true;
        if(!bad) break; q.lists[1] = genItems(R, 2, 3); } }
    return q;
}
TyP model(const Req& q, Val& v) {
    std::shared_ptr<Ty> t(new Ty); t->k = KStruct; t->id = "structure";
    if(q.sec[0] && !q.ro.empty()) model("record", q.ro, std::vector<Item>(), t, v);
    for(int i = 1; i < 4; i++) if(q.sec[i]) model(secname[i], Opts(), q.lists[i], t, v);
    return t;
}
std::string text(const Req& q, Rng& R) {
    Text T(R, R.coin() ? 0 : 2 + R.below(20));
    if(q.plain) { T.list(q.lists[1]); return T.s; }
    std::vector<int> order; for(int i = 0; i < 4; i++) if(q.sec[i]) order.push_back(i);
    if(R.coin()) for(size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[R.below(i)]);
    for(size_t k = 0; k < order.size(); k++) {
        if(k) { static const char *sep[] = {"", " ", ",", "  ", ", "}; T.s += sep[R.below(5)]; }
        int i = order[k];
        T.tok(secname[i]);
        if(i == 0) { if(q.ro.empty()) { T.tok("["); T.tok("]"); } else T.opts(q.ro); }
        else { T.tok("("); T.list(q.lists[i]); T.tok(")"); }
    }
    return T.s;
}

// any accepted request: structures all the way down, options are strings
size_t shape(const PVStructure& s, bool opt, const std::string& req) {
    size_t n = 1;
    const StringArray& names = s.getStructure()->getFieldNames();
    for(size_t i = 0; i < names.size(); i++) {
        const PVField& f = *s.getPVFields()[i];
        if(opt) VCHECK(f.getField()->getType() == scalar && static_cast<const PVScalar&>(f).getScalar()->getScalarType() == pvString, "accepted-shape", names[i] << " in " << q(req));
        else { VCHECK(f.getField()->getType() == structure, "accepted-shape", names[i] << " in " << q(req));
            n += shape(static_cast<const PVStructure&>(f), names[i] == "_options", req); }
    }
    return n;
}
struct Parser {
    CreateRequest::shared_pointer P; unsigned n;
    Parser() : P(CreateRequest::create()), n(0) {}
    // result of every way of parsing
    PVStructurePtr operator()(const std::string& s) {
        PVStructurePtr a(P->createRequest(s));
        VCHECK((!a) == !P->getMessage().empty(), "message", (a ? "accepted" : "refused") << " with message " << q(P->getMessage()) << " for " << q(s));
        PVStructurePtr b;
        try { b = createRequest(s); VCHECK(!!b, "null-result", q(s)); } catch(Abandon&) { throw; } catch(std::exception& e) {
            VCHECK(!a, "verdicts-differ", q(s) << " " << e.what()); VCHECK(P->getMessage() == e.what(), "message", q(P->getMessage()) << " but " << q(e.what())); }
        if(b) { VCHECK(a && *a == *b, "verdicts-differ", q(s)); if(n++ & 1) return b; }
        return a;
    }
};
void expect(Parser& P, const std::string& s, const Ty& t, const Val& v) {
    PVStructurePtr r(P(s));
    VCHECK(!!r, "refused", q(s) << " : " << P.P->getMessage());
    TyP g(tyOf(*r->getStructure()));
    VCHECK(eqTy(t, *g), "wrong-structure", q(s) << " gave " << descTy(*g) << " not " << descTy(t));
    Val gv(read(*r, t));
    VCHECK(eqVal(t, v, gv), "wrong-options", q(s) << " gave " << descVal(t, gv) << " not " << descVal(t, v));
}
void refuse(Parser& P, const std::string& s, const char *why) {
    PVStructurePtr r(P(s));
    VCHECK(!r, "accepted", why << ": " << q(s) << " gave " << descTy(*tyOf(*r->getStructure())));
    count("refused");
}
Item* someItem(Rng& R, std::vector<Item>& v) {
    if(v.empty()) return 0;
    Item *i = &v[R.below(v.size())];
    while(!i->kids.empty() && R.coin()) i = &i->kids[R.below(i->kids.size())];
    return i;
}
}

MODE(grammar) {
    Parser P;
    for(int k = 0; k < 3; k++) {
        Req rq(genReq(R)); Val v; TyP t(model(rq, v)); std::string s(text(rq, R));
        if(R.chance(1, 4)) { // something wrong first
            static const char *bad[] = {"field(", "a{", "field(a..b)", "a[", "field(a[x=1]{b[", "field(a,a)", "record[x]", "field(a{b[y=2],b[y=2]})"};
            refuse(P, bad[R.below(8)], "bad"); }
        expect(P, s, *t, v);
        count("accepted"); distinct(hstr(s)); if(st().caseno < 3) sample(s);
    }
    for(int k = R.below(3); k >= 0; k--) { std::string b(R.below(5), ' '); PVStructurePtr r(P(b)); VCHECK(r && r->getStructure()->getNumberFields() == 0, "empty-request", q(b)); }
}

// a correct request with one thing made wrong
MODE(broken) {
    Parser P;
    Req rq(genReq(R));
    int which = R.below(9);
    std::vector<int> ls; for(int i = 1; i < 4; i++) if(rq.sec[i] && !rq.lists[i].empty()) ls.push_back(i);
    if(ls.empty()) return;
    std::vector<Item>& L = rq.lists[R.pick(ls)];
    if(which == 0) { // duplicate field
        std::vector<Item> *v = &L; if(!someItem(R, L)) return;
        while(R.coin()) { Item& i = (*v)[R.below(v->size())]; if(i.kids.empty()) break; v = &i.kids; }
        Item d; d.name = R.pick(*v).name; if(d.name == "record") return; if(R.coin()) d.opts = genOpts(R); v->insert(v->begin() + R.below(v->size() + 1), d);
        refuse(P, text(rq, R), "duplicate field name"); count("broken_duplicate");
    } else if(which == 1) { // duplicate option
        Item *i = someItem(R, L); if(i->name == "record") return; i->opts = genOpts(R); std::pair<std::string, std::string> o(R.pick(i->opts)); if(R.coin()) o.second += "x";
        i->opts.insert(i->opts.begin() + R.below(i->opts.size() + 1), o);
        refuse(P, text(rq, R), "duplicate option"); count("broken_option");
    } else if(which == 2) { // bad name
        Item *i = someItem(R, L); static const char *bad[] = {"1a", "a-b", "a:b", "a\tb", "\n", "a+", "a;b", "a\"", "*", "a=b", "\xc3\xa9", "-"};
        i->name = bad[R.below(12)];
        refuse(P, text(rq, R), "invalid field name"); count("broken_name");
    } else if(which == 3) { // bad option name
        Item *i = someItem(R, L); if(i->name == "record") return; i->opts = genOpts(R); static const char *bad[] = {"1a", "a-b", "a:b", "a.b", "", "\t", "a;"};
        i->opts[R.below(i->opts.size())].first = bad[R.below(7)];
        refuse(P, text(rq, R), "invalid option name"); count("broken_option");
    } else {
        std::string s(text(rq, R));
        s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
        std::vector<size_t> pos;
        const char *set = which == 4 ? "{}" : which == 5 ? "[]" : which == 6 ? "()" : which == 7 ? "," : ".{";
        // bytes inside options are values: leave them
        bool in = false;
        for(size_t i = 0; i < s.size(); i++) { if(s[i] == '[') in = true; if(strchr(set, s[i]) && (!in || s[i] == '[' || s[i] == ']')) pos.push_back(i); if(s[i] == ']') in = false; }
        if(pos.empty()) return;
        size_t p = R.pick(pos);
        if(which <= 6) { // unbalanced
            if(R.coin()) s.erase(p, 1); else s.insert(p, 1, s[p]);
            refuse(P, s, "unbalanced"); count("broken_balance");
        } else if(which == 7) { if(p && p + 1 < s.size() && s[p-1] != ')' && !(s[p-1] == ']' && !rq.plain) && s[p+1] != ',' && s.compare(p + 1, 3, "get") && s.compare(p + 1, 3, "put") && s.compare(p + 1, 6, "field(") && s.compare(p + 1, 7, "record[")) {
            s.insert(p, 1, ','); refuse(P, s, "empty field name"); count("broken_empty"); } }
        else { s.insert(p + 1, 1, '.'); refuse(P, s, "empty field name"); count("broken_empty"); }
    }
    Val v; Req ok(genReq(R)); TyP t(model(ok, v)); expect(P, text(ok, R), *t, v); // usable afterwards
    count("reused");
}

// anything at all
MODE(hostile) {
    Parser P;
    std::string s;
    switch(R.below(4)) {
    case 0: { size_t n = R.below(40); for(size_t i = 0; i < n; i++) s += (char)R.below(256); break; }
    case 1: { size_t n = R.below(30); static const char *tok[] = {"field(", "record[", "getField(", "putField(", "(", ")", "[", "]", "{", "}", ",", ".", "=", "a", "b", "c", " ", "_options", "a=b", "x", "record", "field", "]]", "[a=b]", "{a}"};
        for(size_t i = 0; i < n; i++) s += tok[R.below(sizeof(tok) / sizeof(*tok))]; break; }
    default: { Req rq(genReq(R)); s = text(rq, R); size_t n = 1 + R.below(4);
        for(size_t k = 0; k < n && !s.empty(); k++) { size_t p = R.below(s.size());
            switch(R.below(5)) {
            case 0: s.erase(p, 1 + R.below(3)); break;
            case 1: s.insert(p, 1, "()[]{},.= a_"[R.below(12)]); break;
            case 2: s[p] = "()[]{},.= a_\t\xff"[R.below(14)]; break;
            case 3: s.insert(p, s.substr(R.below(s.size()), R.below(20))); break;
            case 4: s.resize(p); break;
            } } }
    }
    PVStructurePtr r(P(s));
    count(r ? "hostile_accepted" : "hostile_refused");
    if(r) { count("nodes", shape(*r, false, s)); std::ostringstream o; o << *r; PVStructurePtr c(getPVDataCreate()->createPVStructure(r)); VCHECK(*c == *r, "accepted-unusable", q(s));
        const StringArray& n = r->getStructure()->getFieldNames();
        size_t last = 0; for(auto& x : n) { size_t k = 0; while(k < 4 && x != secname[k]) k++; VCHECK(k < 4 && k + 1 > last, "accepted-sections", x << " in " << q(s)); last = k + 1; } }
    distinct(hstr(s));
    Val v; Req ok(genReq(R)); TyP t(model(ok, v)); expect(P, text(ok, R), *t, v);
    count("reused");
}

// long lists, deep nesting, long names
MODE(big) {
    Parser P;
    size_t n = 1000 + R.below(st().tier == "thorough" ? 40000 : 4000);
    unsigned kind = R.below(8);
    if(kind == 3 || kind == 4) { static const size_t N[] = {1000, 5000, 50000, 200000}; n = 50 + R.below(N[R.below(4)]); }
    std::string s; 
    switch(kind) {
    case 0: for(size_t i = 0; i < n; i++) { if(i) s += ','; s += 'f' + std::to_string(i); } break;
    case 1: for(size_t i = 0; i < n; i++) { if(i) s += ','; s += 'f' + std::to_string(i) + "[x=" + std::to_string(i) + "]"; } break;
    case 2: for(size_t i = 0; i < n; i++) { if(i) s += ','; s += 'f' + std::to_string(i) + ".b{c,d}"; } break;
    case 3: for(size_t i = 0; i < n; i++) { if(i) s += R.coin() ? "." : "."; s += 'a'; } break;
    case 4: for(size_t i = 0; i < n; i++) s += "a{"; s += 'a'; s += std::string(n, '}'); break;
    case 5: s = std::string(n * 100, 'a'); break;
    case 6: s = "field(a["; for(size_t i = 0; i < n; i++) { if(i) s += ','; s += 'o' + std::to_string(i) + "=v"; } s += "])"; break;
    case 7: { const char *u[] = {"{", "[", "(", ".", ",", "}", "a[", "a.{", "{,", "=", "a=[", "record["}; const char *x = u[R.below(12)]; for(size_t i = 0; i < n; i++) s += x; break; }
    }
    if(kind != 7 && kind != 6 && R.coin()) s = "field(" + s + ")";
    PVStructurePtr r(P(s));
    count("big_requests");
    if(kind <= 2) { VCHECK(r && r->getSubFieldT<PVStructure>("field")->getStructure()->getNumberFields() == n, "big-list", n << " fields, kind " << kind << " : " << P.P->getMessage()); count("big_lists"); }
    if(kind == 5) VCHECK(!!r, "big-name", P.P->getMessage());
    if(kind == 6) VCHECK(r && r->getSubFieldT<PVStructure>("field.a._options")->getStructure()->getNumberFields() == n, "big-options", P.P->getMessage());
    if(kind == 3 || kind == 4) { count(r ? "deep_accepted" : "deep_refused"); if(n < 200) VCHECK(!!r, "deep", n); if(r) { std::ostringstream o; o << *r; } }
    distinct(mix(n * 8 + kind));
}

// ---- C19: request mapper
namespace {
struct RT { bool isStruct, opt; std::string optName, optVal; std::vector<std::string> names; std::vector<RT> kids; RT() : isStruct(true), opt(false) {} };
size_t span(const Ty& t) { size_t n = 1; if(t.k == KStruct) for(auto& k : t.kids) n += span(*k); return n; }
RT genRT(Rng& R, const Ty *b, int depth, bool valid, unsigned nonstruct, unsigned fill) {
    RT r;
    if(depth > 12) return r;
    std::vector<size_t> ix; if(b && b->k == KStruct) for(size_t i = 0; i < b->kids.size(); i++) if(R.below(4) < fill) ix.push_back(i);
    for(size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[R.below(i)]);
    for(auto i : ix) {
        r.names.push_back(b->names[i]);
        const Ty *k = b->kids[i].get();
        if(nonstruct && R.below(nonstruct) == 0) { RT x; x.isStruct = false; r.kids.push_back(x); continue; }
        RT x;
        if(k->k == KStruct ? R.chance(2, 3) : !valid && R.chance(1, 12)) x = genRT(R, k, depth + 1, valid, nonstruct, fill);
        if(R.chance(1, 8)) { x.opt = true; x.optName = genName(R); x.optVal = "v"; if(x.optName == "_options") x.opt = false; }
        r.kids.push_back(x);
    }
    if(!valid && R.chance(1, 4)) { std::string n("no" + genName(R)); bool dup = false; for(auto& x : r.names) dup |= x == n; if(!dup) {
        size_t p = R.below(r.names.size() + 1); r.names.insert(r.names.begin() + p, n); RT x; if(R.chance(1, 3)) x = genRT(R, 0, depth + 1, valid, nonstruct, fill); r.kids.insert(r.kids.begin() + p, x); } }
    return r;
}
bool hasOptName(const Ty& t) { if(t.k != KStruct) return false; for(size_t i = 0; i < t.kids.size(); i++) if(t.names[i] == "_options" || hasOptName(*t.kids[i])) return true; return false; }
// what is selected
struct Sel {
    std::vector<size_t> map; // offset in the requested type -> offset in the base
    std::vector<std::string> warn; bool ok, keep;
    Sel(bool keep) : ok(true), keep(keep) { map.push_back(0); }
    void whole(const Ty& b, size_t off) { for(size_t k = 0; k < span(b); k++) map.push_back(off + k); }
    void go(const Ty& b, size_t off, const RT& r, int depth, Ty& out) {
        out.k = KStruct; out.id = keep ? b.id : "structure";
        for(size_t i = 0; i < r.names.size(); i++) {
            size_t o = off + 1, j = 0;
            while(j < b.names.size() && b.names[j] != r.names[i]) o += span(*b.kids[j++]);
            if(!r.kids[i].isStruct) { ok = false; warn.push_back("request invalid '" + r.names[i] + "'"); continue; }
            if(j == b.names.size()) { warn.push_back("No field '" + r.names[i] + "'"); continue; }
            const RT& x = r.kids[i]; const Ty& k = *b.kids[j];
            if(depth >= 5 || k.k != KStruct || x.names.empty()) {
                out.names.push_back(r.names[i]); out.kids.push_back(b.kids[j]); whole(k, o);
                if(k.k != KStruct && !x.names.empty()) warn.push_back("Leaf field '");
                else if(depth >= 5) warn.push_back("selection truncated at '");
            } else {
                map.push_back(o);
                std::shared_ptr<Ty> s(new Ty); go(k, o, x, depth + 1, *s);
                out.names.push_back(r.names[i]); out.kids.push_back(s);
            }
        }
    }
};
TyP reqTy(const RT& r, Val& v, bool top) {
    std::shared_ptr<Ty> t(new Ty);
    if(!r.isStruct) { t->k = KScalar; t->st = pvString; v.s = "x"; return t; }
    t->k = KStruct; t->id = "structure";
    if(r.opt && !top) { std::shared_ptr<Ty> o(new Ty); o->k = KStruct; o->id = "structure"; o->names.push_back(r.optName); o->kids.push_back(mkScalar(pvString));
        Val ov, x; x.s = r.optVal; ov.a.push_back(x); t->names.push_back("_options"); t->kids.push_back(o); v.a.push_back(ov); }
    for(size_t i = 0; i < r.names.size(); i++) { Val x; t->names.push_back(r.names[i]); t->kids.push_back(reqTy(r.kids[i], x, false)); v.a.push_back(x); }
    return t;
}
std::string reqText(const RT& r) {
    std::string s;
    for(size_t i = 0; i < r.names.size(); i++) { if(i) s += ","; s += r.names[i]; const RT& k = r.kids[i];
        if(k.opt) s += "[" + k.optName + "=" + k.optVal + "]";
        if(!k.names.empty()) s += "{" + reqText(k) + "}"; }
    return s;
}
struct Flat { const Ty *t; Val *v; size_t end; };
void flatten(const Ty& t, Val& v, std::vector<Flat>& o) {
    Flat f; f.t = &t; f.v = &v; f.end = 0; size_t me = o.size(); o.push_back(f);
    if(t.k == KStruct) for(size_t i = 0; i < t.kids.size(); i++) flatten(*t.kids[i], v.a[i], o);
    o[me].end = o.size();
}
std::set<size_t> bits(const BitSet& b) { std::set<size_t> s; for(int32 i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) s.insert(i); return s; }
std::string show(const std::set<size_t>& s) { std::string o; for(auto x : s) o += std::to_string(x) + " "; return o; }
BitSet genMask(Rng& R, size_t n) {
    BitSet b; switch(R.below(5)) { case 0: b.set(0); break; case 1: for(size_t i = 0; i < n; i++) if(R.coin()) b.set(i); break;
    case 2: b.set(R.below(n)); break; case 3: for(size_t i = 0; i < n; i++) if(R.chance(1, 8)) b.set(i); if(R.coin()) b.set(n + R.below(70)); break; case 4: break; }
    return b;
}
// one transfer: from -> to, m: offset in `from` -> offset in `to` (-1: not requested)
void transfer(Rng& R, const PVRequestMapper& M, const Ty& ft, const Ty& tt, const std::vector<long>& m, bool b2r, const std::string& ctx) {
    Opt O; O.bigArrays = false; O.longStrings = false; O.depth = 1;
    Val fv(genVal(R, ft, O)), tv(genVal(R, tt, O));
    PVStructurePtr from, to;
    from = b2r ? M.buildBase() : M.buildRequested(); to = b2r ? M.buildRequested() : M.buildBase();
    assign(*from, ft, fv, &R); assign(*to, tt, tv, &R);
    std::vector<Flat> ff, tf; flatten(ft, fv, ff); Val ev(tv); flatten(tt, ev, tf);
    BitSet in(genMask(R, ff.size())), in0(in), out(genMask(R, tf.size()));
    if(R.coin()) out.clear();
    BitSet mo(out); std::set<size_t> want(bits(out)), src;
    for(auto i : bits(in)) if(i < ff.size() && m[i] >= 0) for(size_t k = i; k < (ff[i].t->k == KStruct ? ff[i].end : i + 1); k++) if(m[k] >= 0) src.insert(k);
    size_t leafs = 0;
    for(auto k : src) { want.insert(m[k]); if(ff[k].t->k != KStruct) { *tf[m[k]].v = *ff[k].v; leafs++; } }
    if(b2r) M.copyBaseToRequested(*from, in, *to, out); else M.copyBaseFromRequested(*to, out, *from, in);
    const char *dir = b2r ? "base to requested " : "requested to base ";
    VCHECK(bits(out) == want, "marked", dir << ctx << " mask " << show(bits(in)) << ": marked " << show(bits(out)) << " not " << show(want));
    Val g(read(*to, tt));
    VCHECK(eqVal(tt, g, ev), "copied", dir << ctx << " mask " << show(bits(in)) << ": " << descVal(tt, g) << " not " << descVal(tt, ev) << " from " << descVal(ft, fv) << " over " << descVal(tt, tv));
    VCHECK(eqVal(ft, fv, read(*from, ft)) && bits(in) == bits(in0), "source-changed", dir << ctx);
    if(b2r) M.maskBaseToRequested(in, mo); else M.maskBaseFromRequested(mo, in);
    VCHECK(bits(mo) == want, "mask-mapped", dir << ctx << " mask " << show(bits(in)) << ": " << show(bits(mo)) << " not " << show(want));
    count("fields_copied", leafs); count("transfers"); if(leafs < ff.size()) count("partial_transfers");
}
void wellMapped(Rng& R, const PVRequestMapper& M, const Ty& base, const TyP& rt, const std::vector<size_t>& map, bool mask, const std::string& ctx) {
    size_t n = span(base);
    std::set<size_t> sel(map.begin(), map.end());
    VCHECK(bits(M.requestedMask()) == sel, "requested-mask", ctx << " mask " << show(bits(M.requestedMask())) << " not " << show(sel));
    VCHECK(M.base() && eqTy(*tyOf(*M.base()), base), "base", ctx);
    const Ty& req = mask ? base : *rt;
    VCHECK(M.requested() && eqTy(*tyOf(*M.requested()), req), "requested-type", ctx << " got " << descTy(*tyOf(*M.requested())) << " not " << descTy(req));
    VCHECK(M.buildRequested()->getStructure() == M.requested() && M.buildBase()->getStructure() == M.base(), "build", ctx);
    std::vector<long> b2r(n, -1), r2b(span(req), -1);
    for(size_t r = 0; r < map.size(); r++) { size_t rr = mask ? map[r] : r; b2r[map[r]] = rr; r2b[rr] = map[r]; }
    for(int k = R.below(3); k >= 0; k--) { if(R.coin()) transfer(R, M, base, req, b2r, true, ctx); else transfer(R, M, req, base, r2b, false, ctx); }
}
}

MODE(mapper) {
    PVRequestMapper M; bool have = false; TyP hb, hr; std::vector<size_t> hm; bool hmask = false; std::string hctx, hwarn;
    PVRequestMapper other;
    VTHROWS(M.buildRequested(), "empty-mapper", ""); VTHROWS(M.buildBase(), "empty-mapper", "");
    VCHECK(!M.base() && !M.requested() && M.requestedMask().isEmpty() && M.warnings().empty(), "empty-mapper", "");
    for(int round = 1 + R.below(3); round > 0; round--) {
        Opt O; O.depth = 1 + R.below(R.chance(1, 6) ? 9 : 3); O.width = O.depth > 4 ? 2 : 4;
        TyP b;
        bool large = R.chance(1, 40); // many structures with several members each
        if(large) {
            O.depth = 1 + R.below(2); O.width = 3 + R.below(6); O.wide = false;
            std::shared_ptr<Ty> s(new Ty); s->k = KStruct; s->id = "structure"; s->names = genNames(R, 8 + R.below(40));
            while(s->kids.size() < s->names.size()) { TyP k(R.chance(1, 4) ? genTy(R, O) : genStruct(R, O)); if(!hasOptName(*k) && span(*k) < 60) s->kids.push_back(k); }
            if(hasOptName(*s)) continue;
            b = s;
        } else do b = genStruct(R, O); while(hasOptName(*b) || span(*b) > 300);
        if(R.chance(1, 8)) for(int k = 0; k < 7; k++) { std::shared_ptr<Ty> s(new Ty); s->k = KStruct; s->id = "structure"; s->names.push_back("d"); s->kids.push_back(b); if(R.coin()) { s->names.push_back("e"); s->kids.push_back(mkScalar(pvInt)); } b = s; } // deeper than the limit
        bool valid = R.coin(), direct = R.coin(), noField = R.chance(1, 12), mask = R.coin();
        RT r(genRT(R, b.get(), 0, valid, direct && R.chance(1, 4) ? 6 : 0, 1 + R.below(4)));
        bool all = noField || r.names.empty();
        int kid = R.below(6); // 0: keepIDs=true 1: false 2: unparsable
        PVStructurePtr pr; std::string ctx = descTy(*b) + " request " + (noField ? "(none)" : reqText(r));
        if(direct) {
            std::shared_ptr<Ty> t(new Ty); t->k = KStruct; t->id = "structure"; Val v;
            if(kid < 3) { std::shared_ptr<Ty> rec(new Ty), o(new Ty); rec->k = o->k = KStruct; rec->id = o->id = "structure"; Val rv, ov, x;
                o->names.push_back("keepIDs"); if(kid < 2 && R.coin()) { o->kids.push_back(mkScalar(pvBoolean)); x.n = kid == 0; } else { o->kids.push_back(mkScalar(pvString)); x.s = kid == 0 ? "true" : kid == 1 ? "false" : "maybe"; }
                ov.a.push_back(x); rv.a.push_back(ov); rec->names.push_back("_options"); rec->kids.push_back(o); t->names.push_back("record"); t->kids.push_back(rec); v.a.push_back(rv); }
            if(!noField) { Val x; t->names.push_back("field"); t->kids.push_back(reqTy(r, x, true)); v.a.push_back(x); }
            pr = makeStruct(*t, v);
        } else {
            std::string s; if(kid < 3) s = kid == 0 ? "record[keepIDs=true]" : kid == 1 ? "record[keepIDs=false]" : "record[keepIDs=maybe]";
            if(!noField) s += "field(" + reqText(r) + ")";
            try { pr = createRequest(s); } catch(std::exception& e) { VFAIL("request", q(s) << e.what()); }
        }
        PVStructurePtr base(makeStruct(*b, zeroVal(*b)));
        Sel S(kid == 0); std::shared_ptr<Ty> rt(new Ty);
        if(all) { rt.reset(new Ty(*b)); S.map.clear(); S.whole(*b, 0); } else S.go(*b, 0, r, 0, *rt);
        bool fails = !S.ok || S.map.size() < 2;
        if(kid == 2) S.warn.push_back("keepIDs");
        PVRequestMapper::mode_t mode = mask ? PVRequestMapper::Mask : PVRequestMapper::Slice;
        bool threw = false; std::string what;
        int how = R.below(3);
        try {
            if(how == 0) { PVRequestMapper t(*base, *pr, mode); if(R.coin()) M.swap(t); else M = t; }
            else M.compute(*base, *pr, mode);
        } catch(std::runtime_error& e) { threw = true; what = e.what(); }
        VCHECK(threw == fails, "verdict", ctx << (mask ? " Mask" : " Slice") << (threw ? " threw " + what : " accepted") );
        if(threw) {
            count("invalid_requests");
            for(auto& w : S.warn) VCHECK(what.find(w) != std::string::npos, "message", ctx << " '" << what << "' without " << w);
        } else {
            have = true; hb = b; hr = rt; hm = S.map; hmask = mask; hctx = ctx; hwarn = M.warnings();
            VCHECK(M.warnings().empty() == S.warn.empty(), "warnings", ctx << " " << q(M.warnings()));
            for(auto& w : S.warn) VCHECK(M.warnings().find(w) != std::string::npos, "warnings", ctx << " '" << M.warnings() << "' without " << w);
            if(span(*b) > 128) count("large_bases");
            count(mask ? "masked" : "sliced"); if(!S.warn.empty()) count("warned"); for(auto& w : S.warn) if(w[0] == 's') { count("truncated"); break; }
            distinct(hstr(ctx));
        }
        // whatever the mapper holds now is the last successful mapping
        if(!have) VCHECK(!M.base() && !M.requested() && M.requestedMask().isEmpty() && M.warnings().empty(), "failed-compute", ctx);
        else {
            VCHECK(M.warnings() == hwarn, "failed-compute", ctx << q(M.warnings()));
            if(threw) count("kept_after_failure");
            wellMapped(R, M, *hb, hr, hm, hmask, hctx);
            if(R.chance(1, 4)) { PVRequestMapper c(M); wellMapped(R, c, *hb, hr, hm, hmask, hctx); c.swap(other); VCHECK(other.base() == M.base(), "swap", hctx); wellMapped(R, other, *hb, hr, hm, hmask, hctx); count("mapper_copies"); }
        }
        if(R.chance(1, 8)) { M.reset(); have = false; VCHECK(!M.base() && !M.requested() && M.requestedMask().isEmpty() && M.warnings().empty(), "reset", ctx); VTHROWS(M.buildBase(), "reset", ctx); }
        if(b->kids.size() && R.chance(1, 6)) for(auto& f : base->getPVFields()) if(f->getField()->getType() == structure) { // base has to be on top
            bool le = false; try { M.compute(static_cast<const PVStructure&>(*f), *pr, mode); } catch(std::logic_error&) { le = true; }
            VCHECK(le, "not-top-level", ctx); count("not_top"); break; }
    }
    if(st().caseno < 3) sample(hctx);
}
VH_MAIN
