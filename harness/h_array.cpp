// C12: array fields against a plain sequence, with size policies.
#include "gen.h"
#include "tree.h"
#include <pv/pvSubArrayCopy.h>
using namespace g; using namespace vh;
static pvd::PVDataCreatePtr dc() { return pvd::getPVDataCreate(); }
static pvd::FieldCreatePtr fc() { return pvd::getFieldCreate(); }

template<typename T> struct El {
    static T gen(Rng& R, const pvd::FieldConstPtr&) { return (T)R.below(100); }
    static T gap(const pvd::FieldConstPtr&) { return T(); }
    static bool eq(const T& a, const T& b) { return a == b; }
    static std::string show(const T& t) { std::ostringstream o; o << pvd::print_cast(t); return o.str(); }
    static const bool obj = false;
};
template<> struct El<std::string> {
    static std::string gen(Rng& R, const pvd::FieldConstPtr&) { return std::to_string(R.below(100)) + std::string(R.chance(1, 4) ? 30 : 0, ' '); }
    static bool eq(const std::string& a, const std::string& b) { return a == b; }
    static std::string show(const std::string& t) { return q(t); }
    static const bool obj = false;
};
template<> struct El<pvd::PVStructurePtr> {
    static pvd::PVStructurePtr gen(Rng& R, const pvd::FieldConstPtr& f) { if(R.chance(1, 4)) return pvd::PVStructurePtr();
        pvd::PVStructurePtr p(dc()->createPVStructure(std::tr1::static_pointer_cast<const pvd::Structure>(f))); p->getSubFieldT<pvd::PVInt>("i")->put(R.below(1000)); return p; }
    static bool eq(const pvd::PVStructurePtr& a, const pvd::PVStructurePtr& b) { return a == b; }
    static std::string show(const pvd::PVStructurePtr& p) { return p ? std::to_string(p->getSubFieldT<pvd::PVInt>("i")->get()) : "null"; }
    static bool isNew(const pvd::PVStructurePtr& p, const pvd::FieldConstPtr& f) { return p && p->getStructure() == f && p->getSubFieldT<pvd::PVInt>("i")->get() == 0 && p->getSubFieldT<pvd::PVString>("s")->get().empty(); }
    static const bool obj = true;
};
template<> struct El<pvd::PVUnionPtr> {
    static pvd::PVUnionPtr gen(Rng& R, const pvd::FieldConstPtr& f) { if(R.chance(1, 4)) return pvd::PVUnionPtr();
        pvd::PVUnionPtr p(dc()->createPVUnion(std::tr1::static_pointer_cast<const pvd::Union>(f))); 
        pvd::PVIntPtr i(dc()->createPVScalar<pvd::PVInt>()); i->put(R.below(1000)); if(p->getUnion()->isVariant()) p->set(i); else p->set(0, i); return p; }
    static bool eq(const pvd::PVUnionPtr& a, const pvd::PVUnionPtr& b) { return a == b; }
    static std::string show(const pvd::PVUnionPtr& p) { return !p ? "null" : !p->get() ? "none" : std::to_string(p->get<pvd::PVInt>()->get()); }
    static bool isNew(const pvd::PVUnionPtr& p, const pvd::FieldConstPtr& f) { return p && p->getUnion() == f && !p->get() && p->getSelectedIndex() == -1; }
    static const bool obj = true;
};
template<typename T, bool O> struct Mk;

template<typename T> struct Seq {
    typedef pvd::PVValueArray<T> A; typedef std::tr1::shared_ptr<A> AP; typedef typename A::svector SV; typedef typename A::const_svector CV;
    static const int N = 3;
    Rng& R; std::string log; pvd::FieldConstPtr elem;
    AP a[N]; int pol[N]; size_t bound[N]; std::vector<T> m[N]; bool capfix[N];
    struct View { CV v; std::vector<T> m; int from; };
    std::vector<View> views;
    Seq(Rng& R) : R(R) {}
    std::string show(const std::vector<T>& x) { std::string o("["); for(size_t i = 0; i < x.size() && i < 30; i++) o += El<T>::show(x[i]) + ","; return o + "]"; }
    std::string show(const CV& x) { std::vector<T> y(x.begin(), x.end()); return show(y); }
    bool same(const CV& v, const std::vector<T>& x) { if(v.size() != x.size()) return false; for(size_t i = 0; i < x.size(); i++) if(!El<T>::eq(v[i], x[i])) return false; return true; }
    bool allowed(int i, size_t n) { return pol[i] == 0 || (pol[i] == 1 && n <= bound[i]) || (pol[i] == 2 && n == bound[i]); }
    size_t len(int i) { if(pol[i] == 2 && R.chance(5, 6)) return bound[i]; if(pol[i] == 1 && R.chance(1, 3)) return bound[i] + R.below(2); return R.chance(1, 80) ? 100 + R.below(1300) : R.below(9); }
    std::vector<T> fresh(size_t n) { std::vector<T> x; for(size_t i = 0; i < n; i++) x.push_back(El<T>::gen(R, elem)); return x; }
    CV frozen(const std::vector<T>& x) { if(R.chance(1, 3)) { // as slice of something bigger
            size_t o = R.below(3), e = R.below(3); SV s(o + x.size() + e); std::copy(x.begin(), x.end(), s.begin() + o); CV c(pvd::freeze(s)); c.slice(o, x.size()); return c; }
        SV s(x.size()); std::copy(x.begin(), x.end(), s.begin()); return pvd::freeze(s); }
    void check(const char *what) {
        for(int i = 0; i < N; i++) {
            CV v(a[i]->view());
            VCHECK(same(v, m[i]), what, log << " : array " << i << " is " << show(v) << " expected " << show(m[i]));
            VCHECK(a[i]->getLength() == m[i].size() && a[i]->getCapacity() >= m[i].size(), "length", log);
            VCHECK(pol[i] != 1 || a[i]->getLength() <= bound[i], "bound-exceeded", log << " length " << a[i]->getLength());
            VCHECK(a[i]->isCapacityMutable() == !capfix[i], "capacity-mutable", log);
        }
        for(size_t k = 0; k < views.size(); k++) VCHECK(same(views[k].v, views[k].m), "view-changed", log << " : view of array " << views[k].from << " is " << show(views[k].v) << " was " << show(views[k].m));
        count("states");
    }
    // run an operation which must be done or refused; refused leaves everything as it was
    template<typename F> bool attempt(const std::string& l, bool ok, F f) {
        log += " " + l; bool done = false; std::string why;
        try { f(); done = true; } catch(Abandon&) { throw; } catch(std::exception& e) { why = e.what(); }
        VCHECK(done == ok, ok ? "refused-valid" : "accepted-invalid", log << " : " << (done ? "accepted" : "refused: " + why));
        if(!done) count("refused");
        return done;
    }
    void objOps(int i, std::false_type) { (void)i; }
    void objOps(int i, std::true_type) {
        std::string s(std::to_string(i)); A& x = *a[i]; std::vector<T>& y = m[i];
        switch(R.below(4)) {
        case 0: { size_t n = R.below(4); if(R.chance(1, 8)) n = R.coin() ? (size_t)-1 - R.below(12) : (size_t)1 << (40 + R.below(24)); size_t r = 0, old = y.size();
            bool ok = n < 1000 && allowed(i, old + n);
            if(attempt("append" + s + "(" + std::to_string(n) + ")", ok, [&]() { r = x.append(n); })) {
                CV v(x.view()); VCHECK(r == old + n && v.size() == r, "append-length", log << " returned " << r << " length " << v.size());
                for(size_t k = old; k < r; k++) { VCHECK(El<T>::isNew(v[k], elem), "append-element", log << " " << El<T>::show(v[k])); for(size_t j = 0; j < k; j++) VCHECK(v[j] != v[k], "append-shared", log); y.push_back(v[k]); }
                count("appended", n);
            } break; }
        case 1: case 2: { size_t n = y.size(), o, c; 
            if(R.chance(1, 4)) { o = R.coin() ? (size_t)-1 - R.below(3) : R.below(n + 3); c = R.coin() ? (size_t)-1 - R.below(n + 3) : R.below(n + 3); }
            else { o = R.below(n + 1); c = R.below(n - o + 1); }
            bool in = c <= n && o <= n - c; bool exp = c == 0 || (in && pol[i] != 2); bool r = false;
            if(attempt("remove" + s + "(" + std::to_string(o) + "," + std::to_string(c) + ")", true, [&]() { r = x.remove(o, c); })) {
                VCHECK(r == exp, "remove-result", log << " returned " << r);
                if(r && c) y.erase(y.begin() + o, y.begin() + o + c);
                count(r ? "removed" : "refused"); } break; }
        default: attempt("compress" + s, true, [&]() { x.compress(); });
            if(pol[i] != 2) { std::vector<T> z; for(auto& e : y) if(e) z.push_back(e); y = z; }
            count("compressed");
        }
    }
    void scalarOps(int, std::true_type) {}
    void scalarOps(int i, std::false_type) {
        std::string s(std::to_string(i)); pvd::PVScalarArray& x = *a[i]; int j = R.below(N);
        const bool bl = std::is_same<T, pvd::boolean>::value; // converts to and from text only
        int what = R.below(5); if(bl && (what == 0 || what == 3)) what = 4;
        switch(what) {
        case 0: { size_t n = len(i); pvd::shared_vector<int32_t> t(n); std::vector<T> z; for(size_t k = 0; k < n; k++) { t[k] = R.below(100); z.push_back(pvd::castUnsafe<T>(t[k])); }
            pvd::shared_vector<const int32_t> f(pvd::freeze(t)); if(attempt("putFrom<int>" + s + "x" + std::to_string(n), allowed(i, n), [&]() { x.putFrom<int32_t>(f); })) m[i] = z; break; }
        case 1: { size_t n = len(i); pvd::shared_vector<std::string> t(n); std::vector<T> z; bool good = true; for(size_t k = 0; k < n; k++) { int q = R.below(100); t[k] = bl ? q & 1 ? "true" : "false" : std::to_string(q); z.push_back(pvd::castUnsafe<T>(bl ? q & 1 : q)); }
            if(n && !std::is_same<T, std::string>::value && R.chance(1, 3)) { t[R.below(n)] = R.coin() ? "x1" : ""; good = false; }
            pvd::shared_vector<const std::string> f(pvd::freeze(t)); if(attempt("putFrom<string>" + s + "x" + std::to_string(n), good && allowed(i, n), [&]() { x.putFrom<std::string>(f); })) m[i] = z; break; }
        case 2: { std::vector<T> z(m[j]); if(i == j || R.coin()) { if(attempt("assign" + s + "=" + std::to_string(j), allowed(i, z.size()), [&]() { x.assign(*a[j]); })) m[i] = z; }
                  else { typename A::const_svector o; a[j]->getAs(o); if(attempt("putFrom" + s + "=" + std::to_string(j), allowed(i, z.size()), [&]() { x.putFrom(o); })) m[i] = z; } break; }
        case 3: { pvd::shared_vector<const double> d; bool ok = true; std::vector<double> e; for(auto& k : m[i]) { try { e.push_back(pvd::castUnsafe<double>(k)); } catch(std::exception&) { ok = false; } }
                  if(attempt("getAs" + s, ok, [&]() { x.getAs(d); })) { VCHECK(d.size() == e.size(), "getAs", log); for(size_t k = 0; k < e.size(); k++) VCHECK(d[k] == e[k], "getAs", log << " [" << k << "]"); } break; }
        default: { pvd::shared_vector<const std::string> d; if(attempt("getAs<string>" + s, true, [&]() { x.getAs(d); })) { VCHECK(d.size() == m[i].size(), "getAs", log); for(size_t k = 0; k < d.size(); k++) VCHECK(d[k] == pvd::castUnsafe<std::string>(m[i][k]), "getAs", log); } }
        }
    }
    void refill(int i, size_t old) { // content of elements added by setLength is unspecified
        SV s(a[i]->reuse()); VCHECK(s.size() >= old, "reuse", log); m[i].resize(s.size()); for(size_t k = old; k < s.size(); k++) { T e(El<T>::gen(R, elem)); s[k] = e; m[i][k] = e; }
        CV c(pvd::freeze(s)); a[i]->replace(c);
    }
    void gaps(int j, const CV& v, std::vector<T>& z, const std::vector<bool>& gap, std::false_type) { (void)j; (void)v; for(size_t k = 0; k < z.size(); k++) if(gap[k]) z[k] = T(); }
    void gaps(int j, const CV& v, std::vector<T>& z, const std::vector<bool>& gap, std::true_type) { (void)j; if(v.size() == z.size()) for(size_t k = 0; k < z.size(); k++) if(gap[k]) { VCHECK(El<T>::isNew(v[k], elem), "subcopy-gap", log << " [" << k << "] " << El<T>::show(v[k])); z[k] = v[k]; } }
    void step() {
        typedef std::integral_constant<bool, El<T>::obj> IsObj;
        int i = R.below(N), j = R.below(N); std::string s(std::to_string(i)); A& x = *a[i];
        switch(R.below(14)) {
        case 0: case 1: { size_t n = len(i); std::vector<T> z(fresh(n)); CV c(frozen(z)); if(attempt("replace" + s + "x" + std::to_string(n), allowed(i, n), [&]() { x.replace(c); })) m[i] = z; VCHECK(same(c, z), "argument-changed", log); break; }
        case 2: { std::vector<T> z(m[j]); CV c(a[j]->view()); size_t o = 0; if(R.coin()) { o = R.below(4); size_t l = R.below(6); c.slice(o, l); z = std::vector<T>(c.begin(), c.end()); }
            if(attempt("replace" + s + "=view" + std::to_string(j) + "x" + std::to_string(z.size()), allowed(i, z.size()), [&]() { x.replace(c); })) m[i] = z; break; }
        case 3: { size_t n = len(i); if(!allowed(i, n)) break; std::vector<T> z(fresh(n)); CV c(frozen(z)); log += " swap" + s; x.swap(c); VCHECK(same(c, m[i]), "swap", log << " got " << show(c) << " expected " << show(m[i])); m[i] = z; break; }
        case 4: { log += " reuse" + s; SV r(x.reuse()); VCHECK(r.unique() && r.size() == m[i].size(), "reuse", log << " size " << r.size());
            for(size_t k = 0; k < r.size(); k++) VCHECK(El<T>::eq(r[k], m[i][k]), "reuse", log); VCHECK(x.getLength() == 0, "reuse-left", log);
            for(size_t k = 0; k < r.size(); k++) if(R.coin()) { T e(El<T>::gen(R, elem)); r[k] = e; m[i][k] = e; }
            if(R.chance(1, 4) && pol[i] == 0) { T e(El<T>::gen(R, elem)); r.push_back(e); m[i].push_back(e); }
            check0(i); CV c(pvd::freeze(r)); x.replace(c); break; }
        case 5: case 6: { size_t n = len(i), old = m[i].size(); if(R.chance(1, 12)) n = ((size_t)-1 - R.below(9)) >> R.below(20);
            bool ok = n == old || (allowed(i, n) && n < 5000);
            if(attempt("setLength" + s + "(" + std::to_string(n) + ")", ok, [&]() { x.setLength(n); })) { VCHECK(x.getLength() == n, "setLength", log << " length " << x.getLength());
                CV v(x.view()); for(size_t k = 0; k < std::min(n, old); k++) VCHECK(El<T>::eq(v[k], m[i][k]), "setLength-kept", log << " [" << k << "]"); v.clear();
                m[i].resize(std::min(n, old)); if(n > old) refill(i, old); } break; }
        case 7: { size_t n = R.coin() ? len(i) : R.below(40); if(R.chance(1, 12)) n = ((size_t)-1 - R.below(9)) >> R.below(20);
            bool ok = !capfix[i] && (pol[i] == 0 ? n < 5000 : allowed(i, n));
            if(attempt("setCapacity" + s + "(" + std::to_string(n) + ")", ok, [&]() { x.setCapacity(n); })) VCHECK(x.getCapacity() >= n, "capacity", log << " is " << x.getCapacity()); break; }
        case 8: if(R.chance(1, 4)) { capfix[i] = R.coin(); log += " setCapacityMutable" + s; x.setCapacityMutable(!capfix[i]); } break;
        case 9: case 10: { // sub-array copy, possibly onto itself
            size_t fn = m[j].size(), fo = R.below(fn + 2), fs = 1 + R.below(3), to = R.below(m[i].size() + 3), ts = 1 + R.below(3), n = R.below(fn + 2);
            if(R.chance(1, 10)) fs = 0; if(R.chance(1, 10)) ts = 0;
            if(R.chance(1, 10)) fo = (size_t)-1 - R.below(4); if(R.chance(1, 10)) fs = (size_t)-1 - R.below(4); if(R.chance(1, 20)) to = (size_t)-1 - R.below(12); if(R.chance(1, 20)) ts = (size_t)-1 - R.below(4); if(R.chance(1, 20)) n = (size_t)-1 - R.below(4);
            size_t room = fo < fn && fs ? (fn - fo - 1) / fs + 1 : 0; bool ok = fs && ts && n <= room;
            __uint128_t need = (__uint128_t)to + (__uint128_t)n * ts; bool fits = need < 100000;
            if(ok && n == 0 && (!fits || (__uint128_t)to + ts > (size_t)-1)) break;
            size_t nl = fits ? std::max((size_t)need, m[i].size()) : 0; ok = ok && fits && allowed(i, nl);
            std::vector<T> z(m[i]); std::vector<bool> gap(nl); 
            if(ok) { z.resize(nl); for(size_t k = m[i].size(); k < nl; k++) gap[k] = true; for(size_t k = 0; k < n; k++) { z[to + k * ts] = m[j][fo + k * fs]; gap[to + k * ts] = false; } }
            std::ostringstream l; l << "subcopy" << j << "(" << fo << "," << fs << ")>" << i << "(" << to << "," << ts << ")x" << n; int how = R.below(2);
            if(attempt(l.str(), ok, [&]() { if(how) pvd::copy(static_cast<typename Mk<T, El<T>::obj>::Arg&>(*a[j]), fo, fs, static_cast<typename Mk<T, El<T>::obj>::Arg&>(*a[i]), to, ts, n);
                    else { std::tr1::shared_ptr<pvd::PVArray> f(a[j]), t(a[i]); pvd::copy(f, fo, fs, t, to, ts, n); } })) { gaps(j, x.view(), z, gap, IsObj()); m[i] = z; count("subcopies"); }
            break; }
        case 11: { View w; w.v = x.view(); w.m = m[i]; w.from = i; if(views.size() < 6) views.push_back(w); else views[R.below(6)] = w; log += " view" + s; break; }
        case 12: if(views.size() && R.coin()) { log += " dropviews"; views.clear(); } else { size_t k = m[i].size() + R.below(3); std::ostringstream o; if(El<T>::obj) x.dumpValue(o, k); else attempt("print" + s + "[" + std::to_string(k) + "]", false, [&]() { x.dumpValue(o, k); });
                if(m[i].size()) { size_t q = R.below(m[i].size()); x.dumpValue(o, q); } o << x; } break;
        default: objOps(i, IsObj()); scalarOps(i, IsObj()); 
        }
        count("array_ops");
        check("contents");
    }
    void check0(int i) { VCHECK(a[i]->view().size() == 0, "reuse-left", log); }
    void run() {
        Mk<T, El<T>::obj>::init(*this);
        for(int i = 0; i < N; i++) { capfix[i] = false; m[i].clear(); CV v(a[i]->view()); for(size_t k = 0; k < v.size(); k++) m[i].push_back(v[k]);
            VCHECK(v.size() == (pol[i] == 2 ? bound[i] : 0), "initial-length", "policy " << pol[i] << " bound " << bound[i] << " length " << v.size());
            static const char *pn[] = { "var", "max", "fix" }; log += std::string(i ? " " : "") + pn[pol[i]] + std::to_string(bound[i]); }
        log += std::string(" ") + a[0]->getField()->getID() + " :";
        int steps = 4 + R.below(40); for(int k = 0; k < steps; k++) step();
        distinct(hstr(log)); if(steps < 8) sample(log);
    }
};
template<typename T> struct Mk<T, false> {
    typedef pvd::PVScalarArray Arg;
    static void init(Seq<T>& s) {
        pvd::ScalarType st = (pvd::ScalarType)pvd::ScalarTypeID<T>::value;
        for(int i = 0; i < s.N; i++) { s.pol[i] = s.R.chance(1, 2) ? 0 : 1 + s.R.below(2); s.bound[i] = s.pol[i] ? s.R.below(8) : 0;
            pvd::ScalarArrayConstPtr t(s.pol[i] == 0 ? fc()->createScalarArray(st) : s.pol[i] == 1 ? fc()->createBoundedScalarArray(st, s.bound[i]) : fc()->createFixedScalarArray(st, s.bound[i]));
            s.a[i] = std::tr1::dynamic_pointer_cast<pvd::PVValueArray<T> >(dc()->createPVScalarArray(t)); VCHECK(s.a[i], "wrong-class", st); }
    }
};
template<> struct Mk<pvd::PVStructurePtr, true> {
    typedef pvd::PVStructureArray Arg;
    static void init(Seq<pvd::PVStructurePtr>& s) {
        pvd::StructureConstPtr t(fc()->createFieldBuilder()->add("i", pvd::pvInt)->add("s", pvd::pvString)->createStructure()); s.elem = t;
        for(int i = 0; i < s.N; i++) { s.pol[i] = s.R.chance(2, 3) ? 0 : 1 + s.R.below(2); s.bound[i] = s.pol[i] ? s.R.below(8) : 0; 
            s.pol[i] = 0; s.bound[i] = 0; 
            s.a[i] = dc()->createPVStructureArray(fc()->createStructureArray(t)); }
    }
};
template<> struct Mk<pvd::PVUnionPtr, true> {
    typedef pvd::PVArray Arg;
    static void init(Seq<pvd::PVUnionPtr>& s) {
        pvd::UnionConstPtr t(s.R.coin() ? fc()->createVariantUnion() : fc()->createFieldBuilder()->add("i", pvd::pvInt)->add("s", pvd::pvString)->createUnion()); s.elem = t;
        for(int i = 0; i < s.N; i++) { s.pol[i] = 0; s.bound[i] = 0; s.a[i] = dc()->createPVUnionArray(fc()->createUnionArray(t)); }
    }
};
MODE(sequence) {
    switch(R.below(14)) {
    case 0: { if(R.coin()) { Seq<pvd::boolean> s(R); s.run(); count("boolean_arrays"); } else { Seq<int8_t> t(R); t.run(); } break; }
    case 1: { Seq<int16_t> s(R); s.run(); break; }
    case 2: { Seq<int32_t> s(R); s.run(); break; }
    case 3: { Seq<int64_t> s(R); s.run(); break; }
    case 4: { Seq<uint8_t> s(R); s.run(); break; }
    case 5: { Seq<uint16_t> s(R); s.run(); break; }
    case 6: { Seq<uint32_t> s(R); s.run(); break; }
    case 7: { Seq<uint64_t> s(R); s.run(); break; }
    case 8: { Seq<float> s(R); s.run(); break; }
    case 9: { Seq<double> s(R); s.run(); break; }
    case 10: { Seq<std::string> s(R); s.run(); break; }
    case 11: case 12: { Seq<pvd::PVStructurePtr> s(R); s.run(); break; }
    default: { Seq<pvd::PVUnionPtr> s(R); s.run(); }
    }
}
// sub-array copy between arrays which do not match is refused
MODE(mismatch) {
    TyP t1, t2; Opt O; O.depth = 1;
    do t1 = genTy(R, O); while(t1->k != KSArr && t1->k != KStructArr && t1->k != KUnionArr && t1->k != KVarArr);
    do t2 = genTy(R, O); while(t2->k != KSArr && t2->k != KStructArr && t2->k != KUnionArr && t2->k != KVarArr);
    Val v1(genVal(R, *t1, O)), v2(genVal(R, *t2, O));
    std::tr1::shared_ptr<pvd::PVArray> a(std::tr1::dynamic_pointer_cast<pvd::PVArray>(make(*t1, v1, &R))), b(std::tr1::dynamic_pointer_cast<pvd::PVArray>(make(*t2, v2, &R)));
    bool kinds = t1->k == KSArr ? t2->k == KSArr && t1->st == t2->st : t1->k == t2->k && (t1->k == KVarArr || eqTy(*t1->kids[0], *t2->kids[0]));
    size_t n = a->getLength(); 
    if(!kinds) { VTHROWS(pvd::copy(a, 0, 1, b, 0, 1, n), "subcopy-types", descTy(*t1) << " to " << descTy(*t2)); Val r(read(*b, *t2)); VCHECK(eqVal(*t2, r, v2), "subcopy-types", descTy(*t1) << " to " << descTy(*t2)); count("mismatched"); }
    b->setImmutable(); VTHROWS(pvd::copy(a, 0, 1, b, 0, 1, n), "subcopy-immutable", descTy(*t2)); Val r(read(*b, *t2)); VCHECK(eqVal(*t2, r, v2), "subcopy-immutable", descTy(*t2));
    distinct(hstr(descTy(*t1) + descTy(*t2)));
}
VH_MAIN
