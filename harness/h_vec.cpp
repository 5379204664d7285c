// C11: shared_vector against a reference counted sequence model.
#include "gen.h"
#include <algorithm>
#include <thread>
using namespace g; using namespace vh;

// element which counts its instances, detects use of dead memory and can fail to copy
static long live_ = 0; static long failIn = -1;
struct Tracked {
    int *p;
    static void maybeFail() { if(failIn > 0 && --failIn == 0) { failIn = -1; throw std::runtime_error("element copy"); } }
    Tracked() : p(0) { maybeFail(); p = new int(0); live_++; }
    Tracked(int v) : p(new int(v)) { live_++; }
    Tracked(const Tracked& o) : p(new int(*o.p)) { live_++; }
    Tracked& operator=(const Tracked& o) { maybeFail(); *p = *o.p; return *this; }
    ~Tracked() { if(p) { live_--; delete p; } }
    bool operator==(const Tracked& o) const { return *p == *o.p; }
};
inline std::ostream& operator<<(std::ostream& s, const Tracked& t) { return s << *t.p; }

template<typename T> struct El { static T gen(Rng& R) { return (T)(R.below(200)); } };
template<> struct El<std::string> { static std::string gen(Rng& R) { std::string s(R.below(3) ? R.below(6) : 20 + R.below(40), 'a' + R.below(26)); return s; } };
template<> struct El<Tracked> { static Tracked gen(Rng& R) { return Tracked((int)R.below(1000)); } };
template<typename T> static std::string show(const T& t) { std::ostringstream o; o << t; return o.str(); }
template<> std::string show(const int8_t& t) { return std::to_string((int)t); }

static int delCount, delMade;
template<typename T> struct Del { void operator()(T* p) { delCount++; delete[] p; } };

template<typename T> struct Pool {
    typedef pvd::shared_vector<T> V; typedef pvd::shared_vector<const T> CV;
    typedef std::vector<T> Store; typedef std::shared_ptr<Store> StoreP;
    struct M { StoreP st; size_t off, cnt; M() : off(0), cnt(0) {} };
    static const int N = 5;
    V v[N]; M m[N]; CV c[N]; M k[N];
    // pointers which the application keeps to a buffer it handed over
    std::tr1::shared_ptr<T> ext; StoreP extm;
    Rng& R; std::string log;
    Pool(Rng& R) : R(R) {}
    static bool uniq(const M& x) { return !x.st || x.st.use_count() <= 1; }
    static void own(M& x) { if(!uniq(x)) { StoreP s(new Store(x.st->begin() + x.off, x.st->begin() + x.off + x.cnt)); x.st = s; x.off = 0; } }
    static void fit(M& x, size_t n) { own(x); if(!x.st) { x.st.reset(new Store); x.off = 0; } if(x.st->size() < x.off + n) x.st->resize(x.off + n); x.cnt = n; }
    T& el(M& x, size_t i) { return (*x.st)[x.off + i]; }
    template<typename VV> void same(VV& a, M& x, const char *what, int i) {
        VCHECK(a.size() == x.cnt, "size", log << " : " << what << i << " size " << a.size() << " expected " << x.cnt);
        VCHECK(a.empty() == !x.cnt, "empty", log);
        VCHECK(a.capacity() >= a.size(), "capacity", log);
        VCHECK((size_t)(a.end() - a.begin()) == x.cnt && (size_t)(a.cend() - a.cbegin()) == x.cnt, "iterators", log);
        const VV& ca = a; size_t j = 0;
        for(typename VV::const_iterator it = ca.begin(); it != ca.end(); ++it, ++j)
            VCHECK(*it == el(x, j), "element", log << " : " << what << i << "[" << j << "] is " << show(T(*it)) << " expected " << show(el(x, j)));
        if(x.cnt) {
            size_t q = R.below(x.cnt);
            VCHECK(ca[q] == el(x, q) && ca.at(q) == el(x, q) && ca.data()[q] == el(x, q), "access", log);
            VCHECK(ca.front() == el(x, 0) && ca.back() == el(x, x.cnt - 1) && *ca.rbegin() == el(x, x.cnt - 1) && *(ca.rend() - 1) == el(x, 0) && *ca.crbegin() == el(x, x.cnt - 1) && *(ca.crend() - 1) == el(x, 0), "access", log);
            VCHECK(a.unique() == uniq(x), "unique", log << " : " << what << i << " unique() " << a.unique());
        }
        VCHECK(ca.dataCount() == x.cnt && ca.dataTotal() >= x.cnt, "counts", log);
    }
    void checkAll() { for(int i = 0; i < N; i++) { same(v[i], m[i], "v", i); same(c[i], k[i], "c", i); } count("states"); }
    T *raw(size_t n, std::vector<T>& mirror) { T *p = new T[n]; for(size_t i = 0; i < n; i++) { p[i] = El<T>::gen(R); mirror.push_back(p[i]); } return p; }
    void fillNew(V& a, M& x, size_t from) { for(size_t q = from; q < x.cnt; q++) { T e(El<T>::gen(R)); a[q] = e; el(x, q) = e; } }
    size_t len() { return R.chance(1, 30) ? 1000 + R.below(1300) : R.below(9); }
    bool failing() { if(std::is_same<T, Tracked>::value && R.chance(1, 6)) { failIn = 1 + R.below(6); return true; } return false; }
    void create() {
        int i = R.below(N); size_t o = R.below(4), n = len(); int how = R.below(8);
        log += " new" + std::to_string(how) + "(" + std::to_string(n) + ")>v" + std::to_string(i);
        M x; 
        switch(how) {
        case 0: v[i] = V(); break;
        case 1: { V t(n); x.st.reset(new Store(n)); x.cnt = n; fillNew(t, x, 0); v[i] = t; break; }
        case 2: { T e(El<T>::gen(R)); V t(n, e); x.st.reset(new Store(n, e)); x.cnt = n; v[i] = t; break; }
        case 3: { T a(El<T>::gen(R)), b(El<T>::gen(R)); V t({ a, b, a }); x.st.reset(new Store({ a, b, a })); x.cnt = 3; v[i] = t; break; }
        case 4: { x.st.reset(new Store); T *p = raw(o + n, *x.st); x.off = o; x.cnt = n; v[i] = V(p, o, n); break; }
        case 5: { x.st.reset(new Store); T *p = raw(o + n, *x.st); x.off = o; x.cnt = n; std::tr1::shared_ptr<T> sp(p, Del<T>()); delMade++; v[i] = V(sp, o, n);
                  if(R.coin()) { ext = sp; extm = x.st; } break; }
        case 6: { x.st.reset(new Store); T *p = raw(o + n, *x.st); x.off = o; x.cnt = n; delMade++; v[i] = V(p, Del<T>(), o, n); break; }
        default: v[i] = V((T*)0, o, n); break; // null input: empty
        }
        m[i] = x;
    }
    void mut() {
        int i = R.below(N), j = R.below(N); V& a = v[i]; M& x = m[i];
        std::string s(std::to_string(i)), sj(std::to_string(j));
        switch(R.below(18)) {
        case 0: log += " v" + s + "=v" + sj; a = v[j]; x = m[j]; break;
        case 1: { log += " v" + s + "=move v" + sj; V& b = v[j]; a = std::move(b); if(i != j) { x = m[j]; m[j] = M(); } break; }
        case 2: log += " swap v" + s + " v" + sj; a.swap(v[j]); std::swap(x, m[j]); break;
        case 3: log += " clear v" + s; a.clear(); x = M(); break;
        case 4: { size_t o = R.below(7), n = R.coin() ? R.below(7) : (size_t)-1; if(R.chance(1, 8)) o = (size_t)-1 - R.below(2); log += " v" + s + ".slice(" + std::to_string(o) + "," + std::to_string(n) + ")";
                  if(n == (size_t)-1 && R.coin()) a.slice(o); else a.slice(o, n);
                  o = std::min(o, x.cnt); n = std::min(n, x.cnt - o); x.off += o; x.cnt = n; break; }
        case 5: case 6: { size_t n = len(), old = x.cnt; log += " v" + s + ".resize(" + std::to_string(n) + ")"; 
                  bool f = failing(); try { a.resize(n); failIn = -1; } catch(std::runtime_error&) { failIn = -1; if(!f) throw; count("failed_copies"); break; } fit(x, n); if(n > old) fillNew(a, x, old); break; }
        case 7: { size_t n = len(), old = x.cnt; T e(El<T>::gen(R)); log += " v" + s + ".resize(" + std::to_string(n) + ",e)"; a.resize(n, e); fit(x, n); for(size_t q = old; q < n; q++) el(x, q) = e; break; }
        case 8: { size_t n = x.cnt + len(); log += " v" + s + ".reserve(" + std::to_string(n) + ")"; bool f = failing(); try { a.reserve(n); failIn = -1; } catch(std::runtime_error&) { failIn = -1; if(!f) throw; count("failed_copies"); break; }
                  own(x); VCHECK(a.capacity() >= n, "reserve", log << " capacity " << a.capacity()); break; }
        case 9: case 10: { size_t q = 1 + R.below(3); if(R.chance(1, 20)) q = 1100; log += " v" + s + ".push_back x" + std::to_string(q); for(; q; q--) { T e(El<T>::gen(R)); a.push_back(e); fit(x, x.cnt + 1); el(x, x.cnt - 1) = e; } break; }
        case 11: if(x.cnt) { log += " v" + s + ".pop_back"; a.pop_back(); x.cnt--; } break;
        case 12: { log += " v" + s + ".make_unique"; bool f = failing(); try { a.make_unique(); failIn = -1; } catch(std::runtime_error&) { failIn = -1; if(!f) throw; count("failed_copies"); break; }
                   own(x); VCHECK(a.unique(), "make-unique", log); break; }
        case 13: case 14: if(x.cnt) { size_t q = R.below(x.cnt); T e(El<T>::gen(R)); log += " v" + s + "[" + std::to_string(q) + "]="; 
                   switch(R.below(4)) { case 0: a[q] = e; break; case 1: a.at(q) = e; break; case 2: a.begin()[q] = e; break; default: a.data()[q] = e; } el(x, q) = e; } break;
        case 15: { size_t q = x.cnt + (R.coin() ? 0 : R.below(100)); log += " v" + s + ".at(" + std::to_string(q) + ")"; bool t = false; try { (void)a.at(q); } catch(std::out_of_range&) { t = true; } VCHECK(t, "at-range", log << " size " << x.cnt); count("refused"); break; }
        case 16: { V b(a); log += " v" + sj + "=copy v" + s; v[j] = b; M y(x); m[j] = y; break; }
        case 17: { bool e = a == v[j]; bool ref = x.cnt == m[j].cnt; for(size_t q = 0; ref && q < x.cnt; q++) ref = el(x, q) == el(m[j], q); VCHECK(e == ref && (a != v[j]) == !ref, "equal", log << " v" << s << " v" << sj); (void)show(a); break; }
        }
    }
    void cst() {
        int i = R.below(N), j = R.below(N); CV& a = c[i]; M& x = k[i];
        std::string s(std::to_string(i)), sj(std::to_string(j));
        switch(R.below(13)) {
        case 0: log += " c" + s + "=c" + sj; a = c[j]; x = k[j]; break;
        case 1: log += " c" + s + "=move c" + sj; a = std::move(c[j]); if(i != j) { x = k[j]; k[j] = M(); } break;
        case 2: log += " swap c" + s + " c" + sj; a.swap(c[j]); std::swap(x, k[j]); break;
        case 3: log += " clear c" + s; a.clear(); x = M(); break;
        case 4: { size_t o = R.below(5), n = R.coin() ? R.below(7) : (size_t)-1; log += " c" + s + ".slice(" + std::to_string(o) + "," + std::to_string(n) + ")"; a.slice(o, n); o = std::min(o, x.cnt); n = std::min(n, x.cnt - o); x.off += o; x.cnt = n; break; }
        case 5: { size_t n = R.below(x.cnt + 1); log += " c" + s + ".resize(" + std::to_string(n) + ")"; a.resize(n); fit(x, n); break; }
        case 6: { size_t n = x.cnt + len(); log += " c" + s + ".reserve(" + std::to_string(n) + ")"; a.reserve(n); own(x); break; }
        case 7: log += " c" + s + ".make_unique"; a.make_unique(); own(x); VCHECK(a.unique(), "make-unique", log); break;
        case 8: { size_t q = x.cnt + R.below(3); bool t = false; try { (void)a.at(q); } catch(std::out_of_range&) { t = true; } VCHECK(t, "at-range", log << " c" << s << ".at(" << q << ")"); count("refused"); break; }
        case 9: case 10: { // freeze
            log += " c" + sj + "=freeze v" + s; V& b = v[i]; M& y = m[i]; bool shared = !uniq(y), thrown = false;
            CV r; size_t n0 = b.size();
            try { if(R.coin()) r = pvd::freeze(b); else r = pvd::const_shared_vector_cast<const T>(b); } catch(std::runtime_error&) { thrown = true; }
            if(y.cnt) VCHECK(thrown == shared, "freeze-shared", log << " shared " << shared << " thrown " << thrown);
            if(thrown) { VCHECK(b.size() == n0, "freeze-refused", log); count("refused"); }
            else { VCHECK(b.empty() && !b.dataPtr(), "freeze-source", log); c[j] = r; k[j] = y; y = M(); count("frozen"); }
            break; }
        default: { // thaw
            log += " v" + sj + "=thaw c" + s; bool f = failing(); V r;
            try { if(R.coin()) { V t(pvd::thaw(a)); r.swap(t); } else r = pvd::const_shared_vector_cast<T>(a); failIn = -1; } catch(std::runtime_error&) { failIn = -1; if(!f) throw; count("failed_copies"); break; }
            VCHECK(a.empty() && !a.dataPtr(), "thaw-source", log); own(x); v[j] = r; r.clear(); m[j] = x; x = M();
            VCHECK(v[j].unique(), "thaw-unique", log); count("thawed"); break; }
        }
    }
    void typed() { typedImpl((typename std::conditional<std::is_same<T, Tracked>::value, int, long>::type)0); }
    void typedImpl(int) {}
    void typedImpl(long) { // through void and back, sharing; and conversions
        int i = R.below(N), j = R.below(N); std::string s(std::to_string(i)), sj(std::to_string(j));
        size_t es = sizeof(T);
        if(R.coin()) { V& a = v[i]; M x(m[i]); pvd::shared_vector<void> w(pvd::static_shared_vector_cast<void>(a)); log += " void v" + s + ">v" + sj;
            VCHECK(w.size() == x.cnt * es && w.original_type() == (pvd::ScalarType)pvd::ScalarTypeID<T>::value && (!x.cnt || w.data() == (void*)a.data()), "void-cast", log);
            pvd::shared_vector<void> w2(w), w3; w3 = w2; w2.clear();
            if(R.coin()) { size_t o = R.below(4), n = R.below(5); w3.slice(o * es, n * es); o = std::min(o, x.cnt); n = std::min(n, x.cnt - o); x.off += o; x.cnt = n; }
            bool conv = R.coin(); V b(conv ? pvd::shared_vector_convert<T>(w3) : pvd::static_shared_vector_cast<T>(w3)); w.clear(); w3.clear();
            if(conv && !x.cnt) x = M();
            v[j] = b; m[j] = x; 
        } else { CV& a = c[i]; M x(k[i]); pvd::shared_vector<const void> w(pvd::static_shared_vector_cast<const void>(a)); log += " void c" + s + ">c" + sj;
            VCHECK(w.size() == x.cnt * es, "void-cast", log);
            pvd::shared_vector<const void> w3; w3.swap(w);
            if(R.coin()) { size_t o = R.below(4), n = R.below(5); w3.slice(o * es, n * es); o = std::min(o, x.cnt); n = std::min(n, x.cnt - o); x.off += o; x.cnt = n; }
            bool conv = R.coin(); CV b(conv ? pvd::shared_vector_convert<const T>(w3) : pvd::static_shared_vector_cast<const T>(w3)); w3.clear();
            if(conv && !x.cnt) x = M();
            c[j] = b; k[j] = x; 
            // converted copies are independent and have the same values
            convert<double>(a, k[i], typename std::is_arithmetic<T>::type()); convert<int64_t>(a, k[i], typename std::is_arithmetic<T>::type());
        }
        count("void_casts");
    }
    template<typename TO> void convert(CV&, M&, std::false_type) {}
    template<typename TO> void convert(CV& a, M& x, std::true_type) {
        pvd::shared_vector<const void> w(pvd::static_shared_vector_cast<const void>(a));
        pvd::shared_vector<const TO> d(pvd::shared_vector_convert<const TO>(w));
        VCHECK(d.size() == x.cnt, "convert-size", log << " got " << d.size());
        for(size_t q = 0; q < x.cnt; q++) VCHECK(d[q] == (TO)el(x, q), "convert-element", log);
        count("conversions");
    }
    void run() {
        int steps = 5 + R.below(50);
        for(int q = 0; q < steps; q++) {
            switch(R.below(12)) { case 0: case 1: case 2: create(); break; case 3: case 4: case 5: case 6: mut(); break; case 7: case 8: case 9: case 10: cst(); break;
                default: if(R.coin()) { ext.reset(); extm.reset(); log += " drop"; } else typed(); }
            checkAll(); count("vector_ops");
        }
        distinct(hstr(log));
        if(steps < 8) sample(log);
    }
};
MODE(vectors) {
    live_ = 0; failIn = -1; delCount = delMade = 0;
    switch(R.below(6)) {
    case 0: { Pool<int8_t> p(R); p.run(); break; }
    case 1: { Pool<int32_t> p(R); p.run(); break; }
    case 2: { Pool<double> p(R); p.run(); break; }
    case 3: { Pool<std::string> p(R); p.run(); break; }
    default: { std::string l; { Pool<Tracked> p(R); p.run(); l = p.log; } VCHECK(live_ == 0, "elements-leaked", live_ << " elements alive after " << l); count("lifetimes"); }
    }
    VCHECK(delCount == delMade, "deleter", "deleters called " << delCount << " of " << delMade);
}
// untyped arrays and conversion from any original type
MODE(untyped) {
    pvd::ScalarType st = (pvd::ScalarType)R.below(pvd::MAX_SCALAR_TYPE + 1); size_t n = R.below(20);
    pvd::shared_vector<void> a(pvd::ScalarTypeFunc::allocArray(st, n));
    VCHECK(a.original_type() == st && a.size() == n * pvd::ScalarTypeFunc::elementSize(st), "alloc-array", (int)st << " x " << n << " size " << a.size());
    VCHECK(a.unique(), "alloc-array", "not unique");
    std::string txt; std::vector<int> vals;
    switch(st) {
#define X(E, T) case pvd::E: { pvd::shared_vector<T> t(pvd::static_shared_vector_cast<T>(a)); VCHECK(t.size() == n, "alloc-size", n); for(size_t i = 0; i < n; i++) { vals.push_back(R.below(sizeof(T) == 1 && pvd::E == pvd::pvBoolean ? 2 : 100)); t[i] = (T)vals.back(); } break; }
    G_EACH_NUM(X)
#undef X
    case pvd::pvString: { pvd::shared_vector<std::string> t(pvd::static_shared_vector_cast<std::string>(a)); VCHECK(t.size() == n, "alloc-size", n); for(size_t i = 0; i < n; i++) { vals.push_back(R.below(100)); t[i] = std::to_string(vals.back()); } break; }
    }
    pvd::shared_vector<const void> f(pvd::freeze(a));
    VCHECK(a.empty() && f.original_type() == st, "freeze-void", "type " << f.original_type());
    size_t o = R.below(n + 1), c = R.below(n + 3), es = pvd::ScalarTypeFunc::elementSize(st); f.slice(o * es, c * es); c = std::min(c, n - o);
    VCHECK(f.size() == c * es, "slice-void", f.size());
    if(st == pvd::pvBoolean && c) { VTHROWS((void)pvd::shared_vector_convert<const int32_t>(f), "convert-boolean", "to int"); VTHROWS((void)pvd::shared_vector_convert<const double>(f), "convert-boolean", "to double"); count("refused"); } else
    { pvd::shared_vector<const int32_t> x(pvd::shared_vector_convert<const int32_t>(f)); VCHECK(x.size() == c, "convert-size", x.size() << " expected " << c << " from type " << st); for(size_t i = 0; i < c; i++) VCHECK(x[i] == vals[o + i], "convert-element", i << " from type " << st); }
    if(st != pvd::pvBoolean) { pvd::shared_vector<const double> x(pvd::shared_vector_convert<const double>(f)); VCHECK(x.size() == c, "convert-size", x.size()); for(size_t i = 0; i < c; i++) VCHECK(x[i] == vals[o + i], "convert-element", i << " from type " << st); }
    { pvd::shared_vector<const std::string> x(pvd::shared_vector_convert<const std::string>(f)); VCHECK(x.size() == c, "convert-size", x.size());
      for(size_t i = 0; i < c; i++) VCHECK(x[i] == (st == pvd::pvBoolean ? std::string(vals[o + i] ? "true" : "false") : std::to_string(vals[o + i])), "convert-element", i << " from type " << st << " " << x[i]); }
    pvd::shared_vector<const void> g2(f); VCHECK(!c || (!f.unique() && !g2.unique()), "unique-void", ""); 
    count("untyped"); distinct(mix(st * 1000003u + n * 71 + o * 7 + c));
}
// frozen data is read by several threads, which come and go, while their owner makes changed copies
MODE(threads) {
    size_t n = 1 + R.below(40); int T = 2 + R.below(5), rounds = 10 + R.below(40); uint64_t seed = R.next();
    pvd::shared_vector<int> a(n); for(size_t i = 0; i < n; i++) a[i] = (int)(i * 3);
    const pvd::shared_vector<const int> base(pvd::freeze(a));
    std::atomic<int> bad(0), reads(0); std::atomic<int> go(0);
    std::vector<std::thread> th;
    for(int t = 0; t < T; t++) th.push_back(std::thread([&, t]() {
        Rng r(seed + t); go++; while(go < T) std::this_thread::yield();
        for(int q = 0; q < rounds; q++) {
            pvd::shared_vector<const int> c(base); size_t o = r.below(n); size_t len = r.below(n - o + 1); c.slice(o, len);
            for(size_t i = 0; i < c.size(); i++) { if(c[i] != (int)((o + i) * 3)) bad++; reads++; }
            if(r.coin()) { pvd::shared_vector<int> m(pvd::thaw(c)); if(!m.unique() || m.size() != len) bad++; for(size_t i = 0; i < m.size(); i++) { if(m[i] != (int)((o + i) * 3)) bad++; m[i] = -1; }
                m.push_back(7); if(m.back() != 7) bad++; }
            else if(r.coin()) { c.make_unique(); for(size_t i = 0; i < c.size(); i++) if(c[i] != (int)((o + i) * 3)) bad++; }
            if(r.chance(1, 5)) std::this_thread::yield();
        } }));
    for(auto& t : th) t.join();
    VCHECK(bad == 0, "frozen-changed", bad << " of " << reads << " reads");
    for(size_t i = 0; i < n; i++) VCHECK(base[i] == (int)(i * 3), "frozen-changed", i);
    VCHECK(base.unique(), "frozen-unique", base.dataPtr().use_count());
    count("concurrent_reads", reads); distinct(mix(seed));
}
VH_MAIN
