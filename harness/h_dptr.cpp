// C29: epics::debug::shared_ptr / weak_ptr against a model of std::shared_ptr
#include "vh.h"
#include "perturb.h"
#include <pv/debugPtr.h>
SCHED_WRAPS
using namespace vh;
namespace D = epics::debug;

namespace {

struct World;
struct Base : public D::enable_shared_from_this<Base> {
    int id; std::atomic<int> *dead;
    D::shared_ptr<Base> next;
    uint64_t canary;
    Base(int id, std::atomic<int> *dead) : id(id), dead(dead), canary(0x1234567890abcdefull) {}
    virtual ~Base() { canary = 0; dead->fetch_add(1, std::memory_order_relaxed); }
};
struct Derived : public Base { int extra; Derived(int id, std::atomic<int> *d) : Base(id, d), extra(id * 3) {} virtual ~Derived() {} };
struct Other : public Base { Other(int id, std::atomic<int> *d) : Base(id, d) {} virtual ~Other() {} };

typedef D::shared_ptr<Base> PB;
typedef D::shared_ptr<Derived> PD;
typedef D::shared_ptr<const Base> PC;
typedef D::weak_ptr<Base> WB;
typedef D::weak_ptr<Derived> WD;
typedef D::ptr_base::ref_set_t Refs;

struct Deleter { std::atomic<int> *calls; template<class T> void operator()(T *p) const { calls->fetch_add(1, std::memory_order_relaxed); delete p; } };
struct NoDelete { template<class T> void operator()(T*) const {} };

enum { NB = 5, ND = 4, NC = 3, NW = 4 };
struct World {
    std::vector<PB> b; std::vector<PD> d; std::vector<PC> c; std::vector<WB> wb; std::vector<WD> wd;
    // model: object each refers to, -1 none
    std::vector<int> mb, md, mc, mwb, mwd;
    struct Obj { std::atomic<int> *dead, *del; int kind; Base *raw; int next; bool custom, gone; };
    std::vector<Obj> o;
    std::ostringstream hist;
    World() : b(NB), d(ND), c(NC), wb(NW), wd(NW), mb(NB, -1), md(ND, -1), mc(NC, -1), mwb(NW, -1), mwd(NW, -1) {}
    ~World() { b.clear(); d.clear(); c.clear(); wb.clear(); wd.clear(); for(Obj& x : o) { delete x.dead; delete x.del; } }
    int count(int id) {
        int n = 0;
        for(int x : mb) n += x == id; for(int x : md) n += x == id; for(int x : mc) n += x == id;
        for(size_t i = 0; i < o.size(); i++) if(!o[i].gone && o[i].next == id) n++;
        return n;
    }
    void collect() {
        bool again = true;
        while(again) {
            again = false;
            for(size_t i = 0; i < o.size(); i++) if(!o[i].gone && count(i) == 0) { o[i].gone = true; o[i].next = -1; again = true; }
        }
    }
    int newObj(int kind, bool custom, Base **out) {
        Obj x; x.dead = new std::atomic<int>(0); x.del = new std::atomic<int>(0); x.kind = kind; x.next = -1; x.custom = custom; x.gone = false;
        int id = o.size();
        x.raw = kind == 0 ? new Base(id, x.dead) : kind == 1 ? (Base*)new Derived(id, x.dead) : (Base*)new Other(id, x.dead);
        o.push_back(x);
        *out = x.raw;
        return id;
    }
    template<class P> void checkOne(const P& p, int m, const char *what, size_t i) {
        const Base *want = m < 0 ? 0 : o[m].raw;
        VCHECK(p.get() == want, "get", what << i << " model " << m << hist.str());
        VCHECK(bool(p) == (m >= 0), "bool", what << i << hist.str());
        VCHECK(p.use_count() == (m < 0 ? 0 : count(m)), "use_count", what << i << " got " << p.use_count() << " want " << (m < 0 ? 0 : count(m)) << hist.str());
        VCHECK(p.unique() == (m >= 0 && count(m) == 1), "unique", what << i << hist.str());
        if(m >= 0) VCHECK(p->canary == 0x1234567890abcdefull && (*p).id == m, "contents", what << i << hist.str());
        refs(p, m, what, i);
    }
    template<class P> void refs(const P& p, int m, const char *what, size_t i) {
        Refs got, want;
        p.spy_refs(got);
        if(m >= 0 && !o[m].gone) {
            for(int k = 0; k < NB; k++) if(mb[k] == m) want.insert(&b[k]);
            for(int k = 0; k < ND; k++) if(md[k] == m) want.insert(&d[k]);
            for(int k = 0; k < NC; k++) if(mc[k] == m) want.insert(&c[k]);
            for(size_t k = 0; k < o.size(); k++) if(!o[k].gone && o[k].next == m) want.insert(&o[k].raw->next);
        }
        VCHECK(got == want, "refs", what << i << " object " << m << " reports " << got.size() << " references, live " << want.size() << hist.str());
        vh::count("ref_sets");
    }
    void check() {
        collect();
        for(size_t i = 0; i < o.size(); i++) {
            VCHECK(*o[i].dead == (o[i].gone ? 1 : 0), "lifetime", "object " << i << " destroyed " << *o[i].dead << " times, references " << count(i) << hist.str());
            VCHECK(*o[i].del == (o[i].gone && o[i].custom ? 1 : 0), "deleter", "object " << i << " deleter called " << *o[i].del << hist.str());
        }
        for(int i = 0; i < NB; i++) checkOne(b[i], mb[i], "b", i);
        for(int i = 0; i < ND; i++) checkOne(d[i], md[i], "d", i);
        for(int i = 0; i < NC; i++) checkOne(c[i], mc[i], "c", i);
        for(size_t i = 0; i < o.size(); i++) if(!o[i].gone) checkOne(o[i].raw->next, o[i].next, "next", i);
        for(int i = 0; i < NW; i++) {
            int m = mwb[i]; bool live = m >= 0 && !o[m].gone;
            VCHECK(wb[i].expired() == !live && wb[i].use_count() == (live ? count(m) : 0), "weak", "wb" << i << " model " << m << hist.str());
            refs(wb[i], m, "wb", i);
            m = mwd[i]; live = m >= 0 && !o[m].gone;
            VCHECK(wd[i].expired() == !live && wd[i].use_count() == (live ? count(m) : 0), "weak", "wd" << i << " model " << m << hist.str());
            refs(wd[i], m, "wd", i);
        }
    }
};

template<class P, class Q> void order(const P& a, const Q& b) {
    VCHECK((a == b) == (a.get() == b.get()) && (a != b) == (a.get() != b.get()), "compare", a.get() << " " << b.get());
    VCHECK((a < b) == std::less<const void*>()(a.get(), b.get()), "compare:less", a.get() << " " << b.get());
}

} // namespace

MODE(ptrs) {
    World W;
    size_t steps = 5 + R.below(60);
    W.check();
    for(size_t s = 0; s < steps; s++) {
        int i = R.below(NB), j = R.below(NB), k = R.below(ND), l = R.below(ND), m = R.below(NC), w = R.below(NW), v = R.below(NW);
        int op = R.below(39);
        W.hist << " " << op << ":" << i << j << k << l << m << w;
        Base *raw = 0;
        switch(op) {
        case 0: case 1: { // a new object
            int kind = R.below(3); bool custom = R.coin();
            int id = W.newObj(kind, custom, &raw);
            Deleter del = {W.o[id].del};
            if(R.coin()) { if(custom) W.b[i].reset(raw, del); else W.b[i].reset(raw); }
            else if(custom) { PB t(raw, del); W.b[i] = t; }
            else { PB t(raw); t.swap(W.b[i]); }
            W.mb[i] = id; break; }
        case 2: case 3: {
            bool custom = R.coin();
            int id = W.newObj(1, custom, &raw);
            Deleter del = {W.o[id].del}; Derived *r = static_cast<Derived*>(raw);
            if(R.coin()) { if(custom) W.d[k].reset(r, del); else W.d[k].reset(r); }
            else if(custom) W.d[k] = PD(r, del);
            else { W.d[k] = PD(r); }
            W.md[k] = id; break; }
        case 4: { // from a unique_ptr
            int id = W.newObj(R.below(3), false, &raw);
            std::unique_ptr<Base> u(raw);
            PB t(std::move(u));
            VCHECK(!u, "unique_ptr", W.hist.str());
            W.b[i] = t; W.mb[i] = id; break; }
        case 5: { // keeps the address of the pointer itself
            int id = W.newObj(R.below(3), false, &raw);
            PB t((std::unique_ptr<Base>(raw)));
            Refs r; t.spy_refs(r);
            VCHECK(r.size() == 1 && r.count(&t), "refs:unique_ptr", r.size() << W.hist.str());
            t.swap(W.b[i]); W.mb[i] = id; break; }
        case 6: W.b[i] = W.b[j]; W.mb[i] = W.mb[j]; break;
        case 7: W.d[k] = W.d[l]; W.md[k] = W.md[l]; break;
        case 8: W.b[i] = W.d[k]; W.mb[i] = W.md[k]; break;
        case 9: W.c[m] = W.b[i]; W.mc[m] = W.mb[i]; break;
        case 10: W.c[m] = W.d[k]; W.mc[m] = W.md[k]; break;
        case 11: W.b[i].reset(); W.mb[i] = -1; break;
        case 12: W.d[k].reset(); W.md[k] = -1; break;
        case 13: W.c[m].reset(); W.mc[m] = -1; break;
        case 14: W.b[i].swap(W.b[j]); std::swap(W.mb[i], W.mb[j]); break;
        case 15: W.d[k].swap(W.d[l]); std::swap(W.md[k], W.md[l]); break;
        case 16: { PB t(W.b[j]); Refs r; t.spy_refs(r); VCHECK(W.mb[j] < 0 ? r.empty() : r.count(&t) && r.count(&W.b[j]), "refs:copy", W.hist.str()); W.b[i] = t; W.mb[i] = W.mb[j]; break; }
        case 17: { // casts
            PD t(D::dynamic_pointer_cast<Derived>(W.b[i]));
            bool ok = W.mb[i] >= 0 && W.o[W.mb[i]].kind == 1;
            VCHECK(bool(t) == ok && t.use_count() == (ok ? W.count(W.mb[i]) + 1 : 0), "dynamic_cast", W.hist.str());
            Refs r, all; t.spy_refs(r); W.b[i].spy_refs(all);
            VCHECK(ok ? r.count(&t) == 1 : r.empty(), "refs:dynamic_cast", "reports " << r.size() << W.hist.str());
            VCHECK(all.count(&t) == (ok ? 1u : 0u), "refs:dynamic_cast", "object reports " << all.size() << " live " << (W.mb[i] < 0 ? 0 : W.count(W.mb[i])) << W.hist.str());
            if(R.coin()) { W.d[k] = t; W.md[k] = ok ? W.mb[i] : -1; }
            break; }
        case 18: {
            if(W.mb[i] >= 0 && W.o[W.mb[i]].kind != 1) break;
            W.d[k] = D::static_pointer_cast<Derived>(W.b[i]); W.md[k] = W.mb[i]; break; }
        case 19: W.b[i] = D::const_pointer_cast<Base>(W.c[m]); W.mb[i] = W.mc[m]; break;
        case 20: W.wb[w] = W.b[i]; W.mwb[w] = W.mb[i]; break;
        case 21: W.wd[w] = W.d[k]; W.mwd[w] = W.md[k]; break;
        case 22: W.wb[w] = W.d[k]; W.mwb[w] = W.md[k]; break;
        case 23: if(R.coin()) W.wb[w] = W.wb[v];
            else { WB c(W.wb[v]); const WB& cc = c; WB d(cc); VCHECK(c.expired() == W.wb[v].expired() && c.use_count() == W.wb[v].use_count() && d.use_count() == c.use_count() && d.lock() == W.wb[v].lock(), "weak-copy", W.hist.str());
                W.refs(c, W.mwb[v], "copy of wb", v); W.wb[w] = d; count("weak_copies"); }
            W.mwb[w] = W.mwb[v]; break;
        case 24: W.wb[w].reset(); W.mwb[w] = -1; break;
        case 25: case 26: { // lock
            bool live = W.mwb[w] >= 0 && !W.o[W.mwb[w]].gone;
            PB t(W.wb[w].lock());
            VCHECK(bool(t) == live, "lock", W.hist.str());
            Refs r; t.spy_refs(r);
            VCHECK(live ? r.count(&t) == 1 : r.empty(), "refs:lock", "reports " << r.size() << W.hist.str());
            W.wb[w].spy_refs(r);
            VCHECK(live || r.empty(), "refs:lock", "expired, reports " << r.size() << W.hist.str());
            W.b[i] = t; W.mb[i] = live ? W.mwb[w] : -1;
            count(live ? "locks" : "failed_locks");
            break; }
        case 27: {
            bool live = W.mwd[w] >= 0 && !W.o[W.mwd[w]].gone;
            if(live) { PB t(W.wd[w]); W.b[i] = t; W.mb[i] = W.mwd[w]; }
            else { VTHROWS(PB(W.wd[w]), "from-weak", W.hist.str()); count("failed_locks"); }
            break; }
        case 28: { if(W.mb[i] < 0) break;
            PB t(W.b[i]->shared_from_this());
            VCHECK(t == W.b[i] && t.use_count() == W.count(W.mb[i]) + 1, "shared_from_this", W.hist.str());
            VCHECK(!t.owner_before(W.b[i]) && !W.b[i].owner_before(t), "shared_from_this:owner", W.hist.str());
            W.b[j] = t; W.mb[j] = W.mb[i];
            break; }
        case 29: case 30: { // link
            if(W.mb[i] < 0 || W.mb[j] == W.mb[i]) break;
            // keep it acyclic: a node may only refer to a later one
            if(W.mb[j] >= 0 && W.mb[j] <= W.mb[i]) break;
            W.b[i]->next = W.b[j]; W.o[W.mb[i]].next = W.mb[j]; break; }
        case 31: case 32: { // unlink: the old head may die with this
            if(W.mb[i] < 0) break;
            int nx = W.o[W.mb[i]].next;
            bool dies = W.count(W.mb[i]) == 1;
            if(R.coin()) W.b[i] = W.b[i]->next;
            else { if(W.mb[i] < 0) break; PC *pc = &W.c[m]; *pc = W.b[i]; W.b[i].reset(); W.mc[m] = W.mb[i]; dies = W.count(W.mc[m]) == 2; *pc = (*pc)->next; W.mc[m] = nx; W.mb[i] = -1; if(dies) count("unlinked_dead"); break; }
            W.mb[i] = nx; if(dies) count("unlinked_dead"); break; }
        case 33: { std::vector<PB> t; for(int n = R.below(6); n >= 0; n--) t.push_back(W.b[i]); std::reverse(t.begin(), t.end());
            Refs r; W.b[i].spy_refs(r);
            if(W.mb[i] >= 0) { VCHECK(r.size() == (size_t)W.count(W.mb[i]) + t.size(), "refs:vector", r.size() << W.hist.str()); for(PB& p : t) VCHECK(r.count(&p), "refs:vector", W.hist.str()); }
            W.b[j] = t.back(); W.mb[j] = W.mb[i]; break; }
        case 34: { // two owners of one address
            int id = W.mb[i]; if(id < 0) break;
            D::shared_ptr<Derived> other;
            if(W.o[id].kind != 1) break;
            struct Plain { int v; virtual ~Plain() {} }; struct Plain2 : public Plain {};
            Plain2 obj; obj.v = 0;
            D::shared_ptr<Plain2> p(&obj, NoDelete()); D::shared_ptr<Plain> z(&obj, NoDelete());
            z = p;
            VCHECK(z.use_count() == 2 && p.use_count() == 2, "owner", z.use_count() << W.hist.str());
            Refs r; p.spy_refs(r);
            VCHECK(r.size() == 2 && r.count(&z) && r.count(&p), "refs:owner", r.size() << W.hist.str());
            break; }
        case 36: W.wb[w] = W.b[i]; W.mwb[w] = W.mb[i]; break;
        case 37: W.wd[w] = W.d[k]; W.mwd[w] = W.md[k]; break;
        case 38: { // copies of an object have their own owners
            struct V : public D::enable_shared_from_this<V> { int v; virtual ~V() {} };
            D::shared_ptr<V> a(new V), e(new V); a->v = 1; e->v = 2;
            *a = *e;
            VCHECK(a->v == 2 && a->shared_from_this() == a && e->shared_from_this() == e, "shared_from_this:copy", W.hist.str());
            V lone(*e);
            VTHROWS(lone.shared_from_this(), "shared_from_this:unowned", W.hist.str());
            D::shared_ptr<V> g(new V(*e));
            VCHECK(g->shared_from_this() == g, "shared_from_this:copy", W.hist.str());
            VCHECK(g.use_count() == 1 && e.use_count() == 1, "shared_from_this:copy", W.hist.str());
            break; }
        case 35: order(W.b[i], W.b[j]); order(W.d[k], W.d[l]); {
            std::ostringstream o; W.b[i].show_refs(o, true, R.coin());
            std::ostringstream o2; W.b[i].show_refs(o2, false);
            int n = W.mb[i] < 0 ? 0 : W.count(W.mb[i]);
            std::string t(o.str()), t2(o2.str());
            if(n) VCHECK(std::count(t.begin(), t.end(), '\n') == n && std::count(t2.begin(), t2.end(), '\n') == n - 1, "show_refs", q(t) << " live " << n << W.hist.str());
            break; }
        }
        W.check();
        count("ptr_ops");
    }
    distinct(hstr(W.hist.str()));
    // everything goes
    for(PB& p : W.b) p.reset(); for(PD& p : W.d) p.reset(); for(PC& p : W.c) p.reset();
    for(int& x : W.mb) x = -1; for(int& x : W.md) x = -1; for(int& x : W.mc) x = -1;
    W.check();
    for(auto& x : W.o) VCHECK(*x.dead == 1, "lifetime:end", *x.dead << W.hist.str());
    count("objects", W.o.size());
}

// many threads, each with its own pointers to common objects
MODE(ptrthreads) {
    sch::Perturb P(R);
    size_t nobj = 1 + R.below(4), nth = 2 + R.below(4), nops = 50 + R.below(300);
    std::vector<std::atomic<int>> dead(nobj);
    for(auto& x : dead) x = 0;
    std::vector<PB> roots;
    for(size_t i = 0; i < nobj; i++) roots.push_back(i % 2 ? PB(new Base(i, &dead[i])) : PB(new Derived(i, &dead[i])));
    struct T { std::vector<PB> b; std::vector<PD> d; std::vector<WB> w; Rng r; std::string bad; T(uint64_t s) : r(s) {} };
    std::vector<std::unique_ptr<T>> ts;
    for(size_t t = 0; t < nth; t++) {
        ts.push_back(std::unique_ptr<T>(new T(R.next())));
        T& x = *ts.back();
        x.b.resize(6); x.d.resize(4); x.w.resize(4);
        for(PB& p : x.b) if(R.coin()) p = R.pick(roots);
        for(WB& p : x.w) p = R.pick(roots);
    }
    bool drop = R.coin();
    if(drop) roots.clear(); else roots.resize(1 + R.below(nobj));
    std::mutex mx; std::vector<PB> box(4); // handed over between threads
    std::vector<std::thread> th;
    for(auto& tp : ts) th.push_back(std::thread([&, tp = tp.get()] {
        T& x = *tp; Rng& r = x.r;
        for(size_t n = 0; n < nops; n++) {
            PB& p = x.b[r.below(x.b.size())]; PB& q = x.b[r.below(x.b.size())]; PD& d = x.d[r.below(x.d.size())]; WB& w = x.w[r.below(x.w.size())];
            switch(r.below(13)) {
            case 0: case 1: p = q; break;
            case 2: p.swap(q); break;
            case 3: if(r.chance(1, 3)) p.reset(); break;
            case 4: d = D::dynamic_pointer_cast<Derived>(p); break;
            case 5: p = d; break;
            case 6: w = p; break;
            case 7: case 8: { PB l(w.lock()); if(l) { if(l->canary != 0x1234567890abcdefull) x.bad = "locked a dead object"; p = l; } break; }
            case 9: { Refs rs; p.spy_refs(rs); if(p && !rs.count(&p)) x.bad = "own reference not listed"; if(!p && rs.size()) x.bad = "null pointer has references"; break; }
            case 10: { std::ostringstream o; p.show_refs(o); break; }
            case 11: if(p) { PB s(p->shared_from_this()); if(s.get() != p.get()) x.bad = "shared_from_this"; q = s; } break;
            case 12: { std::lock_guard<std::mutex> G(mx); PB& bx = box[r.below(box.size())]; if(r.coin()) bx.swap(p); else p = bx; break; }
            }
            if(p && p->canary != 0x1234567890abcdefull) x.bad = "dead object";
        }
    }));
    for(auto& t : th) t.join();
    for(auto& t : ts) VCHECK(t->bad.empty(), "threads:" + t->bad.substr(0, t->bad.find(' ')), t->bad);
    // quiescent: reference sets are exact
    for(size_t i = 0; i < nobj; i++) {
        Refs want; std::vector<const D::ptr_base*> any;
        auto add = [&](const D::shared_ptr_base *p, const Base *o) { if(o && o->id == (int)i) { want.insert(p); any.push_back(p); } };
        for(PB& p : roots) add(&p, p.get());
        for(PB& p : box) add(&p, p.get());
        for(auto& t : ts) { for(PB& p : t->b) add(&p, p.get()); for(PD& p : t->d) add(&p, p.get()); }
        VCHECK(dead[i] == (want.empty() ? 1 : 0), "threads:lifetime", "object " << i << " references " << want.size() << " destroyed " << dead[i]);
        if(!any.empty()) { Refs got; any[0]->spy_refs(got); VCHECK(got == want, "threads:refs", "object " << i << " reports " << got.size() << " live " << want.size()); count("quiescent_sets"); }
    }
    roots.clear(); box.clear(); 
    for(auto& t : ts) { t->b.clear(); t->d.clear(); }
    for(size_t i = 0; i < nobj; i++) VCHECK(dead[i] == 1, "threads:lifetime", "object " << i << " destroyed " << dead[i] << " times at the end");
    for(auto& t : ts) for(WB& w : t->w) VCHECK(w.expired() && !w.lock(), "threads:weak", "");
    count("thread_ops", nth * nops);
    distinct(R.s);
}

VH_MAIN
