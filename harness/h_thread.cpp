// C28: Thread, Event, Lock
#include "vh.h"
#include "perturb.h"
#include <condition_variable>
#include <set>
#include <algorithm>
#include <pv/thread.h>
#include <pv/event.h>
#include <pv/lock.h>
#include <pv/reftrack.h>
SCHED_WRAPS
using namespace epics::pvData;
using namespace vh;
using sch::nap;

namespace {
struct Target : public Runnable {
    std::atomic<int> runs; int plain; std::string name; unsigned prio; unsigned us; Event *go, *began; std::vector<int> data;
    Target() : runs(0), plain(0), prio(0), us(0), go(0), began(0) {}
    virtual ~Target() {}
    void body() {
        runs.fetch_add(1, std::memory_order_relaxed);
        char b[128]; epicsThreadGetName(epicsThreadGetIdSelf(), b, sizeof b); name = b;
        prio = epicsThreadGetPrioritySelf();
        if(began) began->signal();
        if(go) go->wait();
        if(us) nap(us);
        for(int i = 0; i < 20; i++) data.push_back(i);
        plain = 4711; // visible after the join
    }
    virtual void run() { body(); }
    static void entry(void *p) { static_cast<Target*>(p)->body(); }
};
}

MODE(threads) {
    sch::Perturb P(R);
    size_t n0 = epics::atomic::get(Thread::num_instances);
    size_t n = 1 + R.below(5);
    std::ostringstream hist;
    struct One { std::unique_ptr<Target> t; std::unique_ptr<Event> go, began; std::unique_ptr<Thread> th; ~One() { if(go) go->signal(); } One() {} One(One&&) = default; bool started, waitBegan; std::string name; unsigned prio; };
    std::vector<One> v(n);
    for(size_t i = 0; i < n; i++) {
        One& o = v[i];
        o.t.reset(new Target); Target *t = o.t.get();
        o.started = true; o.waitBegan = R.chance(2, 3);
        if(R.coin()) t->us = R.below(2000);
        if(R.coin()) { o.go.reset(new Event); t->go = o.go.get(); }
        if(o.waitBegan) { o.began.reset(new Event); t->began = o.began.get(); }
        static const ThreadPriority pr[] = {lowestPriority, lowerPriority, lowPriority, middlePriority, highPriority, higherPriority, highestPriority};
        ThreadPriority p = pr[R.below(7)];
        o.prio = p;
        o.name = "n" + std::to_string(R.below(1000));
        int form = R.below(8);
        hist << " " << form;
        epicsThreadStackSizeClass st = R.coin() ? epicsThreadStackSmall : epicsThreadStackBig;
        switch(form) {
        case 0: o.th.reset(new Thread(o.name, p, t)); break;
        case 1: o.th.reset(new Thread(o.name, p, t, st)); break;
        case 2: o.th.reset(new Thread(*t, o.name, epicsThreadGetStackSize(st), p)); break;
        default: {
            Thread::Config c;
            bool autostart = R.coin();
            if(R.chance(1, 8)) { VTHROWS(Thread(Thread::Config().name("x")), "no-runner", form); count("no_runner"); }
            if(R.coin()) c.run([] { abort(); }); // replaced below
            switch(form) {
            case 3: c.run(t); break;
            case 4: c.run(&Target::entry, t); break;
            case 5: c.run(t, &Target::body); break;
            case 6: { Target *tt = t; c.run([tt] { tt->body(); }); break; }
            case 7: break;
            }
            std::unique_ptr<Thread::Config> c2;
            if(form == 7) {
                switch(R.below(4)) {
                case 0: c2.reset(new Thread::Config(t)); break;
                case 1: c2.reset(new Thread::Config(&Target::entry, t)); break;
                case 2: c2.reset(new Thread::Config(t, &Target::body)); break;
                case 3: c2.reset(new Thread::Config([t] { t->body(); })); break;
                }
            }
            Thread::Config& cc = c2 ? *c2 : c;
            switch(R.below(3)) {
            case 0: cc.name(o.name); break;
            case 1: cc << o.name; break;
            case 2: cc.name(o.name) << 7 << "x"; o.name += "7x"; break;
            }
            cc.prio(p).stack(st);
            if(!autostart || R.coin()) cc.autostart(autostart);
            o.th.reset(new Thread(cc));
            if(!autostart) {
                if(R.coin()) nap(300);
                VCHECK(t->runs == 0, "autostart", "ran before start()" << hist.str());
                if(R.chance(3, 4)) o.th->start(); else o.started = false;
            }
            break; }
        }
        count("threads");
    }
    VCHECK(epics::atomic::get(Thread::num_instances) == n0 + n, "instances", epics::atomic::get(Thread::num_instances) << " want " << n0 + n);
    for(size_t i = 0; i < n; i++) {
        One& o = v[i]; Target& t = *o.t;
        if(o.started && o.waitBegan) {
            VCHECK(o.began->wait(30.0), "never-ran", "started thread did not run its target" << hist.str());
            if(o.go && R.chance(1, 3)) { VCHECK(!o.th->exitWait(0.002), "join:early", "timed join says that a blocked thread has finished" << hist.str()); count("timed_joins"); }
        }
        if(o.go) {
            if(R.coin()) o.go->signal();
            else { // the join starts first
                Event *e = o.go.get(); std::thread s([e] { nap(1500); e->signal(); });
                if(R.coin()) o.th->exitWait(); else o.th.reset();
                if(o.started && o.waitBegan) VCHECK(t.runs == 1 && t.plain == 4711, "join", "joined before the target has finished" << hist.str());
                s.join();
            }
        }
        switch(R.below(4)) {
        case 0: if(o.th) o.th->exitWait(); break;
        case 1: o.th.reset(); break;
        case 2: if(o.th) { uint64_t t0 = sch::mono(); while(!o.th->exitWait(0.5) && sch::mono() - t0 < 30000000000ull) tick(); } break;
        case 3: if(o.th) { Thread *th = o.th.release(); std::thread d([th] { delete th; }); d.join(); } break;
        }
        int r = t.runs;
        if(o.started && o.waitBegan) VCHECK(r == 1, "runs", r << hist.str());
        else if(!o.started) VCHECK(r == 0, "runs", "not started, ran " << r << hist.str());
        else VCHECK(r <= 1, "runs", r << hist.str()); // a join may overtake the start
        if(r) {
            VCHECK(t.plain == 4711 && t.data.size() == 20 && t.data[19] == 19, "visible", "writes of the target are not visible after the join " << t.plain << hist.str());
            VCHECK(t.name == o.name, "name", q(t.name) << " want " << q(o.name) << hist.str());
            VCHECK(t.prio == o.prio, "priority", t.prio << " want " << o.prio << hist.str());
            count("joined");
        } else count("not_begun");
        if(o.th && R.coin()) o.th->exitWait(); // again
    }
    v.clear();
    VCHECK(epics::atomic::get(Thread::num_instances) == n0, "instances", epics::atomic::get(Thread::num_instances) << " want " << n0);
    distinct(hstr(hist.str()));
}

namespace {
// linearizability of a binary event: signal sets it, a successful wait clears it, a failed one saw it clear
struct EOp { int kind; bool res; uint64_t call, ret; double timeout, took; }; // 0 signal 1 wait
struct Lin {
    std::vector<EOp> ops; std::set<uint64_t> seen;
    bool go(uint32_t done, int full) {
        if(done == (1u << ops.size()) - 1) return true;
        if(!seen.insert((uint64_t)done * 2 + full).second) return false;
        uint64_t minRet = ~0ull;
        for(size_t i = 0; i < ops.size(); i++) if(!(done >> i & 1)) minRet = std::min(minRet, ops[i].ret);
        for(size_t i = 0; i < ops.size(); i++) {
            if(done >> i & 1 || ops[i].call > minRet) continue;
            const EOp& o = ops[i]; int nf;
            if(o.kind == 0) nf = 1; else if(o.res) { if(!full) continue; nf = 0; } else { if(full) continue; nf = 0; }
            if(go(done | 1u << i, nf)) return true;
        }
        return false;
    }
};
}
MODE(eventlin) {
    sch::Perturb P(R);
    bool full = R.coin();
    Event e(full);
    size_t nth = 2 + R.below(3), per = 2 + R.below(5);
    struct W { Rng r; std::vector<EOp> ops; W(uint64_t s) : r(s) {} };
    std::vector<W> ws;
    for(size_t i = 0; i < nth; i++) ws.push_back(W(R.next()));
    std::vector<std::thread> th;
    for(W& w : ws) th.push_back(std::thread([&w, &e, per] {
        for(size_t i = 0; i < per; i++) {
            EOp o = EOp();
            int k = w.r.below(4);
            o.timeout = w.r.chance(1, 4) ? 0 : w.r.below(2000) * 1e-6;
            if(w.r.coin()) nap(w.r.below(300));
            uint64_t t0 = sch::mono();
            o.call = sch::seq();
            if(k < 2) { o.kind = 0; e.signal(); o.res = true; }
            else if(k == 2) { o.kind = 1; o.res = e.tryWait(); o.timeout = -1; }
            else { o.kind = 1; o.res = e.wait(o.timeout); }
            o.ret = sch::seq();
            o.took = (sch::mono() - t0) * 1e-9;
            w.ops.push_back(o);
        }
    }));
    for(auto& t : th) t.join();
    Lin l;
    for(W& w : ws) for(EOp& o : w.ops) {
        if(o.kind == 1 && !o.res && o.timeout > 0) VCHECK(o.took > o.timeout - 1e-3, "timeout:early", "gave up after " << o.took << " of " << o.timeout);
        if(o.kind == 1) count(o.res ? "waits_ok" : "waits_timed_out"); else count("signals");
        l.ops.push_back(o);
    }
    EOp last = EOp(); last.kind = 1; last.call = sch::seq(); last.res = e.tryWait(); last.ret = sch::seq();
    l.ops.push_back(last);
    std::ostringstream d; uint64_t h = full;
    std::sort(l.ops.begin(), l.ops.end(), [](const EOp& a, const EOp& b) { return a.call < b.call; });
    for(EOp& o : l.ops) { d << " " << (o.kind ? o.res ? "wait" : "nowait" : "signal") << "@" << o.call << "-" << o.ret; h = mix(h ^ (o.kind * 2 + o.res)); }
    VCHECK(l.go(0, full), "linearizable", "initially " << (full ? "full" : "empty") << d.str());
    count("histories");
    distinct(h);
}

// exact hand-over: each signal releases exactly one wait, none is lost
MODE(eventpass) {
    sch::Perturb P(R);
    size_t n = 2 + R.below(3), rounds = 20 + R.below(100);
    std::vector<std::unique_ptr<Event>> ev;
    for(size_t i = 0; i < n; i++) ev.push_back(std::unique_ptr<Event>(new Event(i == 0 && R.coin())));
    bool pre = ev[0]->tryWait();
    uint64_t token = 0; // passed around; no lock, no atomics
    std::atomic<bool> bad(false);
    bool timed = R.coin();
    std::vector<std::thread> th;
    for(size_t i = 0; i < n; i++) th.push_back(std::thread([&, i] {
        for(size_t k = 0; k < rounds && !bad; k++) {
            bool ok = timed ? ev[i]->wait(30.0) : ev[i]->wait();
            if(!ok || token != k * n + i) { bad = true; for(auto& e : ev) e->signal(); return; }
            token++;
            ev[(i + 1) % n]->signal();
        }
    }));
    ev[0]->signal();
    for(auto& t : th) t.join();
    VCHECK(!bad && token == n * rounds, "pass", "token " << token << " of " << n * rounds << " pre " << pre);
    VCHECK(ev[0]->tryWait(), "pass:last", "the last signal is lost");
    for(size_t i = 0; i < n; i++) VCHECK(!ev[i]->tryWait(), "pass:extra", "event " << i << " is still set");
    count("handovers", token);
    distinct(mix(n * 1000 + rounds));
}

// exclusion, and the lock's own idea of it
MODE(locks) {
    sch::Perturb P(R);
    size_t nm = 1 + R.below(3), nth = 2 + R.below(3), nops = 30 + R.below(100);
    struct M { Mutex m; uint64_t plain; int owner, depth; M() : plain(0), owner(-1), depth(0) {} };
    std::vector<std::unique_ptr<M>> ms;
    for(size_t i = 0; i < nm; i++) ms.push_back(std::unique_ptr<M>(new M));
    std::vector<std::string> bad(nth);
    std::atomic<uint64_t> held(0), failed(0);
    uint64_t seed = R.next();
    std::vector<std::thread> th;
    std::vector<std::vector<uint64_t>> incs(nth, std::vector<uint64_t>(nm, 0));
    for(size_t t = 0; t < nth; t++) th.push_back(std::thread([&, t] {
        Rng r(seed + t);
        for(size_t k = 0; k < nops && bad[t].empty(); k++) {
            size_t mi = r.below(nm); M& m = *ms[mi];
            bool own = true;
            Lock l(m.m);
            auto in = [&] { if(m.owner != -1 && m.owner != (int)t) bad[t] = "two owners"; m.owner = t; m.plain++; incs[t][mi]++; held.fetch_add(1, std::memory_order_relaxed); };
            auto out = [&] { m.owner = -1; };
            in();
            for(int j = r.below(6); j > 0; j--) {
                if(l.ownsLock() != own) bad[t] = "ownsLock";
                switch(r.below(4)) {
                case 0: if(!own) { l.lock(); own = true; in(); } else { l.lock(); in(); } break;
                case 1: if(own) out(); l.unlock(); own = false; break;
                case 2: { bool g = l.tryLock(); if(own && !g) bad[t] = "tryLock failed for the owner"; if(!own && g) { own = true; in(); } if(!g) failed.fetch_add(1, std::memory_order_relaxed); break; }
                case 3: if(own) in(); else if(r.coin()) nap(r.below(100)); break;
                }
                if(own && m.owner != (int)t) bad[t] = "not exclusive";
            }
            if(l.ownsLock() != own) bad[t] = "ownsLock";
            if(own) out();
        }
    }));
    for(auto& t : th) t.join();
    for(size_t t = 0; t < nth; t++) VCHECK(bad[t].empty(), "locks:" + bad[t].substr(0, bad[t].find(' ')), bad[t]);
    for(size_t i = 0; i < nm; i++) {
        uint64_t s = 0; for(size_t t = 0; t < nth; t++) s += incs[t][i];
        VCHECK(ms[i]->plain == s, "locks:lost-update", ms[i]->plain << " of " << s);
        bool free = false; std::thread x([&] { if((free = ms[i]->m.tryLock())) ms[i]->m.unlock(); }); x.join();
        VCHECK(free, "locks:kept", "mutex " << i << " is still held");
    }
    count("critical_sections", held); count("trylock_failed", failed);
    distinct(seed);
}

// one command at a time: who holds what is known exactly
MODE(lockseq) {
    size_t nm = 1 + R.below(2), na = 2 + R.below(2);
    std::vector<std::unique_ptr<Mutex>> ms;
    for(size_t i = 0; i < nm; i++) ms.push_back(std::unique_ptr<Mutex>(new Mutex));
    struct Actor {
        std::mutex m; std::condition_variable_any c; std::function<void()> cmd; bool busy, quit; std::thread th; std::vector<std::unique_ptr<Lock>> l; std::vector<int> on; std::vector<bool> own;
        Actor() : busy(false), quit(false), th([this] { run(); }) {}
        ~Actor() { { std::lock_guard<std::mutex> G(m); quit = true; c.notify_all(); } th.join(); }
        void run() { std::unique_lock<std::mutex> G(m); for(;;) { while(!busy && !quit) c.wait(G); if(busy) { cmd(); busy = false; c.notify_all(); } else { l.clear(); return; } } }
        void exec(std::function<void()> f) { std::unique_lock<std::mutex> G(m); cmd = f; busy = true; c.notify_all(); while(busy) c.wait(G); }
    };
    std::vector<std::unique_ptr<Actor>> as;
    for(size_t i = 0; i < na; i++) as.push_back(std::unique_ptr<Actor>(new Actor));
    std::vector<std::vector<int>> held(nm, std::vector<int>(na, 0)); // count per actor
    std::ostringstream hist;
    auto other = [&](int mi, int ai) { for(size_t k = 0; k < na; k++) if((int)k != ai && held[mi][k]) return true; return false; };
    size_t steps = 5 + R.below(40);
    for(size_t s = 0; s < steps; s++) {
        int ai = R.below(na); Actor& a = *as[ai];
        int mi = R.below(nm);
        int op = R.below(6);
        hist << " " << op << ":" << ai << mi;
        if(op == 0 || a.l.empty()) { // a new Lock object
            if(other(mi, ai) || a.l.size() > 4) continue;
            a.exec([&] { a.l.push_back(std::unique_ptr<Lock>(new Lock(*ms[mi]))); });
            a.on.push_back(mi); a.own.push_back(true); held[mi][ai]++;
            continue;
        }
        size_t li = R.below(a.l.size()); mi = a.on[li];
        bool res = false, blocked = other(mi, ai);
        switch(op) {
        case 1: if(blocked && !a.own[li]) break; // would wait
            a.exec([&] { a.l[li]->lock(); }); if(!a.own[li]) { a.own[li] = true; held[mi][ai]++; } break;
        case 2: a.exec([&] { a.l[li]->unlock(); }); if(a.own[li]) { a.own[li] = false; held[mi][ai]--; } break;
        case 3: case 4: {
            a.exec([&] { res = a.l[li]->tryLock(); });
            bool want = a.own[li] || !blocked;
            VCHECK(res == want, "tryLock", "got " << res << " owned " << a.own[li] << " held by another " << blocked << hist.str());
            if(res && !a.own[li]) { a.own[li] = true; held[mi][ai]++; }
            count(res ? "trylock_ok" : "trylock_failed");
            break; }
        case 5: { a.exec([&] { a.l.erase(a.l.begin() + li); }); if(a.own[li]) held[mi][ai]--; a.on.erase(a.on.begin() + li); a.own.erase(a.own.begin() + li); break; }
        }
        for(size_t k = 0; k < na; k++) for(size_t x = 0; x < as[k]->l.size(); x++)
            VCHECK(as[k]->l[x]->ownsLock() == as[k]->own[x], "ownsLock", "actor " << k << " lock " << x << hist.str());
        // is it free? ask a stranger
        for(size_t k = 0; k < nm; k++) {
            bool want = true; for(size_t x = 0; x < na; x++) if(held[k][x]) want = false;
            bool got = false;
            as[(ai + 1) % na]->exec([] {});
            std::thread st([&] { if((got = ms[k]->tryLock())) ms[k]->unlock(); }); st.join();
            VCHECK(got == want, "held", "mutex " << k << " free " << got << " model " << want << hist.str());
        }
        count("lock_ops");
    }
    as.clear();
    distinct(hstr(hist.str()));
}

VH_MAIN
