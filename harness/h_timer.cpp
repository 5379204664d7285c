// C15: Timer. Operations and callback events are recorded in one global order;
// the record is judged when every thread has been joined.
#include "vh.h"
#include "perturb.h"
#include <condition_variable>
#include <algorithm>
#include <pv/timer.h>
SCHED_WRAPS
using namespace epics::pvData;
using namespace vh;
using sch::nap;

namespace {

const double TOL = 2e-6; // rounding: a callback is early when both clocks say it started more than that before its time

struct Tm { double wall; uint64_t mono; };
epicsTime T0;
Tm nowTm() { Tm t; t.wall = epicsTime::getCurrent() - T0; t.mono = sch::mono(); return t; }

enum EvKind { START, END, STOP };
struct Ev { uint64_t seq; EvKind k; int cb; Tm t; bool listed; };
struct Log {
    std::vector<Ev> ev; std::atomic<size_t> n;
    explicit Log(size_t cap) : ev(cap), n(0) {}
    void add(EvKind k, int cb, bool listed = false) {
        Tm t = nowTm();
        size_t i = n.fetch_add(1, std::memory_order_relaxed);
        if(i >= ev.size()) return;
        Ev& e = ev[i];
        e.k = k; e.cb = cb; e.t = t; e.listed = listed; e.seq = sch::seq();
    }
    void finish() { ev.resize(std::min(ev.size(), n.load())); std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.seq < b.seq; }); }
};

// answers questions from inside callbacks from another thread: a timer which
// holds its lock while it calls out would block here
struct Helper {
    std::mutex m; std::condition_variable c; int state; bool quit; Timer *timer; TimerCallbackPtr cb; std::thread th;
    explicit Helper(Timer *t, TimerCallbackPtr x) : state(0), quit(false), timer(t), cb(x), th([this] { run(); }) {}
    ~Helper() { { std::lock_guard<std::mutex> G(m); quit = true; c.notify_all(); } th.join(); }
    void run() {
        std::unique_lock<std::mutex> G(m);
        while(!quit) {
            if(state == 1) { G.unlock(); timer->isScheduled(cb); std::ostringstream o; timer->dump(o); G.lock(); state = 2; c.notify_all(); }
            else c.wait(G);
        }
    }
    void ask() {
        std::unique_lock<std::mutex> G(m);
        if(quit || state) return;
        state = 1; c.notify_all();
        while(state != 2) c.wait(G);
        state = 0;
    }
};

struct Ctx;
struct CB : public TimerCallback {
    Ctx *x; int id; unsigned busy; bool askHelper, probeStop;
    std::atomic<int> starts, ends, stops;
    std::function<void()> body;
    CB(Ctx *x, int id) : x(x), id(id), busy(0), askHelper(false), probeStop(false), starts(0), ends(0), stops(0) {}
    virtual ~CB() {}
    virtual void callback();
    virtual void timerStopped();
};
typedef std::tr1::shared_ptr<CB> CBPtr;
struct Ctx {
    Timer *timer; Log log; Helper *helper; std::vector<CBPtr> cbs;
    Ctx() : timer(0), log(20000), helper(0) {}
};
void CB::callback() {
    x->log.add(START, id);
    starts.fetch_add(1, std::memory_order_relaxed);
    if(body) body();
    if(busy) nap(busy);
    if(askHelper && x->helper) x->helper->ask();
    x->log.add(END, id);
    ends.fetch_add(1, std::memory_order_relaxed);
}
void CB::timerStopped() {
    bool l = false;
    if(probeStop) { l = x->timer->isScheduled(x->cbs[id]); if(x->helper) x->helper->ask(); }
    x->log.add(STOP, id, l);
    stops.fetch_add(1, std::memory_order_relaxed);
}

enum OpKind { SCHED, CANCEL, ISSCHED };
struct Op { OpKind k; int cb; uint64_t call, ret; Tm t0, t1; double delay, period; bool res; };

Op doSched(Ctx& x, int cb, double delay, double period) {
    Op o; o.k = SCHED; o.cb = cb; o.delay = delay; o.period = period; o.res = true;
    o.t0 = nowTm(); o.call = sch::seq();
    try {
        if(period > 0) x.timer->schedulePeriodic(x.cbs[cb], delay, period);
        else x.timer->scheduleAfterDelay(x.cbs[cb], delay);
    } catch(std::logic_error&) { o.res = false; }
    o.ret = sch::seq(); o.t1 = nowTm();
    return o;
}
Op doCancel(Ctx& x, int cb) {
    Op o = Op(); o.k = CANCEL; o.cb = cb; o.call = sch::seq(); o.res = x.timer->cancel(x.cbs[cb]); o.ret = sch::seq(); return o;
}
Op doIs(Ctx& x, int cb) {
    Op o = Op(); o.k = ISSCHED; o.cb = cb; o.call = sch::seq(); o.res = x.timer->isScheduled(x.cbs[cb]); o.ret = sch::seq(); return o;
}

bool early(const Tm& start, const Tm& t0, double after) {
    return start.wall < t0.wall + after - TOL && (double(start.mono) - double(t0.mono)) * 1e-9 < after - TOL;
}

// waits until f() or the deadline; the process stays alive for the watchdog
template<class F> bool waitFor(F f, double secs) {
    uint64_t t = sch::mono();
    unsigned us = 50;
    while(!f()) {
        if((sch::mono() - t) * 1e-9 > secs) return false;
        nap(us); if(us < 5000) us *= 2;
        tick();
    }
    return true;
}
std::string evs(const std::vector<Ev>& ev, uint64_t a, uint64_t b) {
    static const char *nm[] = {"START", "END", "STOP"};
    std::ostringstream o; int n = 0;
    for(const Ev& e : ev) if(e.seq + 20 >= a && e.seq <= b + 20 && n++ < 60) o << " " << e.seq << ":" << nm[e.k] << e.cb;
    return o.str();
}

} // namespace

// one thread, nothing ever due: exact model
MODE(still) {
    T0 = epicsTime::getCurrent();
    std::vector<std::weak_ptr<CB>> weak;
    Ctx x;
    bool crowd = R.chance(1, 25); // a long queue
    size_t n = crowd ? 20 + R.below(150) : 1 + R.below(8);
    std::map<int, std::pair<double, double>> queue; // id -> deadline, period
    std::ostringstream hist;
    {
        Timer timer("t", lowPriority);
        x.timer = &timer;
        for(size_t i = 0; i < n; i++) { CBPtr c(new CB(&x, i)); c->probeStop = R.coin(); x.cbs.push_back(c); weak.push_back(c); }
        double slot = 1000;
        size_t steps = crowd ? R.below(4 * n) : R.below(30);
        for(size_t s = 0; s < steps; s++) {
            int i = R.below(n);
            switch(R.below(6)) {
            case 0: case 1: {
                double d = 1000 + R.below(1000) * 10 + (slot += 20) / 1e6, p = R.coin() ? 0 : 50 + R.below(50);
                for(auto& kv : queue) if(kv.second.first > d - 5 && kv.second.first < d + 5) d = -1; // keep deadlines apart
                if(d < 0) break;
                Op o = doSched(x, i, d, p);
                hist << " S" << i;
                VCHECK(o.res == !queue.count(i), "schedule", "callback " << i << " queued " << queue.count(i) << " accepted " << o.res << hist.str());
                if(o.res) queue[i] = std::make_pair(d, p); else count("refused");
                break; }
            case 2: {
                Op o = doCancel(x, i);
                hist << " C" << i;
                VCHECK(o.res == (queue.count(i) != 0), "cancel", "callback " << i << " queued " << queue.count(i) << " got " << o.res << hist.str());
                if(o.res) count("cancelled");
                queue.erase(i);
                break; }
            case 3: {
                Op o = doIs(x, i);
                VCHECK(o.res == (queue.count(i) != 0), "isScheduled", "callback " << i << " queued " << queue.count(i) << " got " << o.res << hist.str());
                break; }
            case 4: {
                std::vector<std::pair<double, double>> w;
                for(auto& kv : queue) w.push_back(kv.second);
                std::sort(w.begin(), w.end());
                std::ostringstream o;
                if(R.coin()) timer.dump(o); else o << timer;
                std::istringstream in(o.str());
                size_t k = 0; std::string a, b; double t, p;
                while(in >> a >> t >> b >> p) {
                    VCHECK(k < w.size(), "dump:extra", o.str() << hist.str());
                    VCHECK(a == "timeToRun" && b == "period" && p == w[k].second && t <= w[k].first * 1.0001 && t > w[k].first - 60, "dump:line",
                           q(o.str()) << " line " << k << " want " << w[k].first << " " << w[k].second << hist.str());
                    k++;
                }
                VCHECK(k == w.size(), "dump:lines", q(o.str()) << " want " << w.size() << hist.str());
                count("dumps");
                break; }
            case 5: { // a cancelled or never scheduled callback is not kept
                if(queue.count(i)) break;
                x.cbs[i].reset();
                bool gone = weak[i].expired();
                CBPtr c(new CB(&x, i)); x.cbs[i] = c; 
                VCHECK(gone, "kept", "the timer keeps callback " << i << hist.str());
                weak[i] = c;
                break; }
            }
        }
        if(R.coin()) {
            timer.close();
            for(size_t i = 0; i < n; i++) {
                VCHECK(x.cbs[i]->stops == (int)queue.count(i), "close:stopped", "callback " << i << " queued " << queue.count(i) << " told " << x.cbs[i]->stops << hist.str());
                VCHECK(!timer.isScheduled(x.cbs[i]), "close:isScheduled", i << hist.str());
                VCHECK(!timer.cancel(x.cbs[i]), "close:cancel", i << hist.str());
            }
            std::ostringstream o; o << timer;
            VCHECK(o.str().empty(), "close:dump", q(o.str()));
            // refused now
            for(size_t i = 0; i < n; i++) if(R.coin()) {
                Op o = doSched(x, i, R.coin() ? 0 : 100, R.coin() ? 0 : 5);
                VCHECK(o.res && x.cbs[i]->stops == (int)queue.count(i) + 1 && !timer.isScheduled(x.cbs[i]), "close:schedule",
                       "callback " << i << " told " << x.cbs[i]->stops << " want " << queue.count(i) + 1 << hist.str());
                queue.erase(i); x.cbs[i]->stops = 0; count("after_close");
            }
            for(size_t i = 0; i < n; i++) if(queue.count(i)) x.cbs[i]->stops = 1; 
            if(R.coin()) timer.close();
            count("closed");
        }
    }
    for(size_t i = 0; i < n; i++)
        VCHECK(x.cbs[i]->stops == (int)queue.count(i) && x.cbs[i]->starts == 0, "destroy:stopped",
               "callback " << i << " queued " << queue.count(i) << " told " << x.cbs[i]->stops << " ran " << x.cbs[i]->starts << hist.str());
    x.cbs.clear();
    for(size_t i = 0; i < n; i++) VCHECK(weak[i].expired(), "destroy:kept", i << hist.str());
    if(queue.size() > 20) count("long_queues");
    distinct(hstr(hist.str()));
}

// several threads
MODE(stress) {
    T0 = epicsTime::getCurrent();
    sch::Perturb P(R);
    Ctx x;
    std::unique_ptr<Timer> timer(new Timer("t", middlePriority));
    x.timer = timer.get();
    size_t nth = 1 + R.below(4), per = 1 + R.below(4), nshared = R.below(3);
    unsigned unit = R.pick(std::vector<unsigned>{50, 500, 3000}); // microseconds
    struct W { Rng r; std::vector<int> own; std::vector<Op> ops; std::vector<int> periodic; W(uint64_t s) : r(s) {} };
    std::vector<W> ws;
    std::vector<bool> isPer, isShared;
    auto mk = [&](bool per, bool shared) {
        int id = x.cbs.size();
        CBPtr c(new CB(&x, id));
        // a periodic callback which takes longer than its period keeps a timer busy for good
        if(!per && R.chance(1, 3)) c->busy = R.below(2 * unit);
        c->askHelper = !per && R.chance(1, 12); c->probeStop = R.chance(1, 3);
        x.cbs.push_back(c); isPer.push_back(per); isShared.push_back(shared);
        return id;
    };
    for(size_t t = 0; t < nth; t++) {
        ws.push_back(W(R.next()));
        for(size_t i = 0; i < per; i++) ws[t].own.push_back(mk(false, false));
        if(R.coin()) ws[t].periodic.push_back(mk(true, false));
    }
    std::vector<int> shared;
    for(size_t i = 0; i < nshared; i++) shared.push_back(mk(false, true));
    std::vector<int> fillers; // far away, in the queue from the start
    for(size_t i = R.below(3); i > 0; i--) fillers.push_back(mk(false, false));
    std::unique_ptr<Helper> helper;
    if(R.coin()) { helper.reset(new Helper(x.timer, x.cbs[0])); x.helper = helper.get(); }
    bool earlyClose = R.coin();
    size_t nops = 5 + R.below(40);
    std::atomic<bool> closing(false);
    unsigned minPeriod = sch::rate() == 0 ? 300 : 300 + 10 * sch::maxus() / sch::rate();
    std::vector<Op> mainOps;
    for(int f : fillers) mainOps.push_back(doSched(x, f, 1e5, 0));
    auto worker = [&](W& w) {
        Rng& r = w.r;
        for(size_t n = 0; n < nops; n++) {
            bool sh = !shared.empty() && r.chance(1, 4);
            int cb = sh ? r.pick(shared) : r.pick(w.own);
            if(!sh && !w.periodic.empty() && r.chance(1, 5)) {
                cb = w.periodic[0];
                if(r.coin()) {
                    // the previous one has been cancelled (below)
                    w.ops.push_back(doSched(x, cb, r.below(unit) * 1e-6, (minPeriod + r.below(unit)) * 1e-6));
                    nap(r.below(3 * unit));
                    if(r.coin()) w.ops.push_back(doIs(x, cb));
                    do { w.ops.push_back(doCancel(x, cb)); if(!w.ops.back().res) sched_yield(); }
                    while(!w.ops.back().res && !closing.load(std::memory_order_relaxed) && w.ops.size() < 4000);
                    if(!w.ops.back().res) w.periodic.clear();
                } else { w.ops.push_back(r.coin() ? doIs(x, cb) : doCancel(x, cb)); }
                continue;
            }
            switch(r.below(8)) {
            case 0: case 1: case 2: case 3: {
                double d = r.chance(1, 8) ? (r.coin() ? 0.0 : -1.0) : r.chance(1, 10) ? 1e4 : r.below(4) * unit * 1e-6;
                w.ops.push_back(doSched(x, cb, d, 0)); break; }
            case 4: w.ops.push_back(doCancel(x, cb)); break;
            case 5: w.ops.push_back(doIs(x, cb)); break;
            case 6: nap(r.below(2 * unit)); break;
            case 7: { std::ostringstream o; x.timer->dump(o); break; }
            }
        }
        // nothing far away may stay: the rest must run
        if(!earlyClose) for(int cb : w.own) {
            w.ops.push_back(doCancel(x, cb));
            w.ops.push_back(doSched(x, cb, r.below(3) * unit * 1e-6, 0));
        }
    };
    std::vector<std::thread> th;
    for(W& w : ws) th.push_back(std::thread(worker, std::ref(w)));
    uint64_t closeCall, closeRet;
    bool late = false;
    if(earlyClose) {
        nap(R.below(nops * unit));
        closing = true;
        closeCall = sch::seq(); timer->close(); closeRet = sch::seq();
        for(auto& t : th) t.join();
    } else {
        for(auto& t : th) t.join();
        for(int s : shared) mainOps.push_back(doCancel(x, s));
        // every scheduling which was not cancelled runs
        for(W& w : ws) for(int cb : w.own) {
            int want = 0;
            for(Op& o : w.ops) if(o.cb == cb && o.res) { if(o.k == SCHED) want++; else if(o.k == CANCEL) want--; }
            if(!waitFor([&] { return x.cbs[cb]->starts.load(std::memory_order_relaxed) >= want; }, 30)) {
                late = true;
                std::ostringstream dd; timer->dump(dd);
                violation("lost", "callback " + std::to_string(cb) + " ran " + std::to_string(x.cbs[cb]->starts) + " of " + std::to_string(want) + " times within 30 s;" + dd.str());
            }
        }
        closing = true;
        closeCall = sch::seq(); timer->close(); closeRet = sch::seq();
    }
    // refused after close
    for(size_t i = 0; i < x.cbs.size(); i++) if(R.chance(1, 3) && !isPer[i]) mainOps.push_back(doSched(x, i, 0, 0));
    if(R.coin()) nap(500);
    helper.reset(); x.helper = 0;
    timer.reset();
    x.log.finish();
    if(late) throw Abandon();
    if(x.log.n.load() > 20000) { count("log_overflow"); throw Abandon(); }
    const std::vector<Ev>& ev = x.log.ev;
    count("timer_events", ev.size());

    // one at a time, none after close
    int running = -1;
    for(const Ev& e : ev) {
        if(e.k == START) { VCHECK(running < 0, "overlap", "callback " << e.cb << " starts while " << running << " runs;" << evs(ev, e.seq, e.seq)); running = e.cb;
            VCHECK(e.seq < closeRet, "after-close", "callback " << e.cb << " starts after close returned"); }
        if(e.k == END) { running = -1; VCHECK(e.seq < closeRet, "after-close", "callback " << e.cb << " ends after close returned"); }
        if(e.k == STOP) VCHECK(!e.listed, "stopped-listed", "callback " << e.cb << " is scheduled when told that it was stopped");
    }
    struct Sch { const Op *op; bool cancelled; uint64_t ccall; const Ev *e; };
    std::vector<Sch> all; // one-shots of single threads, for the order
    std::vector<std::vector<const Op*>> byCb(x.cbs.size());
    for(W& w : ws) { count("timer_ops", w.ops.size()); for(Op& o : w.ops) byCb[o.cb].push_back(&o); }
    for(Op& o : mainOps) byCb[o.cb].push_back(&o);
    uint64_t h = 0;
    for(size_t cb = 0; cb < x.cbs.size(); cb++) {
        std::vector<const Op*>& ops = byCb[cb];
        std::sort(ops.begin(), ops.end(), [](const Op* a, const Op* b) { return a->call < b->call; });
        std::vector<const Ev*> mine;
        int starts = 0, stops = 0;
        for(const Ev& e : ev) if(e.cb == (int)cb && e.k != END) { mine.push_back(&e); (e.k == START ? starts : stops)++; h = mix(h ^ (e.k * 64 + cb)); }
        int S = 0, C = 0;
        for(const Op *o : ops) if(o->res) { if(o->k == SCHED) S++; else if(o->k == CANCEL) C++; }
        std::ostringstream d; d << "callback " << cb << " scheduled " << S << " cancelled " << C << " ran " << starts << " stopped " << stops << " early close " << earlyClose;
        static const char *on[] = {"sched", "cancel", "is"};
        if(!isPer[cb] && S != starts + stops + C) for(const Op *o : ops) d << " " << on[o->k] << "@" << o->call << "-" << o->ret << "=" << o->res;
        if(!isPer[cb] && S != starts + stops + C) for(const Ev *e : mine) d << " " << (e->k == START ? "START" : "STOP") << "@" << e->seq;
        if(!isPer[cb]) {
            VCHECK(S == starts + stops + C, "conservation", d.str());
            count("one_shots", starts); count("cancels", C); count("stops", stops);
        } else {
            VCHECK(C + stops <= S && S <= C + stops + 1, "conservation:periodic", d.str());
            count("periodic_runs", starts);
        }
        if(isShared[cb]) { count("shared_runs", starts); continue; }
        if(isPer[cb]) {
            const Op *cur = 0; size_t k = 0; const Op *lastCancel = 0;
            // merge
            size_t oi = 0;
            for(const Ev *e : mine) {
                while(oi < ops.size() && ops[oi]->ret < e->seq) {
                    if(ops[oi]->res && ops[oi]->k == SCHED) { cur = ops[oi]; k = 0; lastCancel = 0; }
                    if(ops[oi]->res && ops[oi]->k == CANCEL) { lastCancel = ops[oi]; cur = 0; }
                    oi++;
                }
                const Op *c = cur;
                if(!c) { // the schedule call may not have returned yet
                    if(oi < ops.size() && ops[oi]->k == SCHED && ops[oi]->call < e->seq) c = ops[oi];
                    if(!c) VFAIL("cancelled-runs", d.str() << " event " << e->seq << " after cancel " << (lastCancel ? lastCancel->ret : 0));
                    if(e->k == START) { cur = c; k = 0; oi++; }
                }
                if(e->k == START) { VCHECK(!early(e->t, c->t0, c->delay + k * c->period), "early:periodic", d.str() << " run " << k); k++; }
            }
            // cancel and isScheduled answers
            for(const Op *o : ops) {
                if(o->k == SCHED || o->ret > closeCall) continue;
                const Op *sc = 0; bool can = false;
                for(const Op *p : ops) { if(p == o) break; if(p->k == SCHED && p->res) { sc = p; can = false; } if(p->k == CANCEL && p->res) can = true; }
                bool q = sc && !can;
                if(o->res) VCHECK(q, "phantom", d.str() << " op " << o->k << " at " << o->call);
                else if(q) {
                    bool ok = false; uint64_t prev = 0;
                    for(size_t i = 0; i < ev.size() && !ok; i++) {
                        if(ev[i].k == END) prev = ev[i].seq;
                        if(ev[i].k != START || ev[i].cb != (int)cb) continue;
                        uint64_t lo = prev, hi = ~0ull;
                        bool ended = false;
                        for(size_t j = i; j < ev.size(); j++) {
                            if(ev[j].k == END && !ended) { ended = true; continue; }
                            if(ended && ev[j].k == START) { hi = ev[j].seq; break; }
                        }
                        if(o->ret > lo && o->call < hi) ok = true;
                    }
                    VCHECK(ok, "denied:periodic", d.str() << " op " << o->k << " at " << o->call << " says not scheduled");
                    count("cancel_running");
                }
            }
            continue;
        }
        // one thread's one-shots: exact fates
        std::vector<Sch> sc;
        size_t ei = 0;
        // what ran was scheduled before anything which was stopped by close
        std::stable_sort(mine.begin(), mine.end(), [](const Ev *a, const Ev *b) { return (a->k == STOP) < (b->k == STOP); });
        std::vector<std::pair<const Op*, size_t>> qs; // question, index of the latest scheduling+1
        for(const Op *o : ops) {
            if(o->k == SCHED) {
                if(o->res) { Sch s = {o, false, 0, 0}; sc.push_back(s); }
                else { VCHECK(!sc.empty() && !sc.back().cancelled, "refused", d.str() << " refused although not waiting, at " << o->call); qs.push_back(std::make_pair(o, sc.size())); }
            } else if(o->k == CANCEL && o->res) {
                VCHECK(!sc.empty() && !sc.back().cancelled, "cancel:phantom", d.str() << " at " << o->call);
                sc.back().cancelled = true; sc.back().ccall = o->call;
            } else {
                if(o->res) VCHECK(!sc.empty() && !sc.back().cancelled, "isScheduled:phantom", d.str() << " at " << o->call);
                qs.push_back(std::make_pair(o, sc.empty() || sc.back().cancelled ? 0 : sc.size()));
            }
        }
        for(Sch& s : sc) if(!s.cancelled) {
            VCHECK(ei < mine.size(), "conservation", d.str());
            s.e = mine[ei++];
            VCHECK(s.e->seq > s.op->call, "before-schedule", d.str() << " event " << s.e->seq << " schedule " << s.op->call << evs(ev, s.e->seq, s.op->call));
            if(s.e->k == START) VCHECK(!early(s.e->t, s.op->t0, s.op->delay), "early", d.str() << " delay " << s.op->delay << " waited " << (s.e->t.wall - s.op->t0.wall));
            else VCHECK(s.e->seq > closeCall, "stopped-early", d.str() << " told stopped before close");
        }
        for(auto& qq : qs) {
            const Op *o = qq.first;
            if(!qq.second) continue;
            Sch& s = sc[qq.second - 1];
            bool said = o->k == SCHED ? true : o->res;
            if(said) {
                if(s.e) VCHECK(s.e->seq > o->call, "stale", d.str() << " said to be waiting at " << o->call << " but had run at " << s.e->seq);
            } else if(s.cancelled) {
                // asked after the scheduling and before the cancellation: it was waiting
                VCHECK(o->ret > closeCall, "denied:waiting", d.str() << " said not to be waiting at " << o->call << " but cancelled at " << s.ccall);
            } else if(s.e->k == START) {
                for(const Ev& e : ev) if(e.k != STOP && e.seq > o->ret && e.seq < s.e->seq)
                    VFAIL("denied", d.str() << " said not to be waiting at " << o->call << ".." << o->ret << " but started at " << s.e->seq << evs(ev, o->call, s.e->seq));
            } else VCHECK(o->ret > closeCall, "denied:stopped", d.str() << " said not to be waiting at " << o->call);
        }
        all.insert(all.end(), sc.begin(), sc.end());
    }
    // expiration order
    std::vector<uint64_t> prevEnd(ev.size() + 1, 0);
    uint64_t pe = 0; std::map<uint64_t, uint64_t> pend;
    for(const Ev& e : ev) { if(e.k == START) pend[e.seq] = pe; if(e.k == END) pe = e.seq; }
    size_t pairs = 0;
    for(const Sch& b : all) if(b.e && b.e->k == START) {
        uint64_t since = std::max(b.op->call, pend[b.e->seq]);
        for(const Sch& a : all) {
            if(a.op->ret >= since || a.op == b.op) continue;
            bool waiting = a.cancelled ? a.ccall > b.e->seq : a.e->seq > b.e->seq;
            if(!waiting) continue;
            pairs++;
            VCHECK(!(a.op->t1.wall + a.op->delay + 2e-6 < b.op->t0.wall + b.op->delay), "order",
                   "callback " << b.op->cb << " due " << b.op->t0.wall + b.op->delay << " started at " << b.e->seq << " before waiting callback " << a.op->cb << " due "
                   << a.op->t1.wall + a.op->delay << evs(ev, b.e->seq, a.e ? a.e->seq : b.e->seq));
        }
    }
    count("order_pairs", pairs);
    if(earlyClose) count("early_closes");
    distinct(h);
}

// all decisions are made inside callbacks (or before the first one): exact model
namespace {
struct SelfModel {
    struct Q { double lo, hi, period; };
    Ctx x; Rng r; int budget; size_t n; std::vector<bool> inq; std::vector<Q> dq; std::atomic<bool> done; double unit; std::string bad; int cur; std::atomic<int> runs; uint64_t h;
    bool rearm; // the callback which ran last is periodic and has been put back
    explicit SelfModel(uint64_t s) : r(s), budget(0), n(0), done(false), unit(1e-4), cur(-1), runs(0), h(0), rearm(false) {}
    void fail(const std::string& s) { if(bad.empty()) bad = s; done = true; }
    bool sched(int i, double d, double p) {
        Op o = doSched(x, i, d, p);
        if(o.res == inq[i]) { fail("schedule:callback " + std::to_string(i) + (o.res ? " accepted twice" : " refused although not waiting")); return false; }
        if(o.res) { inq[i] = true; Q q = {o.t0.wall + d, o.t1.wall + d, p}; dq[i] = q; if(i == cur) rearm = false; count("self_scheds"); }
        return o.res;
    }
    void act() {
        switch(r.below(6)) {
        case 0: case 1: case 2: {
            int i = r.chance(1, 3) && cur >= 0 ? cur : (int)r.below(n);
            sched(i, r.chance(1, 6) ? 1000 : r.below(4) * unit, r.chance(1, 4) ? (1 + r.below(5)) * unit + 1e-5 : 0); break; }
        case 3: case 4: {
            int i = r.below(n);
            if(i == cur && !inq[i]) break;
            Op o = doCancel(x, i);
            if(o.res != inq[i]) fail("cancel:callback " + std::to_string(i) + " waiting " + (inq[i] ? "1" : "0") + " got " + (o.res ? "1" : "0"));
            inq[i] = false; count("self_cancels");
            break; }
        case 5: {
            int i = r.below(n);
            Op o = doIs(x, i);
            if(o.res != inq[i]) fail("isScheduled:callback " + std::to_string(i) + " waiting " + (inq[i] ? "1" : "0") + " got " + (o.res ? "1" : "0"));
            break; }
        }
    }
    // runs as the body of callback i
    void run(int i) {
        runs++;
        if(done) return;
        if(cur >= 0 && rearm) { // put back after it returned
            inq[cur] = true; dq[cur].lo += dq[cur].period; dq[cur].hi += dq[cur].period;
        }
        cur = i; rearm = false; h = mix(h ^ i);
        if(!inq[i]) { fail("ran:callback " + std::to_string(i) + " is not waiting"); return; }
        inq[i] = false;
        for(size_t k = 0; k < n; k++) if(inq[k] && dq[k].hi + 2e-6 < dq[i].lo) { fail("order:callback " + std::to_string(i) + " before " + std::to_string(k)); return; }
        double now = epicsTime::getCurrent() - T0;
        if(now < dq[i].lo - TOL) { fail("early:callback " + std::to_string(i)); return; }
        rearm = dq[i].period > 0;
        for(int k = n > 10 && r.chance(1, 10) ? n : r.below(4); k > 0 && budget > 0; k--) { budget--; act(); if(done) return; }
        // keep it going
        bool any = false;
        for(size_t k = 0; k < n; k++) if(inq[k] && dq[k].lo < now + 100) any = true;
        if(budget <= 0) { done = true; return; }
        if(!any && !rearm) for(size_t k = 0; k < n; k++) if(!inq[k]) { sched(k, 0, 0); any = true; break; }
        if(!any && !rearm) done = true;
    }
};
}
MODE(self) {
    T0 = epicsTime::getCurrent();
    sch::Perturb P(R);
    SelfModel M(R.next());
    bool crowd = R.chance(1, 10);
    M.n = crowd ? 20 + R.below(60) : 1 + R.below(6); M.budget = crowd ? 200 + R.below(300) : 5 + R.below(80); M.unit = R.pick(std::vector<double>{0, 2e-5, 3e-4, 2e-3});
    Timer timer("t", highPriority);
    M.x.timer = &timer;
    for(size_t i = 0; i < M.n; i++) {
        CBPtr c(new CB(&M.x, i)); int id = i; SelfModel *m = &M;
        c->body = [m, id] { m->run(id); };
        M.x.cbs.push_back(c); M.inq.push_back(false); M.dq.push_back(SelfModel::Q());
    }
    // all further scheduling happens on the timer's thread
    M.inq[0] = true; SelfModel::Q q0 = {-10, 1e9, 0}; M.dq[0] = q0;
    std::atomic<bool> stop(false);
    std::thread obs([&] { while(!stop) { std::ostringstream o; timer.dump(o); timer.isScheduled(M.x.cbs[M.n - 1]); nap(200); } });
    timer.scheduleAfterDelay(M.x.cbs[0], 0);
    bool ok = waitFor([&] { return M.done.load(); }, 40);
    stop = true; obs.join();
    timer.close();
    if(!ok) { std::ostringstream o; for(size_t i = 0; i < M.n; i++) if(M.inq[i]) o << " " << i << " due " << M.dq[i].lo; VFAIL("self:lost", "nothing runs; runs " << M.runs << " budget " << M.budget << " waiting:" << o.str()); }
    if(!M.bad.empty()) VFAIL("self:" + M.bad.substr(0, M.bad.find(':')), M.bad);
    for(size_t i = 0; i < M.n; i++) {
        if((int)i == M.cur) continue;
        bool per = M.inq[i] && M.dq[i].period > 0, shot = M.inq[i] && !per;
        CB& c = *M.x.cbs[i];
        if(shot) {
            // it may have run between the end of the program and close
            size_t after = 0; (void)after;
            VCHECK(c.stops <= 1, "self:stopped", "callback " << i << " told " << c.stops);
            if(M.dq[i].lo > 500) VCHECK(c.stops == 1, "self:stopped", "callback " << i << " told " << c.stops);
        } else if(!per) VCHECK(c.stops == 0, "self:stopped", "callback " << i << " was not waiting, told " << c.stops);
        else VCHECK(c.stops <= 1, "self:stopped", "callback " << i << " told " << c.stops);
        VCHECK(!timer.isScheduled(M.x.cbs[i]), "self:isScheduled", i);
    }
    M.x.log.finish();
    int running = -1;
    for(const Ev& e : M.x.log.ev) {
        if(e.k == START) { VCHECK(running < 0, "overlap", e.cb); running = e.cb; }
        if(e.k == END) running = -1;
    }
    count("self_runs", M.runs);
    distinct(M.h);
}

VH_MAIN
