// Schedule perturbation: random delays at the library's synchronisation points.
// The harness is linked with --wrap for each of them (see the LINK line of the
// harness), so that only calls made by the library's own code are delayed.
#ifndef PERTURB_H
#define PERTURB_H
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <thread>
#include <epicsTime.h>
#include <epicsMutex.h>
#include <epicsEvent.h>
#include <epicsThread.h>

namespace sch {

// 0: off. Otherwise one call in `rate` is delayed.
inline std::atomic<uint32_t>& rate() { static std::atomic<uint32_t> r(0); return r; }
inline std::atomic<uint64_t>& points() { static std::atomic<uint64_t> r(0); return r; }
inline std::atomic<uint64_t>& delayed() { static std::atomic<uint64_t> r(0); return r; }
inline std::atomic<uint32_t>& maxus() { static std::atomic<uint32_t> r(200); return r; }

inline void nap(unsigned us) {
    timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000l;
    nanosleep(&t, 0);
}
inline uint64_t& trng() {
    static thread_local uint64_t s = 0;
    if(!s) { static std::atomic<uint64_t> n(1); s = vh::mix(vh::st().caseno * 977 + n.fetch_add(1, std::memory_order_relaxed)) | 1; }
    return s;
}
inline void point() {
    uint32_t r = rate().load(std::memory_order_relaxed);
    if(!r) return;
    points().fetch_add(1, std::memory_order_relaxed);
    uint64_t& s = trng();
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    if((s >> 20) % r) return;
    delayed().fetch_add(1, std::memory_order_relaxed);
    if((s >> 11) & 1) sched_yield();
    else nap((s >> 32) % maxus().load(std::memory_order_relaxed));
}
// global order of observed events; relaxed so as not to hide races from TSan
inline uint64_t seq() {
    static std::atomic<uint64_t> n(0);
    return n.fetch_add(1, std::memory_order_relaxed) + 1;
}
struct Perturb {
    Perturb(vh::Rng& R) {
        static const uint32_t rates[] = {0, 2, 4, 16, 64};
        static const uint32_t us[] = {20, 200, 1500};
        maxus().store(us[R.below(3)]);
        rate().store(rates[R.below(5)]);
    }
    ~Perturb() {
        rate().store(0);
        vh::count("sync_points", points().exchange(0));
        vh::count("delays_injected", delayed().exchange(0));
    }
};
inline uint64_t mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

} // namespace sch

extern "C" {
void __real__ZN10epicsMutex4lockEv(void*);
void __real__ZN10epicsMutex6unlockEv(void*);
bool __real__ZN10epicsMutex7tryLockEv(void*);
void __real__ZN10epicsEvent7triggerEv(void*);
void __real__ZN10epicsEvent4waitEv(void*);
bool __real__ZN10epicsEvent4waitEd(void*, double);
epicsEventStatus __real_epicsEventTrigger(epicsEventId);
epicsEventStatus __real_epicsEventWait(epicsEventId);
epicsEventStatus __real_epicsEventWaitWithTimeout(epicsEventId, double);
epicsEventStatus __real_epicsEventTryWait(epicsEventId);
void __real_epicsThreadOnce(epicsThreadOnceId*, EPICSTHREADFUNC, void*);
}
#define SCHED_WRAPS extern "C" { \
void __wrap__ZN10epicsMutex4lockEv(void* m) { sch::point(); __real__ZN10epicsMutex4lockEv(m); } \
void __wrap__ZN10epicsMutex6unlockEv(void* m) { __real__ZN10epicsMutex6unlockEv(m); sch::point(); } \
bool __wrap__ZN10epicsMutex7tryLockEv(void* m) { sch::point(); return __real__ZN10epicsMutex7tryLockEv(m); } \
void __wrap__ZN10epicsEvent7triggerEv(void* e) { sch::point(); __real__ZN10epicsEvent7triggerEv(e); } \
void __wrap__ZN10epicsEvent4waitEv(void* e) { sch::point(); __real__ZN10epicsEvent4waitEv(e); sch::point(); } \
bool __wrap__ZN10epicsEvent4waitEd(void* e, double t) { sch::point(); bool r = __real__ZN10epicsEvent4waitEd(e, t); sch::point(); return r; } \
epicsEventStatus __wrap_epicsEventTrigger(epicsEventId e) { sch::point(); return __real_epicsEventTrigger(e); } \
epicsEventStatus __wrap_epicsEventWait(epicsEventId e) { sch::point(); epicsEventStatus r = __real_epicsEventWait(e); sch::point(); return r; } \
epicsEventStatus __wrap_epicsEventWaitWithTimeout(epicsEventId e, double t) { sch::point(); epicsEventStatus r = __real_epicsEventWaitWithTimeout(e, t); sch::point(); return r; } \
epicsEventStatus __wrap_epicsEventTryWait(epicsEventId e) { sch::point(); return __real_epicsEventTryWait(e); } \
void __wrap_epicsThreadOnce(epicsThreadOnceId *o, EPICSTHREADFUNC f, void *a) { sch::point(); __real_epicsThreadOnce(o, f, a); } \
}
#endif
