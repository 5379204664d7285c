// Harness framework: deterministic cases, violation reporting, coverage counters.
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <functional>
#include <memory>
#include <mutex>
#include <atomic>

namespace vh {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31); }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() >> 63; }
    template<class V> const typename V::value_type& pick(const V& v) { return v[below(v.size())]; }
};

// thrown to abandon a case after a violation was recorded
struct Abandon {};

struct State {
    std::string mode, tier;
    uint64_t caseno, seed;
    std::mutex mtx;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t violations;
    bool verbose;
    volatile uint64_t *progress; // mmap'd: [0]=case number [1]=heartbeat
    State() : caseno(0), seed(1), violations(0), verbose(false), progress(0) {}
};
inline State& st() { static State *s = new State; return *s; }

inline void count(const char *n, uint64_t k = 1) {
    std::lock_guard<std::mutex> G(st().mtx);
    st().counters[n] += k;
}
inline void distinct(uint64_t h) {
    std::lock_guard<std::mutex> G(st().mtx);
    if(st().distinct.size() < 400000) st().distinct.insert(h);
}
inline void sample(const std::string& s) {
    std::lock_guard<std::mutex> G(st().mtx);
    if(st().samples.size() < 3) st().samples.push_back(s.size() > 600 ? s.substr(0, 600) + "..." : s);
}
inline std::string hex(const void *p, size_t n, size_t max = 400) {
    std::string o; char b[4];
    for(size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); o += b; }
    if(n > max) o += "...";
    return o;
}
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
inline std::string hex(const std::vector<uint8_t>& s) { return s.empty() ? std::string() : hex(&s[0], s.size()); }
inline std::string q(const std::string& s) {
    std::string o("'"); char b[8];
    for(unsigned char c : s.substr(0, 300)) {
        if(c >= 32 && c < 127 && c != '\\' && c != '\'') o += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    if(s.size() > 300) o += "...";
    return o + "'";
}

// Record a violation. key: stable identifier of what failed.
inline void violation(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> G(st().mtx);
    st().violations++;
    std::string m = msg.size() > 3000 ? msg.substr(0, 3000) + "..." : msg;
    for(size_t i = 0; i < m.size(); i++) if(m[i] == '\n' || m[i] == '\r') m[i] = '|';
    printf("@VIOL mode=%s case=%llu key=%s msg=%s\n", st().mode.c_str(),
           (unsigned long long)st().caseno, key.c_str(), m.c_str());
    fflush(stdout);
}

#define VFAIL(KEY, EXPR) do { std::ostringstream vo_; vo_ << EXPR; \
    vh::violation(KEY, vo_.str()); throw vh::Abandon(); } while(0)
#define VCHECK(COND, KEY, EXPR) do { if(!(COND)) VFAIL(KEY, "[" #COND "] " << EXPR); } while(0)
// expects an exception derived from std::exception
#define VTHROWS(STMT, KEY, EXPR) do { bool vt_ = false; \
    try { STMT; } catch(vh::Abandon&) { throw; } catch(std::exception&) { vt_ = true; } \
    if(!vt_) VFAIL(KEY, "no exception from " #STMT " : " << EXPR); } while(0)

typedef std::function<void(Rng&)> CaseFn;
struct Mode { std::string name; CaseFn fn; };
inline std::vector<Mode>& modes() { static std::vector<Mode> *m = new std::vector<Mode>; return *m; }
struct Reg { Reg(const char *n, CaseFn f) { Mode m; m.name = n; m.fn = f; modes().push_back(m); } };
#define MODE(NAME) static void mode_##NAME(vh::Rng& R); \
    static vh::Reg reg_##NAME(#NAME, mode_##NAME); \
    static void mode_##NAME(vh::Rng& R)

inline void tick() { if(st().progress) __atomic_fetch_add(&st().progress[1], 1, __ATOMIC_RELAXED); }

inline std::string jesc(const std::string& s) {
    std::string o; char b[8];
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

inline int runMain(int argc, char **argv) {
    std::string mode, out, prog;
    uint64_t seed = 1, from = 0, to = 1;
    for(int i = 1; i < argc; i++) {
        std::string a(argv[i]);
        if(a == "--list") { for(auto& m : modes()) printf("%s\n", m.name.c_str()); return 0; }
        else if(a == "-v") st().verbose = true;
        else if(i + 1 >= argc) { fprintf(stderr, "bad args\n"); return 99; }
        else if(a == "--mode") mode = argv[++i];
        else if(a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if(a == "--from") from = strtoull(argv[++i], 0, 10);
        else if(a == "--to") to = strtoull(argv[++i], 0, 10);
        else if(a == "--tier") st().tier = argv[++i];
        else if(a == "--out") out = argv[++i];
        else if(a == "--progress") prog = argv[++i];
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 99; }
    }
    Mode *m = 0;
    for(auto& x : modes()) if(x.name == mode) m = &x;
    if(!m) { fprintf(stderr, "no such mode\n"); return 99; }
    if(!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if(fd < 0 || ftruncate(fd, 4096)) return 99;
        st().progress = (volatile uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    st().mode = mode;
    st().seed = seed;
    uint64_t done = 0;
    for(uint64_t c = from; c < to; c++) {
        st().caseno = c;
        if(st().progress) { st().progress[0] = c; st().progress[1]++; }
        Rng R(mix(seed * 1000003ull + c) ^ hstr(mode));
        try {
            m->fn(R);
        } catch(Abandon&) {
        } catch(std::exception& e) {
            violation(std::string("unexpected-exception:") + mode, e.what());
        }
        done++;
        if(st().violations >= 20) break;
    }
    if(!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if(!f) return 99;
        fprintf(f, "{\"done\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long)done,
                (unsigned long long)st().violations);
        bool first = true;
        for(auto& kv : st().counters) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
            first = false;
        }
        fprintf(f, "},\"samples\":[");
        first = true;
        for(auto& s : st().samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((out + ".hash").c_str(), "wb");
        if(!f) return 99;
        for(uint64_t h : st().distinct) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    printf("@DONE %llu\n", (unsigned long long)done);
    fflush(stdout);
    return 0;
}

} // namespace vh

// EPICS' assert() suspends the thread; here it ends the process
#define VH_ASSERT extern "C" void epicsAssert(const char *file, const unsigned line, const char *expr, const char *) { \
    fflush(stdout); fprintf(stderr, "\nA call to 'assert(%s)'\n  failed in %s line %u.\n", expr, file, line); fflush(stderr); abort(); }

#if defined(__SANITIZE_ADDRESS__)
// An absurd allocation is refused with std::bad_alloc, as it would be by a
// system with finite memory (ASan's own operator new aborts instead).
extern "C" void* __real__Znwm(size_t);
extern "C" void* __real__Znam(size_t);
extern "C" void* __wrap__Znwm(size_t n);
extern "C" void* __wrap__Znam(size_t n);
namespace vh { extern size_t allocLimit; extern uint64_t allocRefused; }
#define VH_MAIN VH_ASSERT \
  namespace vh { size_t allocLimit = (size_t)64 << 20; uint64_t allocRefused; } \
  extern "C" void* __wrap__Znwm(size_t n) { if(n > vh::allocLimit) { vh::allocRefused++; throw std::bad_alloc(); } return __real__Znwm(n); } \
  extern "C" void* __wrap__Znam(size_t n) { if(n > vh::allocLimit) { vh::allocRefused++; throw std::bad_alloc(); } return __real__Znam(n); } \
  int main(int argc, char **argv) { int r = vh::runMain(argc, argv); return r; }
#else
#define VH_MAIN VH_ASSERT int main(int argc, char **argv) { return vh::runMain(argc, argv); }
#endif

#endif
