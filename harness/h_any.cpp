// C31: AnyScalar holds exactly what was put
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <pv/anyscalar.h>
#include <pv/pvData.h>
#include <pv/typeCast.h>
#include "vh.h"
#include "gen.h"
using namespace g;
using vh::count; using vh::distinct; using vh::sample; using vh::q;
using pvd::AnyScalar;
namespace {
struct M { int st; uint64_t n; std::string s; M() : st(-1), n(0) {} };
std::string desc(const M& m) { std::ostringstream o; if(m.st < 0) o << "nil"; else if(m.st == pvd::pvString) o << "string " << q(m.s); else o << pvd::ScalarTypeFunc::name((pvd::ScalarType)m.st) << " 0x" << std::hex << m.n; return o.str(); }
template<typename T> uint64_t bits(const T& x) { uint64_t n = 0; memcpy(&n, &x, sizeof x); return n; }
template<typename T> T from(uint64_t n) { T x; memcpy(&x, &n, sizeof x); return x; }
template<typename T> void refCheck(const AnyScalar& a, const M& m, const std::string& log) {
    bool threw = false, same = false;
    const bool mine = (int)pvd::ScalarTypeID<T>::value == m.st;
    try { const T& r = a.ref<T>(); same = bits(r) == m.n; } catch(AnyScalar::bad_cast&) { threw = true; }
    VCHECK(threw == !mine, "any-ref-type", pvd::ScalarTypeFunc::name((pvd::ScalarType)pvd::ScalarTypeID<T>::value) << " reference of " << desc(m) << ":" << log);
    VCHECK(!mine || same, "any-ref-value", desc(m) << ":" << log);
    // converted
    T got = T(); threw = false; bool refused = false; T want = T();
    try { got = a.as<T>(); } catch(std::exception&) { threw = true; }
    if(m.st < 0) refused = true;
    else if(m.st == pvd::pvFloat || m.st == pvd::pvDouble) {
        // beyond the range of an integer anything may come out
        double d = m.st == pvd::pvFloat ? (double)from<float>((uint32_t)m.n) : from<double>(m.n);
        if(!(pvd::ScalarTypeID<T>::value == pvd::pvFloat || pvd::ScalarTypeID<T>::value == pvd::pvDouble) && !(d > -100 && d < 100)) return;
        if(!(pvd::ScalarTypeID<T>::value == pvd::pvFloat || pvd::ScalarTypeID<T>::value == pvd::pvDouble) && d < 0) return;
    }
    if(!refused) try { if(m.st == pvd::pvString) pvd::castUnsafeV(1, (pvd::ScalarType)pvd::ScalarTypeID<T>::value, &want, pvd::pvString, &m.s);
          else { uint64_t n = m.n; pvd::castUnsafeV(1, (pvd::ScalarType)pvd::ScalarTypeID<T>::value, &want, (pvd::ScalarType)m.st, &n); } } catch(std::exception&) { refused = true; }
    VCHECK(threw == refused, "any-as-refused", desc(m) << " as " << pvd::ScalarTypeFunc::name((pvd::ScalarType)pvd::ScalarTypeID<T>::value) << ":" << log);
    if(!refused) VCHECK(bits(got) == bits(want), "any-as-value", desc(m) << " as " << pvd::ScalarTypeFunc::name((pvd::ScalarType)pvd::ScalarTypeID<T>::value) << ":" << log);
    // plain widening needs no reference implementation
    if(!refused && m.st == pvd::pvInt && pvd::ScalarTypeID<T>::value == pvd::pvLong) VCHECK((pvd::int64)from<T>(bits(got)) == (pvd::int64)(pvd::int32)m.n, "any-as-widen", desc(m));
    count(refused ? "refused" : "converted");
}
void check(const AnyScalar& a, const M& m, const std::string& log, bool deep = true) {
    VCHECK((int)a.type() == m.st, "any-type", (int)a.type() << " instead of " << desc(m) << ":" << log);
    VCHECK(a.empty() == (m.st < 0) && (bool)a == (m.st >= 0), "any-empty", desc(m) << ":" << log);
    if(m.st == pvd::pvString) {
        VCHECK(a.ref<std::string>() == m.s && a.ref<const std::string>() == m.s, "any-string", q(a.ref<std::string>()) << " instead of " << desc(m) << ":" << log);
        VCHECK(!strcmp((const char*)a.bufferUnsafe(), m.s.c_str()) && *static_cast<const std::string*>(a.unsafe()) == m.s, "any-buffer", desc(m) << ":" << log);
        VCHECK(a.as<std::string>() == m.s, "any-as-string", desc(m) << ":" << log);
    } else if(m.st >= 0) {
        uint64_t n = 0; memcpy(&n, a.bufferUnsafe(), width((pvd::ScalarType)m.st));
        VCHECK(n == m.n && a.unsafe() == a.bufferUnsafe(), "any-value", "0x" << std::hex << n << " instead of " << desc(m) << ":" << log);
        if(deep) VTHROWS(a.ref<std::string>(), "any-ref-type", desc(m) << ":" << log);
    } else if(deep) { VTHROWS(a.as<std::string>(), "any-as-nil", log); VTHROWS(a.ref<std::string>(), "any-ref-nil", log); }
}
void refs(const AnyScalar& a, const M& m, vh::Rng& R, const std::string& log) {
    switch(R.below(11)) {
    case 0: refCheck<pvd::int8>(a, m, log); break;   case 1: refCheck<pvd::int16>(a, m, log); break;
    case 2: refCheck<pvd::int32>(a, m, log); break;  case 3: refCheck<pvd::int64>(a, m, log); break;
    case 4: refCheck<pvd::uint8>(a, m, log); break;  case 5: refCheck<pvd::uint16>(a, m, log); break;
    case 6: refCheck<pvd::uint32>(a, m, log); break; case 7: refCheck<pvd::uint64>(a, m, log); break;
    case 8: refCheck<float>(a, m, log); break;       case 9: refCheck<double>(a, m, log); break;
    default: refCheck<pvd::boolean>(a, m, log); }
}
#define TYPED(X) switch(st) { \
    case pvd::pvBoolean: X(pvd::boolean) break; case pvd::pvByte: X(pvd::int8) break; case pvd::pvShort: X(pvd::int16) break; \
    case pvd::pvInt: X(pvd::int32) break; case pvd::pvLong: X(pvd::int64) break; case pvd::pvUByte: X(pvd::uint8) break; \
    case pvd::pvUShort: X(pvd::uint16) break; case pvd::pvUInt: X(pvd::uint32) break; case pvd::pvULong: X(pvd::uint64) break; \
    case pvd::pvFloat: X(float) break; default: X(double) }
}
static uint64_t history(vh::Rng& R, std::string& log) {
    const size_t N = 4;
    Opt O; O.longStrings = R.chance(1, 4);
    std::vector<std::unique_ptr<AnyScalar> > a; std::vector<M> m(N);
    for(size_t i = 0; i < N; i++) a.emplace_back(new AnyScalar);
    uint64_t h = 0;
    for(int k = 5 + R.below(40); k--; ) {
        size_t i = R.below(N), j = R.below(N); std::ostringstream L;
        pvd::ScalarType st = (pvd::ScalarType)R.below(R.coin() ? 12 : 11); if(R.chance(1, 4)) st = pvd::pvString;
        M x; x.st = st; if(st == pvd::pvString) x.s = genStr(R, O); else { x.n = genNum(R, st, O); if(st == pvd::pvBoolean) x.n &= 1; }
        switch(R.below(14)) {
        case 0: // made from a value
            if(st == pvd::pvString) { if(R.coin()) { x.s = x.s.c_str(); a[i].reset(new AnyScalar(x.s.c_str())); } else a[i].reset(new AnyScalar(x.s)); }
            else {
#define X(T) { T y = from<T>(x.n); a[i].reset(new AnyScalar(y)); }
                TYPED(X)
#undef X
            }
            m[i] = x; L << " " << i << "=new " << desc(x); count("made"); break;
        case 1: { uint64_t n = x.n; a[i].reset(new AnyScalar(st, st == pvd::pvString ? (const void*)&x.s : (const void*)&n)); m[i] = x; L << " " << i << "=raw " << desc(x); count("made_raw"); break; }
        case 2: // assigned a value
            if(st == pvd::pvString) { if(R.coin()) { x.s = x.s.c_str(); *a[i] = x.s.c_str(); } else *a[i] = x.s; }
            else {
#define X(T) { T y = from<T>(x.n); *a[i] = y; }
                TYPED(X)
#undef X
            }
            m[i] = x; L << " " << i << ":=" << desc(x); count("assigned"); break;
        case 3: *a[i] = *a[j]; m[i] = M(m[j]); L << " " << i << "=" << j; count(i == j ? "self_assigned" : "copied"); break;
        case 4: if(i != j) { *a[i] = std::move(*a[j]); m[i] = m[j]; m[j] = M(); L << " " << i << "=move " << j; count("moved"); } break;
        case 5: { std::unique_ptr<AnyScalar> t(new AnyScalar(std::move(*a[j]))); M y(m[j]); m[j] = M(); check(*a[j], m[j], log + " moved from"); a[i] = std::move(t); m[i] = y; L << " " << i << "=new move " << j; count("moved"); break; }
        case 6: { std::unique_ptr<AnyScalar> t(new AnyScalar(static_cast<const AnyScalar&>(*a[j]))); M y(m[j]); a[i] = std::move(t); m[i] = y; L << " " << i << "=new copy " << j; count("copied"); break; }
        case 7: case 8: a[i]->swap(*a[j]); std::swap(m[i], m[j]); L << " swap " << i << "," << j; count("swapped"); break;
        case 9: a[i]->clear(); m[i] = M(); L << " clear " << i; count("cleared"); break;
        case 10: // changed in place
            if(m[i].st < 0) break;
            if(m[i].st == pvd::pvString) { std::string s(genStr(R, O)); if(R.coin()) a[i]->ref<std::string>() = s; else { a[i]->ref<std::string>() += s; s = m[i].s + s; } m[i].s = s; }
            else { uint64_t n = genNum(R, (pvd::ScalarType)m[i].st, O); if(m[i].st == pvd::pvBoolean) n &= 1; int st = m[i].st; m[i].n = n;
#define X(T) { a[i]->ref<T>() = from<T>(n); }
                TYPED(X)
#undef X
            }
            L << " change " << i; count("changed"); break;
        case 11: { // through a field
            if(m[i].st < 0) break;
            pvd::PVScalarPtr f(pvd::getPVDataCreate()->createPVScalar((pvd::ScalarType)m[i].st));
            f->putFrom(*a[i]); AnyScalar t; f->getAs(t); check(t, m[i], log + " by way of a field"); *a[j] = t; m[j] = M(m[i]); L << " " << j << "=field " << i; count("by_field"); break; }
        default: refs(*a[i], m[i], R, log); L << " read " << i; break;
        }
        log += L.str(); if(log.size() > 2500) log = log.substr(log.size() - 2000); h = vh::hstr(log, h);
        for(size_t c = 0; c < N; c++) check(*a[c], m[c], log, c == i && R.chance(1, 4));
        count("steps");
    }
    return h;
}
MODE(any) {
    // the second and third time nothing of the harness itself stays behind
    const vh::Rng R0(R);
    std::string log; log.reserve(16384);
    uint64_t h = history(R, log);
    size_t bytes[2];
    for(int i = 0; i < 2; i++) {
        vh::Rng R1(R0); log.clear();
        size_t before = __sanitizer_get_current_allocated_bytes();
        history(R1, log);
        bytes[i] = __sanitizer_get_current_allocated_bytes() - before;
    }
    VCHECK(bytes[0] == 0 || bytes[1] == 0, "any-leak", (long)bytes[0] << " bytes are left by each run of" << log);
    count("balanced");
    distinct(h); if(log.size() < 250) sample(log);
}
VH_MAIN
