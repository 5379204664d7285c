// C14: conversions between scalar types, by every route, against exact arithmetic.
#include "gen.h"
#include <cmath>
#include <cfloat>
#include <pv/convert.h>
#include <pv/anyscalar.h>
#include <pv/typeCast.h>
using namespace g; using namespace vh;
typedef pvd::ScalarType ST;

template<typename T> struct Tag { typedef T type; };
template<typename F> static void disp(ST s, F f) {
    switch(s) {
#define X(E, T) case pvd::E: f(Tag<T>()); return;
    G_EACH_NUM(X)
#undef X
    case pvd::pvString: f(Tag<std::string>()); return;
    default: throw std::logic_error("type");
    }
}
struct S { ST t; uint64_t n; std::string s; S() : t((ST)-1), n(0) {} };
static bool isF(ST t) { return t == pvd::pvFloat || t == pvd::pvDouble; }
static bool isSigned(ST t) { return t == pvd::pvByte || t == pvd::pvShort || t == pvd::pvInt || t == pvd::pvLong; }
static bool isI(ST t) { return !isF(t) && t != pvd::pvString && t != pvd::pvBoolean; }
static __int128 asInt(const S& a) {
    unsigned w = width(a.t);
    if(isSigned(a.t)) { int sh = 64 - 8 * w; return (__int128)((int64_t)(a.n << sh) >> sh); }
    return (__int128)a.n;
}
static double asDbl(const S& a) { return a.t == pvd::pvFloat ? (double)fromBits<float>(a.n) : fromBits<double>(a.n); }
static bool fits(__int128 v, ST t) {
    unsigned w = 8 * width(t); __int128 one = 1;
    return isSigned(t) ? v >= -(one << (w - 1)) && v < (one << (w - 1)) : v >= 0 && v < (one << w);
}
static std::string dec(__int128 v) { bool neg = v < 0; if(neg) v = -v; std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while(v); return neg ? "-" + s : s; }
static std::string show(const S& a) {
    if(a.t == (ST)-1) return "nil";
    std::ostringstream o; o << pvd::ScalarTypeFunc::name(a.t) << ":";
    if(a.t == pvd::pvString) o << q(a.s); else if(isF(a.t)) { char b[64]; snprintf(b, 64, "%a", asDbl(a)); o << b; } else o << dec(asInt(a));
    return o.str();
}
static bool same(const S& a, const S& b) {
    if(a.t != b.t) return false;
    if(a.t == pvd::pvString) return a.s == b.s;
    if(a.t == (ST)-1) return true;
    if(isF(a.t) && std::isnan(asDbl(a)) && std::isnan(asDbl(b))) return true;
    return (a.n & maskw(width(a.t))) == (b.n & maskw(width(b.t)));
}
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }

enum Want { GIVES, FAILS, ANY /* every route the same */, SKIP };
// independent parser of the number formats
static Want parseInt(const std::string& t, ST to, S& out) {
    size_t i = 0, e = t.size();
    while(i < e && ws(t[i])) i++;
    bool neg = false;
    if(i < e && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
    int base = 10;
    if(i < e && t[i] == '0') {
        base = 8;
        if(i + 2 < e && (t[i + 1] == 'x' || t[i + 1] == 'X') && isxdigit((unsigned char)t[i + 2])) { base = 16; i += 2; }
    }
    __int128 v = 0, lim = (__int128)1 << 100; size_t nd = 0;
    for(; i < e; i++, nd++) {
        int d = t[i] >= '0' && t[i] <= '9' ? t[i] - '0' : t[i] >= 'a' && t[i] <= 'f' ? t[i] - 'a' + 10 : t[i] >= 'A' && t[i] <= 'F' ? t[i] - 'A' + 10 : 99;
        if(d >= base) break;
        if(v < lim) v = v * base + d;
    }
    if(!nd) return FAILS;
    while(i < e && ws(t[i])) i++;
    if(i < e) return FAILS;
    if(neg) v = -v;
    if(!isSigned(to) && ((neg && v) || (v < ((__int128)1 << 64) && v >= ((__int128)1 << 64) - ((__int128)1 << (8 * width(to))) && width(to) < 8))) return SKIP; // the base library wraps small negative numbers
    if(!fits(v, to)) return FAILS;
    out.n = (uint64_t)v & maskw(width(to));
    return GIVES;
}
static Want parseFlt(const std::string& t, ST to, S& out) {
    size_t i = 0, e = t.size();
    while(i < e && ws(t[i])) i++;
    size_t b = i; bool neg = false;
    if(i < e && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
    std::string low; for(size_t j = i; j < e; j++) low += (char)tolower((unsigned char)t[j]);
    while(!low.empty() && ws(low.back())) low.pop_back();
    if(low == "inf" || low == "infinity" || low == "nan") {
        double d = low == "nan" ? NAN : neg ? -INFINITY : INFINITY;
        if(to == pvd::pvFloat) out.n = toBits((float)d); else out.n = toBits(d);
        return GIVES;
    }
    if(low.compare(0, 3, "nan") == 0 || low.compare(0, 2, "0x") == 0) return SKIP;
    size_t nd = 0;
    while(i < e && isdigit((unsigned char)t[i])) i++, nd++;
    if(i < e && t[i] == '.') { i++; while(i < e && isdigit((unsigned char)t[i])) i++, nd++; }
    if(!nd) return FAILS;
    if(i < e && (t[i] == 'e' || t[i] == 'E')) {
        size_t j = i + 1; if(j < e && (t[j] == '+' || t[j] == '-')) j++;
        if(j < e && isdigit((unsigned char)t[j])) { while(j < e && isdigit((unsigned char)t[j])) j++; i = j; }
    }
    size_t num = i;
    while(i < e && ws(t[i])) i++;
    if(i < e) return FAILS;
    double d = strtod(t.substr(b, num - b).c_str(), 0), a = fabs(d);
    if(std::isinf(d)) return FAILS;
    double mn = to == pvd::pvFloat ? FLT_MIN : DBL_MIN, mx = to == pvd::pvFloat ? FLT_MAX : DBL_MAX;
    if(to == pvd::pvFloat && a > FLT_MAX * 1.000001) return FAILS;
    if(a <= mn * 1.000001 || a >= mx * 0.999999) {
        bool zero = true; for(size_t j = b; j < num && tolower((unsigned char)t[j]) != 'e'; j++) if(t[j] >= '1' && t[j] <= '9') zero = false;
        if(!zero) return SKIP; // the edges of the range
    }
    if(to == pvd::pvFloat) out.n = toBits((float)d); else out.n = toBits(d);
    return GIVES;
}
static Want expect(const S& from, ST to, S& out) {
    out = S(); out.t = to;
    if(from.t == to) { out = from; return GIVES; }
    if(to == pvd::pvString) {
        if(from.t == pvd::pvBoolean) out.s = from.n ? "true" : "false";
        else if(isF(from.t)) { double d = asDbl(from); if(std::isnan(d)) return SKIP; char b[64]; snprintf(b, 64, "%g", d); out.s = b; }
        else out.s = dec(asInt(from));
        return GIVES;
    }
    if(from.t == pvd::pvString) {
        if(from.s.find('\0') != std::string::npos) return SKIP;
        if(to == pvd::pvBoolean) {
            std::string l; for(char c : from.s) l += (char)tolower((unsigned char)c);
            if(l == "true") out.n = 1; else if(l == "false") out.n = 0; else return FAILS;
            return GIVES;
        }
        return isF(to) ? parseFlt(from.s, to, out) : parseInt(from.s, to, out);
    }
    if(from.t == pvd::pvBoolean || to == pvd::pvBoolean) return FAILS; // not supported
    if(isI(from.t) && isI(to)) { __int128 v = asInt(from); out.n = (uint64_t)v & maskw(width(to)); return fits(v, to) ? GIVES : ANY; }
    if(isI(from.t)) { // correctly rounded
        long double v = (long double)asInt(from);
        if(to == pvd::pvFloat) out.n = toBits((float)v); else out.n = toBits((double)v);
        return GIVES;
    }
    double d = asDbl(from);
    if(isI(to)) {
        if(std::isnan(d) || std::isinf(d) || fabs(d) > 2e19) return SKIP;
        __int128 v = (__int128)d;
        if(!fits(v, to)) return SKIP; // undefined
        out.n = (uint64_t)v & maskw(width(to));
        return GIVES;
    }
    if(to == pvd::pvDouble) { out.n = toBits(d); return GIVES; }
    double a = fabs(d); float f;
    if(std::isnan(d) || std::isinf(d) || a == 0) f = (float)d;
    else if(a >= FLT_MAX) f = d > 0 ? FLT_MAX : -FLT_MAX;
    else if(a <= FLT_MIN) f = d > 0 ? FLT_MIN : -FLT_MIN;
    else f = (float)d;
    out.n = toBits(f);
    return GIVES;
}

static std::string genNumText(Rng& R) {
    std::string s;
    switch(R.below(12)) {
    case 0: s = dec((__int128)(int64_t)R.next()); break;
    case 1: s = dec((__int128)R.next()); break;
    case 2: { // near a limit
        unsigned w = 8u << R.below(4); __int128 v = (__int128)1 << (w - R.below(2)); if(R.coin()) v = -v;
        s = dec(v + R.range(-2, 2)); break; }
    case 3: s = dec(R.range(-300, 300)); break;
    case 4: { char b[40]; snprintf(b, 40, R.coin() ? "0x%llx" : "0X%llX", (unsigned long long)R.next() >> R.below(64)); s = b; break; }
    case 5: { char b[40]; snprintf(b, 40, "0%llo", (unsigned long long)R.next() >> R.below(64)); s = b; break; }
    case 6: { char b[60]; snprintf(b, 60, "%.*g", (int)R.below(20), (double)R.range(-1000000, 1000000) * pow(10, R.range(-12, 12))); s = b; break; }
    case 7: { char b[60]; snprintf(b, 60, "%.17g", (double)R.range(-1000000, 1000000) * pow(10, R.range(-330, 330))); s = b; break; }
    case 8: { static const char *k[] = { "true", "false", "TRUE", "False", "nan", "inf", "-inf", "Infinity", "", " ", "-", "+", "0x", ".", "e5", "1e", "1e+", "--1", "0", "-0", "00", "08", "tru", "truex", "1.5", ".5", "5.", "1e400", "-1e400", "1e-400", "99999999999999999999999" };
        s = k[R.below(sizeof k / sizeof *k)]; break; }
    case 9: { size_t n = R.below(7); for(size_t i = 0; i < n; i++) s += "0123456789+-.eExX afAF\t\n"[R.below(25)]; break; }
    case 10: { Opt O; s = genStr(R, O, 20); break; }
    default: s = dec(R.below(100000));
    }
    if(R.chance(1, 6)) s = std::string(1 + R.below(2), " \t\n"[R.below(3)]) + s;
    if(R.chance(1, 6)) s += std::string(1 + R.below(2), " \t\n"[R.below(3)]);
    if(R.chance(1, 10)) s += "x.1 -,"[R.below(6)];
    if(R.chance(1, 12)) s = "+-"[R.below(2)] + s;
    return s;
}
static S genS(Rng& R, ST t) {
    S a; a.t = t; Opt O; O.nan = true;
    if(t == pvd::pvString) { a.s = R.chance(1, 5) ? genStr(R, O, 40) : genNumText(R); return a; }
    a.n = genNum(R, t, O);
    if(isF(t) && R.chance(1, 2)) { double d = (R.coin() ? 1 : -1) * ldexp((double)R.below(1u << 20), (int)R.range(-20, 50)); a.n = t == pvd::pvFloat ? toBits((float)d) : toBits(d); }
    return a;
}
static pvd::PVScalarPtr newScalar(ST t) { return pvd::getPVDataCreate()->createPVScalar(t); }
template<typename T> struct Conv {
    static T get(const S& a) { return fromBits<T>(a.n); }
    static S put(T v) { S a; a.t = (ST)pvd::ScalarTypeID<T>::value; a.n = toBits(v); return a; }
};
template<> struct Conv<std::string> {
    static std::string get(const S& a) { return a.s; }
    static S put(const std::string& v) { S a; a.t = pvd::pvString; a.s = v; return a; }
};
static S readS(const pvd::PVScalar& p) {
    S r; disp(p.getScalar()->getScalarType(), [&](auto tag) { typedef typename decltype(tag)::type T; r = Conv<T>::put(dynamic_cast<const pvd::PVScalarValue<T>&>(p).get()); }); return r;
}
static void setS(pvd::PVScalar& p, const S& a) {
    disp(a.t, [&](auto tag) { typedef typename decltype(tag)::type T; dynamic_cast<pvd::PVScalarValue<T>&>(p).put(Conv<T>::get(a)); });
}
struct Outcome { bool ok; S v; std::string err; };
template<typename F> static Outcome attempt(F f) { Outcome o; o.ok = false; try { o.v = f(); o.ok = true; } catch(Abandon&) { throw; } catch(std::exception& e) { o.err = e.what(); } return o; }

// type erased access, so that the routes are instantiated once for each type and not for each pair
static pvd::AnyScalar mkAny(const S& a) { pvd::AnyScalar x; disp(a.t, [&](auto tag) { typedef typename decltype(tag)::type T; x = pvd::AnyScalar(Conv<T>::get(a)); }); return x; }
static S anyAs(const pvd::AnyScalar& x, ST t) { S r; disp(t, [&](auto tag) { typedef typename decltype(tag)::type T; r = Conv<T>::put(x.as<T>()); }); return r; }
static S getAsV(const pvd::PVScalar& p, ST t) { S r; disp(t, [&](auto tag) { typedef typename decltype(tag)::type T; r = Conv<T>::put(p.getAs<T>()); }); return r; }
static void putFromV(pvd::PVScalar& p, const S& a) { disp(a.t, [&](auto tag) { typedef typename decltype(tag)::type T; p.putFrom<T>(Conv<T>::get(a)); }); }
// storage holding one value or an array of values of a type
struct Blob {
    ST t; std::vector<uint64_t> w; std::vector<std::string> s; size_t n;
    Blob(ST t, size_t n) : t(t), w(n + 1), s(t == pvd::pvString ? n + 1 : 0), n(n) {}
    Blob(ST t, const std::vector<S>& v) : Blob(t, v.size()) { for(size_t i = 0; i < n; i++) if(t == pvd::pvString) s[i] = v[i].s; else memcpy((char*)ptr() + i * width(t), &v[i].n, width(t)); }
    void *ptr() { return t == pvd::pvString ? (void*)s.data() : (void*)w.data(); }
    std::vector<S> get() { std::vector<S> o(n); for(size_t i = 0; i < n; i++) { o[i].t = t; if(t == pvd::pvString) o[i].s = s[i]; else memcpy(&o[i].n, (char*)ptr() + i * width(t), width(t)); } return o; }
};
template<typename TO, typename FROM> static S castU(const S& a) { return Conv<TO>::put(pvd::castUnsafe<TO, FROM>(Conv<FROM>::get(a))); }
static S castAny(const S& a, ST tt) {
    S r; disp(tt, [&](auto tt_) { typedef typename decltype(tt_)::type TO; disp(a.t, [&](auto ft_) { r = castU<TO, typename decltype(ft_)::type>(a); }); }); return r;
}
static S castCStr(const S& a, ST tt) {
    S r; disp(tt, [&](auto tt_) { typedef typename decltype(tt_)::type TO; if constexpr(!std::is_same<TO, std::string>::value) r = Conv<TO>::put(pvd::castUnsafe<TO, const char*>(a.s.c_str())); }); return r;
}

// one value through every route
MODE(scalar) {
    ST ft = (ST)R.below(12), tt = (ST)R.below(12);
    if(R.chance(1, 3)) (R.coin() ? ft : tt) = pvd::pvString;
    S a = genS(R, ft), w; Want want = expect(a, tt, w);
    if(want == SKIP) { count("unspecified"); return; }
    vh::distinct(hstr(show(a) + pvd::ScalarTypeFunc::name(tt)));
    std::vector<std::pair<const char*, Outcome>> res;
    S keep = genS(R, tt);
    res.emplace_back("castUnsafeV", attempt([&] { Blob o(tt, 1), i(ft, std::vector<S>(1, a)); pvd::castUnsafeV(1, tt, o.ptr(), ft, i.ptr()); return o.get()[0]; }));
    res.emplace_back("AnyScalar::as", attempt([&] { return anyAs(mkAny(a), tt); }));
    res.emplace_back("AnyScalar(type,ptr)", attempt([&] { Blob i(ft, std::vector<S>(1, a)); pvd::AnyScalar x(ft, i.ptr()), y; y = x; return anyAs(y, tt); }));
    pvd::PVScalarPtr p(newScalar(ft)), d; setS(*p, a);
    VCHECK(same(readS(*p), a), "scalar-put-get", show(a) << " reads " << show(readS(*p)));
    res.emplace_back("PVScalar::getAs", attempt([&] { return getAsV(*p, tt); }));
    auto intoField = [&](const char *name, std::function<void(pvd::PVScalar&)> f) {
        d = newScalar(tt); setS(*d, keep);
        Outcome o = attempt([&] { f(*d); return readS(*d); });
        if(!o.ok) VCHECK(same(readS(*d), keep), "failed-conversion-changed", name << " of " << show(a) << " failed but the field changed from " << show(keep) << " to " << show(readS(*d)));
        res.emplace_back(name, o);
    };
    intoField("PVScalar::putFrom", [&](pvd::PVScalar& x) { putFromV(x, a); });
    intoField("PVScalar::putFrom(AnyScalar)", [&](pvd::PVScalar& x) { x.putFrom(mkAny(a)); });
    intoField("PVScalar::assign", [&](pvd::PVScalar& x) { x.assign(*p); });
    intoField("getAs(AnyScalar)", [&](pvd::PVScalar& x) { pvd::AnyScalar v; p->getAs(v); VCHECK(v.type() == ft, "anyscalar-type", show(a)); x.putFrom(v); });
    if(ft != pvd::pvBoolean && tt != pvd::pvBoolean) // the templates do not refuse boolean <-> number
        res.emplace_back("castUnsafe", attempt([&] { return castAny(a, tt); }));
    if(ft == pvd::pvString && tt != pvd::pvString) res.emplace_back("castUnsafe(const char*)", attempt([&] { return castCStr(a, tt); }));
    pvd::ConvertPtr C(pvd::getConvert());
#define TF(E, T, TO_, FROM_) \
    if(tt == pvd::E) res.emplace_back(#TO_, attempt([&] { return Conv<T>::put(C->TO_(p)); })); \
    if(ft == pvd::E) intoField(#FROM_, [&](pvd::PVScalar&) { C->FROM_(d, Conv<T>::get(a)); });
    TF(pvByte, pvd::int8, toByte, fromByte) TF(pvShort, pvd::int16, toShort, fromShort) TF(pvInt, pvd::int32, toInt, fromInt) TF(pvLong, pvd::int64, toLong, fromLong)
    TF(pvUByte, pvd::uint8, toUByte, fromUByte) TF(pvUShort, pvd::uint16, toUShort, fromUShort) TF(pvUInt, pvd::uint32, toUInt, fromUInt) TF(pvULong, pvd::uint64, toULong, fromULong)
    TF(pvFloat, float, toFloat, fromFloat) TF(pvDouble, double, toDouble, fromDouble) TF(pvString, std::string, toString, fromString)
#undef TF
    for(auto& r : res) {
        if(want == FAILS) VCHECK(!r.second.ok, "conversion-accepted", r.first << " of " << show(a) << " to " << pvd::ScalarTypeFunc::name(tt) << " gave " << show(r.second.v));
        else {
            VCHECK(r.second.ok, "conversion-refused", r.first << " of " << show(a) << " to " << pvd::ScalarTypeFunc::name(tt) << " threw " << r.second.err);
            VCHECK(same(r.second.v, w), want == GIVES ? "conversion-value" : "routes-differ", r.first << " of " << show(a) << " gave " << show(r.second.v) << " expected " << show(w));
        }
        count("routes");
    }
    count(want == FAILS ? "refused" : want == GIVES ? "converted" : "wrapped");
    // formatting an integer, boolean or string and parsing it back
    if(ft != pvd::pvString && !isF(ft)) disp(ft, [&](auto t) { typedef typename decltype(t)::type T;
        pvd::PVScalarPtr p(newScalar(ft)); setS(*p, a);
        std::string s = p->getAs<std::string>();
        pvd::AnyScalar x(s); std::ostringstream o; o << pvd::AnyScalar(Conv<T>::get(a));
        VCHECK(o.str() == s, "anyscalar-print", show(a) << " printed " << q(o.str()) << " expected " << q(s));
        VCHECK(same(Conv<T>::put(x.as<T>()), a), "format-parse", show(a) << " text " << q(s));
        count("format_parse"); });
}

static S elemOf(const pvd::PVScalarArray& p, ST t, size_t i) {
    S r; disp(t, [&](auto tag) { typedef typename decltype(tag)::type T; typename pvd::PVValueArray<T>::const_svector v(dynamic_cast<const pvd::PVValueArray<T>&>(p).view()); r = Conv<T>::put(v.at(i)); }); return r;
}
static std::vector<S> readA(const pvd::PVScalarArray& p) {
    std::vector<S> o; ST t = p.getScalarArray()->getElementType();
    for(size_t i = 0; i < p.getLength(); i++) o.push_back(elemOf(p, t, i));
    return o;
}
template<typename T> static pvd::shared_vector<const T> vec(const std::vector<S>& a) {
    pvd::shared_vector<T> v(a.size()); for(size_t i = 0; i < a.size(); i++) v[i] = Conv<T>::get(a[i]); return pvd::freeze(v);
}
static bool sameV(const std::vector<S>& a, const std::vector<S>& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!same(a[i], b[i])) return false; return true; }
static std::string showV(const std::vector<S>& a) { std::string s("["); for(auto& x : a) s += show(x) + " "; return s + "]"; }

static pvd::shared_vector<const void> voidVec(ST t, const std::vector<S>& a) { pvd::shared_vector<const void> r; disp(t, [&](auto tag) { r = pvd::static_shared_vector_cast<const void>(vec<typename decltype(tag)::type>(a)); }); return r; }
template<typename T> static std::vector<S> unvec(const pvd::shared_vector<const T>& o) { std::vector<S> g; for(size_t i = 0; i < o.size(); i++) g.push_back(Conv<T>::put(o[i])); return g; }
static std::vector<S> convertVoid(const pvd::shared_vector<const void>& v, ST t) { std::vector<S> g; disp(t, [&](auto tag) { typedef typename decltype(tag)::type T; g = unvec<T>(pvd::shared_vector_convert<const T>(v)); }); return g; }
static std::vector<S> getA(const pvd::PVScalarArray& p, ST t) { std::vector<S> g; disp(t, [&](auto tag) { typedef typename decltype(tag)::type T; pvd::shared_vector<const T> o; p.getAs<T>(o); g = unvec<T>(o); }); return g; }
static void putA(pvd::PVScalarArray& p, const std::vector<S>& a, ST t) { disp(t, [&](auto tag) { typedef typename decltype(tag)::type T; p.putFrom<T>(vec<T>(a)); }); }
static void putA(pvd::PVScalarArray& p, const std::vector<S>& a) { putA(p, a, p.getScalarArray()->getElementType()); }

MODE(array) {
    ST ft = (ST)R.below(12), tt = (ST)R.below(12);
    if(R.chance(1, 4)) ft = pvd::pvString;
    size_t n = R.chance(1, 10) ? R.below(300) : R.below(6);
    std::vector<S> a, w; bool fails = false, unsp = false; bool tame = R.coin();
    for(size_t i = 0; i < n; i++) {
        S x = genS(R, ft), y;
        if(tame) { // every element convertible
            for(int k = 0; k < 50; k++) { Want e = expect(x, tt, y); if(e == GIVES || e == ANY) break; x = genS(R, ft); if(ft == pvd::pvString) x.s = tt == pvd::pvBoolean ? "true" : std::to_string(R.below(100)); else if(isF(ft)) { double d = R.below(100); x.n = ft == pvd::pvFloat ? toBits((float)d) : toBits(d); } }
        }
        Want e = expect(x, tt, y);
        if(e == SKIP) { unsp = true; break; }
        if(e == FAILS) fails = true;
        a.push_back(x); w.push_back(y);
    }
    if(unsp) { count("unspecified"); return; }
    n = a.size();
    bool unsupported = ft != tt && (ft == pvd::pvBoolean || tt == pvd::pvBoolean) && ft != pvd::pvString && tt != pvd::pvString;
    if(unsupported && !n) { count("unspecified"); return; }
    int pol = R.below(3); size_t bound = R.below(2) ? n : n + R.range(-1, 2); if((int)bound < 0) bound = 0;
    std::string cs = showV(a) + " to " + pvd::ScalarTypeFunc::name(tt);
    vh::distinct(hstr(cs));
    auto judge = [&](const char *route, bool ok, const std::vector<S>& got, const std::string& err, bool tooLong = false) {
        if(fails || tooLong) VCHECK(!ok, "conversion-accepted", route << " of " << cs << " gave " << showV(got));
        else { VCHECK(ok, "conversion-refused", route << " of " << cs << " threw " << err); VCHECK(sameV(got, w), "conversion-value", route << " of " << cs << " gave " << showV(got)); }
        count("routes");
    };
    auto collect = [&](std::function<void(std::vector<S>&)> f, const char *route) { std::vector<S> g; std::string err; bool ok = true; try { f(g); } catch(Abandon&) { throw; } catch(std::exception& e) { ok = false; err = e.what(); } judge(route, ok, g, err); };
    collect([&](std::vector<S>& g) { Blob o(tt, n), i(ft, a); pvd::castUnsafeV(n, tt, o.ptr(), ft, i.ptr()); g = o.get(); }, "castUnsafeV");
    pvd::shared_vector<const void> vsrc(voidVec(ft, a));
    collect([&](std::vector<S>& g) { g = convertVoid(vsrc, tt); }, "shared_vector_convert(void)");
    pvd::PVScalarArrayPtr p(pvd::getPVDataCreate()->createPVScalarArray(ft)); putA(*p, a);
    VCHECK(sameV(readA(*p), a), "array-put-get", cs);
    collect([&](std::vector<S>& g) { g = getA(*p, tt); }, "PVScalarArray::getAs");
    VCHECK(sameV(readA(*p), a), "source-changed", cs);
    for(int how = 0; how < 3; how++) { // into a field which already has a content
        pvd::ScalarArrayConstPtr at(pol == 0 ? pvd::getFieldCreate()->createScalarArray(tt) : pol == 1 ? pvd::getFieldCreate()->createBoundedScalarArray(tt, bound) : pvd::getFieldCreate()->createFixedScalarArray(tt, bound));
        pvd::PVScalarArrayPtr d(pvd::getPVDataCreate()->createPVScalarArray(at));
        std::vector<S> keep; size_t kn = pol == 2 ? bound : pol == 1 ? (bound ? R.below(bound) : 0) : R.below(4);
        for(size_t i = 0; i < kn; i++) keep.push_back(genS(R, tt));
        putA(*d, keep, tt);
        bool tooLong = (pol == 1 && n > bound) || (pol == 2 && n != bound);
        bool ok = true; std::string err;
        try {
            if(how == 0) putA(*d, a, ft); else if(how == 1) d->assign(*p);
            else {
                if(ft != pvd::pvString || n < kn) continue; // partial updates are not supported
                pvd::StringArray sa; for(auto& x : a) sa.push_back(x.s);
                std::vector<std::string> pad(R.below(3), "7"); sa.insert(sa.begin(), pad.begin(), pad.end());
                pvd::getConvert()->fromStringArray(d, 0, n, sa, pad.size());
            }
        } catch(Abandon&) { throw; } catch(std::exception& e) { ok = false; err = e.what(); }
        if(!ok) VCHECK(sameV(readA(*d), keep), "failed-conversion-changed", "route " << how << " of " << cs << " failed but the array changed from " << showV(keep) << " to " << showV(readA(*d)));
        judge(how == 0 ? "PVScalarArray::putFrom" : how == 1 ? "PVScalarArray::assign" : "Convert::fromStringArray", ok, readA(*d), err, tooLong);
        if(tooLong) count("too_long");
    }
    count(fails ? "refused" : "converted"); count("elements", n);
}

// the string list functions
MODE(lists) {
    pvd::ConvertPtr C(pvd::getConvert());
    // toStringArray
    ST t = (ST)R.below(12); size_t n = R.below(7); std::vector<S> a; std::vector<std::string> txt;
    for(size_t i = 0; i < n; i++) { S x, y; do { x = genS(R, t); } while(expect(x, pvd::pvString, y) != GIVES); a.push_back(x); txt.push_back(y.s); }
    pvd::PVScalarArrayPtr p(pvd::getPVDataCreate()->createPVScalarArray(t));
    disp(t, [&](auto tag) { typedef typename decltype(tag)::type T; p->putFrom<T>(vec<T>(a)); });
    size_t off = R.below(n + 2), cnt = R.below(n + 2), to = R.below(5), have = R.below(6);
    pvd::StringArray out; for(size_t i = 0; i < have; i++) out.push_back("old" + std::to_string(i));
    pvd::StringArray exp(out); size_t k = off > n ? 0 : std::min(cnt, n - off);
    if(to + k > exp.size()) exp.resize(to + k);
    for(size_t i = 0; i < k; i++) exp[to + i] = txt[off + i];
    size_t ret = C->toStringArray(p, off, cnt, out, to);
    VCHECK(ret == k && out == exp, "toStringArray", "offset " << off << " length " << cnt << " to " << to << " of " << showV(a));
    count("to_lists");
    // fromStringArray: part of the list, more than the list holds, part of the field
    { std::vector<S> was(readA(*p)); pvd::StringArray src; std::vector<S> w; size_t sn = R.below(6);
      for(size_t i = 0; i < sn; i++) { S x, y; x.t = pvd::pvString; x.s = t == pvd::pvBoolean ? R.coin() ? "true" : "false" : std::to_string(R.below(100)); expect(x, t, y); src.push_back(x.s); w.push_back(y); }
      size_t fo = R.chance(1, 12) ? (size_t)-1 - R.below(3) : R.below(sn + 3), ln = R.chance(1, 12) ? (size_t)-1 - R.below(3) : R.below(8);
      bool ok = ln >= n && fo <= sn && ln <= sn - fo; if(ln < n) count("from_partial"); // not supported
      if(ok) { size_t r = C->fromStringArray(p, 0, ln, src, fo); std::vector<S> x(w.begin() + fo, w.begin() + fo + ln); VCHECK(r == ln && sameV(readA(*p), x), "fromStringArray", "from " << fo << " length " << ln << " gave " << showV(readA(*p))); count("from_lists"); }
      else { VTHROWS(C->fromStringArray(p, 0, ln, src, fo), "fromStringArray-accepted", "from " << fo << " length " << ln << " of " << sn << " into " << n); VCHECK(sameV(readA(*p), was), "fromStringArray-changed", ""); count("from_short"); }
      if(R.chance(1, 3)) { std::vector<S> now(readA(*p)); VTHROWS(C->fromStringArray(p, 1 + R.below(3), ln < 8 ? ln : 3, src, 0), "fromStringArray-partial", ""); VCHECK(sameV(readA(*p), now), "fromStringArray-changed", "partial"); } }
    // fromString(array)
    ST e = (ST)R.below(12); size_t m = 1 + R.below(6); std::vector<S> w; std::string list; bool bad = false;
    for(size_t i = 0; i < m; i++) {
        S x; x.t = pvd::pvString;
        if(e == pvd::pvString) { x.s = std::string(1 + R.below(4), 'a' + R.below(26)); if(R.chance(1, 5)) x.s += "[]"; if(R.chance(1, 6)) x.s = ""; }
        else if(e == pvd::pvBoolean) x.s = R.coin() ? "true" : "false";
        else if(R.chance(1, 20)) x.s = "junk";
        else { x.s = std::to_string(R.below(100)); if(R.chance(1, 4)) x.s = " " + x.s; }
        S y; if(expect(x, e, y) != GIVES) bad = true;
        w.push_back(y); list += (i ? "," : "") + x.s;
    }
    bool br = R.coin(); if(e == pvd::pvString && !br && list.size() >= 2 && list[0] == '[' && list.back() == ']') br = true;
    if(br) list = "[" + list + "]";
    if(e == pvd::pvString && R.chance(1, 8)) { // brackets which do not enclose
        static const char *odd[] = { "[", "]", "][", "[]]", "[[", "a]", "[a" }; static const char *in[] = { "[", "]", "][", "]", "[[", "a]", "[a" };
        unsigned k = R.below(7); list = odd[k]; w.resize(1); w[0].t = pvd::pvString; w[0].s = in[k]; m = 1; bad = false; count("odd_brackets");
    }
    pvd::PVScalarArrayPtr d(pvd::getPVDataCreate()->createPVScalarArray(e));
    std::vector<S> keep; for(size_t i = 0; i < R.below(9); i++) keep.push_back(genS(R, e));
    disp(e, [&](auto tag) { typedef typename decltype(tag)::type T; d->putFrom<T>(vec<T>(keep)); });
    if(m >= keep.size()) {
        if(bad) { VTHROWS(C->fromString(d, list), "fromString-accepted", q(list)); VCHECK(sameV(readA(*d), keep), "failed-conversion-changed", q(list)); count("lists_refused"); }
        else { size_t r = C->fromString(d, list); VCHECK(r == m && sameV(readA(*d), w), "fromString-array", q(list) << " gave " << showV(readA(*d)) << " expected " << showV(w)); count("lists"); }
    }
    // fromString(structure): one string for each scalar or array
    pvd::FieldBuilderPtr b(pvd::getFieldCreate()->createFieldBuilder()); pvd::StringArray from; std::vector<std::vector<S>> leaf; size_t start = R.below(3);
    for(size_t i = 0; i < start; i++) from.push_back("skipped");
    std::function<void(pvd::FieldBuilderPtr, int)> fill = [&](pvd::FieldBuilderPtr fb, int depth) {
        size_t nf = R.below(4);
        for(size_t i = 0; i < nf; i++) {
            std::string nm = "f" + std::to_string(i); ST s = (ST)R.below(12); int c = R.below(depth ? 3 : 2);
            if(c == 2) { pvd::FieldBuilderPtr nb = fb->addNestedStructure(nm); fill(nb, depth - 1); nb->endNested(); continue; }
            size_t cnt = c == 0 ? 1 : 1 + R.below(4); std::string str; std::vector<S> vals;
            for(size_t j = 0; j < cnt; j++) { S x, y; x.t = pvd::pvString; x.s = s == pvd::pvBoolean ? "true" : std::to_string(R.below(120)); expect(x, s, y); vals.push_back(y); str += (j ? "," : "") + x.s; }
            if(c == 1 && R.coin()) str = "[" + str + "]";
            if(c == 0) fb->add(nm, s); else fb->addArray(nm, s);
            from.push_back(str); leaf.push_back(vals);
        }
    };
    fill(b, 2);
    pvd::PVStructurePtr S_(pvd::getPVDataCreate()->createPVStructure(b->createStructure()));
    size_t short_ = R.chance(1, 4) && from.size() > start ? 1 : 0; if(short_) from.pop_back();
    if(short_) VTHROWS(C->fromString(S_, from, start), "fromString-accepted", "one string missing");
    else {
        size_t r = C->fromString(S_, from, start);
        VCHECK(r == leaf.size(), "fromString-count", "returned " << r << " expected " << leaf.size());
        size_t idx = 0;
        std::function<void(const pvd::PVStructure&)> walk = [&](const pvd::PVStructure& s) {
            for(auto& f : s.getPVFields()) {
                if(f->getField()->getType() == pvd::structure) { walk(dynamic_cast<const pvd::PVStructure&>(*f)); continue; }
                std::vector<S> g;
                if(f->getField()->getType() == pvd::scalar) g.push_back(readS(dynamic_cast<const pvd::PVScalar&>(*f))); else g = readA(dynamic_cast<const pvd::PVScalarArray&>(*f));
                VCHECK(sameV(g, leaf[idx]), "fromString-structure", f->getFullName() << " from " << q(from[start + idx]) << " is " << showV(g)); idx++;
            }
        };
        walk(*S_); count("structures");
    }
    vh::distinct(hstr(list, hstr(showV(a))));
}

MODE(anyscalar) {
    const int N = 4; pvd::AnyScalar v[N]; S m[N]; std::string log;
    int steps = 5 + R.below(30);
    for(int k = 0; k < steps; k++) {
        int i = R.below(N), j = R.below(N), op = R.below(12);
        log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
        switch(op) {
        case 0: case 1: { S a = genS(R, (ST)R.below(12)); if(R.coin()) { a.t = pvd::pvString; a.s = std::string(R.below(50), 'z'); }
            disp(a.t, [&](auto tag) { typedef typename decltype(tag)::type T; if(op) v[i] = Conv<T>::get(a); else { pvd::AnyScalar x(Conv<T>::get(a)); v[i] = x; } }); m[i] = a; break; }
        case 2: v[i] = v[j]; m[i] = m[j]; break;
        case 3: { pvd::AnyScalar x(v[j]); v[i].swap(x); m[i] = m[j]; break; }
        case 4: if(i != j) { v[i] = std::move(v[j]); m[i] = m[j]; v[j].clear(); m[j] = S(); } break;
        case 5: { pvd::AnyScalar x(std::move(v[j])); S mj = m[j]; VCHECK(v[j].empty(), "moved-from", log); m[j] = S(); v[i] = x; m[i] = mj; break; }
        case 6: if(i != j) { v[i].swap(v[j]); std::swap(m[i], m[j]); } break;
        case 7: v[i].clear(); m[i] = S(); break;
        case 8: { const char *c = R.coin() ? "text" : "a text which does not fit in the small buffer"; v[i] = c; m[i] = S(); m[i].t = pvd::pvString; m[i].s = c; break; }
        case 9: if(!v[i].empty()) disp(m[i].t, [&](auto tag) { typedef typename decltype(tag)::type T; S a = genS(R, m[i].t); v[i].ref<T>() = Conv<T>::get(a); m[i] = a; }); break;
        case 10: { ST t = (ST)R.below(12); pvd::PVScalarPtr p(newScalar(t)); S a = genS(R, t); setS(*p, a); p->getAs(v[i]); m[i] = a; break; }
        default: { ST t = (ST)R.below(12); pvd::PVScalarPtr p(newScalar(t)); S a = genS(R, t), w; setS(*p, a);
            if(v[i].empty()) { p->putFrom(v[i]); VCHECK(same(readS(*p), a), "empty-put", log); break; }
            Want e = expect(m[i], t, w); if(e == SKIP) break;
            bool ok = true; try { p->putFrom(v[i]); } catch(std::exception&) { ok = false; }
            VCHECK(ok == (e != FAILS) && same(readS(*p), ok ? w : a), "put", log << " " << show(m[i]) << " into " << show(a)); }
        }
        for(int x = 0; x < N; x++) {
            VCHECK(v[x].type() == m[x].t && v[x].empty() == (m[x].t == (ST)-1) && (bool)v[x] == !v[x].empty(), "type", log << " : " << x << " has type " << v[x].type() << " expected " << m[x].t);
            if(v[x].empty() && !R.chance(1, 8)) continue;
            if(v[x].empty()) { VTHROWS(v[x].as<std::string>(), "empty-as", log); VTHROWS(v[x].ref<double>(), "empty-ref", log); std::ostringstream o; o << v[x]; VCHECK(o.str() == "(nil)", "print", o.str()); continue; }
            disp(m[x].t, [&](auto tag) { typedef typename decltype(tag)::type T;
                const pvd::AnyScalar& cv = v[x];
                VCHECK(same(Conv<T>::put(cv.ref<T>()), m[x]) && same(Conv<T>::put(v[x].ref<T>()), m[x]) && same(Conv<T>::put(cv.as<T>()), m[x]), "value", log << " : " << x << " is " << show(Conv<T>::put(cv.ref<T>())) << " expected " << show(m[x]));
                if(m[x].t == pvd::pvString) VCHECK(!memcmp(cv.bufferUnsafe(), m[x].s.c_str(), m[x].s.size() + 1), "buffer", log);
                else VCHECK(same(Conv<T>::put(*(const T*)cv.bufferUnsafe()), m[x]), "buffer", log);
                S w; if(expect(m[x], pvd::pvString, w) == GIVES) { std::ostringstream o; o << cv; VCHECK(o.str() == w.s, "print", show(m[x]) << " prints " << q(o.str())); }
            });
            ST other = (ST)R.below(12);
            if(other != m[x].t && R.chance(1, 8)) disp(other, [&](auto tag) { typedef typename decltype(tag)::type T; VTHROWS(v[x].ref<T>(), "ref-wrong-type", log); });
        }
        count("anyscalar_ops");
    }
    vh::distinct(hstr(log));
}
VH_MAIN
