// C25 property accessors, C26 time stamps, C27 byte buffer, C30 status.
#include "gen.h"
#include <cmath>
#include <cfloat>
#include <time.h>
#include <sys/time.h>
#include <epicsEndian.h>
#include <pv/alarm.h>
#include <pv/pvAlarm.h>
#include <pv/control.h>
#include <pv/pvControl.h>
#include <pv/display.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <pv/timeStamp.h>
#include <pv/pvTimeStamp.h>
#include <pv/status.h>
#include <pv/byteBuffer.h>
using namespace g; using namespace vh;

// ---------------------------------------------------------------- C26
static __int128 inst(const pvd::TimeStamp& t) { return (__int128)t.getSecondsPastEpoch() * 1000000000 + t.getNanoseconds(); }
static std::string dec(__int128 v) { bool neg = v < 0; if(neg) v = -v; std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while(v); return neg ? "-" + s : s; }
static __int128 fdiv(__int128 a, __int128 b) { __int128 q = a / b; if(a % b && (a < 0) != (b < 0)) q--; return q; }
static int64_t genSec(Rng& R) {
    switch(R.below(9)) {
    case 0: return 0;
    case 1: return R.range(-5, 5);
    case 2: return 631152000 + R.range(-2, 2);              // EPICS epoch
    case 3: return 1700000000 + (int64_t)R.below(100000000);
    case 4: return (1ll << 31) + R.range(-2, 2);
    case 5: return (1ll << 32) + R.range(-2, 2) + (R.coin() ? 631152000 : 0);
    case 6: return R.range(-100000000000ll, 100000000000ll);
    case 7: return (R.coin() ? 1 : -1) * (int64_t)(R.next() >> (3 + R.below(40)));
    default: return R.range(0, 2000000000);
    }
}
static int32_t genNs(Rng& R) {
    switch(R.below(6)) {
    case 0: return 0;
    case 1: return 999999999 + (int32_t)R.range(-1, 1);
    case 2: return -(int32_t)R.below(2000000000);
    case 3: return (int32_t)R.next();
    default: return (int32_t)R.below(1000000000);
    }
}
MODE(timestamp) {
    VCHECK(pvd::milliSecPerSec == 1000 && pvd::microSecPerSec == 1000000 && pvd::nanoSecPerSec == 1000000000 && pvd::posixEpochAtEpicsEpoch == 631152000, "constants", "");
    const int N = 3; pvd::TimeStamp t[N]; __int128 m[N] = { 0, 0, 0 }; int tag[N] = { 0, 0, 0 }; std::string log;
    void (pvd::TimeStamp::*putMs)(pvd::int64) = &pvd::TimeStamp::put; // a plain call is ambiguous
    const __int128 G = 1000000000, LIM = ((__int128)1 << 61) * G;
    auto check = [&](int i) {
        int32_t ns = t[i].getNanoseconds();
        VCHECK(ns >= 0 && ns < 1000000000, "not-normalized", log << " : nanoseconds " << ns);
        VCHECK(inst(t[i]) == m[i], "instant", log << " : " << t[i].getSecondsPastEpoch() << "s " << ns << "ns, expected " << dec(m[i]) << "ns");
        VCHECK(t[i].getUserTag() == tag[i], "usertag", log);
        VCHECK(t[i].getEpicsSecondsPastEpoch() == t[i].getSecondsPastEpoch() - 631152000, "epics-epoch", log);
        double s = t[i].toSeconds(); long double e = (long double)m[i] / 1e9L;
        VCHECK(fabsl(s - e) <= fabsl(e) * 3e-16L + 1e-9L, "toSeconds", log << " : " << s);
    };
    int steps = 4 + R.below(20);
    for(int k = 0; k < steps; k++) {
        int i = R.below(N), op = R.below(13);
        log += " t" + std::to_string(i) + "." + std::to_string(op);
        switch(op) {
        case 0: { int64_t s = genSec(R); int32_t n = genNs(R), u = (int32_t)R.below(9); t[i] = pvd::TimeStamp(s, n, u); m[i] = s * G + n; tag[i] = u; log += "(" + dec(s) + "," + dec(n) + ")"; break; }
        case 1: { int64_t s = genSec(R); int32_t n = genNs(R); t[i].put(s, n); m[i] = s * G + n; log += "(" + dec(s) + "," + dec(n) + ")"; break; }
        case 2: { int64_t ms = R.coin() ? (int64_t)R.next() >> R.below(60) : genSec(R); if(ms > (1ll << 62) || ms < -(1ll << 62)) break; pvd::TimeStamp *tp = &t[i]; (tp->*putMs)(ms); m[i] = (__int128)ms * 1000000; log += "(" + dec(ms) + ")";
            VCHECK(t[i].getMilliseconds() == ms, "milliseconds", log << " gives " << t[i].getMilliseconds() << " " << t[i].getSecondsPastEpoch() << " " << t[i].getNanoseconds()); count("milliseconds"); break; }
        case 3: case 4: { int64_t s = R.coin() ? R.range(-100, 100) : genSec(R); __int128 r = m[i] + (op == 3 ? 1 : -1) * (__int128)s * G; if(r > LIM || r < -LIM) break;
            if(op == 3) t[i] += s; else t[i] -= s; m[i] = r; log += "(" + dec(s) + ")"; count("added"); break; }
        case 5: case 6: { double d; switch(R.below(6)) { case 4: d = R.range(-(1ll << 42), 1ll << 42) / 8.0; count("far_fractions"); break; case 0: d = R.range(-100, 100) / 8.0; break; case 1: d = R.range(-2000000000, 2000000000) / 1e9; break; case 2: d = R.range(-1000000, 1000000) * 1e-9; break; case 3: d = (double)R.range(-1000000000, 1000000000) + R.below(1000) / 1e3; break; default: d = R.coin() ? 0.999999999 : -0.999999999; }
            if(m[i] > LIM / 2 || m[i] < -LIM / 2) break;
            char b[40]; snprintf(b, 40, "(%.17g)", d); log += b;
            if(op == 5) t[i] += d; else t[i] -= d;
            __int128 want = m[i] + (op == 5 ? 1 : -1) * (__int128)roundl((long double)d * 1e9L), err = inst(t[i]) - want;
            VCHECK(err <= 1000 && err >= -1000, "fraction", log << " : moved " << dec(inst(t[i]) - m[i]) << "ns");
            m[i] = inst(t[i]); count("fractions"); break; }
        case 7: { time_t x = (time_t)genSec(R); t[i].fromTime_t(x); m[i] = (__int128)x * G; log += "(" + dec(x) + ")"; time_t y = 0; t[i].toTime_t(y); VCHECK(x == y, "time_t", log << " came back as " << y); count("time_t"); break; }
        case 8: { int j = R.below(N); t[i] = t[j]; m[i] = m[j]; tag[i] = tag[j]; break; }
        case 9: { int u = (int)R.next(); t[i].setUserTag(u); tag[i] = u; break; }
        case 10: { // a neighbour of another
            int j = R.below(N); int32_t d = (int32_t)R.range(-1, 1); __int128 w = m[j] + d; t[i].put((int64_t)fdiv(w, G), (int32_t)(w - fdiv(w, G) * G)); m[i] = w; break; }
        case 11: { t[i].getCurrent(); break; }
        default: t[i].normalize();
        }
        if(op == 11) { m[i] = inst(t[i]); time_t now = time(0); VCHECK(llabs((long long)(m[i] / G) - (long long)now) < 30, "current", log); int32_t ns = t[i].getNanoseconds(); VCHECK(ns >= 0 && ns < 1000000000, "not-normalized", log); }
        check(i);
        __int128 fl = fdiv(m[i], G);
        if(fl < ((__int128)1 << 52) && fl > -((__int128)1 << 52)) VCHECK(t[i].getMilliseconds() == (int64_t)fdiv(m[i], 1000000), "milliseconds", log);
        time_t tt = 0; t[i].toTime_t(tt); VCHECK(tt == (time_t)fl, "time_t", log << " : " << tt << " expected " << dec(fl));
        for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) {
            const pvd::TimeStamp &x = t[a], &y = t[b]; bool lt = m[a] < m[b], eq = m[a] == m[b];
            VCHECK((x == y) == eq && (x != y) == !eq && (x < y) == lt && (x <= y) == (lt || eq) && (x > y) == (!lt && !eq) && (x >= y) == !lt, "order", log << " : " << dec(m[a]) << " and " << dec(m[b]));
            double d = pvd::TimeStamp::diff(x, y), e = pvd::TimeStamp::diff(y, x); long double w = (long double)(m[a] - m[b]) / 1e9L;
            VCHECK(d == -e, "diff-antisymmetric", log << " : " << d << " " << e);
            VCHECK(fabsl(d - w) <= fabsl(w) * 4e-16L + 1e-9L, "diff", log << " : " << d);
        }
        count("stamps");
    }
    vh::distinct(hstr(log));
}

// ---------------------------------------------------------------- C25
struct Req { const char *name; int kind; }; // kind: 0 int, 1 string, 2 double, 3 long, 4 string array
static pvd::FieldConstPtr fieldOf(int kind) {
    pvd::FieldCreatePtr f(pvd::getFieldCreate());
    switch(kind) { case 0: return f->createScalar(pvd::pvInt); case 1: return f->createScalar(pvd::pvString); case 2: return f->createScalar(pvd::pvDouble); case 3: return f->createScalar(pvd::pvLong); default: return f->createScalarArray(pvd::pvString); }
}
struct Made { pvd::PVStructurePtr s; bool good; };
// a structure with the required fields in any order, sometimes one missing or of another type, and others around them
static pvd::StructureConstPtr mkType(Rng& R, const std::vector<Req>& req, bool& good) {
    good = true; int spoil = R.chance(1, 3) ? (int)R.below(req.size()) : -1; bool miss = R.coin();
    std::vector<std::pair<std::string, pvd::FieldConstPtr>> f;
    for(size_t i = 0; i < req.size(); i++) {
        if((int)i == spoil) {
            good = false; if(miss) continue;
            int k; do { k = R.below(5); } while(k == req[i].kind);
            f.push_back(std::make_pair(req[i].name, R.chance(1, 4) ? pvd::FieldConstPtr(pvd::getFieldCreate()->createStructure()) : fieldOf(k)));
        } else f.push_back(std::make_pair(req[i].name, fieldOf(req[i].kind)));
    }
    for(int k = R.below(3); k > 0; k--) f.push_back(std::make_pair("extra" + std::to_string(k), fieldOf(R.below(5))));
    for(size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[R.below(i)]);
    pvd::StringArray n; pvd::FieldConstPtrArray a; for(auto& x : f) { n.push_back(x.first); a.push_back(x.second); }
    return pvd::getFieldCreate()->createStructure(R.coin() ? "alarm_t" : "any_id", n, a);
}
static double genD(Rng& R) { switch(R.below(6)) { case 0: return 0; case 1: return -0.0; case 2: return INFINITY; case 3: return NAN; default: return R.range(-1000, 1000) / 4.0; } }
static bool eqD(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string gs(Rng& R) { Opt O; return R.chance(1, 3) ? std::string() : genStr(R, O, 30); }
static void fillRandom(Rng& R, const pvd::PVStructure& s) {
    for(auto& f : s.getPVFields()) {
        if(pvd::PVInt *p = dynamic_cast<pvd::PVInt*>(f.get())) p->put(R.coin() ? (int32_t)R.below(9) : (int32_t)R.next());
        if(pvd::PVLong *p = dynamic_cast<pvd::PVLong*>(f.get())) p->put(genSec(R));
        if(pvd::PVDouble *p = dynamic_cast<pvd::PVDouble*>(f.get())) p->put(genD(R));
        if(pvd::PVString *p = dynamic_cast<pvd::PVString*>(f.get())) p->put(gs(R));
    }
}
// everything else in the structure must stay as it was
static std::string others(const pvd::PVStructure& s, const std::set<std::string>& mine) {
    std::ostringstream o; for(auto& f : s.getPVFields()) if(!mine.count(f->getFieldName())) f->dumpValue(o << f->getFieldName() << " "); return o.str();
}
template<class A> static void attachTo(Rng& R, A& a, const pvd::PVFieldPtr& f, bool good, const std::string& what) {
    if(R.chance(1, 4)) { // attached to nothing
        A b; VCHECK(!b.isAttached(), "attached-initially", what);
    }
    bool r = a.attach(f);
    VCHECK(r == good, "attach", what << " attach gives " << r << " : " << *f->getField());
    VCHECK(a.isAttached() == good, "isAttached", what << " isAttached gives " << a.isAttached());
    count(good ? "attached" : "not_attached");
}
MODE(accessors) {
    pvd::PVDataCreatePtr D(pvd::getPVDataCreate()); bool good; int which = R.below(5); std::string desc;
    std::vector<Req> req[5] = { { { "severity", 0 }, { "status", 0 }, { "message", 1 } }, { { "limitLow", 2 }, { "limitHigh", 2 }, { "minStep", 2 } },
        { { "description", 1 }, { "format", 1 }, { "units", 1 }, { "limitLow", 2 }, { "limitHigh", 2 } }, { { "index", 0 }, { "choices", 4 } }, { { "secondsPastEpoch", 3 }, { "nanoseconds", 0 }, { "userTag", 0 } } };
    pvd::StructureConstPtr ty(mkType(R, req[which], good));
    pvd::PVStructurePtr s(D->createPVStructure(ty)); fillRandom(R, *s);
    std::set<std::string> mine; for(auto& x : req[which]) mine.insert(x.name);
    std::string rest = others(*s, mine);
    { std::ostringstream o; o << *ty << *s; desc = o.str(); } vh::distinct(hstr(desc)); std::string before(desc);
    pvd::PVFieldPtr notStruct(D->createPVScalar(pvd::pvInt));
    auto unchanged = [&](const char *w) { std::ostringstream o; o << *ty << *s; VCHECK(o.str() == before, "changed", w << " changed " << before << " to " << o.str()); };
    auto resnap = [&] { std::ostringstream o; o << *ty << *s; before = o.str(); };
    bool frz = good && R.chance(1, 5); 
    switch(which) {
    case 0: {
        pvd::PVAlarm a; VCHECK(!a.attach(notStruct), "attach", "scalar"); VCHECK(!a.isAttached(), "isAttached", "scalar");
        attachTo(R, a, s, good, "alarm"); pvd::Alarm v; unchanged("attach");
        if(!good) { VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc); unchanged("failed attach"); break; }
        if(frz) { s->getSubField<pvd::PVField>(req[0][R.below(3)].name)->setImmutable(); v.setMessage("frozen"); VCHECK(!a.set(v), "immutable-set", desc); unchanged("set of immutable"); count("immutable"); break; }
        for(int k = 0; k < 4; k++) {
            pvd::Alarm w; w.setSeverity((pvd::AlarmSeverity)R.below(5)); w.setStatus((pvd::AlarmStatus)R.below(8)); w.setMessage(gs(R));
            int sv = s->getSubFieldT<pvd::PVInt>("severity")->get(), stt = s->getSubFieldT<pvd::PVInt>("status")->get(); std::string ms = s->getSubFieldT<pvd::PVString>("message")->get();
            if(R.chance(1, 4) && sv >= 0 && sv < 5) w.setSeverity((pvd::AlarmSeverity)sv);
            if(R.chance(1, 2) && stt >= 0 && stt < 8) w.setStatus((pvd::AlarmStatus)stt);
            if(R.chance(1, 2)) w.setMessage(ms);
            bool want = sv != w.getSeverity() || stt != w.getStatus() || ms != w.getMessage();
            bool r = a.set(w);
            VCHECK(r == want, "set-result", desc << " set gave " << r);
            a.get(v); VCHECK(v.getSeverity() == w.getSeverity() && v.getStatus() == w.getStatus() && v.getMessage() == w.getMessage(), "get-after-set", desc);
            VCHECK(s->getSubFieldT<pvd::PVInt>("severity")->get() == w.getSeverity() && s->getSubFieldT<pvd::PVInt>("status")->get() == w.getStatus() && s->getSubFieldT<pvd::PVString>("message")->get() == w.getMessage(), "stored", desc);
            VCHECK(!a.set(w), "set-again", desc); count("sets");
            if(R.chance(1, 3)) fillRandom(R, *s), rest = others(*s, mine);
        }
        { int sv = (int)R.range(-2, 10), stt = (int)R.range(-2, 10); s->getSubFieldT<pvd::PVInt>("severity")->put(sv); s->getSubFieldT<pvd::PVInt>("status")->put(stt);
          bool ok = true; try { a.get(v); } catch(std::exception&) { ok = false; }
          VCHECK(ok == (sv >= 0 && sv < 5 && stt >= 0 && stt < 8), "illegal-enum", desc << " severity " << sv << " status " << stt);
          if(ok) { VCHECK(v.getSeverity() == sv && v.getStatus() == stt, "enum", desc);
            static const char *sn[] = { "NONE", "MINOR", "MAJOR", "INVALID", "UNDEFINED" }, *tn[] = { "NONE", "DEVICE", "DRIVER", "RECORD", "DB", "CONF", "UNDEFINED", "CLIENT" };
            VCHECK(pvd::AlarmSeverityFunc::getSeverityNames()->at(sv) == sn[sv] && pvd::AlarmSeverityFunc::getSeverityNames()->size() == 5, "names", sv);
            VCHECK(pvd::AlarmStatusFunc::getStatusNames()->at(stt) == tn[stt] && pvd::AlarmStatusFunc::getStatusNames()->size() == 8, "names", stt); }
          int x = (int)R.range(-3, 12); ok = true; try { VCHECK(pvd::AlarmSeverityFunc::getSeverity(x) == x, "enum", x); } catch(Abandon&) { throw; } catch(std::exception&) { ok = false; } VCHECK(ok == (x >= 0 && x < 5), "illegal-enum", x);
          ok = true; try { VCHECK(pvd::AlarmStatusFunc::getStatus(x) == x, "enum", x); } catch(Abandon&) { throw; } catch(std::exception&) { ok = false; } VCHECK(ok == (x >= 0 && x < 8), "illegal-enum", x); }
        a.detach(); VCHECK(!a.isAttached(), "detach", desc); VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc);
        break; }
    case 1: {
        pvd::PVControl a; VCHECK(!a.attach(notStruct), "attach", "scalar"); VCHECK(!a.isAttached(), "isAttached", "scalar");
        attachTo(R, a, s, good, "control"); pvd::Control v; unchanged("attach");
        if(!good) { VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc); unchanged("failed attach"); break; }
        if(frz) { s->getSubField<pvd::PVField>(req[1][R.below(3)].name)->setImmutable(); v.setLow(77); v.setHigh(78); v.setMinStep(79); VCHECK(!a.set(v), "immutable-set", desc); unchanged("set of immutable"); count("immutable"); break; }
        for(int k = 0; k < 4; k++) {
            double l = s->getSubFieldT<pvd::PVDouble>("limitLow")->get(), h = s->getSubFieldT<pvd::PVDouble>("limitHigh")->get(), ms = s->getSubFieldT<pvd::PVDouble>("minStep")->get();
            pvd::Control w; double nl = R.coin() ? l : genD(R), nh = R.coin() ? h : genD(R), nm = R.coin() ? ms : genD(R); w.setLow(nl); w.setHigh(nh); w.setMinStep(nm);
            bool want = l != nl || h != nh || ms != nm; bool r = a.set(w); VCHECK(r == want, "set-result", desc << " set gave " << r);
            a.get(v); VCHECK(eqD(v.getLow(), nl) && eqD(v.getHigh(), nh) && eqD(v.getMinStep(), nm), "get-after-set", desc); count("sets");
            VCHECK(eqD(s->getSubFieldT<pvd::PVDouble>("limitLow")->get(), nl) && eqD(s->getSubFieldT<pvd::PVDouble>("limitHigh")->get(), nh) && eqD(s->getSubFieldT<pvd::PVDouble>("minStep")->get(), nm), "stored", desc);
        }
        a.detach(); VCHECK(!a.isAttached(), "detach", desc); VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc);
        break; }
    case 2: {
        pvd::PVDisplay a; VCHECK(!a.attach(notStruct), "attach", "scalar"); VCHECK(!a.isAttached(), "isAttached", "scalar");
        attachTo(R, a, s, good, "display"); pvd::Display v; unchanged("attach");
        if(!good) { VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc); unchanged("failed attach"); break; }
        if(frz) { s->getSubField<pvd::PVField>(req[2][R.below(5)].name)->setImmutable(); v.setLow(77); v.setHigh(78); v.setUnits("u9"); v.setFormat("f9"); v.setDescription("d9"); VCHECK(!a.set(v), "immutable-set", desc); unchanged("set of immutable"); count("immutable"); break; }
        for(int k = 0; k < 4; k++) {
            double l = s->getSubFieldT<pvd::PVDouble>("limitLow")->get(), h = s->getSubFieldT<pvd::PVDouble>("limitHigh")->get();
            std::string d = s->getSubFieldT<pvd::PVString>("description")->get(), f = s->getSubFieldT<pvd::PVString>("format")->get(), u = s->getSubFieldT<pvd::PVString>("units")->get();
            pvd::Display w; double nl = R.chance(2, 3) ? l : genD(R), nh = R.chance(2, 3) ? h : genD(R); std::string nd = R.chance(2, 3) ? d : gs(R), nf = R.chance(2, 3) ? f : gs(R), nu = R.chance(2, 3) ? u : gs(R);
            w.setLow(nl); w.setHigh(nh); w.setDescription(nd); w.setFormat(nf); w.setUnits(nu);
            bool want = l != nl || h != nh || d != nd || f != nf || u != nu; bool r = a.set(w); VCHECK(r == want, "set-result", desc << " set gave " << r);
            a.get(v); VCHECK(eqD(v.getLow(), nl) && eqD(v.getHigh(), nh) && v.getDescription() == nd && v.getFormat() == nf && v.getUnits() == nu, "get-after-set", desc); count("sets");
            VCHECK(s->getSubFieldT<pvd::PVString>("description")->get() == nd && s->getSubFieldT<pvd::PVString>("format")->get() == nf && s->getSubFieldT<pvd::PVString>("units")->get() == nu && eqD(s->getSubFieldT<pvd::PVDouble>("limitLow")->get(), nl) && eqD(s->getSubFieldT<pvd::PVDouble>("limitHigh")->get(), nh), "stored", desc);
        }
        a.detach(); VCHECK(!a.isAttached(), "detach", desc); VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc);
        break; }
    case 3: {
        pvd::PVEnumerated a; VCHECK(!a.attach(notStruct), "attach", "scalar"); VCHECK(!a.isAttached(), "isAttached", "scalar");
        attachTo(R, a, s, good, "enum"); unchanged("attach");
        auto det = [&] { VTHROWS(a.getIndex(), "detached-get", desc); VTHROWS(a.setIndex(1), "detached-set", desc); VTHROWS(a.getChoice(), "detached-get", desc); VTHROWS(a.getNumberChoices(), "detached-get", desc);
            VTHROWS(a.choicesMutable(), "detached-get", desc); VTHROWS(a.setChoices(pvd::StringArray()), "detached-set", desc); VTHROWS(a.getChoices(), "detached-get", desc); };
        if(!good) { det(); unchanged("failed attach"); break; }
        pvd::StringArray ch; int idx = s->getSubFieldT<pvd::PVInt>("index")->get(); bool fi = false, fc = false;
        for(int k = 0; k < 8; k++) {
            switch(R.below(4)) {
            case 0: { int n = R.chance(1, 4) ? (int)R.next() : (int)R.range(-2, 6); bool r = a.setIndex(n); VCHECK(r == !fi, "set-result", desc); if(r) idx = n; break; }
            case 1: { pvd::StringArray c; for(int q = R.below(5); q > 0; q--) c.push_back(gs(R)); bool r = a.setChoices(c); VCHECK(r == !fc, "set-result", desc); if(r) ch = c; break; }
            case 2: if(frz && R.chance(1, 3)) { if(R.coin()) { s->getSubFieldT<pvd::PVField>("index")->setImmutable(); fi = true; } else { s->getSubFieldT<pvd::PVField>("choices")->setImmutable(); fc = true; } count("immutable"); } break;
            default: { idx = fi ? idx : (int)R.range(-1, 5); if(!fi) s->getSubFieldT<pvd::PVInt>("index")->put(idx); }
            }
            VCHECK(a.getIndex() == idx && s->getSubFieldT<pvd::PVInt>("index")->get() == idx, "index", desc);
            VCHECK(a.getNumberChoices() == (int)ch.size(), "choices", desc);
            pvd::PVStringArray::const_svector c(a.getChoices()); VCHECK(c.size() == ch.size() && std::equal(ch.begin(), ch.end(), c.begin()), "choices", desc);
            std::string want = idx >= 0 && idx < (int)ch.size() ? ch[idx] : std::string();
            VCHECK(a.getChoice() == want, "choice", desc << " index " << idx << " gives " << q(a.getChoice()));
            VCHECK(a.choicesMutable() == !fc, "choicesMutable", desc); count("sets");
        }
        a.detach(); VCHECK(!a.isAttached(), "detach", desc); det();
        break; }
    default: {
        // also found in an enclosing structure
        pvd::PVTimeStamp a; VCHECK(!a.attach(notStruct), "attach", "scalar"); VCHECK(!a.isAttached(), "isAttached", "scalar");
        pvd::PVStructurePtr from(s), holder; bool expect = good;
        if(R.chance(1, 3)) { // the enclosing structure is the time stamp
            pvd::StringArray n(ty->getFieldNames()); pvd::FieldConstPtrArray f(ty->getFields()); n.push_back("inner"); bool g2;
            pvd::StructureConstPtr in(mkType(R, req[which], g2)); f.push_back(in);
            pvd::PVStructurePtr o(D->createPVStructure(pvd::getFieldCreate()->createStructure(n, f))); fillRandom(R, *o);
            from = o->getSubFieldT<pvd::PVStructure>("inner"); fillRandom(R, *from); expect = good || g2; if(g2) { s = from; holder = o; } else s = o;
            count("nested"); ty = s->getStructure(); resnap(); mine.insert("inner"); rest = others(*s, mine);
        }
        attachTo(R, a, from, expect, "timeStamp"); pvd::TimeStamp v; unchanged("attach"); good = expect;
        if(!good) { VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc); unchanged("failed attach"); break; }
        if(frz) { s->getSubField<pvd::PVField>(req[4][R.below(3)].name)->setImmutable(); v.put(12345, 678); v.setUserTag(99); VCHECK(!a.set(v), "immutable-set", desc); unchanged("set of immutable"); count("immutable"); break; }
        mine.insert("inner"); rest = others(*s, mine);
        for(int k = 0; k < 4; k++) {
            int64_t sec = s->getSubFieldT<pvd::PVLong>("secondsPastEpoch")->get(); int32_t ns = s->getSubFieldT<pvd::PVInt>("nanoseconds")->get(), ut = s->getSubFieldT<pvd::PVInt>("userTag")->get();
            a.get(v); VCHECK(inst(v) == (__int128)sec * 1000000000 + ns && v.getUserTag() == ut && v.getNanoseconds() >= 0 && v.getNanoseconds() < 1000000000, "get", desc);
            pvd::TimeStamp w(R.coin() ? v.getSecondsPastEpoch() : genSec(R), R.coin() ? v.getNanoseconds() : genNs(R), R.coin() ? ut : (int32_t)R.next());
            bool norm = ns >= 0 && ns < 1000000000, want = !norm || sec != w.getSecondsPastEpoch() || ns != w.getNanoseconds() || ut != w.getUserTag();
            bool r = a.set(w); if(norm) VCHECK(r == want, "set-result", desc << " set gave " << r);
            a.get(v); VCHECK(inst(v) == inst(w) && v.getUserTag() == w.getUserTag(), "get-after-set", desc << " : stored " << sec << "s " << ns << "ns; set " << dec(inst(w)) << "ns, got " << dec(inst(v)) << "ns");
            count("sets"); if(!norm) count("stored_denormal");
            if(R.coin()) { s->getSubFieldT<pvd::PVLong>("secondsPastEpoch")->put(genSec(R)); s->getSubFieldT<pvd::PVInt>("nanoseconds")->put(genNs(R)); }
        }
        a.detach(); VCHECK(!a.isAttached(), "detach", desc); VTHROWS(a.get(v), "detached-get", desc); VTHROWS(a.set(v), "detached-set", desc);
        break; }
    }
    VCHECK(others(*s, mine) == rest, "others-changed", desc);
}

// ---------------------------------------------------------------- C30
MODE(status) {
    static const char *names[] = { "OK", "WARNING", "ERROR", "FATAL" };
    struct M { int t; std::string m, d; };
    const int N = 4; pvd::Status s[N]; M m[N]; for(auto& x : m) x.t = 0; std::string log; Opt O; O.longStrings = true;
    for(int k = 3 + R.below(12); k > 0; k--) {
        int i = R.below(N), j = R.below(N), op = R.below(9); log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
        M n; n.t = 1 + R.below(3); n.m = gs(R); if(R.chance(1, 4)) n.m = genStr(R, O);
        switch(op) {
        case 0: s[i] = pvd::Status((pvd::Status::StatusType)n.t, n.m); m[i] = n; break;
        case 1: n.d = genStr(R, O); s[i] = pvd::Status((pvd::Status::StatusType)n.t, n.m, n.d); m[i] = n; break;
        case 2: s[i] = n.t == 1 ? pvd::Status::warn(n.m) : n.t == 2 ? pvd::Status::error(n.m) : pvd::Status::fatal(n.m); m[i] = n; break;
        case 3: s[i] = R.coin() ? pvd::Status() : pvd::Status::Ok; m[i] = M(); m[i].t = 0; break;
        case 4: case 5: { if(op == 4) s[i].maximize(s[j]); else { pvd::Status& r = (s[i] |= s[j]); VCHECK(&r == &s[i], "reference", log); } if(m[i].t < m[j].t) m[i] = m[j]; count("combined"); break; }
        case 6: s[i] = s[j]; m[i] = m[j]; break;
        case 7: { VTHROWS(pvd::Status(pvd::Status::STATUSTYPE_OK, "x"), "ok-with-message", log); VTHROWS(pvd::Status(pvd::Status::STATUSTYPE_OK, "x", "y"), "ok-with-message", log); break; }
        default: { bool be = R.coin(); std::unique_ptr<Out> o(newOut(R, be)); s[j].serialize(&o->buf, o.get()); std::vector<uint8_t> b(o->finish()); std::unique_ptr<In> in(newIn(R, b, be)); s[i].deserialize(&in->buf, in.get()); m[i] = m[j]; }
        }
        for(int x = 0; x < N; x++) {
            VCHECK(s[x].getType() == m[x].t && s[x].getMessage() == m[x].m && s[x].getStackDump() == m[x].d, "content", log << " : " << x << " is " << s[x]);
            VCHECK(s[x].isOK() == (m[x].t == 0) && s[x].isSuccess() == (m[x].t < 2) && (bool)s[x] == (m[x].t < 2), "success", log);
            std::ostringstream a, b; a << s[x]; b << s[x].getType();
            std::string want = std::string("Status [type=") + names[m[x].t] + (m[x].m.empty() ? "" : ", message=" + m[x].m) + (m[x].d.empty() ? "" : ", stackDump=\n" + m[x].d) + "]";
            VCHECK(b.str() == names[m[x].t] && a.str() == want, "print", log << " : " << q(a.str()) << " expected " << q(want));
            count("status_checks");
        }
        VCHECK(pvd::Status::Ok.isOK() && pvd::Status::Ok.getMessage().empty(), "global-ok", log);
    }
    vh::distinct(hstr(log));
}

// ---------------------------------------------------------------- C27
MODE(bytebuffer) {
    size_t cap = 1 + R.below(R.chance(1, 40) ? 70000 : R.chance(1, 5) ? 300 : 40); if(cap > 8000) count("large"); int order = R.coin() ? EPICS_ENDIAN_LITTLE : EPICS_ENDIAN_BIG; bool wrap = R.coin();
    std::vector<char> mem(cap + 16, (char)0x5a); std::unique_ptr<pvd::ByteBuffer> own(wrap ? new pvd::ByteBuffer(&mem[8], cap, order) : new pvd::ByteBuffer(cap, order));
    pvd::ByteBuffer& b = *own;
    std::vector<int> m(cap, -1); if(wrap) for(auto& x : m) x = 0x5a;
    size_t pos = 0, lim = cap; std::string log = "capacity " + std::to_string(cap);
    VCHECK(b.getPosition() == 0 && b.getLimit() == cap && b.getSize() == cap && b.getRemaining() == cap, "initial", log);
    auto put = [&](size_t at, uint64_t v, unsigned w) { for(unsigned i = 0; i < w; i++) m[at + i] = (v >> (8 * (order == EPICS_ENDIAN_LITTLE ? i : w - 1 - i))) & 255; };
    auto get = [&](size_t at, unsigned w, uint64_t& v) { v = 0; for(unsigned i = 0; i < w; i++) { int x = m[at + (order == EPICS_ENDIAN_LITTLE ? w - 1 - i : i)]; if(x < 0) return false; v = v << 8 | x; } return true; };
    int steps = 10 + R.below(50);
    for(int k = 0; k < steps; k++) {
        int op = R.below(16); pvd::ScalarType st = (pvd::ScalarType)R.below(11); unsigned w = width(st); Opt O; O.nan = true; uint64_t v = R.coin() ? genNum(R, st, O) : R.next() & maskw(w);
        if(st == pvd::pvBoolean) v &= 1;
        size_t rem = lim - pos, n = R.below(6); if(R.chance(1, 8)) n = rem / w; else if(R.chance(1, 8)) n = R.below(rem / w + 1);
        log += " " + std::to_string(op) + ":" + std::to_string(w);
        if(log.size() > 1500) log.erase(20, 500);
#define EACH(...) switch(st) { case pvd::pvByte: { typedef pvd::int8 T; __VA_ARGS__; break; } case pvd::pvUByte: { typedef pvd::uint8 T; __VA_ARGS__; break; } case pvd::pvShort: { typedef pvd::int16 T; __VA_ARGS__; break; } case pvd::pvUShort: { typedef pvd::uint16 T; __VA_ARGS__; break; } \
            case pvd::pvInt: { typedef pvd::int32 T; __VA_ARGS__; break; } case pvd::pvUInt: { typedef pvd::uint32 T; __VA_ARGS__; break; } case pvd::pvLong: { typedef pvd::int64 T; __VA_ARGS__; break; } case pvd::pvULong: { typedef pvd::uint64 T; __VA_ARGS__; break; } \
            case pvd::pvFloat: { typedef float T; __VA_ARGS__; break; } case pvd::pvDouble: { typedef double T; __VA_ARGS__; break; } default: { typedef pvd::boolean T; __VA_ARGS__; } }
        switch(op) {
        case 0: case 1: case 2: if(w > rem) break;
            if(op == 0 || st == pvd::pvULong || st == pvd::pvUInt || st == pvd::pvUShort || st == pvd::pvUByte) EACH(b.put<T>(fromBits<T>(v)))
            else switch(st) { case pvd::pvBoolean: b.putBoolean(v); break; case pvd::pvByte: b.putByte((pvd::int8)v); break; case pvd::pvShort: b.putShort((pvd::int16)v); break; case pvd::pvInt: b.putInt((pvd::int32)v); break; case pvd::pvLong: b.putLong((pvd::int64)v); break; case pvd::pvFloat: b.putFloat(fromBits<float>(v)); break; default: b.putDouble(fromBits<double>(v)); }
            put(pos, v, w); pos += w; count("puts"); break;
        case 3: case 4: { if(w > rem) break; uint64_t e, g = 0; bool known = get(pos, w, e);
            if(op == 3 || st == pvd::pvULong || st == pvd::pvUInt || st == pvd::pvUShort || st == pvd::pvUByte) { EACH(g = toBits(b.get<T>())) }
            else switch(st) { case pvd::pvBoolean: g = b.getBoolean(); e = e != 0; break; case pvd::pvByte: g = (uint8_t)b.getByte(); break; case pvd::pvShort: g = (uint16_t)b.getShort(); break; case pvd::pvInt: g = (uint32_t)b.getInt(); break; case pvd::pvLong: g = b.getLong(); break; case pvd::pvFloat: g = toBits(b.getFloat()); break; default: g = toBits(b.getDouble()); }
            if(known) { VCHECK((g & maskw(w)) == e, "get", log << " : got " << std::hex << g << " expected " << e); count("gets"); } pos += w; break; }
        case 5: { if(lim < w) break; size_t at = R.below(lim - w + 1); 
            switch(R.coin() ? pvd::pvString : st) { case pvd::pvBoolean: b.putBoolean(at, v); break; case pvd::pvByte: b.putByte(at, (pvd::int8)v); break; case pvd::pvShort: b.putShort(at, (pvd::int16)v); break; case pvd::pvInt: b.putInt(at, (pvd::int32)v); break; case pvd::pvLong: b.putLong(at, (pvd::int64)v); break; case pvd::pvFloat: b.putFloat(at, fromBits<float>(v)); break; case pvd::pvDouble: b.putDouble(at, fromBits<double>(v)); break;
                default: EACH(b.put<T>(at, fromBits<T>(v))) }
            put(at, v, w); count("indexed"); break; }
        case 6: { if(lim < w) break; size_t at = R.below(lim - w + 1); uint64_t e, g = 0; bool known = get(at, w, e);
            switch(R.coin() ? pvd::pvString : st) { case pvd::pvBoolean: g = b.getBoolean(at); e = e != 0; break; case pvd::pvByte: g = (uint8_t)b.getByte(at); break; case pvd::pvShort: g = (uint16_t)b.getShort(at); break; case pvd::pvInt: g = (uint32_t)b.getInt(at); break; case pvd::pvLong: g = b.getLong(at); break; case pvd::pvFloat: g = toBits(b.getFloat(at)); break; case pvd::pvDouble: g = toBits(b.getDouble(at)); break;
                default: EACH(g = toBits(b.get<T>(at))) }
            if(known) { VCHECK((g & maskw(w)) == e, "get-index", log << " : got " << std::hex << g << " expected " << e); count("indexed"); } break; }
        case 7: { if(n * w > rem || !n) break; std::vector<uint64_t> vs; for(size_t i = 0; i < n; i++) { uint64_t x = R.next() & maskw(w); if(st == pvd::pvBoolean) x &= 1; vs.push_back(x); put(pos + i * w, x, w); }
            EACH(std::unique_ptr<T[]> a(new T[n]); for(size_t i = 0; i < n; i++) a[i] = fromBits<T>(vs[i]); b.putArray<T>(a.get(), n)) pos += n * w; count("arrays"); break; }
        case 8: { if(n * w > rem || !n) break; std::vector<uint64_t> g; EACH(std::unique_ptr<T[]> a(new T[n]); b.getArray<T>(a.get(), n); for(size_t i = 0; i < n; i++) g.push_back(toBits(a[i])))
            for(size_t i = 0; i < n; i++) { uint64_t e; if(get(pos + i * w, w, e)) VCHECK((g[i] & maskw(w)) == e, "get-array", log << " [" << i << "] got " << std::hex << g[i] << " expected " << e); }
            pos += n * w; count("arrays"); break; }
        case 9: { n = R.below(rem + 1); std::vector<char> s(n + 5); for(auto& c : s) c = (char)R.next(); size_t o = R.below(5); b.put(&s[0], o, n); for(size_t i = 0; i < n; i++) m[pos + i] = (uint8_t)s[o + i]; pos += n; count("blocks"); break; }
        case 10: { n = R.below(rem + 1); std::vector<char> s(n + 5, 'q'); size_t o = R.below(5); b.get(&s[0], o, n); for(size_t i = 0; i < s.size(); i++) { if(i < o || i >= o + n) VCHECK(s[i] == 'q', "get-block-outside", log); else if(m[pos + i - o] >= 0) VCHECK((uint8_t)s[i] == m[pos + i - o], "get-block", log); } pos += n; count("blocks"); break; }
        case 11: b.flip(); lim = pos; pos = 0; if(R.coin()) { } break;
        case 12: b.clear(); pos = 0; lim = cap; break;
        case 13: b.rewind(); pos = 0; break;
        case 14: if(R.coin()) { size_t p = R.below(lim + 1); b.setPosition(p); pos = p; } else { size_t l = pos + R.below(cap - pos + 1); b.setLimit(l); lim = l; } break;
        default: order = R.coin() ? EPICS_ENDIAN_LITTLE : EPICS_ENDIAN_BIG; b.setEndianess(order); count("orders");
            VCHECK(b.reverse<pvd::int32>() == (order != EPICS_BYTE_ORDER) && b.reverse<double>() == (order != EPICS_FLOAT_WORD_ORDER) && !b.reverse<pvd::int8>() && !b.reverse<pvd::uint8>(), "reverse", log);
        }
        VCHECK(b.getPosition() == pos && b.getLimit() == lim && b.getSize() == cap && b.getRemaining() == lim - pos, "position", log << " : position " << b.getPosition() << " limit " << b.getLimit() << " expected " << pos << " " << lim);
        if(R.chance(1, 4) || k == steps - 1) { const uint8_t *p = (const uint8_t*)b.getBuffer(); for(size_t i = 0; i < cap; i++) if(m[i] >= 0) VCHECK(p[i] == m[i], "bytes", log << " : byte " << i << " is " << (int)p[i] << " expected " << m[i]); }
        if(w > 1) EACH(T x(fromBits<T>(v)); uint64_t r = toBits(pvd::swap<T>(x)) & maskw(w), e = 0; for(unsigned i = 0; i < w; i++) e |= ((v >> (8 * i)) & 255) << (8 * (w - 1 - i)); VCHECK(r == e && (toBits(pvd::swap<T>(pvd::swap<T>(x))) & maskw(w)) == v, "swap", std::hex << v << " gives " << r))
    }
    if(wrap) for(size_t i = 0; i < mem.size(); i++) if(i < 8 || i >= 8 + cap) VCHECK(mem[i] == 0x5a, "outside", log);
    if(R.chance(1, 50)) VTHROWS(pvd::ByteBuffer((char*)0, 5), "null-buffer", "");
    vh::distinct(hstr(log));
}
VH_MAIN
