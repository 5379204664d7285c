// C34: work on separate objects is independent between threads. Each piece of work makes its own objects and describes
// everything it observed as a text; the texts from many threads at once are those of each piece run alone, and nothing races.
#include "tree.h"
#include "perturb.h"
#include <thread>
#include <pv/json.h>
#include <pv/createRequest.h>
#include <pv/valueBuilder.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/pvAlarm.h>
#include <pv/pvTimeStamp.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <pv/convert.h>
#include <pv/pvSubArrayCopy.h>
#include <pv/bitSetUtil.h>
#include <pv/anyscalar.h>
#include <pv/byteBuffer.h>
#include <pv/timeStamp.h>
#include <pv/status.h>
#include <pv/epicsException.h>
using namespace g;
using vh::count;

typedef std::ostringstream D; // what was observed
static Opt wopt(Rng& R) { Opt O; O.depth = R.below(3); O.width = 3; O.wide = false; return O; }
static std::string line1(const char *w) { std::string s(w); return s.substr(0, s.find('\n')); }
static std::string hexs(const std::vector<uint8_t>& b) { return vh::hex(b); }
// an outcome: the text of X or of what it throws
#define TRY(d, X) do { try { d << X << ";"; } catch(std::exception& e_) { d << "!" << line1(e_.what()) << ";"; } } while(0)
#define DO(d, X) do { try { X; d << "ok;"; } catch(std::exception& e_) { d << "!" << line1(e_.what()) << ";"; } } while(0)

static void wTypes(Rng& R, D& d) {
    Opt O(wopt(R)); O.rawIds = true; TyP t = genStruct(R, O), u = genTy(R, O);
    pvd::FieldConstPtr f(build(*t)), k(build(*u));
    d << *f << f->getID() << *k << k->getID() << f->getType();
    bool be = R.coin(); std::unique_ptr<Out> o(newOut(R, be)); f->serialize(&o->buf, o.get()); k->serialize(&o->buf, o.get());
    std::vector<uint8_t> b(o->finish()); d << hexs(b);
    std::unique_ptr<In> in(newIn(R, b, be));
    TRY(d, *pvd::getFieldCreate()->deserialize(&in->buf, in.get())); TRY(d, *pvd::getFieldCreate()->deserialize(&in->buf, in.get()));
    DO(d, pvd::getFieldCreate()->deserialize(&in->buf, in.get()));
    pvd::FieldBuilderPtr fb(pvd::FieldBuilder::begin());
    fb->setId(genName(R)); fb->add("a", pvd::pvInt)->addArray("y", (pvd::ScalarType)R.below(12))->addBoundedString("z", 1 + R.below(9))->add("k", k);
    TRY(d, *fb->addNestedStructure("s")->add(genName(R), pvd::pvByte)->endNested()->createStructure());
    pvd::StringArray n(2, genName(R)); pvd::FieldConstPtrArray ff(2, k); DO(d, pvd::getFieldCreate()->createStructure("id", n, ff));
    n[1] = "1bad" + genName(R); DO(d, pvd::getFieldCreate()->createUnion(n, ff));
    TRY(d, *pvd::getFieldCreate()->appendField(std::tr1::static_pointer_cast<const pvd::Structure>(f), "zz9", k));
    for(int i = 0; i < 12; i++) d << pvd::ScalarTypeFunc::name((pvd::ScalarType)i) << pvd::ScalarTypeFunc::getScalarType(pvd::ScalarTypeFunc::name((pvd::ScalarType)i));
    DO(d, pvd::ScalarTypeFunc::getScalarType(genName(R)));
    d << (*f == *k);
}
static void wValues(Rng& R, D& d) {
    Opt O(wopt(R)); TyP t = genTy(R, O); Val v = genVal(R, *t, O), w = genVal(R, *t, O);
    pvd::PVFieldPtr p(make(*t, v, &R)), c(pvd::getPVDataCreate()->createPVField(p)), e(make(*t, &R)), q(make(*t, w, &R));
    d << (*p == *c) << (*p == *q) << (*c == *e);
    e->copyUnchecked(*p); d << (*e == *p) << descVal(*t, read(*e, *t));
    assign(*p, *t, w, &R); d << (*p == *q) << descVal(*t, read(*c, *t)) << descVal(*t, read(*p, *t));
    if(t->k == KStruct) {
        pvd::PVStructure& s = static_cast<pvd::PVStructure&>(*c);
        for(size_t i = 1; i < s.getNumberFields(); i++) { pvd::PVFieldPtr x(s.getSubField(i)); d << x->getFullName() << x->getFieldOffset() << x->getNextFieldOffset() << (s.getSubField(x->getFullName()) == x); }
        pvd::BitSet m; for(size_t i = 0; i < s.getNumberFields(); i++) if(R.coin()) m.set(i);
        s.copyUnchecked(static_cast<pvd::PVStructure&>(*q), m, R.coin()); d << m << descVal(*t, read(s, *t));
        bool be = R.coin(); std::unique_ptr<Out> o(newOut(R, be)); m.serialize(&o->buf, o.get()); s.serialize(&o->buf, o.get(), &m);
        std::vector<uint8_t> b(o->finish()); d << hexs(b);
        std::unique_ptr<In> in(newIn(R, b, be)); pvd::BitSet m2;
        m2.deserialize(&in->buf, in.get()); static_cast<pvd::PVStructure&>(*e).deserialize(&in->buf, in.get(), &m2); d << descVal(*t, read(*e, *t));
        DO(d, s.getSubFieldT(genName(R) + ".x")); DO(d, s.getSubFieldT<pvd::PVByteArray>(s.getNumberFields() - 1));
    }
    bool be = R.coin(); std::unique_ptr<Out> o(newOut(R, be)); q->serialize(&o->buf, o.get());
    std::vector<uint8_t> b(o->finish()); d << hexs(b);
    if(R.chance(1, 3)) b.resize(R.below(b.size() + 1));
    std::unique_ptr<In> in(newIn(R, b, be)); DO(d, p->deserialize(&in->buf, in.get())); d << descVal(*t, read(*p, *t));
    p->setImmutable(); d << p->isImmutable() << c->isImmutable(); DO(d, p->copy(*c));
}
static void wPrint(Rng& R, D& d) {
    Opt O(wopt(R)); TyP t = genStruct(R, O); Val v = genVal(R, *t, O);
    pvd::PVStructurePtr p(makeStruct(*t, v, &R));
    d << *p << *p->getField(); std::string s; { std::ostringstream o; p->dumpValue(o); s = o.str(); } d << s;
    pvd::BitSet b; for(size_t i = 0; i < p->getNumberFields(); i++) if(R.coin()) b.set(i);
    static const pvd::PVStructure::Formatter::format_t F[] = { pvd::PVStructure::Formatter::Raw, pvd::PVStructure::Formatter::NT, pvd::PVStructure::Formatter::JSON };
    TRY(d, p->stream().format(F[R.below(3)]).show(b).highlight(b));
    d << std::hex << std::showbase; d << 255 << std::dec << std::noshowbase;
    { pvd::format::indent_level l(2); d << pvd::format::indent() << "x" << l << pvd::format::indent() << "y"; { pvd::format::indent_scope sc(d); d << pvd::format::indent() << *p->getField(); } d << pvd::format::indent_level(0); }
    std::string raw(genStr(R, O, 40)); d << pvd::escape(raw) << pvd::maybeQuote(raw);
    pvd::PVStructurePtr nt(pvd::getStandardPVField()->scalar((pvd::ScalarType)R.below(12), "alarm,timeStamp"));
    nt->getSubFieldT<pvd::PVLong>("timeStamp.secondsPastEpoch")->put(1500000000 + R.below(1000000)); nt->getSubFieldT<pvd::PVInt>("timeStamp.nanoseconds")->put(R.below(1000000000));
    TRY(d, nt->stream().format(pvd::PVStructure::Formatter::NT));
}
static void wJson(Rng& R, D& d) {
    Opt O(wopt(R)); O.depth = 1 + R.below(2); O.unions = R.coin(); O.jsonable = R.coin();
    TyP t = genStruct(R, O); Val v = genVal(R, *t, O);
    pvd::PVStructurePtr p(makeStruct(*t, v, &R)), q(makeStruct(*t, zeroVal(*t), &R));
    std::ostringstream o; pvd::JSONPrintOptions po; po.multiLine = R.coin(); po.json5 = R.coin(); po.ignoreUnprintable = R.coin(); po.indent = R.below(3);
    DO(d, pvd::printJSON(o, *p, po));
    std::string s(o.str()); d << s;
    if(R.chance(1, 3)) s.resize(R.below(s.size() + 1));
    pvd::BitSet m;
    errno = 0;
    DO(d, std::istringstream i(s); pvd::parseJSON(i, q, &m)); d << m << descVal(*t, read(*q, *t));
    errno = 0;
    try { std::istringstream i(s); pvd::PVStructurePtr z(pvd::parseJSON(i)); d << *z << *z->getField(); } catch(std::exception& e) { d << line1(e.what()); }
}
static void wRequest(Rng& R, D& d) {
    Opt O(wopt(R)); O.depth = 2; TyP t = genStruct(R, O); Val v = genVal(R, *t, O);
    std::string req("field(");
    for(auto& n : t->names) if(R.coin()) req += n + (R.chance(1, 4) ? "[a=b,c=d]," : ",");
    if(R.chance(1, 4)) req += "missing,";
    if(req[req.size() - 1] == ',') req.resize(req.size() - 1);
    req += ")";
    if(R.coin()) req = "record[process=true,queueSize=2]" + req;
    if(R.chance(1, 3)) req[R.below(req.size())] = "(){}[],=."[R.below(9)];
    pvd::PVStructurePtr p(makeStruct(*t, v, &R)), pr;
    pvd::CreateRequest::shared_pointer C(pvd::CreateRequest::create());
    pr = C->createRequest(req); d << C->getMessage();
    TRY(d, *pvd::createRequest(req)); DO(d, pvd::createRequest(req + "{{{"));
    if(!pr) return;
    try {
        pvd::PVRequestMapper M(*p, *pr, R.coin() ? pvd::PVRequestMapper::Mask : pvd::PVRequestMapper::Slice);
        d << M.warnings() << *M.requested() << M.requestedMask();
        pvd::PVStructurePtr q(M.buildRequested());
        pvd::BitSet a, b, e; for(size_t i = 0; i < p->getNumberFields(); i++) if(R.coin()) a.set(i);
        M.copyBaseToRequested(*p, a, *q, b); d << b << *q;
        M.maskBaseFromRequested(e, b); d << e;
        M.copyBaseFromRequested(*p, e, *q, b); d << e << *p;
    } catch(std::exception& e) { d << line1(e.what()); }
}
static void wConvert(Rng& R, D& d) {
    Opt O; pvd::ScalarType s = (pvd::ScalarType)R.below(12), e = (pvd::ScalarType)R.below(12);
    O.nan = false;
    std::string txt = R.coin() ? genStr(R, O, 30) : R.coin() ? "17" : "3.25";
    pvd::PVScalarPtr p(pvd::getPVDataCreate()->createPVScalar(s)), q(pvd::getPVDataCreate()->createPVScalar(e));
    DO(d, p->putFrom<std::string>(txt)); d << *p;
    DO(d, pvd::getConvert()->fromString(q, txt)); d << *q;
    DO(d, p->putFrom<int32_t>(R.below(200))); DO(d, q->assign(*p)); d << *q;
    TRY(d, q->getAs<std::string>()); TRY(d, q->getAs<double>());
    pvd::PVScalarArrayPtr A(pvd::getPVDataCreate()->createPVScalarArray(s)), B(pvd::getPVDataCreate()->createPVScalarArray(e));
    DO(d, pvd::getConvert()->fromString(A, "[1," + txt + ",3]")); d << *A;
    pvd::StringArray sa; sa.push_back("1"); sa.push_back(txt); TRY(d, pvd::getConvert()->fromStringArray(A, 0, 2, sa, 0)); d << *A;
    DO(d, B->assign(*A)); d << *B;
    pvd::StringArray back; DO(d, pvd::getConvert()->toStringArray(A, 0, A->getLength(), back, 0)); for(auto& x : back) d << x;
    pvd::shared_vector<const std::string> sv; DO(d, A->getAs(sv)); for(size_t i = 0; i < sv.size(); i++) d << sv[i];
    pvd::AnyScalar x(txt), y(1.5), z(x); d << x << y << z << (x ? 1 : 0) << (int)x.type(); x.swap(y); z = pvd::AnyScalar((int32_t)R.below(1000)); d << x << y << z;
    TRY(d, y.as<double>()); TRY(d, z.as<std::string>()); DO(d, z.ref<double>());
}
static void wBuild(Rng& R, D& d) {
    pvd::ScalarType s = (pvd::ScalarType)R.below(12);
    static const char *P[] = { "", "alarm", "alarm,timeStamp", "alarm,timeStamp,display,control,valueAlarm" };
    const char *props = P[R.below(4)];
    DO(d, d << *pvd::getStandardField()->scalar(s, props)); DO(d, d << *pvd::getStandardField()->enumerated(props)); DO(d, d << *pvd::getStandardPVField()->scalarArray(s, props));
    pvd::StringArray ch; for(size_t i = R.below(4); i; i--) ch.push_back(genName(R));
    pvd::PVStructurePtr e(pvd::getStandardPVField()->enumerated(ch, "alarm,timeStamp,display,control")); d << *e;
    pvd::ValueBuilder b("top_" + genName(R));
    pvd::shared_vector<int32_t> x(R.below(6), (int)R.below(50)); pvd::shared_vector<const void> xv(pvd::static_shared_vector_cast<const void>(pvd::freeze(x)));
    b.add<pvd::pvInt>("a", (int)R.below(99)).add<pvd::pvString>("s", genName(R)); if(R.coin()) b.add("a", xv);
    b.addNested("n", pvd::structure, "n_t").add<pvd::pvDouble>("d", R.below(1000) / 8.0).endNested();
    if(R.chance(1, 3)) b.add<pvd::pvInt>("0bad", 1);
    TRY(d, *b.buildPVStructure());
    pvd::PVUnionPtr u(pvd::FieldBuilder::begin()->add("i", pvd::pvInt)->add("t", pvd::pvString)->addArray("v", s)->createUnion()->build());
    DO(d, u->select(genName(R))); DO(d, u->select(7)); u->select("t"); u->get<pvd::PVString>()->put(genName(R)); d << *u << u->getSelectedFieldName() << u->getSelectedIndex();
    DO(d, u->set(0, e)); d << *u;
}
static void wProps(Rng& R, D& d) {
    pvd::PVStructurePtr s(pvd::getStandardPVField()->scalar(pvd::pvDouble, "alarm,timeStamp,display,control"));
    { pvd::PVAlarm a; pvd::Alarm x, y; a.attach(s->getSubField("alarm")); x.setMessage(genName(R)); x.setSeverity(pvd::AlarmSeverityFunc::getSeverity(R.below(5))); x.setStatus(pvd::AlarmStatusFunc::getStatus(R.below(8)));
      d << a.set(x); a.get(y); d << y.getMessage() << (int)y.getSeverity() << (int)y.getStatus();
      for(int i = 0; i < 5; i++) d << (*pvd::AlarmSeverityFunc::getSeverityNames())[i]; for(int i = 0; i < 8; i++) d << (*pvd::AlarmStatusFunc::getStatusNames())[i];
      DO(d, pvd::AlarmSeverityFunc::getSeverity(77)); }
    { pvd::PVTimeStamp a; pvd::TimeStamp x((int64_t)R.below(2000000000), (int32_t)R.below(1000000000), (int32_t)R.below(9)), y; a.attach(s->getSubField("timeStamp")); d << a.set(x); a.get(y);
      y += (int64_t)R.below(100); y += R.below(1000) / 7.0; d << y.getSecondsPastEpoch() << "." << y.getNanoseconds() << "." << y.getUserTag() << (x < y) << pvd::TimeStamp::diff(y, x) << y.getMilliseconds(); time_t tt; y.toTime_t(tt); d << tt; }
    { pvd::PVControl a; pvd::Control x, y; a.attach(s->getSubField("control")); x.setLow(-(double)R.below(9)); x.setHigh(R.below(9)); x.setMinStep(R.below(3)); d << a.set(x); a.get(y); d << y.getLow() << y.getHigh() << y.getMinStep(); }
    { pvd::PVDisplay a; pvd::Display x, y; a.attach(s->getSubField("display")); x.setLow(-(double)R.below(9)); x.setHigh(R.below(9)); x.setDescription(genName(R)); x.setUnits(genName(R)); d << a.set(x); a.get(y); d << y.getLow() << y.getHigh() << y.getDescription() << y.getUnits(); }
    { pvd::StringArray ch; for(int i = 0; i < 3; i++) ch.push_back(genName(R)); pvd::PVStructurePtr e(pvd::getStandardPVField()->enumerated(ch, "alarm")); pvd::PVEnumerated a; a.attach(e->getSubField("value")); a.setIndex(R.below(3)); d << a.getIndex() << a.getChoice() << a.getNumberChoices(); }
}
static void wBits(Rng& R, D& d) {
    pvd::BitSet x, y, z; for(int i = 0; i < 12; i++) { x.set(R.below(200)); y.set(R.below(300)); z.flip(R.below(100)); }
    d << x << y << z; y |= x; z &= y; d << y << z; x ^= z; z.or_and(x, y); d << x << z << x.cardinality() << x.nextSetBit(R.below(200)) << y.nextClearBit(R.below(200)) << (x == y);
    std::unique_ptr<Out> o(newOut(R, R.coin())); x.serialize(&o->buf, o.get()); d << hexs(o->finish());
    Opt O(wopt(R)); TyP t = genStruct(R, O); pvd::PVStructurePtr p(makeStruct(*t, zeroVal(*t), &R));
    pvd::BitSetPtr b(new pvd::BitSet); for(size_t i = 0; i < p->getNumberFields(); i++) if(R.chance(3, 4)) b->set(i);
    d << pvd::BitSetUtil::compress(b, p) << *b;
}
static void wStatus(Rng& R, D& d) {
    static const pvd::Status::StatusType T[] = { pvd::Status::STATUSTYPE_OK, pvd::Status::STATUSTYPE_WARNING, pvd::Status::STATUSTYPE_ERROR, pvd::Status::STATUSTYPE_FATAL };
    pvd::Status a(T[1 + R.below(3)], genName(R)), b(T[1 + R.below(3)], genName(R), genName(R)), c(a); c.maximize(b);
    d << a << b << c << pvd::Status::Ok << c.isOK() << c.isSuccess() << b.getStackDump();
    bool be = R.coin(); std::unique_ptr<Out> o(newOut(R, be)); a.serialize(&o->buf, o.get()); pvd::Status::Ok.serialize(&o->buf, o.get()); b.serialize(&o->buf, o.get());
    std::vector<uint8_t> by(o->finish()); d << hexs(by); std::unique_ptr<In> in(newIn(R, by, be));
    for(int i = 0; i < 3; i++) { pvd::Status e; e.deserialize(&in->buf, in.get()); d << e; }
    DO(d, pvd::Status e; e.deserialize(&in->buf, in.get()));
    pvd::ByteBuffer bb(32, be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); bb.putInt((int)R.next()); bb.putDouble(R.below(1000) / 3.0); bb.putShort(R.below(9)); bb.flip();
    d << bb.getInt() << " " << bb.getDouble() << " " << bb.getShort() << bb.getRemaining();
}
static void wArrays(Rng& R, D& d) {
    Opt O(wopt(R)); O.depth = 1; TyP e = genStruct(R, O); Val ev = genVal(R, *e, O); size_t n = R.below(6);
    pvd::PVStructureArrayPtr A(pvd::getPVDataCreate()->createPVStructureArray(buildStruct(*e)));
    A->append(n); pvd::PVStructureArray::svector x(A->reuse()); for(size_t i = 0; i < x.size(); i += 2) x[i] = makeStruct(*e, ev, &R); A->replace(pvd::freeze(x)); d << *A;
    if(n > 1) A->remove(n - 1, 1);
    DO(d, A->remove(n + 3, 4)); A->compress(); d << *A << A->getLength();
    pvd::PVIntArrayPtr I(pvd::getPVDataCreate()->createPVScalarArray<pvd::PVIntArray>()), J(pvd::getPVDataCreate()->createPVScalarArray<pvd::PVIntArray>());
    pvd::PVIntArray::svector v(1 + R.below(20)); for(size_t i = 0; i < v.size(); i++) v[i] = (int)R.below(1000);
    I->replace(pvd::freeze(v)); DO(d, pvd::copy(*I, R.below(4), 1 + R.below(3), *J, R.below(4), 1 + R.below(3), R.below(5))); d << *J;
    pvd::PVIntArray::const_svector w(I->view()); w.slice(R.below(4), R.below(9)); d << w; pvd::PVIntArray::svector u(pvd::thaw(w)); u.push_back(4); u.resize(u.size() + 1); u.back() = 5; d << u.size(); d << pvd::freeze(u) << *I;
    try { THROW_EXCEPTION2(std::runtime_error, genName(R)); } catch(std::exception& x) { d << line1(x.what()); }
    DO(d, static_cast<pvd::PVField&>(*A).copy(*J)); DO(d, J->copy(*I)); d << *J;
}
typedef void (*Work)(Rng&, D&);
static const struct { const char *n; Work f; } WORKS[] = { { "types", wTypes }, { "values", wValues }, { "print", wPrint }, { "json", wJson }, { "request", wRequest }, { "convert", wConvert },
    { "build", wBuild }, { "props", wProps }, { "bits", wBits }, { "status", wStatus }, { "arrays", wArrays } };
enum { NW = sizeof(WORKS) / sizeof(*WORKS) };
static std::string run(size_t w, uint64_t seed) { Rng r(seed); D d; WORKS[w].f(r, d); return d.str(); }

// the first difference, with what is around it
static std::string diff(const std::string& a, const std::string& b) {
    size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i > 40 ? i - 40 : 0;
    return "at " + std::to_string(i) + " alone " + vh::q(a.substr(s, 100)) + " together " + vh::q(b.substr(s, 100));
}
static void threads(Rng& R, bool cold) {
    size_t nt = 2 + R.below(4), per = 3 + R.below(6);
    bool few = R.coin(); size_t one = R.below(NW), two = R.below(NW); // often the same kind of work everywhere
    struct J { size_t w; uint64_t seed; std::string alone, got; };
    std::vector<std::vector<J> > js(nt);
    for(size_t t = 0; t < nt; t++) for(size_t k = 0; k < per; k++) {
        J j; j.w = few ? (R.coin() ? one : two) : R.below(NW); j.seed = t && R.chance(1, 6) ? js[0][k].seed : R.next(); if(t && j.seed == js[0][k].seed) j.w = js[0][k].w;
        js[t].push_back(j);
    }
    if(!cold) for(auto& v : js) for(auto& j : v) j.alone = run(j.w, j.seed);
    {
        sch::Perturb P(R);
        std::atomic<size_t> up(0); std::vector<std::thread> th;
        for(size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
            up++; while(up < nt) std::this_thread::yield();
            for(auto& j : js[t]) j.got = run(j.w, j.seed);
        });
        for(auto& t : th) t.join();
    }
    uint64_t h = nt;
    for(auto& v : js) for(auto& j : v) {
        std::string again = run(j.w, j.seed);
        if(!cold) VCHECK(again == j.alone, std::string("not-repeatable:") + WORKS[j.w].n, diff(j.alone, again));
        VCHECK(again == j.got, std::string("differs:") + WORKS[j.w].n, WORKS[j.w].n << " of seed " << j.seed << " " << diff(again, j.got));
        count(WORKS[j.w].n); count("texts"); count("bytes", again.size());
        h = vh::mix(h ^ vh::hstr(again));
    }
    vh::distinct(h);
    count(cold ? "cold_starts" : "repeats"); 
    vh::sample(std::to_string(nt) + " threads of " + std::to_string(per) + " works, e.g. " + WORKS[js[0][0].w].n + ": " + js[0][0].got.substr(0, 120));
}
MODE(threads) { threads(R, false); }
MODE(cold) { threads(R, true); } // one process per case: the first use of everything is concurrent
VH_MAIN
SCHED_WRAPS
