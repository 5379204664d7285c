// C22: conservation of objects. Every block allocated during a piece of work is released when the work ends, with and
// without failures part-way (refused input, cut streams, memory refused at the k-th request); the published instance
// counters equal the number of live objects; counters can be enumerated while they change.
#include "tree.h"
#include "perturb.h"
#include <thread>
#include <pv/json.h>
#include <pv/createRequest.h>
#include <pv/valueBuilder.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/pvAlarm.h>
#include <pv/pvTimeStamp.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <pv/convert.h>
#include <pv/pvSubArrayCopy.h>
#include <pv/bitSetUtil.h>
#include <pv/anyscalar.h>
#include <pv/reftrack.h>
#include <pv/thread.h>
#include <pv/timer.h>
#include <pv/event.h>
#include <pv/lock.h>
#include <pv/byteBuffer.h>
#include <pv/timeStamp.h>
using namespace g;
using vh::count;

// ---------- accounting of live blocks, per thread
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" size_t __asan_get_alloc_stack(void*, void**, size_t, int*) __attribute__((weak));
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t) __attribute__((weak));
namespace mem {
static thread_local long blocks;
static thread_local bool track;
enum { N = 1 << 17 };
static const volatile void *tab[N];
static void put(const volatile void *p) { for(size_t i = ((uintptr_t)p >> 4) % N, n = 0; n < N; i = (i + 1) % N, n++) if(!tab[i] || tab[i] == (void*)1) { tab[i] = p; return; } }
static void del(const volatile void *p) { for(size_t i = ((uintptr_t)p >> 4) % N, n = 0; n < N && tab[i]; i = (i + 1) % N, n++) if(tab[i] == p) { tab[i] = (void*)1; return; } }
static void onMalloc(const volatile void *p, size_t) { blocks++; if(track) put(p); }
static void onFree(const volatile void *p) { if(p) { blocks--; if(track) del(p); } }
static bool install() {
    static bool ok = __sanitizer_install_malloc_and_free_hooks && __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree);
    return ok;
}
static void report(std::ostream& o) {
    for(size_t i = 0, n = 0; i < N && n < 2; i++) {
        void *p = (void*)tab[i];
        if(!p || p == (void*)1 || !__asan_get_alloc_stack) continue;
        void *st[24]; int tid = 0; size_t k = __asan_get_alloc_stack(p, st, 24, &tid);
        o << " block allocated at:"; n++;
        char b[300];
        for(size_t f = 0; f < k && f < 9; f++) { __sanitizer_symbolize_pc(st[f], "%f", b, sizeof b); o << " < " << std::string(b).substr(0, 110); }
        o << ";";
    }
}
}
struct Injected {};
static thread_local bool injected; // an allocation was refused in this piece of work
#define WCHECK(COND, KEY, EXPR) do { if(!(COND)) { if(injected) return; VFAIL(KEY, "[" #COND "] " << EXPR); } } while(0)
#if defined(__SANITIZE_ADDRESS__)
namespace vh { extern thread_local long failIn, armed, seen; }
#else
namespace vh { static thread_local long failIn, armed, seen; }
#endif
struct Arm { Arm() { vh::armed++; } ~Arm() { vh::armed--; } };

// ---------- pieces of work
static Opt wopt(Rng& R) { Opt O; O.depth = R.below(3); O.width = 3; O.wide = false; return O; }
static void wTypes(Rng& R) {
    Opt O(wopt(R)); TyP t = genStruct(R, O), u = genTy(R, O);
    Arm a;
    pvd::FieldConstPtr f(build(*t)), h(build(*t)), k(build(*u));
    WCHECK(f.get() == h.get() || !injected, "type-shared", "");
    f.reset(); h.reset();
    pvd::FieldBuilderPtr b(pvd::FieldBuilder::begin()), n(b->add("a", pvd::pvInt)->addNestedStructure("s")->add("x", k)->addArray("y", pvd::pvDouble));
    if(R.coin()) n->add("1bad", pvd::pvInt);
    try { n->endNested(); b->addNestedUnionArray("u")->add("k", pvd::pvByte)->endNested(); b->createStructure(); } catch(std::exception&) {}
    try { b->add("a", pvd::pvString); } catch(std::exception&) {}
    try { pvd::FieldConstPtrArray ff(2, k); pvd::StringArray nn(2, "same"); pvd::getFieldCreate()->createStructure("id", nn, ff); } catch(std::exception&) {}
    try { pvd::FieldConstPtrArray ff(2); pvd::StringArray nn(2, "same"); nn[1] = "other"; pvd::getFieldCreate()->createUnion("id", nn, ff); } catch(std::exception&) {}
}
static void wValues(Rng& R) {
    Opt O(wopt(R)); TyP t = genTy(R, O); Val v = genVal(R, *t, O), w = genVal(R, *t, O);
    Rng r2(R.next());
    Arm a;
    pvd::PVFieldPtr p(make(*t, v, &r2)), c(pvd::getPVDataCreate()->createPVField(p)), d(make(*t, &r2));
    d->copyUnchecked(*p); d->copy(*c);
    assign(*p, *t, w, &r2);
    WCHECK(eqVal(*t, read(*c, *t), v), "copy-changed", "");
    c = p; p.reset(); d->copyUnchecked(*c);
    if(t->k == KStruct && !t->kids.empty()) {
        pvd::PVFieldPtr keep(static_cast<pvd::PVStructure*>(d.get())->getPVFields()[0]);
        d.reset(); // a member outlives its structure
        read(*keep, *t->kids[0]);
    }
}
static void wWire(Rng& R) {
    Opt O(wopt(R)); TyP t = genTy(R, O); Val v = genVal(R, *t, O);
    bool be = R.coin();
    std::unique_ptr<Out> o(newOut(R, be)); Rng r2(R.next()); unsigned how = R.below(5); size_t cut = R.next();
    std::vector<uint8_t> junk; for(size_t i = R.below(40); i; i--) junk.push_back((uint8_t)R.next());
    Arm a;
    pvd::PVFieldPtr p(make(*t, v, &r2)), q(make(*t, &r2));
    p->getField()->serialize(&o->buf, o.get());
    size_t tl = 0; { o->flushSerializeBuffer(); tl = o->out.size(); }
    p->serialize(&o->buf, o.get());
    std::vector<uint8_t> s(o->finish());
    if(how == 1) s.resize(cut % (s.size() + 1));
    else if(how == 2) { for(int k = 0; k < 3; k++) if(!s.empty()) s[R.below(s.size())] ^= (uint8_t)(1u << R.below(8)); }
    else if(how == 3) s = junk;
    std::unique_ptr<In> in(newIn(R, s, be));
    if(how == 4) in->failAt = (int)(cut % 12);
    try {
        pvd::FieldConstPtr f(pvd::getFieldCreate()->deserialize(&in->buf, in.get()));
        if(f) {
            // a hostile type may claim fixed arrays of any size
            pvd::PVFieldPtr z(how == 0 || how == 1 ? f->build() : q);
            z->deserialize(&in->buf, in.get());
            if(how == 0) WCHECK(eqVal(*t, read(*z, *t), v), "wire", descTy(*t));
        }
    } catch(vh::Abandon&) { throw; } catch(std::exception&) { if(how == 0) WCHECK(false, "wire-refused", descTy(*t)); }
    (void)tl;
}
static void wJson(Rng& R) {
    Opt O(wopt(R)); O.depth = 1 + R.below(2); O.unions = R.coin();
    TyP t = genStruct(R, O); Val v = genVal(R, *t, O);
    Rng r2(R.next()); unsigned how = R.below(4); size_t cut = R.next(); unsigned char ch = "{}[]\",:0a\\"[R.below(10)];
    Arm a;
    pvd::PVStructurePtr p(makeStruct(*t, v, &r2)), q(makeStruct(*t, zeroVal(*t), &r2));
    std::ostringstream o;
    pvd::JSONPrintOptions po; po.multiLine = cut & 1;
    try { pvd::printJSON(o, *p, po); } catch(std::exception&) { if(!injected) count("json_unprintable"); }
    std::string s(o.str());
    if(how == 1) s.resize(cut % (s.size() + 1));
    else if(how == 2 && !s.empty()) s[cut % s.size()] = (char)ch;
    pvd::BitSet m;
    try { std::istringstream i(s); pvd::parseJSON(i, q, &m); } catch(std::exception&) {}
    try { std::istringstream i(s); pvd::PVStructurePtr z(pvd::parseJSON(i)); if(how == 3 && z) z->getField(); } catch(std::exception&) {}
}
static void wRequest(Rng& R) {
    Opt O(wopt(R)); O.depth = 2; TyP t = genStruct(R, O); Val v = genVal(R, *t, O);
    std::string req("field(");
    for(auto& n : t->names) if(R.coin()) req += n + (R.chance(1, 4) ? "[a=b,c=d]," : ",");
    if(R.chance(1, 4)) req += "missing,";
    if(req[req.size() - 1] == ',') req.resize(req.size() - 1);
    req += ")";
    if(R.coin()) req = "record[process=true,queueSize=2]" + req;
    if(R.chance(1, 3)) req[R.below(req.size())] = "(){}[],=."[R.below(9)];
    Rng r2(R.next());
    Arm a;
    pvd::PVStructurePtr p(makeStruct(*t, v, &r2)), pr;
    pvd::CreateRequest::shared_pointer C(pvd::CreateRequest::create());
    pr = C->createRequest(req);
    try { pvd::createRequest(req); } catch(std::exception&) {}
    try { pvd::createRequest(req + "{{{"); } catch(std::exception&) {}
    if(!pr) return;
    try {
        pvd::PVRequestMapper M(*p, *pr, R.coin() ? pvd::PVRequestMapper::Mask : pvd::PVRequestMapper::Slice), N;
        N = M;
        pvd::PVStructurePtr q(N.buildRequested());
        pvd::BitSet a, b; for(size_t i = 0; i < p->getNumberFields(); i++) if(R.coin()) a.set(i);
        N.copyBaseToRequested(*p, a, *q, b); N.copyBaseFromRequested(*p, a, *q, b);
        N.compute(*p, *pr, pvd::PVRequestMapper::Slice);
        N.reset();
    } catch(std::exception&) {}
}
static void wValueBuilder(Rng& R) {
    Opt O(wopt(R)); O.unions = R.chance(1, 4); O.arrays = R.chance(1, 3);
    TyP t = genStruct(R, O); Val v = genVal(R, *t, O); Rng r2(R.next());
    Arm a;
    pvd::PVStructurePtr src(makeStruct(*t, v, &r2));
    try { pvd::ValueBuilder b(*src); b.buildPVStructure(); } catch(std::exception&) {}
    pvd::ValueBuilder b("top");
    pvd::shared_vector<int32_t> x(4, 7); pvd::shared_vector<const int32_t> xc(pvd::freeze(x));
    pvd::shared_vector<const void> xv(pvd::static_shared_vector_cast<const void>(xc));
    b.add<pvd::pvInt>("a", 1).add<pvd::pvString>("s", "text which is long enough to need memory");
    b.add("a", xv); b.add("a", xv); b.add<pvd::pvString>("a", "another text which is long enough to need memory"); b.add("s", xv);
    try { b.addNested("n", pvd::structure, "n_t").add<pvd::pvDouble>("d", 1.0).add("v", *src); } catch(std::exception&) {}
    try { b.addNested("a"); } catch(std::exception&) {}
    try { b.add<pvd::pvInt>("n", 3); } catch(std::exception&) {}
    try { b.add("m", *src); } catch(std::exception&) {}
    pvd::PVStructurePtr p1(b.buildPVStructure()), p2(b.buildPVStructure());
    b.add<pvd::pvInt>("0bad", 1);
    try { b.buildPVStructure(); } catch(std::exception&) {}
}
static void wStandard(Rng& R) {
    pvd::ScalarType s = (pvd::ScalarType)R.below(12);
    static const char *P[] = { "", "alarm", "alarm,timeStamp", "alarm,timeStamp,display,control,valueAlarm" };
    const char *props = P[R.below(4)];
    Arm a;
    try { pvd::getStandardField()->scalar(s, props); pvd::getStandardField()->enumerated(props); } catch(std::exception&) {}
    try { pvd::getStandardPVField()->scalarArray(s, props); } catch(std::exception&) {}
    pvd::StringArray ch; ch.push_back("one"); ch.push_back("a choice with a very long name, longer than the small buffer");
    pvd::PVStructurePtr e(pvd::getStandardPVField()->enumerated(ch, "alarm,timeStamp"));
    { pvd::PVAlarm x; pvd::Alarm y; x.attach(e->getSubField("alarm")); x.get(y); y.setMessage("some message which is long enough to need memory"); x.set(y); }
    { pvd::PVTimeStamp x; pvd::TimeStamp y; x.attach(e->getSubField("timeStamp")); y.getCurrent(); x.set(y); }
    { pvd::PVEnumerated x; x.attach(e->getSubField("value")); x.setIndex(1); x.getChoice(); x.setChoices(ch); }
    { pvd::PVControl x; x.attach(e->getSubField("value")); pvd::PVDisplay y; y.attach(e); }
}
static void wVectors(Rng& R) {
    size_t n = R.below(50), off = R.below(60), len = R.below(60);
    unsigned to = R.below(12);
    Arm a;
    pvd::shared_vector<std::string> s(n);
    for(size_t i = 0; i < n; i++) s[i] = i % 3 ? "12" : "34";
    if(to % 3 == 0 && n) s[n / 2] = "not a number, and long enough to need memory";
    pvd::shared_vector<const std::string> c(pvd::freeze(s)), d(c);
    d.slice(off, len);
    pvd::shared_vector<const void> v(pvd::static_shared_vector_cast<const void>(d));
    try {
        pvd::shared_vector<const int32_t> x(pvd::shared_vector_convert<const int32_t>(v));
        pvd::shared_vector<const std::string> y(pvd::shared_vector_convert<const std::string>(pvd::static_shared_vector_cast<const void>(x)));
    } catch(std::exception&) {}
    try { pvd::ScalarTypeFunc::allocArray((pvd::ScalarType)to, n); } catch(std::exception&) {}
    pvd::shared_vector<std::string> t(pvd::thaw(c)), u(t);
    u.resize(n + 3); u.push_back("x"); u.make_unique(); t.reserve(n + 20); t.clear();
    pvd::PVStringArrayPtr f(pvd::getPVDataCreate()->createPVScalarArray<pvd::PVStringArray>());
    f->replace(d); f->putFrom(v); f->setLength(n + 2); 
    pvd::PVDoubleArrayPtr g(pvd::getPVDataCreate()->createPVScalarArray<pvd::PVDoubleArray>());
    try { g->putFrom(v); g->assign(*f); } catch(std::exception&) {}
    try { pvd::copy(*f, off % 5, 1, *f, 0, 1, 2); } catch(std::exception&) {}
}
static void wArrays(Rng& R) {
    Opt O(wopt(R)); O.depth = 1; TyP e = genStruct(R, O), u = genStruct(R, O, KUnion);
    Val ev = genVal(R, *e, O), uv = genVal(R, *u, O); Rng r2(R.next());
    size_t n = R.below(6);
    Arm a;
    pvd::StructureConstPtr es(buildStruct(*e)); pvd::UnionConstPtr us(buildUnion(*u));
    pvd::PVStructureArrayPtr A(pvd::getPVDataCreate()->createPVStructureArray(es));
    pvd::PVUnionArrayPtr U(pvd::getPVDataCreate()->createPVUnionArray(us));
    A->append(n); U->append(n);
    pvd::PVStructureArray::svector x(A->reuse());
    for(size_t i = 0; i < x.size(); i += 2) x[i] = makeStruct(*e, ev, &r2);
    A->replace(pvd::freeze(x));
    pvd::PVUnionArray::svector y(U->reuse());
    for(size_t i = 0; i < y.size(); i++) y[i] = std::tr1::static_pointer_cast<pvd::PVUnion>(make(*u, uv, &r2));
    U->replace(pvd::freeze(y));
    if(n > 1) { A->remove(n - 1, 1); U->remove(0, 1); }
    try { A->remove(n + 3, 4); } catch(std::exception&) {}
    A->compress(); U->compress(); A->setLength(n + 4); U->setLength(n / 2);
    pvd::PVStructureArrayPtr B(pvd::getPVDataCreate()->createPVStructureArray(es)); B->copyUnchecked(*A);
    pvd::PVUnionPtr z(pvd::getPVDataCreate()->createPVUnion(us));
    for(size_t i = 0; i < u->names.size(); i++) z->select(u->names[i]);
    try { z->select("no such member"); } catch(std::exception&) {}
    try { z->set(0, A); } catch(std::exception&) {}
    try { z->select(99); } catch(std::exception&) {}
    pvd::PVUnionPtr vu(pvd::getPVDataCreate()->createPVVariantUnion());
    vu->set(A); vu->set(z); vu->set(pvd::PVFieldPtr());
}
static void wConvert(Rng& R) {
    Opt O; pvd::ScalarType s = (pvd::ScalarType)R.below(12), d = (pvd::ScalarType)R.below(12);
    std::string txt = R.coin() ? genStr(R, O, 60) : "17";
    Arm a;
    pvd::PVScalarPtr p(pvd::getPVDataCreate()->createPVScalar(s)), q(pvd::getPVDataCreate()->createPVScalar(d));
    try { p->putFrom<std::string>(txt); } catch(std::exception&) {}
    try { pvd::getConvert()->fromString(q, txt); } catch(std::exception&) {}
    try { q->assign(*p); } catch(std::exception&) {}
    try { q->getAs<std::string>(); q->getAs<double>(); } catch(std::exception&) {}
    pvd::PVScalarArrayPtr A(pvd::getPVDataCreate()->createPVScalarArray(s));
    try { pvd::getConvert()->fromString(A, "[1," + txt + ",3]"); } catch(std::exception&) {}
    try { pvd::StringArray sa; sa.push_back("1"); sa.push_back(txt); pvd::getConvert()->fromStringArray(A, 0, 2, sa, 0); } catch(std::exception&) {}
    pvd::AnyScalar x(txt), y(1.0), z(x);
    y = x; x = pvd::AnyScalar(3); x.swap(y); z = z; z = pvd::AnyScalar(); y.clear();
    try { pvd::AnyScalar w(std::string("a text which is long enough to need memory")); z = w; w.as<double>(); } catch(std::exception&) {}
    try { z.ref<double>(); } catch(std::exception&) {}
}
static void wPrint(Rng& R) {
    Opt O(wopt(R)); TyP t = genStruct(R, O); Val v = genVal(R, *t, O); Rng r2(R.next());
    Arm a;
    pvd::PVStructurePtr p(makeStruct(*t, v, &r2));
    std::ostringstream o;
    o << *p << *p->getField() << p->getStructure()->getID();
    pvd::BitSet b; for(size_t i = 0; i < p->getNumberFields(); i++) if(R.coin()) b.set(i);
    o << p->stream().format(R.coin() ? pvd::PVStructure::Formatter::Raw : pvd::PVStructure::Formatter::NT).show(b).highlight(b);
    pvd::BitSetPtr bp(new pvd::BitSet(b)); pvd::BitSetUtil::compress(bp, p);
    try { p->getSubFieldT("no.such.member"); } catch(std::exception&) {}
    try { p->getSubFieldT<pvd::PVStringArray>(t->names.empty() ? "x" : t->names[0]); } catch(std::exception&) {}
}
struct Counter : public pvd::PostHandler { static thread_local long live; int n; Counter() : n(0) { live++; } ~Counter() { live--; } virtual void postPut() { n++; } };
thread_local long Counter::live;
static void wHandlers(Rng& R) {
    Opt O(wopt(R)); TyP t = genStruct(R, O); Val v = genVal(R, *t, O); Rng r2(R.next());
    long before = Counter::live;
    {
        Arm a;
        pvd::PVStructurePtr p(makeStruct(*t, zeroVal(*t), &r2));
        std::tr1::shared_ptr<Counter> h(new Counter);
        p->setPostHandler(h);
        for(size_t i = 0; i < p->getPVFields().size(); i++) p->getPVFields()[i]->setPostHandler(R.coin() ? std::tr1::shared_ptr<Counter>(new Counter) : h);
        try { p->setPostHandler(std::tr1::shared_ptr<Counter>(new Counter)); } catch(std::exception&) {}
        assign(*p, *t, v, &r2); p->postPut();
        pvd::PVStructurePtr c(pvd::getPVDataCreate()->createPVStructure(p)); c->copyUnchecked(*p);
    }
    if(Counter::live != before) VFAIL("handler-kept", Counter::live - before);
}
static void wBits(Rng& R) {
    size_t n = R.below(200);
    Arm a;
    pvd::BitSet::shared_pointer x(pvd::BitSet::create(n)); pvd::BitSet y, z(n);
    for(size_t i = 0; i < 10; i++) { x->set(R.below(500)); y.set(R.below(300)); z.flip(R.below(300)); }
    y |= *x; z &= y; y ^= y; z.swap(y); y = z; z.or_and(*x, y); z.clear(); x->clear(3);
    std::unique_ptr<Out> o(newOut(R, false)); x->serialize(&o->buf, o.get());
    std::vector<uint8_t> s(o->finish()); if(R.coin() && !s.empty()) s.resize(s.size() - 1);
    std::unique_ptr<In> in(newIn(R, s, false));
    try { y.deserialize(&in->buf, in.get()); } catch(std::exception&) {}
    std::ostringstream q; q << y;
    pvd::Status st(pvd::Status::STATUSTYPE_ERROR, "a message which is long enough to need memory", "a stack dump which is long enough to need memory"), s2(st); s2 = pvd::Status::Ok; s2.maximize(st);
}
static void wSync(Rng& R) {
    size_t n = 1 + R.below(6); bool full = R.coin(); size_t sz = 1 + R.below(200);
    Arm a;
    std::vector<std::tr1::shared_ptr<pvd::Event> > ev; std::vector<std::tr1::shared_ptr<pvd::Mutex> > mx;
    for(size_t i = 0; i < n; i++) { ev.push_back(std::tr1::shared_ptr<pvd::Event>(new pvd::Event(full))); mx.push_back(std::tr1::shared_ptr<pvd::Mutex>(new pvd::Mutex)); }
    for(auto& e : ev) { e->tryWait(); e->signal(); e->wait(0.0); }
    for(auto& m : mx) { pvd::Lock l(*m); l.unlock(); l.lock(); pvd::Mutex own; pvd::Lock k(own); }
    pvd::ByteBuffer b(sz), c(sz, EPICS_ENDIAN_BIG); b.putByte(1); c.clear();
    char raw[8]; pvd::ByteBuffer w(raw, sizeof raw); w.putInt(7);
    pvd::Event local; local.signal(); WCHECK(local.wait(), "event-lost", "");
    pvd::TimeStamp t; t.getCurrent();
}
typedef void (*Work)(Rng&);
static const struct { const char *n; Work f; } WORKS[] = {
    { "types", wTypes }, { "values", wValues }, { "wire", wWire }, { "json", wJson }, { "request", wRequest }, { "valuebuilder", wValueBuilder },
    { "standard", wStandard }, { "vectors", wVectors }, { "arrays", wArrays }, { "convert", wConvert }, { "print", wPrint }, { "handlers", wHandlers }, { "bits", wBits }, { "sync", wSync } };
enum { NW = sizeof(WORKS) / sizeof(*WORKS) };

struct Counts { size_t f, p, t; bool operator==(const Counts& o) const { return f == o.f && p == o.p && t == o.t; } };
static Counts counts() { Counts c = { epics::readRefCounter("Field"), epics::readRefCounter("PVField"), epics::readRefCounter("Thread") }; return c; }
static std::string str(const Counts& c) { std::ostringstream o; o << "Field " << c.f << " PVField " << c.p << " Thread " << c.t; return o.str(); }
static void first() { // everything made once per process
    static bool done; if(done) return; done = true;
    pvd::getFieldCreate(); pvd::getPVDataCreate(); pvd::getStandardField(); pvd::getStandardPVField(); pvd::getConvert();
    static const char *names[] = { "blocks_balanced", "refused_balanced", "json_unprintable", "works", "faults", "fault_swallowed", "allocations" };
    for(auto n : names) count(n, 0);
}
// run once; the number of blocks which stay
static long runOnce(Work w, uint64_t seed, bool track = false) {
    long b0 = mem::blocks;
    if(track) { memset(mem::tab, 0, sizeof mem::tab); mem::track = true; }
    { Rng r(seed); w(r); }
    mem::track = false;
    return mem::blocks - b0;
}

MODE(conserve) {
    if(!mem::install()) VFAIL("harness", "no malloc hooks");
    first();
    size_t k = R.below(NW);
    for(size_t i = 0; i < 3; i++) {
        size_t w = R.chance(1, 2) ? k : R.below(NW);
        uint64_t seed = R.next();
        std::string nm = WORKS[w].n;
        injected = false;
        Counts c0 = counts();
        try { runOnce(WORKS[w].f, seed); } catch(vh::Abandon&) { return; } catch(std::exception& e) { VFAIL("work-failed:" + nm, e.what()); }
        Counts c1 = counts();
        VCHECK(c1 == c0, "instances-left:" + nm, str(c0) << " -> " << str(c1));
        long left = runOnce(WORKS[w].f, seed);
        if(left) left = runOnce(WORKS[w].f, seed); // something made once on the way?
        if(left) {
            left = runOnce(WORKS[w].f, seed, true);
            std::ostringstream o; mem::report(o);
            VFAIL("leak:" + nm, left << " blocks stay after the work;" << o.str());
        }
        count("blocks_balanced"); count((std::string("work_") + nm).c_str());
        vh::distinct(vh::mix(seed ^ w));
    }
}

#if defined(__SANITIZE_ADDRESS__)
MODE(refuse) { // memory is refused at the k-th request of the work
    if(!mem::install()) VFAIL("harness", "no malloc hooks");
    first();
    size_t w = R.below(NW); uint64_t seed = R.next(); std::string nm = WORKS[w].n;
    injected = false; vh::failIn = 0; vh::armed = 0;
    try { runOnce(WORKS[w].f, seed); } catch(vh::Abandon&) { return; }
    Counts c0 = counts();
    vh::seen = 0;
    runOnce(WORKS[w].f, seed);
    long total = vh::seen;
    count("allocations", total);
    if(total <= 0) return;
    for(size_t i = 0; i < 12; i++) {
        long at = 1 + (long)R.below(total);
        long b0 = mem::blocks;
        bool threw = false;
        injected = false; vh::failIn = at; vh::armed = 0;
        bool track = i > 0 && false;
        (void)track;
        try { Rng r(seed); WORKS[w].f(r); } catch(std::exception&) { threw = true; } catch(vh::Abandon&) { injected = vh::failIn = 0; return; }
        bool did = vh::failIn == 0; vh::failIn = 0; injected = false;
        long left = mem::blocks - b0;
        if(left) { // again: the first time may have made something that stays
            for(int again = 0; again < 2; again++) {
                if(again == 1) { memset(mem::tab, 0, sizeof mem::tab); mem::track = true; }
                b0 = mem::blocks; vh::failIn = at; vh::armed = 0;
                try { Rng r(seed); WORKS[w].f(r); } catch(std::exception&) {} catch(vh::Abandon&) { mem::track = false; return; }
                vh::failIn = 0; injected = false; mem::track = false;
                left = mem::blocks - b0;
            }
            if(left) { std::ostringstream o; mem::report(o); VFAIL("leak-after-refusal:" + nm, left << " blocks stay after request " << at << " of " << total << " was refused;" << o.str()); }
        }
        Counts c1 = counts();
        VCHECK(c1 == c0, "instances-after-refusal:" + nm, str(c0) << " -> " << str(c1) << " after request " << at << " of " << total << " was refused");
        if(did) count("faults");
        if(did && !threw) count("fault_swallowed");
        vh::distinct(vh::mix(seed ^ (uint64_t)at * 977));
    }
    // and still works as before
    try { runOnce(WORKS[w].f, seed); } catch(vh::Abandon&) { return; } catch(std::exception& e) { VFAIL("fails-after-refusal:" + nm, e.what()); }
    VCHECK(counts() == c0, "instances-left:" + nm, "");
    count((std::string("refused_") + nm).c_str());
}
#endif

// ---------- counters against the objects really reachable
static void reach(const pvd::Field& f, std::set<const void*>& s) {
    if(!s.insert(&f).second) return;
    switch(f.getType()) {
    case pvd::structure: for(auto& k : dynamic_cast<const pvd::Structure&>(f).getFields()) reach(*k, s); break;
    case pvd::union_: for(auto& k : dynamic_cast<const pvd::Union&>(f).getFields()) reach(*k, s); break;
    case pvd::structureArray: reach(*dynamic_cast<const pvd::StructureArray&>(f).getStructure(), s); break;
    case pvd::unionArray: reach(*dynamic_cast<const pvd::UnionArray&>(f).getUnion(), s); break;
    default: break;
    }
}
static void reach(const pvd::PVField& f, std::set<const void*>& s, std::set<const void*>& t) {
    if(!s.insert(&f).second) return;
    reach(*f.getField(), t);
    switch(f.getField()->getType()) {
    case pvd::structure: for(auto& k : dynamic_cast<const pvd::PVStructure&>(f).getPVFields()) reach(*k, s, t); break;
    case pvd::union_: { pvd::PVField::const_shared_pointer v(dynamic_cast<const pvd::PVUnion&>(f).get()); if(v) reach(*v, s, t); break; }
    case pvd::structureArray: { pvd::PVStructureArray::const_svector v(dynamic_cast<const pvd::PVStructureArray&>(f).view()); for(auto& k : v) if(k) reach(*k, s, t); break; }
    case pvd::unionArray: { pvd::PVUnionArray::const_svector v(dynamic_cast<const pvd::PVUnionArray&>(f).view()); for(auto& k : v) if(k) reach(*k, s, t); break; }
    default: break;
    }
}
MODE(counts) {
    first();
    std::vector<pvd::PVFieldPtr> vals; std::vector<TyP> vt; std::vector<pvd::FieldConstPtr> types;
    static std::set<const void*> *always = 0; // types which live as long as the process
    static Counts base;
    if(!always) {
        always = new std::set<const void*>;
        pvd::FieldCreatePtr fc(pvd::getFieldCreate());
        for(int i = 0; i < 12; i++) { always->insert(fc->createScalar((pvd::ScalarType)i).get()); always->insert(fc->createScalarArray((pvd::ScalarType)i).get()); }
        always->insert(fc->createVariantUnion().get()); always->insert(fc->createVariantUnionArray().get());
        pvd::StandardFieldPtr sf(pvd::getStandardField());
        pvd::StructureConstPtr st[] = { sf->alarm(), sf->timeStamp(), sf->display(), sf->control(), sf->booleanAlarm(), sf->byteAlarm(), sf->ubyteAlarm(), sf->shortAlarm(),
            sf->ushortAlarm(), sf->intAlarm(), sf->uintAlarm(), sf->longAlarm(), sf->ulongAlarm(), sf->floatAlarm(), sf->doubleAlarm(), sf->enumeratedAlarm() };
        for(auto& x : st) reach(*x, *always);
        base = counts();
        VCHECK(base.f == always->size(), "permanent-types", base.f << " " << always->size());
    }
    Opt O; O.depth = 2; O.width = 3;
    for(size_t op = 5 + R.below(30); op; op--) {
        unsigned c = R.below(12);
        if(c < 3) { TyP t = genTy(R, O); vals.push_back(make(*t, genVal(R, *t, O), &R)); vt.push_back(t); }
        else if(c < 5) { types.push_back(build(*genTy(R, O))); }
        else if(c < 6 && !vals.empty()) { size_t i = R.below(vals.size()); vals.push_back(pvd::getPVDataCreate()->createPVField(vals[i])); vt.push_back(vt[i]); }
        else if(c < 7 && !vals.empty()) { size_t i = R.below(vals.size()); vals.erase(vals.begin() + i); vt.erase(vt.begin() + i); }
        else if(c < 8 && !types.empty()) types.erase(types.begin() + R.below(types.size()));
        else if(c < 9 && !vals.empty()) { size_t i = R.below(vals.size()); assign(*vals[i], *vt[i], genVal(R, *vt[i], O), &R); }
        else if(c < 10 && !vals.empty()) { size_t i = R.below(vals.size()); vals.push_back(vals[i]); vt.push_back(vt[i]); }
        else if(c < 11 && !vals.empty()) { // keep only a member
            size_t i = R.below(vals.size());
            if(vt[i]->k == KStruct && !vt[i]->kids.empty()) { size_t k = R.below(vt[i]->kids.size()); pvd::PVFieldPtr m(static_cast<pvd::PVStructure*>(vals[i].get())->getPVFields()[k]); TyP mt(vt[i]->kids[k]); vals.push_back(m); vt.push_back(mt); }
        } else { // a failure on the way
            TyP t = genStruct(R, O);
            pvd::StringArray n; pvd::FieldConstPtrArray f; kidsOf(*t, n, f);
            n.push_back(R.coin() || n.empty() ? "0" : n[0]); f.push_back(pvd::getFieldCreate()->createScalar(pvd::pvInt));
            VTHROWS(pvd::getFieldCreate()->createStructure(n, f), "invalid-structure", "");
            count("failures");
        }
        std::set<const void*> s, t(*always);
        for(auto& v : vals) reach(*v, s, t);
        for(auto& x : types) reach(*x, t);
        Counts c1 = counts();
        // a member kept alone: the type of the structure it came from is gone with the structure
        VCHECK(c1.p == s.size(), "value-counter", "published " << c1.p << ", reachable " << s.size());
        VCHECK(c1.f == t.size(), "type-counter", "published " << c1.f << ", reachable " << t.size());
        count("counter_checks");
        vh::distinct(vh::mix(s.size() * 1000003 + t.size()) ^ op);
    }
    vals.clear(); types.clear();
    VCHECK(counts() == base, "counters-at-end", str(counts()) << " instead of " << str(base));
}

// ---------- snapshots
namespace {
struct Mon : public epics::RefMonitor {
    std::mutex m; std::vector<epics::RefSnapshot> seen; int complete;
    Mon() : complete(0) {}
    ~Mon() { stop(); }
    virtual void show(const epics::RefSnapshot& s, bool c) { std::lock_guard<std::mutex> G(m); seen.push_back(s); if(c) complete++; }
    size_t n() { std::lock_guard<std::mutex> G(m); return seen.size(); }
};
}
extern "C" char* epicsRefSnapshotCurrent();
MODE(snapshot) {
    first();
    typedef std::map<std::string, size_t> M;
    std::map<std::string, std::unique_ptr<size_t> > mine; M val;
    auto withGlobals = [&](M m) { m["Field"] = epics::readRefCounter("Field"); m["PVField"] = epics::readRefCounter("PVField"); m["Thread"] = epics::readRefCounter("Thread"); return m; };
    epics::RefSnapshot prev; M mprev;
    std::vector<pvd::PVFieldPtr> keep; Opt O; O.depth = 1;
    auto sameSnap = [&](const epics::RefSnapshot& s, const M& cur, const M *old, const char *what) {
        M all(cur); if(old) for(auto& k : *old) all.insert(std::make_pair(k.first, (size_t)0));
        size_t n = 0;
        for(auto& k : all) {
            auto c = cur.find(k.first);
            size_t now = c == cur.end() ? 0 : c->second, was = 0;
            if(old && old->count(k.first)) was = old->at(k.first);
            long d = old ? (long)now - (long)was : 0;
            VCHECK(s[k.first].current == now && s[k.first].delta == d, "snapshot", what << " " << k.first << " is " << s[k.first].current << "/" << s[k.first].delta << " instead of " << now << "/" << d);
            n++;
        }
        VCHECK(s.size() == n, "snapshot-size", what << " " << s.size() << " instead of " << n);
        std::ostringstream o, w; o << s;
        for(auto& k : all) { auto c = cur.find(k.first); size_t now = c == cur.end() ? 0 : c->second, was = old && old->count(k.first) ? old->at(k.first) : 0; long d = old ? (long)now - (long)was : 0;
            if(d) w << k.first << ":\t" << now << " (delta " << d << ")\n"; }
        VCHECK(o.str() == w.str(), "snapshot-print", vh::q(o.str()) << " instead of " << vh::q(w.str()));
        VCHECK(s["no such counter"].current == 0 && s["no such counter"].delta == 0, "snapshot-unknown", "");
    };
    for(size_t op = 4 + R.below(16); op; op--) {
        std::string n = std::string("vt.") + (char)('a' + R.below(5));
        switch(R.below(6)) {
        case 0: case 1: if(!mine.count(n)) { mine[n].reset(new size_t(R.below(100))); val[n] = *mine[n]; epics::registerRefCounter(n.c_str(), mine[n].get()); count("registered"); break; } // fall through
        case 2: if(mine.count(n)) { size_t v = R.chance(1, 4) ? val[n] : R.below(100); *mine[n] = v; val[n] = v; } break;
        case 3: if(mine.count(n)) {
                size_t other = 0; epics::unregisterRefCounter(n.c_str(), &other); // not the registered one: stays
                VCHECK(epics::readRefCounter(n.c_str()) == val[n], "unregister-other", n);
                epics::unregisterRefCounter(n.c_str(), mine[n].get()); mine.erase(n); val.erase(n);
                VCHECK(epics::readRefCounter(n.c_str()) == 0, "unregistered-read", n); count("unregistered"); } break;
        case 4: { TyP t = genTy(R, O); keep.push_back(make(*t, genVal(R, *t, O), &R)); if(keep.size() > 3) keep.erase(keep.begin()); break; }
        default: break;
        }
        for(auto& k : val) VCHECK(epics::readRefCounter(k.first.c_str()) == k.second, "read-counter", k.first);
        epics::RefSnapshot s; s.update();
        M cur(withGlobals(val));
        sameSnap(s, cur, 0, "update");
        epics::RefSnapshot d(s - prev);
        sameSnap(d, cur, &mprev, "difference");
        sameSnap(s - s, cur, &cur, "self difference");
        char *txt = epicsRefSnapshotCurrent();
        VCHECK(txt, "snapshot-text", "null");
        std::string ts(txt); free(txt);
        for(auto& k : cur) if(k.second) { std::ostringstream w; w << k.first << ":\t" << k.second; VCHECK(("\n" + ts).find("\n" + w.str()) != std::string::npos, "snapshot-text", vh::q(ts) << " has no " << vh::q(w.str())); }
        if(R.coin()) { // as text
            struct Show : public epics::RefMonitor { void now(const epics::RefSnapshot& s, bool c) { epics::RefMonitor::show(s, c); } } sh;
            const bool complete = R.coin(); std::ostringstream to, want;
            std::streambuf *b = std::cerr.rdbuf(to.rdbuf()); sh.now(d, complete); std::cerr.rdbuf(b);
            M all(cur); for(auto& k : mprev) all.insert(std::make_pair(k.first, (size_t)0));
            for(auto& k : all) { size_t now = cur.count(k.first) ? cur[k.first] : 0, was = mprev.count(k.first) ? mprev[k.first] : 0; long dd = (long)now - (long)was;
                if(dd || (complete && now)) want << k.first << ":\t" << now << " (delta " << dd << ")\n"; }
            std::string got(to.str()); size_t nl = got.find('\n');
            VCHECK(nl != std::string::npos && got.substr(0, nl).find(" : References") != std::string::npos && got.substr(nl + 1) == want.str(), "monitor-show", vh::q(got) << " instead of " << vh::q(want.str()));
            count("shown");
        }
        if(R.coin()) { prev.swap(s); mprev = cur; } else if(R.coin()) { prev.update(); mprev = cur; }
        count("snapshots");
        vh::distinct(vh::hstr(ts));
    }
    if(R.chance(1, 4)) {
        Mon m;
        m.current(); VCHECK(m.n() == 1 && m.complete == 1, "monitor-current", m.n());
        sameSnap(m.seen[0], withGlobals(val), new M, "monitor");
        VCHECK(!m.running(), "monitor-running", "");
        for(int again = 0; again < 2; again++) {
            size_t n0 = m.n();
            M mold(withGlobals(val));
            m.start(0.001); m.start(5.0); VCHECK(m.running(), "monitor-running", "");
            for(int i = 0; i < 2000 && m.n() < n0 + 3; i++) sch::nap(1000);
            m.stop(); m.stop(); VCHECK(!m.running(), "monitor-running", "");
            size_t n1 = m.n(); VCHECK(n1 >= n0 + 3, "monitor-shows", n1 - n0);
            M cur(withGlobals(val));
            // from the second on nothing has changed
            M z(cur);
            sameSnap(m.seen[n1 - 1], cur, &cur, "monitor delta");
            sch::nap(3000); VCHECK(m.n() == n1, "monitor-after-stop", "");
            count("monitor_runs");
        }
    }
    for(auto& k : mine) epics::unregisterRefCounter(k.first.c_str(), k.second.get());
}

#if defined(__SANITIZE_THREAD__)
// EPICS Base reads its atomic counters with a plain load between two barriers
extern "C" const char* __tsan_default_suppressions() { return "race_top:epicsAtomicGetSizeT\n"; }
#endif
// ---------- from many threads, counters enumerated meanwhile
MODE(threads) {
    first();
    { Rng r(1); for(auto& w : WORKS) w.f(r); }
    Counts c0 = counts();
    sch::Perturb P(R);
    size_t nt = 2 + R.below(3);
    std::atomic<bool> stop(false); std::atomic<uint64_t> works(0), snaps(0), regs(0);
    std::atomic<int> bad(0);
    std::vector<uint64_t> seeds; for(size_t i = 0; i < nt + 2; i++) seeds.push_back(R.next());
    Mon mon; bool useMon = R.coin();
    if(useMon) mon.start(0.0005);
    {
        std::vector<std::thread> th;
        for(size_t i = 0; i < nt; i++) th.emplace_back([&, i] {
            Rng r(seeds[i]);
            for(int k = 0; k < 12; k++) { try { WORKS[r.below(NW)].f(r); } catch(vh::Abandon&) { bad++; } works++; }
        });
        std::thread reg([&] {
            Rng r(seeds[nt]);
            while(!stop) {
                char n[8]; snprintf(n, sizeof n, "d%d", (int)r.below(4));
                size_t *c = new size_t(r.below(1000));
                epics::registerRefCounter(n, c);
                for(int i = (int)r.below(20); i; i--) epics::atomic::increment(*c);
                epics::unregisterRefCounter(n, c);
                *c = 0xdeadbeef; delete c; regs++;
                std::this_thread::yield();
            }
        });
        std::thread enu([&] {
            epics::RefSnapshot prev;
            while(!stop) {
                epics::RefSnapshot s; s.update(); std::ostringstream o; o << (s - prev);
                prev.swap(s);
                for(epics::RefSnapshot::const_iterator it = prev.begin(); it != prev.end(); ++it)
                    if(it->first.size() == 2 && it->second.current > 2000) bad += 1000;
                free(epicsRefSnapshotCurrent()); snaps++;
                std::this_thread::yield();
            }
        });
        for(auto& t : th) t.join();
        stop = true; reg.join(); enu.join();
    }
    if(useMon) mon.stop();
    VCHECK(bad < 1000, "counter-of-dead-object", "");
    Counts c1 = counts();
    VCHECK(c1 == c0, "counters-after-threads", str(c0) << " -> " << str(c1));
    count("concurrent_works", works); count("concurrent_snapshots", snaps); count("concurrent_registrations", regs);
    vh::distinct(R.next());
}

// ---------- threads and timers
namespace {
struct Run : public pvd::Runnable { static std::atomic<long> live; Run() { live++; } ~Run() { live--; } virtual void run() { } };
std::atomic<long> Run::live;
struct CB : public pvd::TimerCallback { static std::atomic<long> live; CB() { live++; } ~CB() { live--; } virtual void callback() {} virtual void timerStopped() {} };
std::atomic<long> CB::live;
}
MODE(life) {
    first();
    size_t base = epics::readRefCounter("Thread");
    {
        std::vector<std::unique_ptr<pvd::Thread> > th; std::vector<std::unique_ptr<Run> > run;
        for(size_t op = 4 + R.below(12); op; op--) {
            if(R.chance(2, 3)) {
                run.emplace_back(new Run);
                Run *r = run.back().get();
                switch(R.below(3)) {
                case 0: th.emplace_back(new pvd::Thread("vt", pvd::lowPriority, r)); break;
                case 1: { pvd::Thread::Config c(r); c.name("vt"); th.emplace_back(new pvd::Thread(c)); break; }
                default: { pvd::Thread::Config c; c.run([] {}).name("vt").autostart(true); th.emplace_back(new pvd::Thread(c)); }
                }
            } else if(!th.empty()) { size_t i = R.below(th.size()); sch::nap(300); th.erase(th.begin() + i); }
            VCHECK(epics::readRefCounter("Thread") == base + th.size(), "thread-counter", epics::readRefCounter("Thread") << " instead of " << base + th.size());
            count("thread_checks");
        }
        sch::nap(2000); // a thread joined before it began may never run
        th.clear();
        VCHECK(epics::readRefCounter("Thread") == base, "thread-counter", epics::readRefCounter("Thread"));
    }
    VCHECK(Run::live == 0, "runners-left", Run::live);
    {
        std::unique_ptr<pvd::Timer> T(new pvd::Timer("vt", pvd::lowPriority));
        std::vector<std::tr1::shared_ptr<CB> > cb; std::vector<std::tr1::weak_ptr<CB> > wk;
        for(size_t op = 3 + R.below(10); op; op--) {
            std::tr1::shared_ptr<CB> c(new CB);
            unsigned how = R.below(4);
            if(how == 0) T->scheduleAfterDelay(c, 0.0005);
            else if(how == 1) T->scheduleAfterDelay(c, 1000.0);
            else if(how == 2) T->schedulePeriodic(c, 0.0005, 0.001);
            else { T->scheduleAfterDelay(c, 1000.0); VCHECK(T->cancel(c), "cancel", ""); VCHECK(c.use_count() == 1, "cancelled-kept", c.use_count()); count("cancelled"); }
            if(R.coin()) cb.push_back(c);
            wk.push_back(c);
        }
        if(R.coin()) sch::nap(1500);
        if(R.coin()) T->close();
        T.reset();
        cb.clear();
        VCHECK(CB::live == 0, "callbacks-left", CB::live);
        count("timers");
    }
    vh::distinct(R.next());
}
#if defined(__SANITIZE_ADDRESS__)
namespace vh { thread_local long failIn, armed, seen; size_t allocLimit = (size_t)64 << 20; uint64_t allocRefused; }
extern "C" void* __real__Znwm(size_t); extern "C" void* __real__Znam(size_t);
// g++ 13 destroys the elements of `new T[n]` twice when a later part of the same full expression throws (as in the
// initializer of shared_vector(size_t)): the request which follows an array is never refused.
static thread_local bool afterArray;
static inline void mayRefuse(size_t n, bool array) {
    if(n > vh::allocLimit) throw std::bad_alloc();
    bool skip = afterArray; afterArray = array;
    if(vh::armed > 0 && !skip) { vh::seen++; if(vh::failIn > 0 && --vh::failIn == 0) { injected = true; throw std::bad_alloc(); } }
}
extern "C" void* __wrap__Znwm(size_t n) { mayRefuse(n, false); return __real__Znwm(n); }
extern "C" void* __wrap__Znam(size_t n) { mayRefuse(n, true); return __real__Znam(n); }
VH_ASSERT
int main(int argc, char **argv) { return vh::runMain(argc, argv); }
#else
VH_MAIN
#endif
SCHED_WRAPS
