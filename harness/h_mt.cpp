// C07: types and creators shared between threads
#include "gen.h"
#include "perturb.h"
#include <unordered_map>
#include <algorithm>
#include <epicsString.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/convert.h>
#include <pv/reftrack.h>
#include <pv/alarm.h>
SCHED_WRAPS
using namespace vh;
using namespace g;
using namespace epics::pvData;

namespace {
typedef std::pair<TyP, TyP> PP;
// descriptions whose cache hash is the same
const std::vector<PP>& colliding() {
    static std::vector<PP> pairs;
    if(pairs.empty()) {
        for(int w = 0; w < 5; w++) {
            std::unordered_map<unsigned, size_t> seen; int found = 0;
            for(size_t n = 1; n < 150000 && found < 2; n++) {
                std::shared_ptr<Ty> t(new Ty); t->bound = n;
                if(w == 0) { t->k = KBStr; t->st = pvString; } else { t->k = KSArr; t->pol = 1 + w % 2; t->st = (ScalarType)((w * 5) % 12); }
                char b[64]; const char *nm = ScalarTypeFunc::name(t->st);
                snprintf(b, sizeof b, t->pol == 1 ? "%s<%zu>" : "%s[%zu]", nm, n);
                if(w == 0) snprintf(b, sizeof b, "string(%zu)", n);
                unsigned h = epicsStrHash(b, 0xbadc0de1);
                auto it = seen.find(h);
                if(it == seen.end()) seen[h] = n;
                else { std::shared_ptr<Ty> o(new Ty(*t)); o->bound = it->second; pairs.push_back(PP(o, t)); found++; }
            }
        }
    }
    return pairs;
}
struct Case {
    std::vector<TyP> pool; std::vector<std::string> text; std::vector<Opt> dummy;
    std::vector<std::vector<uint8_t> > wire[2];
    std::mutex boxm; std::vector<std::pair<size_t, FieldConstPtr> > box; std::vector<std::pair<size_t, PVFieldPtr> > vbox;
};
std::string printed(const Field& f) { std::ostringstream o; o << f; return o.str(); }

struct Worker {
    Case& C; Rng R; size_t ops; bool values;
    std::vector<std::pair<size_t, FieldConstPtr> > own;
    struct V { size_t i; Val v; PVFieldPtr p; };
    std::vector<V> vals;
    std::map<const char*, uint64_t> n; // counters
    uint64_t sig;
    Worker(Case& C, uint64_t seed, size_t ops, bool values) : C(C), R(seed), ops(ops), values(values), sig(0) {}
    FieldConstPtr viaBuilder(const Ty& t) {
        FieldBuilderPtr b(R.coin() ? getFieldCreate()->createFieldBuilder() : FieldBuilder::begin());
        if(t.id != (t.k == KStruct ? "structure" : "union")) b->setId(t.id);
        for(size_t i = 0; i < t.kids.size(); i++) {
            const Ty& k = *t.kids[i];
            if(k.k == KScalar && R.coin()) b->add(t.names[i], k.st);
            else if(k.k == KSArr && k.pol == 0 && R.coin()) b->addArray(t.names[i], k.st);
            else b->add(t.names[i], construct(k));
        }
        if(t.k == KStruct) return b->createStructure();
        return b->createUnion();
    }
    FieldConstPtr construct(const Ty& t) {
        if((t.k == KStruct || t.k == KUnion) && R.chance(1, 3)) return viaBuilder(t);
        return build(t);
    }
    void good(size_t i, const FieldConstPtr& f, const char *how) {
        VCHECK(!!f, "null-type", how);
        TyP g(tyOf(*f));
        VCHECK(eqTy(*g, *C.pool[i]), "wrong-type", how << ": asked for " << descTy(*C.pool[i]) << " got " << descTy(*g));
    }
    FieldConstPtr get(size_t i) {
        const Ty& t = *C.pool[i];
        FieldConstPtr f; const char *how;
        if(R.chance(1, 3)) {
            bool be = R.coin();
            std::unique_ptr<In> in(newIn(R, C.wire[be][i], be));
            f = getFieldCreate()->deserialize(&in->buf, in.get());
            how = "decoded"; n["types_decoded"]++;
        } else { f = construct(t); how = "created"; n["types_created"]++; }
        good(i, f, how);
        return f;
    }
    void step() {
        unsigned c = R.below(values ? 13 : 10);
        size_t i = R.below(C.pool.size());
        sig = sig * 31 + c * 8 + i;
        switch(c) {
        case 0: case 1: own.push_back(std::make_pair(i, get(i))); break;
        case 2: get(i); n["dropped"]++; break;             // built and dropped at once
        case 3: if(!own.empty()) { size_t k = R.below(own.size()); own[k] = own.back(); own.pop_back(); n["dropped"]++; } break;
        case 4: if(own.size() > 8) { own.clear(); n["dropped"] += 9; } else own.push_back(std::make_pair(i, get(i))); break;
        case 5: if(own.size() > 1) { // equality is about the description
            auto a = R.pick(own), b = R.pick(own);
            bool same = eqTy(*C.pool[a.first], *C.pool[b.first]);
            VCHECK((*a.second == *b.second) == same && (*a.second != *b.second) == !same, "type-equality",
                descTy(*C.pool[a.first]) << " and " << descTy(*C.pool[b.first]) << " same=" << same);
            n[same ? "equal_types" : "different_types"]++;
        } break;
        case 6: if(!own.empty()) { auto a = R.pick(own); bool be = R.coin();
            std::unique_ptr<Out> o(newOut(R, be)); a.second->serialize(&o->buf, o.get());
            VCHECK(o->finish() == C.wire[be][a.first], "type-bytes", descTy(*C.pool[a.first])); n["types_encoded"]++; } break;
        case 7: if(!own.empty()) { auto a = R.pick(own);
            std::string s(printed(*a.second)); VCHECK(s == C.text[a.first], "type-text", descTy(*C.pool[a.first]) << " printed " << q(s)); n["types_printed"]++;
            VCHECK(a.second->getID().size() > 0, "type-id", descTy(*C.pool[a.first])); } break;
        case 8: { // hand over
            std::lock_guard<std::mutex> G(C.boxm);
            if(!own.empty() && R.coin()) { size_t k = R.below(own.size()); C.box.push_back(own[k]); own[k] = own.back(); own.pop_back(); n["handed_over"]++; }
            else if(!C.box.empty()) { own.push_back(C.box.back()); C.box.pop_back(); n["taken_over"]++; }
            if(!own.empty()) good(own.back().first, own.back().second, "handed over");
        } break;
        case 9: if(!own.empty()) { auto a = R.pick(own); good(a.first, a.second, "kept"); } break;
        case 10: { // a value keeps its type
            V v; v.i = i; const Ty& t = *C.pool[i]; Opt O; O.bigArrays = false; O.longStrings = false; O.wide = false;
            FieldConstPtr f(get(i));
            v.p = R.coin() ? f->build() : getPVDataCreate()->createPVField(f);
            f.reset();
            v.v = genVal(R, t, O); assign(*v.p, t, v.v, &R);
            vals.push_back(v); n["values"]++; break; }
        case 11: if(!vals.empty()) { size_t k = R.below(vals.size()); V v(vals[k]); const Ty& t = *C.pool[v.i];
            VCHECK(eqVal(t, v.v, read(*v.p, t)), "value", descTy(t) << " " << descVal(t, v.v));
            good(v.i, v.p->getField(), "type of a value");
            switch(R.below(4)) {
            case 0: { PVFieldPtr c(getPVDataCreate()->createPVField(v.p)); VCHECK(eqVal(t, v.v, read(*c, t)), "clone", descTy(t)); n["clones"]++; break; }
            case 1: { bool be = R.coin(); std::unique_ptr<Out> o(newOut(R, be)); v.p->serialize(&o->buf, o.get());
                Enc e(be); e.val(t, v.v); VCHECK(o->finish() == e.b, "value-bytes", descTy(t) << descVal(t, v.v)); n["values_encoded"]++; break; }
            case 2: { bool be = R.coin(); Enc e(be); e.val(t, v.v); std::unique_ptr<In> in(newIn(R, e.b, be));
                PVFieldPtr p(getPVDataCreate()->createPVField(v.p->getField())); p->deserialize(&in->buf, in.get());
                VCHECK(eqVal(t, v.v, read(*p, t)), "value-decoded", descTy(t)); n["values_decoded"]++; break; }
            case 3: vals[k] = vals.back(); vals.pop_back(); n["values_dropped"]++; break;
            } } break;
        case 12: { // global helpers
            switch(R.below(5)) {
            case 0: { ScalarType st = (ScalarType)R.below(12); bool va = st != pvString && R.coin();
                StructureConstPtr s(getStandardField()->scalar(st, va ? "alarm,timeStamp,display,control,valueAlarm" : "alarm,timeStamp,display"));
                VCHECK(s && s->getNumberFields() == (va ? 6u : 4u), "standard-scalar", printed(*s));
                VCHECK(dynamic_cast<const Scalar&>(*s->getField("value")).getScalarType() == st, "standard-scalar-type", printed(*s));
                VCHECK(*s->getField("alarm") == *getStandardField()->alarm() && *s->getField("timeStamp") == *getStandardField()->timeStamp(), "standard-shared", printed(*s));
                n["standard_types"]++; break; }
            case 1: { ScalarType st = (ScalarType)R.below(12); PVStructurePtr p(getStandardPVField()->scalarArray(st, "alarm,timeStamp"));
                VCHECK(p && p->getSubField<PVScalarArray>("value") && p->getSubField<PVInt>("alarm.severity"), "standard-array", p); n["standard_values"]++; break; }
            case 2: { StringArray ch; ch.push_back("a"); ch.push_back("b"); PVStructurePtr p(getStandardPVField()->enumerated(ch, "alarm"));
                VCHECK(p && p->getSubFieldT<PVStringArray>("value.choices")->view().size() == 2, "standard-enum", p); n["standard_values"]++; break; }
            case 3: { PVScalarPtr p(getPVDataCreate()->createPVScalar((ScalarType)R.below(12)));
                int x = R.below(2); ConvertPtr cv(getConvert());
                if(p->getScalar()->getScalarType() == pvBoolean) cv->fromString(p, x ? "true" : "false");
                else { cv->fromInt(p, x); VCHECK(cv->toInt(p) == x && cv->toString(p) == (x ? "1" : "0"), "convert", x << " " << cv->toString(p)); }
                n["converted"]++; break; }
            case 4: { int k = R.below(5); AlarmSeverity s = AlarmSeverityFunc::getSeverity(k); StringArrayPtr nm(AlarmSeverityFunc::getSeverityNames());
                VCHECK((int)s == k && nm->size() == 5, "alarm-names", k);
                VCHECK(AlarmStatusFunc::getStatusNames()->size() == 8, "alarm-names", k); break; }
            } } break;
        }
    }
    void run() {
        try { for(size_t i = 0; i < ops; i++) { step(); if(!(i & 15)) tick(); } }
        catch(Abandon&) {}
        catch(std::exception& e) { violation("unexpected-exception:worker", e.what()); }
        own.clear(); vals.clear();
    }
};

// the library is not touched by other threads before the barrier
struct Barrier {
    std::atomic<unsigned> n; unsigned want;
    Barrier(unsigned w) : n(0), want(w) {}
    void wait() { n.fetch_add(1, std::memory_order_relaxed); while(n.load(std::memory_order_relaxed) < want) {} }
};

void fill(Case& C, Rng& R) {
    Opt O; O.depth = 1 + R.below(2); O.width = 3; O.bigArrays = false; O.longStrings = false; O.wide = false;
    size_t n = 2 + R.below(4);
    for(size_t i = 0; i < n; i++) {
        if(R.chance(1, 4) && !colliding().empty() && C.pool.size() < 4) {
            PP p(R.pick(colliding()));
            bool member = R.coin();
            for(auto x : { p.first, p.second }) {
                if(member) { std::shared_ptr<Ty> s(new Ty); s->k = KStruct; s->id = "structure"; s->names.push_back("m"); s->kids.push_back(x); x = s; }
                C.pool.push_back(x);
            }
        } else if(!C.pool.empty() && R.chance(1, 3)) { // a type containing another one of the pool
            std::shared_ptr<Ty> s(new Ty);
            TyP in(R.pick(C.pool));
            if(in->k == KStruct && R.coin()) { s->k = KStructArr; s->kids.push_back(in); }
            else { s->k = R.coin() ? KStruct : KUnion; s->id = s->k == KStruct ? "structure" : "union"; s->names.push_back("p"); s->kids.push_back(in);
                if(R.coin()) { s->names.push_back("q"); s->kids.push_back(in); } }
            C.pool.push_back(s);
        } else C.pool.push_back(genTy(R, O));
    }
    for(int be = 0; be < 2; be++) for(auto& t : C.pool) { Enc e(be); e.ty(*t); C.wire[be].push_back(e.b); }
}
void go(Rng& R, bool values) {
    sch::Perturb P(R);
    Case C; fill(C, R);
    size_t n0 = epics::atomic::get(Field::num_instances), p0 = epics::atomic::get(PVField::num_instances);
    { std::vector<FieldConstPtr> f; for(auto& t : C.pool) { f.push_back(build(*t)); C.text.push_back(printed(*f.back())); } }
    VCHECK(epics::atomic::get(Field::num_instances) >= n0, "instances", "");
    n0 = epics::atomic::get(Field::num_instances);
    size_t nt = 2 + R.below(5), ops = 20 + R.below(60);
    std::vector<std::unique_ptr<Worker> > w;
    std::vector<std::thread> th;
    for(size_t i = 0; i < nt; i++) w.emplace_back(new Worker(C, R.next(), ops, values));
    Barrier B(nt);
    for(size_t i = 0; i < nt; i++) { Worker *x = w[i].get(); th.push_back(std::thread([x, &B] { B.wait(); x->run(); })); }
    for(auto& t : th) t.join();
    uint64_t sig = 0;
    for(auto& x : w) { for(auto& kv : x->n) count(kv.first, kv.second); sig = mix(sig ^ x->sig); }
    distinct(sig); count("thread_ops", nt * ops);
    w.clear(); C.box.clear();
    size_t n1 = epics::atomic::get(Field::num_instances), p1 = epics::atomic::get(PVField::num_instances);
    VCHECK(n1 == n0, "types-left", n0 << " types before, " << n1 << " after all were dropped");
    VCHECK(p1 == p0, "values-left", p0 << " values before, " << p1 << " after all were dropped");
    count("quiescent_counts");
    if(st().caseno < 3) { std::string s; for(auto& t : C.pool) s += descTy(*t) + " | "; sample(s); }
}
}

MODE(shared) { getStandardField(); getConvert(); getStandardPVField(); go(R, false); }
MODE(sharedvalues) { getStandardField(); getConvert(); getStandardPVField(); go(R, true); }

// very many types alive at once
MODE(many) {
    Opt O; O.bigArrays = false; O.longStrings = false; O.wide = false; O.rawIds = R.coin();
    size_t n = R.chance(1, 4) ? 2000 + R.below(3000) : 200 + R.below(1500), nt = 1 + R.below(4);
    std::vector<TyP> ts; std::vector<FieldConstPtr> fs; std::map<std::vector<uint8_t>, size_t> key; std::map<const Field*, size_t> ptr;
    size_t same = 0;
    for(size_t i = 0; i < n; i++) {
        O.depth = R.below(3); O.width = 1 + R.below(4);
        TyP t;
        if(R.chance(1, 8)) { std::shared_ptr<Ty> b(new Ty); b->k = KBStr; b->st = pvString; b->bound = 1 + R.below(100000); t = b; }
        else t = genTy(R, O);
        Enc e(false); e.ty(*t);
        FieldConstPtr f(build(*t));
        auto it = key.find(e.b);
        if(it != key.end()) { same++; VCHECK(f == fs[it->second], "many-equal", descTy(*t) << " built again is another object, with " << fs.size() << " types alive"); continue; }
        auto ip = ptr.find(f.get());
        if(ip != ptr.end()) VFAIL("many-different", descTy(*t) << " is the same object as " << descTy(*ts[ip->second]));
        key[e.b] = ts.size(); ptr[f.get()] = ts.size(); ts.push_back(t); fs.push_back(f);
    }
    count("equal_types", same); count("types_created", n);
    for(int round = 0; round < 2; round++) {
        std::vector<std::string> bad(nt); std::vector<uint64_t> seeds; for(size_t i = 0; i < nt; i++) seeds.push_back(R.next());
        std::vector<std::thread> th; Barrier B(nt);
        for(size_t k = 0; k < nt; k++) th.push_back(std::thread([&, k] {
            Rng r(seeds[k]); B.wait();
            for(size_t j = 0; j < 300 && bad[k].empty(); j++) {
                size_t i = r.below(ts.size()); FieldConstPtr f;
                try {
                    if(r.coin()) f = build(*ts[i]);
                    else { bool be = r.coin(); Enc e(be); e.ty(*ts[i]); std::unique_ptr<In> in(newIn(r, e.b, be)); f = getFieldCreate()->deserialize(&in->buf, in.get()); }
                } catch(std::exception& x) { bad[k] = descTy(*ts[i]) + " : " + x.what(); continue; }
                if(fs[i] && f != fs[i]) bad[k] = descTy(*ts[i]) + " made again is another object";
                else if(!eqTy(*tyOf(*f), *ts[i])) bad[k] = descTy(*ts[i]) + " made again is " + descTy(*tyOf(*f));
            }
        }));
        for(auto& t : th) t.join();
        for(auto& b : bad) VCHECK(b.empty(), "many-again", b << " with " << fs.size() << " types alive, round " << round);
        count("many_again", nt * 300);
        for(auto& f : fs) if(R.coin()) f.reset(); // some stay alive as members of others
    }
    distinct(mix(n ^ (same << 20) ^ R.next()));
}

// the very first use of every global creator, from several threads at once (one case per process)
MODE(first) {
    size_t nt = 2 + R.below(6);
    std::vector<const void*> got(nt * 5);
    std::vector<std::string> txt(nt);
    std::vector<std::thread> th; Barrier B(nt);
    std::vector<uint64_t> seeds; for(size_t i = 0; i < nt; i++) seeds.push_back(R.next());
    {
    sch::Perturb P(R);
    for(size_t i = 0; i < nt; i++) th.push_back(std::thread([&, i] {
        Rng r(seeds[i]); B.wait();
        size_t o = r.below(5); bool same = seeds[0] & 1; if(same) o = 0;
        for(size_t k = 0; k < 5; k++) switch((k + o) % 5) {
        case 0: { FieldCreatePtr f(getFieldCreate()); got[i * 5] = f.get(); txt[i] += ScalarTypeFunc::name(f->createScalar(pvInt)->getScalarType()); break; }
        case 1: { PVDataCreatePtr f(getPVDataCreate()); got[i * 5 + 1] = f.get(); PVStringPtr s(f->createPVScalar<PVString>()); s->put("x"); VCHECK(s->get() == "x", "first", ""); break; }
        case 2: { StandardFieldPtr f(getStandardField()); got[i * 5 + 2] = f.get(); txt[i] += printed(*f->timeStamp()); txt[i] += printed(*f->doubleAlarm()); break; }
        case 3: { StandardPVFieldPtr f(getStandardPVField()); got[i * 5 + 3] = f.get(); PVStructurePtr p(f->scalar(pvDouble, "alarm")); txt[i] += p->getStructure()->getID(); break; }
        case 4: { ConvertPtr f(getConvert()); got[i * 5 + 4] = f.get(); PVIntPtr p(getPVDataCreate()->createPVScalar<PVInt>()); f->fromString(p, "17"); if(p->get() != 17) txt[i] += "bad"; break; }
        }
        std::sort(txt[i].begin(), txt[i].end());
    }));
    for(auto& t : th) t.join();
    }
    for(size_t i = 0; i < nt; i++) for(size_t k = 0; k < 5; k++)
        VCHECK(got[i * 5 + k] && got[i * 5 + k] == got[k], "creator-differs", "creator " << k << " thread " << i);
    for(size_t i = 1; i < nt; i++) VCHECK(txt[i] == txt[0], "first-use-result", q(txt[i]) << " but " << q(txt[0]));
    count("first_uses", nt * 5); distinct(mix(seeds[0])); 
}
VH_MAIN
