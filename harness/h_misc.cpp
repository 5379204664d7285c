// C32: exceptions keep their type and message and say where they were thrown.
// C33: the unit test helpers count every comparison once, with the right verdict and text.
#include "tree.h"
#include <sys/mman.h>
#include <thread>
#include <pv/epicsException.h>
#include <pv/pvUnitTest.h>
using namespace g;
using vh::count;

static std::string slurp(int fd) {
    std::string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET);
    while((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    return s;
}
// ---------- exceptions
struct Custom : std::runtime_error {
    int a; std::string b;
    Custom(int a, const std::string& b) : std::runtime_error("custom " + b), a(a), b(b) {}
};
struct Plain : std::exception { int code; Plain() : code(7) {} explicit Plain(int c) : code(c) {} const char *what() const throw() { return "plain"; } };
static std::string msgOf(Rng& R) {
    static const char *odd[] = { "", "%s%n%d", "two\nlines", "\n", "On line 3 of x", " " };
    if(R.chance(1, 3)) return odd[R.below(6)];
    std::string s; size_t n = R.chance(1, 10) ? R.below(3000) : R.below(40);
    while(n--) s += (char)R.range(1, 255);
    return s;
}
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
// the addresses of the frames
static std::string frames(const std::string& s) {
    std::string o;
    for(size_t i = 0; (i = s.find("[0x", i)) != s.npos; i++) o += s.substr(i, s.find(']', i) - i) + "]";
    return o;
}
static std::string site(int line) { std::ostringstream o; o << "On line " << line << " of " << __FILE__ << "\n"; return o.str(); }
// everything said about one caught exception
static void checkThrown(std::exception& e, const char *kind, const std::string& m, int line) {
    pvd::ExceptionMixin *mx = dynamic_cast<pvd::ExceptionMixin*>(&e);
    VCHECK(mx, "no-site", kind);
    std::string s(SHOW_EXCEPTION(e)), at(site(line));
    VCHECK(starts(s, at), "wrong-site", kind << " " << vh::q(s) << " instead of " << vh::q(at));
    VCHECK(s == mx->show() && s == pvd::detail::showException(e), "site-unstable", kind);
    // one line for each frame of the stack, this file's function among them or not, but at least one and at most EXCEPT_DEPTH
    size_t lines = std::count(s.begin(), s.end(), '\n');
    VCHECK(lines >= 2 && lines <= 1 + EXCEPT_DEPTH && s.back() == '\n', "stack", kind << " " << lines << " lines");
    int fd = memfd_create("vt", 0); FILE *f = fdopen(fd, "w+");
    PRINT_EXCEPTION2(e, f); fflush(f);
    std::string p(slurp(fd)); fclose(f);
    // printed: the site, then the same frames, then a hint
    VCHECK(starts(p, at) && starts(frames(p), frames(s)), "print-site", kind << " " << vh::q(p) << " and shown " << vh::q(s));
    const bool base = dynamic_cast<pvd::BaseException*>(&e) != 0;
    std::string w(e.what());
    if(!base) VCHECK(w == m, "message", kind << " " << vh::q(w) << " instead of " << vh::q(m));
    else VCHECK(w == m + "\n" + s + "\n", "base-message", kind << " " << vh::q(w) << " instead of " << vh::q(m));
    VCHECK(std::string(e.what()) == w, "message-unstable", kind);
    count("thrown");
}
static void deep(int n, const std::function<void()>& f) { if(n) { deep(n - 1, f); asm volatile(""); } else f(); }

MODE(exceptions) {
    std::string m(msgOf(R)); std::string c(m.c_str());
    int line = 0; unsigned how = R.below(15); int depth = (int)R.below(40), code = (int)R.next();
    std::exception_ptr kept;
    auto run = [&](const std::function<void()>& f) { deep(depth, f); };
    bool caught = false;
    switch(how) {
    case 0: try { run([&] { line = __LINE__; THROW_EXCEPTION(std::logic_error(m)); }); } catch(std::logic_error& e) { caught = true; checkThrown(e, "logic_error", c, line); kept = std::current_exception(); } break;
    case 1: try { run([&] { line = __LINE__; THROW_EXCEPTION2(std::runtime_error, m); }); } catch(std::runtime_error& e) { caught = true; checkThrown(e, "runtime_error", c, line); kept = std::current_exception(); } break;
    case 2: try { run([&] { line = __LINE__; THROW_EXCEPTION2(std::out_of_range, m); }); } catch(std::out_of_range& e) { caught = true; checkThrown(e, "out_of_range", c, line); kept = std::current_exception(); } break;
    case 3: try { run([&] { line = __LINE__; THROW_EXCEPTION1(std::bad_alloc); }); } catch(std::bad_alloc& e) { caught = true; checkThrown(e, "bad_alloc", std::bad_alloc().what(), line); kept = std::current_exception(); } break;
    case 4: try { run([&] { line = __LINE__; THROW_EXCEPTION1(Plain); }); } catch(Plain& e) { caught = true; VCHECK(e.code == 7, "members", ""); checkThrown(e, "Plain", "plain", line); kept = std::current_exception(); } break;
    case 5: try { run([&] { line = __LINE__; THROW_EXCEPTION2(Plain, code); }); } catch(Plain& e) { caught = true; VCHECK(e.code == code, "members", ""); checkThrown(e, "Plain", "plain", line); kept = std::current_exception(); } break;
    case 6: try { run([&] { line = __LINE__; THROW_EXCEPTION(Custom(code, m)); }); } catch(Custom& e) { caught = true; VCHECK(e.a == code && e.b == m, "members", ""); checkThrown(e, "Custom", "custom " + c, line); kept = std::current_exception(); } break;
    case 7: try { run([&] { line = __LINE__; throw pvd::detail::ExceptionMixed<Custom>(code, m, __FILE__, __LINE__); }); } catch(Custom& e) { caught = true; VCHECK(e.a == code && e.b == m, "members", ""); checkThrown(e, "Custom", "custom " + c, line); kept = std::current_exception(); } break;
    case 8: try { run([&] { line = __LINE__; THROW_EXCEPTION(pvd::BaseException(m)); }); } catch(pvd::BaseException& e) { caught = true; checkThrown(e, "BaseException", c, line); kept = std::current_exception(); } break;
    case 9: try { run([&] { line = __LINE__; THROW_EXCEPTION2(pvd::BaseException, m); }); } catch(pvd::BaseException& e) { caught = true; checkThrown(e, "BaseException", c, line); kept = std::current_exception(); } break;
    case 12: { // thrown after its text was asked for, as when one is reported and passed on
        pvd::BaseException b(m); b.what();
        try { run([&] { line = __LINE__; THROW_EXCEPTION(b); }); } catch(pvd::BaseException& e) { caught = true; checkThrown(e, "BaseException", c, line); kept = std::current_exception(); }
        count("again"); break; }
    case 13: { // passed on from another place
        try { try { run([&] { THROW_EXCEPTION2(pvd::BaseException, m); }); } catch(pvd::BaseException& e) { if(R.coin()) e.what(); run([&] { line = __LINE__; THROW_EXCEPTION(e); }); } }
        catch(pvd::BaseException& e) { caught = true; checkThrown(e, "BaseException", c, line); kept = std::current_exception(); }
        count("again"); break; }
    case 14: { // one exception examined by several threads at once
        try { run([&] { line = __LINE__; THROW_EXCEPTION2(pvd::BaseException, m); }); } catch(pvd::BaseException& e) { caught = true; kept = std::current_exception(); }
        std::string got[3]; std::vector<std::thread> th; std::atomic<int> go(0);
        for(int i = 0; i < 3; i++) th.emplace_back([&, i] { go++; while(go < 3) {} try { std::rethrow_exception(kept); } catch(pvd::BaseException& e) { got[i] = e.what(); } });
        for(auto& t : th) t.join();
        try { std::rethrow_exception(kept); } catch(pvd::BaseException& e) { checkThrown(e, "BaseException", c, line); for(auto& x : got) VCHECK(x == e.what(), "base-message", vh::q(x)); }
        count("shared"); break; }
    case 10: { // without a site; copies before and after its text was asked for
        pvd::BaseException e(m), before(e);
        VCHECK(std::string(e.what()) == c + "\n", "base-message", vh::q(e.what()));
        pvd::BaseException after(e);
        VCHECK(std::string(before.what()) == c + "\n" && std::string(after.what()) == c + "\n" && std::string(e.what()) == c + "\n", "base-copy", vh::q(m));
        VCHECK(SHOW_EXCEPTION(e) == std::string() && pvd::detail::showException(e) == std::string(), "site-invented", "");
        pvd::BaseException other("x"); other.what(); other = e;
        VCHECK(std::string(other.what()) == c + "\n", "base-assign", vh::q(other.what()));
        try { THROW_EXCEPTION2(pvd::BaseException, m); } catch(pvd::BaseException& x) { if(R.coin()) x.what(); pvd::BaseException cut(x); other = x;
            VCHECK(std::string(cut.what()) == c + "\n" && std::string(other.what()) == c + "\n", "base-cut", vh::q(cut.what())); }
        count("without_site"); return; }
    default: { // an exception of another kind
        std::runtime_error e(m); int fd = memfd_create("vt", 0); FILE *f = fdopen(fd, "w+");
        VCHECK(SHOW_EXCEPTION(e) == std::string(), "site-invented", "");
        PRINT_EXCEPTION2(e, f); fflush(f); std::string p(slurp(fd)); fclose(f);
        VCHECK(p.empty(), "site-invented", vh::q(p));
        count("without_site"); return; }
    }
    VCHECK(caught && kept, "not-caught", how);
    // the same in another thread
    std::string there, site2; std::exception_ptr k2(kept); kept = nullptr;
    std::thread([&] { try { std::rethrow_exception(k2); } catch(std::exception& e) { there = e.what(); site2 = SHOW_EXCEPTION(e); } }).join();
    VCHECK(starts(site2, site(line)), "wrong-site", "after transfer");
    count("transferred");
    vh::distinct(vh::hstr(m, how * 64 + depth));
}

// ---------- test helpers
namespace {
struct Capture { // standard output to memory
    int fd, old; std::string& into; bool on;
    explicit Capture(std::string& s) : into(s), on(true) { fflush(stdout); fd = memfd_create("vt", 0); old = dup(1); dup2(fd, 1); }
    void end() { if(!on) return; on = false; fflush(stdout); dup2(old, 1); close(old); into = slurp(fd); close(fd); }
    ~Capture() { end(); }
};
struct Want { // the output which is due
    std::string text; int n, failed; Want() : n(0), failed(0) {}
    void line(bool test, bool ok, const std::string& l) {
        if(test) { char b[32]; n++; failed += !ok; snprintf(b, sizeof b, "%sok %2d - ", ok ? "" : "not ", n); text += b; } else text += "# ";
        text += l.c_str(); text += "\n";
    }
    void msg(bool test, bool ok, const std::string& m) {
        if(m.find('\n') == m.npos) return line(test, ok, m);
        std::istringstream i(m); std::string l; bool first = true;
        while(std::getline(i, l)) { line(test && first, ok, l); first = false; }
    }
    void plain(bool ok, const std::string& l) { line(true, ok, l); }
};
Want *want; int steps; uint64_t methodSeed;
template<typename T> std::string out(const T& v) { std::ostringstream o; o << v; return o.str(); }
std::string extra(Rng& R) {
    switch(R.below(6)) { case 0: return " more"; case 1: return "\nsecond line\nthird"; case 2: return "\n"; case 3: return " %s %d %n"; default: return ""; }
}
template<typename T> T val(Rng& R) { return (T)R.range(0, 3); }
template<> std::string val<std::string>(Rng& R) { static const char *s[] = { "a", "b", "", "two\nlines" }; return s[R.below(4)]; }
template<> double val<double>(Rng& R) { static const double d[] = { 0, -0.0, 1.5, NAN }; return d[R.below(4)]; }
template<> float val<float>(Rng& R) { return (float)val<double>(R); }
template<typename T> void cmp(Rng& R) {
    T x = val<T>(R), y = val<T>(R); std::string e(extra(R));
    if(R.coin()) { testEqual(x, y) << e; want->msg(true, x == y, "x (" + out(x) + ") == y (" + out(y) + ")" + e); }
    else { testNotEqual(x, y) << e; want->msg(true, x != y, "x (" + out(x) + ") != y (" + out(y) + ")" + e); }
    count("compared");
}
::detail::testPassx passed(bool b) { return ::detail::testPassx(b) << "handed"; }
struct Klass {
    static int live; int made;
    Klass() : made(++live) {} ~Klass() { live--; }
    void one() { Rng R(methodSeed); cmp<int>(R); steps++; }
    void none() { steps++; }
};
int Klass::live;
template<typename PVT> void fieldEq(Rng& R, const pvd::PVStructurePtr& s, const std::string& name, const pvd::PVFieldPtr& f) {
    typedef typename PVT::value_type T;
    T exp = (T)val<T>(R); std::string e(extra(R));
    testFieldEqual<PVT>(s, name.c_str(), exp) << e;
    pvd::PVField *g = f.get();
    if(pvd::PVUnion *u = dynamic_cast<pvd::PVUnion*>(g)) g = u->get().get();
    PVT *v = dynamic_cast<PVT*>(g);
    if(!s) want->msg(true, false, " null structure pointer" + e);
    else if(!v) want->msg(true, false, " field '" + name + "' with type " + typeid(PVT).name() + " does not exist" + e);
    else want->msg(true, v->get() == exp, name + " (" + out(v->get()) + ") == " + out(exp) + e);
    count(v && s ? "fields" : "no_field");
}
template<typename PVT> void arrayEq(Rng& R, const pvd::PVStructurePtr& s, const std::string& name, const pvd::PVFieldPtr& f) {
    typename PVT::svector ex; for(size_t i = R.below(3); i; i--) ex.push_back(val<typename PVT::value_type>(R));
    typename PVT::const_svector exp(freeze(ex)); std::string e(extra(R));
    PVT *v = dynamic_cast<PVT*>(f.get());
    if(v && R.coin()) exp = v->view(), count("same_array");
    testFieldEqual<PVT>(s, name.c_str(), exp) << e;
    if(!s) want->msg(true, false, " null structure pointer" + e);
    else if(!v) want->msg(true, false, " field '" + name + "' with type " + typeid(PVT).name() + " does not exist" + e);
    else {
        typename PVT::const_svector a(v->view()); bool same = a.size() == exp.size();
        for(size_t i = 0; same && i < a.size(); i++) same = a[i] == exp[i];
        want->msg(true, same, name + " (" + out(a) + ") == " + out(exp) + e);
    }
    count(v && s ? "arrays" : "no_field");
}
pvd::PVStructurePtr subject() {
    return pvd::getFieldCreate()->createFieldBuilder()->add("i", pvd::pvInt)->add("d", pvd::pvDouble)->add("s", pvd::pvString)->add("b", pvd::pvUByte)
        ->addArray("ai", pvd::pvInt)->addArray("as", pvd::pvString)->add("any", pvd::getFieldCreate()->createVariantUnion())
        ->addNestedUnion("u")->add("i", pvd::pvInt)->add("s", pvd::pvString)->endNested()
        ->addNestedStructure("in")->add("i", pvd::pvInt)->addArray("ai", pvd::pvInt)->endNested()->createStructure()->build();
}
}
MODE(testhelpers) {
    static const pvd::PVStructurePtr S(subject());
    static const char *names[] = { "i", "d", "s", "b", "ai", "as", "any", "u", "in", "in.i", "in.ai", "nothing", "in.nothing" };
    pvd::PVDataCreatePtr C(pvd::getPVDataCreate());
    // fill
    S->getSubFieldT<pvd::PVInt>("i")->put(val<int>(R)); S->getSubFieldT<pvd::PVInt>("in.i")->put(val<int>(R));
    S->getSubFieldT<pvd::PVDouble>("d")->put(val<double>(R)); S->getSubFieldT<pvd::PVString>("s")->put(val<std::string>(R)); S->getSubFieldT<pvd::PVUByte>("b")->put(val<uint8_t>(R));
    for(auto n : { "ai", "in.ai" }) { pvd::PVIntArray::svector v; for(size_t i = R.below(3); i; i--) v.push_back(val<int>(R)); S->getSubFieldT<pvd::PVIntArray>(n)->replace(freeze(v)); }
    { pvd::PVStringArray::svector v; for(size_t i = R.below(3); i; i--) v.push_back(val<std::string>(R)); S->getSubFieldT<pvd::PVStringArray>("as")->replace(freeze(v)); }
    { pvd::PVUnionPtr u(S->getSubFieldT<pvd::PVUnion>("any")); unsigned k = R.below(3);
      if(k == 0) u->set(pvd::PVFieldPtr()); else if(k == 1) { pvd::PVIntPtr i(C->createPVScalar<pvd::PVInt>()); i->put(val<int>(R)); u->set(i); } else { pvd::PVStringPtr i(C->createPVScalar<pvd::PVString>()); i->put(val<std::string>(R)); u->set(i); } }
    { pvd::PVUnionPtr u(S->getSubFieldT<pvd::PVUnion>("u")); unsigned k = R.below(3);
      if(k == 0) u->select(pvd::PVUnion::UNDEFINED_INDEX); else if(k == 1) u->select<pvd::PVInt>("i")->put(val<int>(R)); else u->select<pvd::PVString>("s")->put(val<std::string>(R)); }
    Val keep(read(*S, *tyOf(*S->getField())));
    Want w; want = &w; std::string got; int rc = -1, before = Klass::live; steps = 0; int due = 0;
    std::string escaped;
    {
        Capture cap(got);
        testPlan(0); w.text = ""; 
        for(size_t op = 1 + R.below(14); op; op--) {
            std::string e(extra(R));
            switch(R.below(14)) {
            case 0: cmp<int>(R); break;
            case 1: cmp<std::string>(R); break;
            case 2: cmp<double>(R); break;
            case 3: cmp<uint64_t>(R); break;
            case 4: { bool b = R.coin(); testTrue(b) << e; w.msg(true, b, "b" + e); count("truths"); break; }
            case 5: { testShow() << "shown " << 5 << e; w.msg(false, false, "shown 5" + e); count("shows"); break; }
            case 6: { bool b = R.coin(); passed(b) << e; w.msg(true, b, "handed" + e); count("handed"); break; }
            case 7: { std::string m("m" + e); bool t = R.coin();
                testThrows(std::runtime_error, if(t) throw std::runtime_error(m));
                if(t) w.plain(true, "catch expected exception: " + m); else w.plain(false, "unexpected success of if(t) throw std::runtime_error(m)");
                count("throws"); break; }
            case 8: { // another exception passes through
                bool through = false;
                try { testThrows(std::runtime_error, throw std::bad_alloc()); } catch(std::bad_alloc&) { through = true; }
                if(!through) escaped = "swallowed"; count("throws"); break; }
            case 9: { methodSeed = R.next(); bool one = R.coin(); due++;
                // the banner precedes what the method reports
                w.text += one ? "# ------- Klass::one --------\n" : "# ------- Klass::none --------\n";
                if(one) TEST_METHOD(Klass, one); else TEST_METHOD(Klass, none);
                count("methods"); break; }
            default: {
                unsigned kind = R.below(8);
                static const char *fit[8][5] = { { "i", "in.i", "u", "any", "i" }, { "i", "in.i", "u", "any", "u" }, { "d", "d", "d", "any", "d" }, { "s", "u", "any", "s", "u" },
                    { "b", "b", "b", "any", "b" }, { "ai", "in.ai", "ai", "in.ai", "ai" }, { "ai", "in.ai", "ai", "in.ai", "ai" }, { "as", "as", "as", "as", "any" } };
                std::string n(R.chance(2, 3) ? fit[kind][R.below(5)] : names[R.below(13)]);
                pvd::PVStructurePtr s(R.chance(1, 12) ? pvd::PVStructurePtr() : S);
                pvd::PVFieldPtr f(S->getSubField(n));
                switch(kind) {
                case 0: case 1: fieldEq<pvd::PVInt>(R, s, n, f); break;
                case 2: fieldEq<pvd::PVDouble>(R, s, n, f); break;
                case 3: fieldEq<pvd::PVString>(R, s, n, f); break;
                case 4: fieldEq<pvd::PVUByte>(R, s, n, f); break;
                case 5: case 6: arrayEq<pvd::PVIntArray>(R, s, n, f); break;
                default: arrayEq<pvd::PVStringArray>(R, s, n, f);
                }
            } }
        }
        rc = testDone();
        cap.end();
    }
    // after the last result comes the summary
    VCHECK(starts(got, w.text), "test-output", vh::q(got) << " instead of " << vh::q(w.text));
    VCHECK(got.find("ok", w.text.size()) == std::string::npos || got.compare(w.text.size(), 2, "ok") != 0, "extra-result", vh::q(got.substr(w.text.size())));
    VCHECK((rc == 0) == (w.failed == 0), "test-verdict", "testDone() " << rc << " with " << w.failed << " of " << w.n << " failed");
    { std::string tail(got.substr(w.text.size())), t("Tests: "); size_t p = tail.find("Tests:");
      VCHECK(p == std::string::npos || atoi(tail.c_str() + p + 6) == w.n, "test-count", vh::q(tail) << " instead of " << w.n); }
    VCHECK(steps == due && Klass::live == before, "test-method", steps << " instead of " << due << ", " << Klass::live << " left");
    VCHECK(escaped.empty(), "other-exception", escaped);
    VCHECK(eqVal(*tyOf(*S->getField()), read(*S, *tyOf(*S->getField())), keep), "subject-changed", "");
    count("reports", w.n); if(w.failed) count("with_failures"); else count("all_passed");
    vh::distinct(vh::hstr(got));
    if(vh::st().samples.size() < 3) vh::sample(got);
}
VH_MAIN
