// C05 bit-selected updates, C06 BitSet, C20 compression
#include "tree.h"
#include <pv/bitSetUtil.h>
using namespace g;
using namespace vh;

static TyP genTree(Rng& R) {
    Opt O; O.depth = 1 + R.below(4); O.width = 1 + R.below(6);
    if(R.chance(1, 40)) { O.width = 80; O.depth = 2; }
    return genStruct(R, O);
}
static Opt valOpt() { Opt O; O.depth = 1; O.width = 3; O.longStrings = false; return O; }

MODE(update) {
    TyP t(genTree(R)); Opt O(valOpt());
    std::vector<Node> n(flat(t));
    Val sv(genVal(R, *t, O)), rv(genVal(R, *t, O));
    pvd::PVStructurePtr src(makeStruct(*t, sv, &R)), dst(makeStruct(*t, rv, &R));
    int rounds = 1 + R.below(4);
    for(int k = 0; k < rounds; k++) {
        // the part which is sent: the whole or a sub-structure
        size_t root = 0;
        if(R.chance(1, 4)) { std::vector<size_t> c; for(auto& x : n) if(x.t->k == KStruct) c.push_back(x.off); root = R.pick(c); }
        pvd::BitSet bits; std::set<size_t> ref;
        genBits(R, bits, ref, n.size());
        Sel sel = [&](size_t i) { return ref.count(i) != 0; };
        bool be = R.coin();
        Enc e(be); encSel(n, root, e, at(n, sv, root), sel);
        std::unique_ptr<Out> o(newOut(R, be));
        pvd::BitSet bits0(bits);
        pvd::PVStructurePtr s1(root ? std::tr1::dynamic_pointer_cast<pvd::PVStructure>(src->getSubFieldT(root)) : src);
        pvd::PVStructurePtr d1(root ? std::tr1::dynamic_pointer_cast<pvd::PVStructure>(dst->getSubFieldT(root)) : dst);
        s1->serialize(&o->buf, o.get(), &bits);
        std::vector<uint8_t> b(o->finish());
        VCHECK(bits == bits0, "update-mask-changed", "");
        VCHECK(b == e.b, "update-bytes", descTy(*t) << " root " << root << " bits " << descBits(ref) << " got " << hex(b) << " want " << hex(e.b));
        std::unique_ptr<In> in(newIn(R, b, be));
        d1->deserialize(&in->buf, in.get(), &bits);
        VCHECK(in->left() == 0 && bits == bits0, "update-consumed", descTy(*t) << " bits " << descBits(ref) << " left " << in->left());
        mergeSel(n, root, at(n, rv, root), at(n, sv, root), sel);
        Val got(read(*dst, *t));
        VCHECK(eqVal(*t, rv, got), "update-value", descTy(*t) << " root " << root << " bits " << descBits(ref) << " want " << descVal(*t, rv) << " got " << descVal(*t, got));
        Val sg(read(*src, *t));
        VCHECK(eqVal(*t, sv, sg), "update-source", descTy(*t));
        std::set<size_t> lv; leaves(n, root, sel, false, lv);
        count("updates"); count("fields_sent", lv.size()); count("fields_kept", n.size() - lv.size());
        distinct(hstr(descTy(*t)) ^ hstr(descBits(ref)) ^ root);
        if(n.size() > 4 && n.size() < 12 && lv.size() > 1) sample(descTy(*t) + " bits " + descBits(ref) + " sent " + hex(b));
        // the source changes
        size_t c = R.below(n.size());
        Val& part = at(n, sv, c); part = genVal(R, *n[c].t, O);
        pvd::PVFieldPtr f(c ? src->getSubFieldT(c) : pvd::PVFieldPtr(src));
        assign(*f, *n[c].t, part, &R);
    }
}

// ---- BitSet against std::set
static void same(const pvd::BitSet& b, const std::set<unsigned>& m, unsigned span, const std::string& op) {
    VCHECK(b.cardinality() == m.size(), "bits-cardinality", op << " " << b);
    VCHECK(b.isEmpty() == m.empty(), "bits-empty", op << " " << b);
    std::set<unsigned> got;
    for(int i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) { got.insert(i); VCHECK(got.size() <= m.size(), "bits-iterate", op); }
    VCHECK(got == m, "bits-members", op << " " << b);
    VCHECK(m.empty() ? true : b.size() > *m.rbegin(), "bits-size", op << " " << b.size());
    unsigned probe[] = { 0, 63, 64, 127, 128, span, m.empty() ? 1 : *m.rbegin(), m.empty() ? 2 : *m.rbegin() + 1, m.empty() ? 2 : *m.begin() };
    for(unsigned p : probe) {
        VCHECK(b.get(p) == (m.count(p) != 0), "bits-get", op << " bit " << p);
        auto it = m.lower_bound(p);
        int want = it == m.end() ? -1 : (int)*it;
        VCHECK(b.nextSetBit(p) == want, "bits-nextSet", op << " from " << p << " got " << b.nextSetBit(p) << " want " << want);
        unsigned c = p; while(m.count(c)) c++;
        VCHECK(b.nextClearBit(p) == (int)c, "bits-nextClear", op << " from " << p << " got " << b.nextClearBit(p) << " want " << c);
    }
    pvd::BitSet r; for(unsigned x : m) r.set(x);
    VCHECK(r == b && b == r && !(r != b) && !(b != r), "bits-equal", op << " " << b << " vs " << r);
    std::ostringstream o, w; o << b; w << "{"; bool first = true; for(unsigned x : m) { w << (first ? "" : ", ") << x; first = false; } w << "}";
    VCHECK(o.str() == w.str(), "bits-print", op << " " << o.str() << " want " << w.str());
}
MODE(bitset) {
    const int N = 3;
    pvd::BitSet b[N]; std::set<unsigned> m[N];
    static const unsigned spans[] = { 4, 64, 65, 130, 200, 700, 5000, 70000 };
    unsigned span = spans[R.chance(1, 60) ? 7 : R.below(7)];
    if(R.coin()) { b[1] = pvd::BitSet(R.below(300)); }
    if(R.coin()) { unsigned x = R.below(span), y = R.below(span), z = R.below(span); b[2] = pvd::BitSet({ x, y, z }); m[2] = { x, y, z }; same(b[2], m[2], span, "init"); }
    int steps = 5 + R.below(40); uint64_t h = span; std::ostringstream log;
    for(int s = 0; s < steps; s++) {
        int i = R.below(N), j = R.below(N), k = R.below(N); unsigned x = R.chance(1, 3) ? (unsigned)(R.below(4) * 64 + R.below(3)) % span : R.below(span);
        unsigned op = R.below(20);
        std::ostringstream d; d << op << ":" << i << j << k << ":" << x;
        log << d.str() << " ";
        h = mix(h ^ hstr(d.str()));
        switch(op) {
        case 0: case 1: case 2: b[i].set(x); m[i].insert(x); break;
        case 3: b[i].clear(x); m[i].erase(x); break;
        case 4: b[i].flip(x); if(!m[i].erase(x)) m[i].insert(x); break;
        case 5: b[i].set(x, true); m[i].insert(x); break;
        case 6: b[i].set(x, false); m[i].erase(x); break;
        case 7: if(R.chance(1, 4)) { b[i].clear(); m[i].clear(); } break;
        case 8: { b[i] &= b[j]; std::set<unsigned> r; for(unsigned y : m[i]) if(m[j].count(y)) r.insert(y); m[i] = r; break; }
        case 9: { b[i] |= b[j]; std::set<unsigned> r(m[j]); m[i].insert(r.begin(), r.end()); break; }
        case 10: { b[i] ^= b[j]; std::set<unsigned> r; for(unsigned y : m[i]) if(!m[j].count(y)) r.insert(y); for(unsigned y : m[j]) if(!m[i].count(y)) r.insert(y); m[i] = r; break; }
        case 11: { b[i].or_and(b[j], b[k]); std::set<unsigned> r(m[i]); for(unsigned y : m[j]) if(m[k].count(y)) r.insert(y); m[i] = r; break; }
        case 12: b[i] = b[j]; m[i] = m[j]; break;
        case 13: b[i].swap(b[j]); m[i].swap(m[j]); break;
        case 14: { bool w = false; for(unsigned y : m[i]) if(m[j].count(y)) w = true; VCHECK(b[i].logical_and(b[j]) == w, "bits-land", log.str()); break; }
        case 15: VCHECK(b[i].logical_or(b[j]) == !(m[i].empty() && m[j].empty()), "bits-lor", log.str()); break;
        case 16: { pvd::BitSet c(b[i]); VCHECK(c == b[i], "bits-copy", log.str()); c.flip(x); VCHECK(c != b[i], "bits-copy", log.str()); VCHECK((b[i] == b[j]) == (m[i] == m[j]), "bits-eq", log.str()); break; }
        case 18: case 19: { // a whole range
            unsigned a = R.coin() ? x / 64 * 64 : x, l = R.coin() ? 64 : R.below(130); bool on = op == 18 || R.coin();
            for(unsigned y = a; y < a + l && y < span; y++) { if(on) { b[i].set(y); m[i].insert(y); } else { b[i].clear(y); m[i].erase(y); } }
            break; }
        case 17: { bool be = R.coin(); std::unique_ptr<Out> o(newOut(R, be)); b[i].serialize(&o->buf, o.get()); std::vector<uint8_t> by(o->finish());
            std::unique_ptr<In> in(newIn(R, by, be)); b[j].deserialize(&in->buf, in.get()); m[j] = m[i]; break; }
        }
        same(b[i], m[i], span, log.str()); same(b[j], m[j], span, log.str());
        count("bit_ops");
    }
    distinct(h);
    if(steps < 9) sample("span " + std::to_string(span) + " ops " + log.str());
}

// ---- compression
MODE(compress) {
    TyP t(genTree(R));
    std::vector<Node> n(flat(t));
    pvd::PVStructurePtr s(std::tr1::static_pointer_cast<pvd::PVStructure>(make(*t)));
    pvd::BitSetPtr b(new pvd::BitSet); std::set<size_t> ref;
    genBits(R, *b, ref, n.size());
    // often all members of some structure
    if(R.coin()) { std::vector<size_t> c; for(auto& x : n) if(x.num > 1) c.push_back(x.off); if(!c.empty()) { size_t r = R.pick(c); for(size_t i = r + 1; i < r + n[r].num; i++) { b->set(i); ref.insert(i); } } }
    Sel sel = [&](size_t i) { return ref.count(i) != 0; };
    std::set<size_t> before; leaves(n, 0, sel, false, before);
    bool r = pvd::BitSetUtil::compress(b, s);
    std::set<size_t> now; for(int i = b->nextSetBit(0); i >= 0; i = b->nextSetBit(i + 1)) now.insert(i);
    Sel sel2 = [&](size_t i) { return now.count(i) != 0; };
    std::set<size_t> after; leaves(n, 0, sel2, false, after);
    std::string ctx(descTy(*t) + " bits " + descBits(ref) + " now " + descBits(now));
    VCHECK(before == after, "compress-selection", ctx);
    VCHECK(r == !before.empty(), "compress-result", ctx << " result " << r);
    for(auto& x : n) {
        std::set<size_t> lv; leaves(n, x.off, [](size_t) { return true; }, true, lv);
        if(now.count(x.off)) for(size_t i = x.off + 1; i < x.off + x.num; i++) VCHECK(!now.count(i), "compress-redundant", ctx << " struct " << x.off << " and " << i);
        if(x.num > 1) {
            bool all = std::includes(after.begin(), after.end(), lv.begin(), lv.end()), up = false;
            for(int p = x.off; p >= 0; p = n[p].parent) if(now.count(p)) up = true;
            if(all) VCHECK(up, "compress-missed", ctx << " struct " << x.off);
        }
    }
    for(size_t i : ref) if(i >= n.size()) VCHECK(now.count(i), "compress-outside", ctx);
    for(size_t i : now) if(i >= n.size()) VCHECK(ref.count(i), "compress-outside", ctx);
    pvd::BitSet c(*b);
    bool r2 = pvd::BitSetUtil::compress(b, s);
    VCHECK(*b == c && r2 == r, "compress-idempotent", ctx);
    distinct(hstr(ctx)); count(now != ref ? "compressed" : "unchanged");
    if(now != ref && n.size() < 12) sample(ctx);
}
VH_MAIN
