// flat view of a structure model: pre-order, structures are descended, nothing else
#ifndef TREE_H
#define TREE_H
#include "gen.h"
namespace g {
struct Node { TyP t; size_t off, num; int parent; size_t idx; std::string name, full; };
inline size_t flatten(std::vector<Node>& out, const TyP& t, int parent, size_t idx, const std::string& name, const std::string& full) {
    size_t me = out.size();
    Node n; n.t = t; n.off = me; n.num = 1; n.parent = parent; n.idx = idx; n.name = name; n.full = full;
    out.push_back(n);
    if(t->k == KStruct) for(size_t i = 0; i < t->kids.size(); i++)
        flatten(out, t->kids[i], me, i, t->names[i], full.empty() ? t->names[i] : full + "." + t->names[i]);
    out[me].num = out.size() - me;
    return out.size() - me;
}
inline std::vector<Node> flat(const TyP& t) { std::vector<Node> v; flatten(v, t, -1, 0, "", ""); return v; }
// t must outlive the result
inline std::vector<Node> flat(const Ty& t) { return flat(TyP(&t, [](const Ty*) {})); }
// value of node i inside the value of the root
inline Val& at(const std::vector<Node>& n, Val& root, size_t i) {
    if(n[i].parent < 0) return root;
    return at(n, root, n[i].parent).a[n[i].idx];
}
typedef std::function<bool(size_t)> Sel;
// merge the selected parts below node i
inline void mergeSel(const std::vector<Node>& n, size_t i, Val& dst, const Val& src, const Sel& sel) {
    if(sel(i)) { dst = src; return; }
    if(n[i].t->k != KStruct) return;
    size_t c = i + 1;
    for(size_t k = 0; k < n[i].t->kids.size(); k++) { mergeSel(n, c, dst.a[k], src.a[k], sel); c += n[c].num; }
}
inline void encSel(const std::vector<Node>& n, size_t i, Enc& e, const Val& v, const Sel& sel) {
    if(sel(i)) { e.val(*n[i].t, v); return; }
    if(n[i].t->k != KStruct) return;
    size_t c = i + 1;
    for(size_t k = 0; k < n[i].t->kids.size(); k++) { encSel(n, c, e, v.a[k], sel); c += n[c].num; }
}
inline void leaves(const std::vector<Node>& n, size_t i, const Sel& sel, bool on, std::set<size_t>& out) {
    if(sel(i)) on = true;
    if(n[i].num == 1) { if(on) out.insert(i); return; }
    for(size_t c = i + 1; c < i + n[i].num; c += n[c].num) leaves(n, c, sel, on, out);
}
inline void genBits(Rng& R, pvd::BitSet& b, std::set<size_t>& ref, size_t n) {
    switch(R.below(6)) {
    case 0: break;
    case 1: for(size_t i = 0; i < n; i++) { b.set(i); ref.insert(i); } break;
    case 2: for(size_t i = 0; i < n; i++) if(R.chance(4, 5)) { b.set(i); ref.insert(i); } break;
    case 3: { size_t x = R.below(n); b.set(x); ref.insert(x); break; }
    default: for(size_t i = 0; i < n; i++) if(R.chance(1, 3)) { b.set(i); ref.insert(i); }
    }
    if(R.chance(1, 6)) { size_t x = n + R.below(200); b.set(x); ref.insert(x); }
}
inline std::string descBits(const std::set<size_t>& s) { std::ostringstream o; o << "{"; for(size_t x : s) o << x << ","; o << "}"; return o.str(); }
}
#endif
