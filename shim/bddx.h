// Stand-in for the subset of BuDDy (bddx) that the LTL engine uses: reduced ordered BDDs.
#ifndef VP_SHIM_BDDX_H
#define VP_SHIM_BDDX_H
#include <cstdint>
#include <map>
#include <tuple>
#include <vector>
#include <cassert>
class bdd {
public:
    bdd() : _id(0) {}
    int id() const { return _id; }
    bool operator==(const bdd& o) const { return _id == o._id; }
    bool operator!=(const bdd& o) const { return _id != o._id; }
    bool operator<(const bdd& o) const { return _id < o._id; }
    static bdd mk_raw(int id) { bdd b; b._id = id; return b; }
private:
    int _id;
};
namespace vp_bdd {
    struct node { int var, lo, hi; };
    struct table {
        std::vector<node> nodes{{1 << 30, 0, 0}, {1 << 30, 1, 1}};
        std::map<std::tuple<int,int,int>, int> uniq;
        int mk(int v, int lo, int hi) {
            if (lo == hi) return lo;
            auto k = std::make_tuple(v, lo, hi);
            auto it = uniq.find(k);
            if (it != uniq.end()) return it->second;
            nodes.push_back({v, lo, hi});
            return uniq[k] = (int)nodes.size() - 1;
        }
        std::map<std::pair<int,int>, int> and_cache;
        std::map<int,int> not_cache;
        int band(int a, int b) {
            if (a == 0 || b == 0) return 0;
            if (a == 1) return b;
            if (b == 1 || a == b) return a;
            if (a > b) std::swap(a, b);
            auto k = std::make_pair(a, b);
            auto it = and_cache.find(k);
            if (it != and_cache.end()) return it->second;
            int v = std::min(nodes[a].var, nodes[b].var);
            int al = nodes[a].var == v ? nodes[a].lo : a, ah = nodes[a].var == v ? nodes[a].hi : a;
            int bl = nodes[b].var == v ? nodes[b].lo : b, bh = nodes[b].var == v ? nodes[b].hi : b;
            int l = band(al, bl), h = band(ah, bh);
            return and_cache[k] = mk(v, l, h);
        }
        int bnot(int a) {
            if (a <= 1) return 1 - a;
            auto it = not_cache.find(a);
            if (it != not_cache.end()) return it->second;
            node n = nodes[a];
            int l = bnot(n.lo), h = bnot(n.hi);
            return not_cache[a] = mk(n.var, l, h);
        }
    };
    inline table& T() { static table t; return t; }
}
inline const bdd bddfalse = bdd::mk_raw(0);
inline const bdd bddtrue = bdd::mk_raw(1);
inline bdd bdd_false() { return bddfalse; }
inline bdd bdd_true() { return bddtrue; }
inline bdd bdd_not(const bdd& a) { return bdd::mk_raw(vp_bdd::T().bnot(a.id())); }
inline bdd operator!(const bdd& a) { return bdd_not(a); }
inline bdd operator&(const bdd& a, const bdd& b) { return bdd::mk_raw(vp_bdd::T().band(a.id(), b.id())); }
inline bdd operator|(const bdd& a, const bdd& b) { return !(!a & !b); }
inline bdd operator-(const bdd& a, const bdd& b) { return a & !b; }
inline bdd& operator|=(bdd& a, const bdd& b) { return a = a | b; }
inline bdd& operator&=(bdd& a, const bdd& b) { return a = a & b; }
inline bdd bdd_ithvar(int v) { return bdd::mk_raw(vp_bdd::T().mk(v, 0, 1)); }
inline bdd bdd_nithvar(int v) { return bdd::mk_raw(vp_bdd::T().mk(v, 1, 0)); }
inline int bdd_var(const bdd& b) { assert(b.id() > 1); return vp_bdd::T().nodes[b.id()].var; }
inline bdd bdd_low(const bdd& b) { return bdd::mk_raw(vp_bdd::T().nodes[b.id()].lo); }
inline bdd bdd_high(const bdd& b) { return bdd::mk_raw(vp_bdd::T().nodes[b.id()].hi); }
#endif
