// Stand-in for spot::translator: LTL -> transition-based generalised Büchi (tableau over
// next-normal forms) -> state-based Büchi (counter degeneralisation), with removal of states
// that cannot reach an accepting cycle and a bisimulation quotient.
#ifndef VP_SHIM_SPOT_TRANSLATE
#define VP_SHIM_SPOT_TRANSLATE
#include "../twa/twagraph.hh"
#include <set>
#include <functional>
namespace spot {
    class postprocessor {
    public:
        enum output_type { TGBA, BA, Monitor, Generic, Parity, Buchi };
        enum optimization_level { Low, Medium, High };
        void set_type(output_type) {}
        void set_level(optimization_level l) { level_ = l; }
    protected:
        optimization_level level_ = High;
    };
    class translator : public postprocessor {
        typedef std::set<formula> fset;
        struct term { bdd lits; fset next; fset promise; };   // promise: eventualities postponed here
        bdd_dict_ptr dict = std::make_shared<bdd_dict>();
        std::map<formula, std::vector<term>> memo;

        static void add(std::vector<term>& v, term t) {
            if (t.lits == bddfalse) return;
            for (auto& o : v) if (o.next == t.next && o.promise == t.promise) { o.lits |= t.lits; return; }
            v.push_back(std::move(t));
        }
        static std::vector<term> conj(const std::vector<term>& a, const std::vector<term>& b) {
            std::vector<term> r;
            for (auto& x : a) for (auto& y : b) {
                term t{x.lits & y.lits, x.next, x.promise};
                if (t.lits == bddfalse) continue;
                t.next.insert(y.next.begin(), y.next.end());
                t.promise.insert(y.promise.begin(), y.promise.end());
                add(r, t);
            }
            return r;
        }
        static std::vector<term> disj(std::vector<term> a, const std::vector<term>& b) { for (auto& t : b) add(a, t); return a; }
        fset split(const formula& f) { fset s; if (f.is_tt()) return s; if (f.is(op::And)) s.insert(f.begin(), f.end()); else s.insert(f); return s; }
        const std::vector<term>& expand(const formula& f) {
            auto it = memo.find(f);
            if (it != memo.end()) return it->second;
            std::vector<term> r;
            switch (f.kind()) {
                case op::tt: r = {{bddtrue, {}, {}}}; break;
                case op::ff: break;
                case op::ap: r = {{bdd_ithvar(dict->var(f.ap_name())), {}, {}}}; break;
                case op::Not: r = {{bdd_nithvar(dict->var(f[0].ap_name())), {}, {}}}; break;
                case op::X: r = {{bddtrue, split(f[0]), {}}}; break;
                case op::And: r = {{bddtrue, {}, {}}}; for (auto c : f) r = conj(r, expand(c)); break;
                case op::Or: for (auto c : f) r = disj(r, expand(c)); break;
                case op::F: r = disj(expand(f[0]), {{bddtrue, {f}, {f[0]}}}); break;
                case op::G: r = conj(expand(f[0]), {{bddtrue, {f}, {}}}); break;
                case op::U: r = disj(expand(f[1]), conj(expand(f[0]), {{bddtrue, {f}, {f[1]}}})); break;
                case op::R: r = conj(expand(f[1]), disj(expand(f[0]), {{bddtrue, {f}, {}}})); break;
                default: throw std::runtime_error("spot stand-in: unsupported operator");
            }
            return memo[f] = r;
        }
    public:
        twa_graph_ptr run(const formula& f0) {
            formula f = vp_nnf(f0, false);
            // 1. TGBA
            struct edge { size_t dst; bdd c; fset promise; };
            std::map<fset, size_t> ids; std::vector<fset> sts; std::vector<std::vector<edge>> out;
            auto get = [&](const fset& s) { auto r = ids.emplace(s, sts.size()); if (r.second) { sts.push_back(s); out.emplace_back(); } return r.first->second; };
            get(split(f));
            std::set<formula> promises;
            for (size_t i = 0; i < sts.size(); ++i) {
                fset s = sts[i];
                std::vector<term> t{{bddtrue, {}, {}}};
                if (f.is_ff() && i == 0) t.clear();
                else for (auto& g : s) t = conj(t, expand(g));
                for (auto& x : t) {
                    fset n; bool dead = false;
                    for (auto& g : x.next) { if (g.is_ff()) dead = true; else if (!g.is_tt()) n.insert(g); }
                    if (dead) continue;
                    size_t d = get(n);
                    out[i].push_back({d, x.lits, x.promise});
                    promises.insert(x.promise.begin(), x.promise.end());
                }
            }
            // 2. degeneralise: level k waits for an edge without promise k; level K is accepting
            std::vector<formula> P(promises.begin(), promises.end());
            size_t K = P.size();
            struct nst { size_t s, l; };
            std::map<std::pair<size_t,size_t>, size_t> nid; std::vector<nst> ns; std::vector<std::map<size_t,bdd>> no;
            auto nget = [&](size_t s, size_t l) { auto r = nid.emplace(std::make_pair(s, l), ns.size()); if (r.second) { ns.push_back({s, l}); no.emplace_back(); } return r.first->second; };
            nget(0, 0);
            for (size_t i = 0; i < ns.size(); ++i) {
                auto cur = ns[i];
                for (auto& e : out[cur.s]) {
                    size_t l = cur.l == K ? 0 : cur.l;
                    while (l < K && !e.promise.count(P[l])) ++l;
                    size_t d = nget(e.dst, l);
                    auto r = no[i].emplace(d, e.c);
                    if (!r.second) r.first->second |= e.c;
                }
            }
            size_t n = ns.size();
            std::vector<bool> acc(n);
            for (size_t i = 0; i < n; ++i) acc[i] = ns[i].l == K;
            // a state without constraints accepts everything
            for (size_t i = 0; i < n; ++i) if (sts[ns[i].s].empty()) acc[i] = true;
            // 3. live states: reach an accepting state lying on a cycle
            auto reach = [&](size_t from) { std::vector<bool> seen(n); std::vector<size_t> st; for (auto& e : no[from]) if (!seen[e.first]) { seen[e.first] = true; st.push_back(e.first); }
                while (!st.empty()) { auto x = st.back(); st.pop_back(); for (auto& e : no[x]) if (!seen[e.first]) { seen[e.first] = true; st.push_back(e.first); } } return seen; };
            std::vector<std::vector<bool>> R; for (size_t i = 0; i < n; ++i) R.push_back(reach(i));
            std::vector<bool> live(n), rec(n);
            for (size_t i = 0; i < n; ++i) rec[i] = R[i][i];
            for (size_t i = 0; i < n; ++i) { if (rec[i] && acc[i]) live[i] = true; for (size_t j = 0; j < n && !live[i]; ++j) if (R[i][j] && acc[j] && rec[j]) live[i] = true; }
            // acceptance is irrelevant outside cycles
            for (size_t i = 0; i < n; ++i) if (!rec[i]) acc[i] = false;
            // 4. bisimulation quotient on live states
            std::vector<size_t> cls(n); for (size_t i = 0; i < n; ++i) cls[i] = acc[i];
            for (size_t count = 0;;) {
                std::map<std::pair<size_t, std::map<size_t,int>>, size_t> sig; std::vector<size_t> nc(n);
                for (size_t i = 0; i < n; ++i) if (live[i]) {
                    std::map<size_t,bdd> m; for (auto& e : no[i]) if (live[e.first]) { auto r = m.emplace(cls[e.first], e.second); if (!r.second) r.first->second |= e.second; }
                    std::map<size_t,int> k; for (auto& x : m) k[x.first] = x.second.id();
                    nc[i] = sig.emplace(std::make_pair(cls[i], k), sig.size()).first->second;
                }
                cls = nc;
                if (sig.size() == count) break;
                count = sig.size();
            }
            auto g = std::make_shared<twa_graph>(dict);
            if (!live[0]) { g->new_state(false); g->set_init_state(0); return g; }
            std::map<size_t, unsigned> cid; std::vector<size_t> repr;
            auto cget = [&](size_t i) { auto r = cid.emplace(cls[i], repr.size()); if (r.second) { repr.push_back(i); g->new_state(acc[i]); } return r.first->second; };
            cget(0);
            for (size_t i = 0; i < repr.size(); ++i)
                for (auto& e : no[repr[i]]) if (live[e.first]) { unsigned d = cget(e.first); g->new_edge(i, d, e.second); }
            g->set_init_state(0);
            return g;
        }
    };
}
#endif
