#ifndef VP_SHIM_SPOT_SIMPLIFY
#define VP_SHIM_SPOT_SIMPLIFY
#include "formula.hh"
namespace spot {
    class tl_simplifier {
    public:
        explicit tl_simplifier(int level = 1) : _l(level) {}
        formula simplify(const formula& f) { return rw(vp_nnf(f, false)); }
    private:
        int _l;
        formula rw(const formula& f) {
            switch (f.kind()) {
                case op::X: return formula::X(rw(f[0]));
                case op::F: { auto a = rw(f[0]);
                    if (a.is(op::G) && a[0].is(op::F)) return a;            // FGF a = GF a
                    if (a.is(op::X)) return formula::X(rw(formula::F(a[0])));
                    if (a.is(op::U)) return formula::F(a[1]);
                    return formula::F(a); }
                case op::G: { auto a = rw(f[0]);
                    if (a.is(op::F) && a[0].is(op::G)) return a;
                    if (a.is(op::X)) return formula::X(rw(formula::G(a[0])));
                    if (a.is(op::R)) return formula::G(a[1]);
                    return formula::G(a); }
                case op::U: return formula::U(rw(f[0]), rw(f[1]));
                case op::R: return formula::R(rw(f[0]), rw(f[1]));
                case op::And: { std::vector<formula> v, g; for (auto c : f) { auto r = rw(c); if (r.is(op::G)) g.push_back(r[0]); else v.push_back(r); }
                    if (!g.empty()) v.push_back(formula::G(formula::And(g)));
                    return formula::And(v); }
                case op::Or: { std::vector<formula> v, g; for (auto c : f) { auto r = rw(c); if (r.is(op::F)) g.push_back(r[0]); else v.push_back(r); }
                    if (!g.empty()) v.push_back(formula::F(formula::Or(g)));
                    return formula::Or(v); }
                default: return f;
            }
        }
    };
}
#endif
