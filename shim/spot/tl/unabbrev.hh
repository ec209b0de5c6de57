#ifndef VP_SHIM_SPOT_UNABBREV
#define VP_SHIM_SPOT_UNABBREV
#include "formula.hh"
namespace spot {
    // only "RWM" is used: R/W/M are rewritten into U, G
    inline formula unabbreviate(const formula& f, const char* what = "RWM") {
        switch (f.kind()) {
            case op::tt: case op::ff: case op::ap: return f;
            case op::Not: return formula::Not(unabbreviate(f[0], what));
            case op::X: return formula::X(unabbreviate(f[0], what));
            case op::F: return formula::F(unabbreviate(f[0], what));
            case op::G: return formula::G(unabbreviate(f[0], what));
            case op::U: return formula::U(unabbreviate(f[0], what), unabbreviate(f[1], what));
            case op::R: { auto a = unabbreviate(f[0], what), b = unabbreviate(f[1], what);
                // a R b == b U ((a & b) | G b)
                return formula::U(b, formula::Or({formula::And({a, b}), formula::G(b)})); }
            case op::And: case op::Or: { std::vector<formula> v; for (auto c : f) v.push_back(unabbreviate(c, what));
                return f.is(op::And) ? formula::And(v) : formula::Or(v); }
            default: throw std::runtime_error("spot stand-in: unsupported operator");
        }
    }
}
#endif
