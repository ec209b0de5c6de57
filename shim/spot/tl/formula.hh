// Stand-in for the subset of Spot's formula class used by the LTL engine.
#ifndef VP_SHIM_SPOT_FORMULA
#define VP_SHIM_SPOT_FORMULA
#include <algorithm>
#include <memory>
#include <map>
#include <ostream>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace spot {
    enum class op : uint8_t { ff, tt, eword, ap, Not, X, F, G, Closure, NegClosure, NegClosureMarked,
        Xor, Implies, Equiv, U, R, W, M, EConcat, EConcatMarked, UConcat, Or, OrRat, And, AndRat, AndNLM,
        Concat, Fusion, Star, FStar, first_match, strong_X };
    class formula;
    struct fnode_ {
        op k; std::string name; std::vector<formula> ch; size_t id;
    };
    class formula {
        const fnode_* p_ = nullptr;
        explicit formula(const fnode_* p) : p_(p) {}
        static formula intern(op k, std::vector<formula> ch, const std::string& name = "") {
            static std::map<std::tuple<int, std::vector<size_t>, std::string>, std::unique_ptr<fnode_>> tab;
            std::vector<size_t> ids;
            for (auto& c : ch) ids.push_back(c.p_->id);
            auto& slot = tab[std::make_tuple((int)k, ids, name)];
            if (!slot) slot.reset(new fnode_{k, name, std::move(ch), tab.size()});
            return formula(slot.get());
        }
    public:
        formula() = default;
        formula(std::nullptr_t) {}
        op kind() const { return p_->k; }
        bool is(op o) const { return p_->k == o; }
        bool is_tt() const { return is(op::tt); }
        bool is_ff() const { return is(op::ff); }
        size_t size() const { return p_->ch.size(); }
        formula operator[](size_t i) const { return p_->ch[i]; }
        std::vector<formula>::const_iterator begin() const { return p_->ch.begin(); }
        std::vector<formula>::const_iterator end() const { return p_->ch.end(); }
        const std::string& ap_name() const { return p_->name; }
        size_t id() const { return p_->id; }
        bool operator==(const formula& o) const { return p_ == o.p_; }
        bool operator!=(const formula& o) const { return p_ != o.p_; }
        bool operator<(const formula& o) const { return p_->id < o.p_->id; }
        explicit operator bool() const { return p_ != nullptr; }
        std::ostream& dump(std::ostream& os) const {
            static const char* n[] = {"ff","tt","eword","ap","Not","X","F","G","Closure","NegClosure","NegClosureMarked",
              "Xor","Implies","Equiv","U","R","W","M","EConcat","EConcatMarked","UConcat","Or","OrRat","And","AndRat","AndNLM",
              "Concat","Fusion","Star","FStar","first_match","strong_X"};
            os << n[(int)p_->k];
            if (is(op::ap)) os << "(\"" << p_->name << "\")";
            if (!p_->ch.empty()) { os << "("; bool f = true; for (auto& c : p_->ch) { if (!f) os << ", "; f = false; c.dump(os); } os << ")"; }
            return os;
        }
        static formula tt() { return intern(op::tt, {}); }
        static formula ff() { return intern(op::ff, {}); }
        static formula ap(const std::string& n) { return intern(op::ap, {}, n); }
        static formula Not(const formula& f) {
            if (f.is_tt()) return ff();
            if (f.is_ff()) return tt();
            if (f.is(op::Not)) return f[0];
            return intern(op::Not, {f});
        }
        static formula X(const formula& f) { if (f.is_tt() || f.is_ff()) return f; return intern(op::X, {f}); }
        static formula F(const formula& f) { if (f.is_tt() || f.is_ff() || f.is(op::F)) return f; return intern(op::F, {f}); }
        static formula G(const formula& f) { if (f.is_tt() || f.is_ff() || f.is(op::G)) return f; return intern(op::G, {f}); }
        static formula U(const formula& a, const formula& b) {
            if (b.is_tt() || b.is_ff() || a.is_ff() || a == b) return b;
            if (a.is_tt()) return F(b);
            return intern(op::U, {a, b});
        }
        static formula R(const formula& a, const formula& b) {
            if (b.is_tt() || b.is_ff() || a.is_tt() || a == b) return b;
            if (a.is_ff()) return G(b);
            return intern(op::R, {a, b});
        }
        static formula W(const formula& a, const formula& b) { return R(b, Or({a, b})); }
        static formula M(const formula& a, const formula& b) { return U(b, And({a, b})); }
        static formula nary(op k, const std::vector<formula>& in) {
            formula unit = k == op::And ? tt() : ff(), zero = k == op::And ? ff() : tt();
            std::set<formula> s;
            for (auto& f : in) {
                if (f == zero) return zero;
                if (f == unit) continue;
                if (f.is(k)) s.insert(f.begin(), f.end()); else s.insert(f);
            }
            for (auto& f : s) if (f.is(op::Not) && s.count(f[0])) return zero;
            if (s.empty()) return unit;
            if (s.size() == 1) return *s.begin();
            return intern(k, std::vector<formula>(s.begin(), s.end()));
        }
        static formula And(const std::vector<formula>& v) { return nary(op::And, v); }
        static formula Or(const std::vector<formula>& v) { return nary(op::Or, v); }
    };
    // negation normal form over {ap, !ap, And, Or, X, F, G, U, R}
    inline formula vp_nnf(const formula& f, bool neg) {
        switch (f.kind()) {
            case op::tt: case op::ff: case op::ap: return neg ? formula::Not(f) : f;
            case op::Not: return vp_nnf(f[0], !neg);
            case op::X: return formula::X(vp_nnf(f[0], neg));
            case op::F: return neg ? formula::G(vp_nnf(f[0], true)) : formula::F(vp_nnf(f[0], false));
            case op::G: return neg ? formula::F(vp_nnf(f[0], true)) : formula::G(vp_nnf(f[0], false));
            case op::U: { auto a = vp_nnf(f[0], neg), b = vp_nnf(f[1], neg); return neg ? formula::R(a, b) : formula::U(a, b); }
            case op::R: { auto a = vp_nnf(f[0], neg), b = vp_nnf(f[1], neg); return neg ? formula::U(a, b) : formula::R(a, b); }
            case op::And: case op::Or: {
                std::vector<formula> v; for (auto c : f) v.push_back(vp_nnf(c, neg));
                return (f.is(op::And) != neg) ? formula::And(v) : formula::Or(v);
            }
            default: throw std::runtime_error("spot stand-in: unsupported operator");
        }
    }
    inline std::ostream& operator<<(std::ostream& os, const formula& f) { return f.dump(os); }
}
#endif
