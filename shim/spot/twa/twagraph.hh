// Stand-in for the subset of spot::twa_graph used by the LTL engine (state-based Büchi acceptance).
#ifndef VP_SHIM_SPOT_TWAGRAPH
#define VP_SHIM_SPOT_TWAGRAPH
#pragma GCC system_header
#include "../../bddx.h"
#include "../tl/formula.hh"
#include <list>
#include <deque>
#include <unordered_map>
namespace spot {
    class bdd_dict {
    public:
        int var(const std::string& ap) {
            auto it = v_.find(ap);
            if (it != v_.end()) return it->second;
            int n = (int)names_.size();
            names_.push_back(ap); v_[ap] = n; return n;
        }
        const std::string& name(int v) const { return names_.at(v); }
        size_t size() const { return names_.size(); }
    private:
        std::unordered_map<std::string, int> v_;
        std::vector<std::string> names_;
    };
    typedef std::shared_ptr<bdd_dict> bdd_dict_ptr;
    class state {
    public:
        unsigned n = 0;
        void destroy() const {}
    };
    struct twa_edge { unsigned src, dst; bdd cond; };
    class twa_succ_iterator {
    public:
        twa_succ_iterator(const std::vector<twa_edge>* e, const std::deque<state>* st) : e_(e), st_(st) {}
        virtual ~twa_succ_iterator() {}
        virtual bool first() { i_ = 0; return !done(); }
        virtual bool next() { ++i_; return !done(); }
        virtual bool done() const { return i_ >= e_->size(); }
        virtual const state* dst() const { return &(*st_)[(*e_)[i_].dst]; }
        virtual bdd cond() const { return (*e_)[i_].cond; }
    private:
        const std::vector<twa_edge>* e_; const std::deque<state>* st_; size_t i_ = 0;
    };
    class twa { public: virtual ~twa() {} };
    class twa_graph : public twa {
    public:
        explicit twa_graph(bdd_dict_ptr d) : dict_(std::move(d)) {}
        unsigned new_state(bool acc) { st_.emplace_back(); st_.back().n = st_.size() - 1; acc_.push_back(acc); out_.emplace_back(); return st_.back().n; }
        void new_edge(unsigned s, unsigned d, bdd c) {
            for (auto& e : out_[s]) if (e.dst == d) { e.cond |= c; return; }
            out_[s].push_back({s, d, c});
        }
        void set_init_state(unsigned s) { init_ = s; }
        unsigned num_states() const { return st_.size(); }
        const state* state_from_number(unsigned n) const { return &st_.at(n); }
        unsigned state_number(const state* s) const { return s->n; }
        twa_succ_iterator* succ_iter(const state* s) const { return new twa_succ_iterator(&out_.at(s->n), &st_); }
        void release_iter(twa_succ_iterator* i) const { delete i; }
        bool state_is_accepting(unsigned s) const { return acc_.at(s); }
        bool state_is_accepting(const state* s) const { return acc_.at(s->n); }
        unsigned get_init_state_number() const { return init_; }
        const std::vector<twa_edge>& out(unsigned s) const { return out_.at(s); }
        bdd_dict_ptr get_dict() const { return dict_; }
        int register_ap(const std::string& ap) { return dict_->var(ap); }
    private:
        bdd_dict_ptr dict_;
        std::deque<state> st_;
        std::vector<bool> acc_;
        std::vector<std::vector<twa_edge>> out_;
        unsigned init_ = 0;
    };
    typedef std::shared_ptr<twa_graph> twa_graph_ptr;
    typedef std::shared_ptr<const twa_graph> const_twa_graph_ptr;
    typedef std::shared_ptr<const twa> const_twa_ptr;

    inline formula bdd_to_formula(bdd b, const bdd_dict_ptr& d) {
        if (b == bddtrue) return formula::tt();
        if (b == bddfalse) return formula::ff();
        // disjunction of cubes, as spot does (irredundant sum of products is not required)
        std::vector<formula> cubes;
        struct R { static void rec(bdd b, std::vector<formula>& lits, std::vector<formula>& cubes, const bdd_dict_ptr& d) {
            if (b == bddfalse) return;
            if (b == bddtrue) { cubes.push_back(formula::And(lits)); return; }
            auto ap = formula::ap(d->name(bdd_var(b)));
            lits.push_back(formula::Not(ap)); rec(bdd_low(b), lits, cubes, d); lits.pop_back();
            lits.push_back(ap); rec(bdd_high(b), lits, cubes, d); lits.pop_back();
        } };
        std::vector<formula> lits;
        R::rec(b, lits, cubes, d);
        return formula::Or(cubes);
    }
    inline std::ostream& print_hoa(std::ostream& os, const const_twa_graph_ptr& a, const char* = nullptr) {
        os << "HOA: v1\nStates: " << a->num_states() << "\nStart: " << a->get_init_state_number() << "\nacc-name: Buchi\nAcceptance: 1 Inf(0)\n--BODY--\n";
        for (unsigned s = 0; s < a->num_states(); ++s) {
            os << "State: " << s << (a->state_is_accepting(s) ? " {0}" : "") << "\n";
            for (auto& e : a->out(s)) { os << "["; bdd_to_formula(e.cond, a->get_dict()).dump(os); os << "] " << e.dst << "\n"; }
        }
        return os << "--END--\n";
    }
    inline std::ostream& print_dot(std::ostream& os, const const_twa_graph_ptr& a, const char* = nullptr) { return print_hoa(os, a); }
    inline std::ostream& print_never_claim(std::ostream& os, const const_twa_graph_ptr& a, const char* = nullptr) { return print_hoa(os, a); }
}
#endif
