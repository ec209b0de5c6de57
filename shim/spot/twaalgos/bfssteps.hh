#ifndef VP_SHIM_SPOT_BFS
#define VP_SHIM_SPOT_BFS
#include "../twa/twagraph.hh"
namespace spot {
    struct twa_run { struct step { const state* s; bdd label; }; typedef std::list<step> steps; };
    class bfs_steps {
    public:
        explicit bfs_steps(const_twa_ptr a) : a_(std::move(a)) {}
        virtual ~bfs_steps() {}
        const state* search(const state* start, twa_run::steps& l) {
            auto g = std::dynamic_pointer_cast<const twa_graph>(a_);
            std::map<unsigned, twa_run::step> father;
            std::deque<const state*> todo{start};
            while (!todo.empty()) {
                auto src = todo.front(); todo.pop_front();
                for (auto& e : g->out(src->n)) {
                    auto d = filter(g->state_from_number(e.dst));
                    if (!d) continue;
                    twa_run::step s{src, e.cond};
                    if (match(s, d)) {
                        twa_run::steps p;
                        for (;;) { p.push_front(s); if (s.s == start) break; s = father.at(s.s->n); }
                        l.splice(l.end(), p);
                        return d;
                    }
                    if (d != start && father.find(d->n) == father.end()) { todo.push_back(d); father[d->n] = s; }
                }
            }
            return nullptr;
        }
        virtual const state* filter(const state* s) = 0;
        virtual bool match(twa_run::step& step, const state* dest) = 0;
    protected:
        const_twa_ptr a_;
    };
}
#endif
