// Nets: reads a model, reports what the parser told the builder, what the compiled net holds, how it is
// written back, and the successors of given markings by every generator.  Judges: checks/C16.py, C21.py.
#include <fstream>
#include <iostream>
#include <sstream>
#include <VerifyPN.h>
#include <PetriEngine/AbstractPetriNetBuilder.h>
#include <PetriEngine/SuccessorGenerator.h>
#include <PetriEngine/Synthesis/GameSuccessorGenerator.h>
#include <LTL/SuccessorGeneration/ResumingSuccessorGenerator.h>

using namespace PetriEngine;

struct Recorder : public AbstractPetriNetBuilder {
    std::ostream& o;
    explicit Recorder(std::ostream& o) : o(o) {}
    void addPlace(const std::string& n, uint32_t t, double x, double y) override { o << "P " << n << " " << t << " " << x << " " << y << "\n"; }
    void addTransition(const std::string& n, int32_t pl, double x, double y) override { o << "T " << n << " " << pl << " " << x << " " << y << "\n"; }
    void addInputArc(const std::string& p, const std::string& t, bool inh, uint32_t w) override { o << "I " << p << " " << t << " " << inh << " " << w << "\n"; }
    void addOutputArc(const std::string& t, const std::string& p, uint32_t w) override { o << "O " << t << " " << p << " " << w << "\n"; }
    void sort() override {}
};

static void emit(const std::string& label, const std::string& data) {
    std::cout << "BLOCK 0 " << label << " " << data.size() << "\n" << data << "\n";
}

static void mark(std::ostream& o, const MarkVal* m, size_t n) {
    for (size_t i = 0; i < n; ++i) o << " " << m[i];
    o << "\n";
}

int main(int argc, char** argv) {
    try {
        {
            std::stringstream o;
            Recorder r(o);
            r.parse_model(argv[1]);
            emit("record", o.str());
        }
        shared_string_set strings;
        PetriNetBuilder builder{strings};
        builder.parse_model(argv[1]);
        builder.sort();
        std::unique_ptr<PetriNet> net(builder.makePetriNet(false));
        std::stringstream o;
        const size_t np = net->numberOfPlaces(), nt = net->numberOfTransitions();
        for (size_t p = 0; p < np; ++p) o << "P " << *net->placeNames()[p] << " " << net->initial(p) << "\n";
        for (size_t t = 0; t < nt; ++t) {
            o << "T " << *net->transitionNames()[t] << " " << (net->controllable(t) ? 0 : 1) << "\n";
            for (auto [a, b] = net->preset(t); a != b; ++a) o << "I " << *net->placeNames()[a->place] << " " << *net->transitionNames()[t] << " " << a->inhibitor << " " << a->tokens << "\n";
            for (auto [a, b] = net->postset(t); a != b; ++a) o << "O " << *net->transitionNames()[t] << " " << *net->placeNames()[a->place] << " " << a->tokens << "\n";
            for (size_t p = 0; p < np; ++p) {
                if (auto w = net->inArc(p, t)) o << "i " << *net->placeNames()[p] << " " << *net->transitionNames()[t] << " " << w << "\n";
                if (auto w = net->outArc(t, p)) o << "o " << *net->transitionNames()[t] << " " << *net->placeNames()[p] << " " << w << "\n";
            }
        }
        emit("net", o.str());
        {
            std::stringstream x;
            net->toXML(x);
            emit("xml", x.str());
        }
        if (argc > 2) {
            std::ifstream f(argv[2]);
            std::string line;
            std::vector<size_t> at;
            std::getline(f, line);
            std::istringstream h(line);
            for (std::string s; h >> s;)
                for (size_t p = 0; p < np; ++p)
                    if (*net->placeNames()[p] == s) at.push_back(p);
            // the columns of all markings printed below
            std::stringstream hd;
            for (size_t p = 0; p < np; ++p) hd << *net->placeNames()[p] << " ";
            emit("columns", hd.str());
            size_t k = 0;
            std::stringstream all;
            while (std::getline(f, line)) {
                std::istringstream l(line);
                std::vector<MarkVal> m(np + 1), w(np + 1);
                for (auto p : at) l >> m[p];
                Structures::State parent, write;
                parent.setMarking(m.data());
                write.setMarking(w.data());
                struct Release { Structures::State &a, &b; ~Release() { a.setMarking(nullptr); b.setMarking(nullptr); } } release{parent, write};
                all << "M " << k++ << "\n";
                auto guarded = [&](const char* name, auto&& fn) {
                    try { fn(); } catch (base_error& e) { all << name << " limit\n"; }
                };
                guarded("s", [&]() {
                    SuccessorGenerator g(*net);
                    g.prepare(&parent);
                    while (g.next(write)) { all << "s " << *net->transitionNames()[g.fired()]; mark(all, w.data(), np); }
                    // a second round after a reset
                    g.reset();
                    while (g.next(write)) { all << "r " << *net->transitionNames()[g.fired()]; mark(all, w.data(), np); }
                });
                guarded("c", [&]() {
                    // suspended and resumed after every successor
                    uint32_t pc = 0, tc = std::numeric_limits<uint32_t>::max();
                    for (size_t n = 0; n < 100000; ++n) {
                        SuccessorGenerator g(*net);
                        g.prepare(&parent, pc, tc);
                        if (!g.next(write)) break;
                        all << "c " << *net->transitionNames()[g.fired()];
                        mark(all, w.data(), np);
                        std::tie(pc, tc) = g.state();
                    }
                });
                guarded("l", [&]() {
                    LTL::ResumingSuccessorGenerator g(*net);
                    auto info = g.initial_suc_info();
                    for (size_t n = 0; n < 100000; ++n) {
                        g.prepare(&parent, info);
                        if (!g.next(write, info)) break;
                        all << "l " << *net->transitionNames()[g.fired()];
                        mark(all, w.data(), np);
                    }
                });
                for (int first = 0; first < 2; ++first)
                    guarded(first ? "G" : "g", [&]() {
                        Synthesis::GameSuccessorGenerator g(*net);
                        g.prepare(&parent);
                        for (int side = 0; side < 2; ++side) {
                            bool ctrl = (side == 0) == (first == 0);
                            while (ctrl ? g.next_ctrl(write) : g.next_env(write)) {
                                all << (first ? "G" : "g") << (ctrl ? "c " : "e ") << *net->transitionNames()[g.fired()];
                                mark(all, w.data(), np);
                            }
                        }
                    });
                for (size_t t = 0; t < nt; ++t)
                    if (net->fireable(m.data(), t)) all << "f " << *net->transitionNames()[t] << "\n";
                all << "d " << net->deadlocked(m.data()) << "\n";
            }
            emit("succ", all.str());
        }
        std::cout << "END" << std::endl;
    } catch (std::exception& e) {
        std::cout << "ERROR " << e.what() << std::endl;
        return 1;
    } catch (base_error& e) {
        std::cout << "ERROR " << e.what() << std::endl;
        return 1;
    }
    return 0;
}
