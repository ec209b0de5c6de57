// Query notations: reads a net and queries, prints every query in every notation, after every
// kind of copy, and evaluates state formulas in given markings.  The judge is checks/C15.py.
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <VerifyPN.h>
#include <PetriEngine/PQL/XMLPrinter.h>
#include <PetriEngine/PQL/QueryPrinter.h>
#include <PetriEngine/PQL/BinaryPrinter.h>
#include <PetriEngine/PQL/Evaluation.h>
#include <PetriEngine/PQL/PredicateCheckers.h>
#include <PetriEngine/PQL/PQLParser.h>
#include <PetriEngine/PQL/FormulaSize.h>
#include <PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h>
#include "PetriEngine/PQL/PushNegation.h"

using namespace PetriEngine;
using namespace PetriEngine::PQL;

static void emit(size_t i, const std::string& label, const std::string& data) {
    std::cout << "BLOCK " << i << " " << label << " " << data.size() << "\n" << data << "\n";
}

struct Tool {
    shared_string_set strings;
    PetriNetBuilder builder{strings};
    std::unique_ptr<PetriNet> net;
    std::unique_ptr<MarkVal[]> m0;
    shared_name_name_map tnames;
    shared_place_color_map pnames;
    bool ltl = false;

    std::vector<Condition_ptr> logic(const std::vector<Condition_ptr>& q) { return ltl ? getLTLQueries(q) : getCTLQueries(q); }
    void analyse(std::vector<Condition_ptr>& q) { contextAnalysis(false, tnames, pnames, builder, net.get(), q); }

    std::vector<Condition_ptr> fromXml(const std::string& s, size_t n, bool binary = false) {
        std::stringstream ss(s);
        std::vector<std::string> names;
        std::set<size_t> nums;
        for (size_t i = 0; i < n; ++i) nums.insert(i);
        return parseXMLQueries(strings, names, ss, nums, binary);
    }

    std::string xml(const Condition_ptr& c, bool compact) {
        std::stringstream o;
        o << "<?xml version=\"1.0\"?>\n<property-set xmlns=\"http://mcc.lip6.fr/\">\n";
        XMLPrinter p(o, compact ? 0 : 3, compact ? 0 : 2, !compact);
        p.print(*c, "Q");
        o << "</property-set>\n";
        return o.str();
    }
    std::string text(const Condition_ptr& c) {
        std::stringstream o;
        QueryPrinter p(o);
        Visitor::visit(p, c);
        return o.str();
    }
    std::string binary(const Condition_ptr& c) {
        std::stringstream o;
        uint32_t cnt = 1;
        o.write(reinterpret_cast<const char*>(&cnt), sizeof(uint32_t));
        cnt = builder.getPlaceNames().size();
        o.write(reinterpret_cast<const char*>(&cnt), sizeof(uint32_t));
        for (auto& kv : builder.getPlaceNames()) {
            o.write(reinterpret_cast<const char*>(&kv.second), sizeof(uint32_t));
            o.write(kv.first->data(), kv.first->size());
            o.write("\0", 1);
        }
        o.write("Q", 1);
        o.write("\0", 1);
        BinaryPrinter p(o);
        Visitor::visit(p, c);
        return o.str();
    }
    // all notations of one analysed query
    void notations(size_t i, const std::string& stage, const Condition_ptr& c, bool again) {
        auto x = xml(c, false);
        emit(i, stage + ".xml", x);
        emit(i, stage + ".compact", xml(c, true));
        auto t = text(c);
        emit(i, stage + ".text", t);
        if (!again) return;
        try {
            auto q = logic(fromXml(x, 1));
            analyse(q);
            emit(i, stage + ".xml-xml", xml(q[0], false));
        } catch (std::exception& e) { emit(i, stage + ".xml-fail", e.what()); }
        try {
            auto q = fromXml(binary(c), 1, true);
            auto l = logic(q);
            analyse(l);
            emit(i, stage + ".bin-xml", xml(l[0], false));
        } catch (std::exception& e) { emit(i, stage + ".bin-fail", e.what()); }
        try {
            auto p = ParseQuery(t);
            if (p) {
                std::vector<Condition_ptr> q{p};
                q = logic(q);
                analyse(q);
                emit(i, stage + ".text-xml", xml(q[0], false));
            } else emit(i, stage + ".text-fail", t);
        } catch (std::exception& e) { emit(i, stage + ".text-fail", t + std::string("\n") + e.what()); }
    }
};

int main(int argc, char** argv) {
    // net query n logic(ctl|ltl) format(xml|text|bin) marks
    Tool T;
    T.ltl = std::string(argv[4]) == "ltl";
    std::string fmt = argv[5];
    size_t n = atoi(argv[3]);
    try {
        T.builder.parse_model(argv[1]);
        T.builder.sort();
        T.net.reset(T.builder.makePetriNet(false));
        T.m0.reset(T.net->makeInitialMarking());
        std::vector<Condition_ptr> raw;
        if (fmt == "text") {
            std::ifstream f(argv[2]);
            std::string line;
            while (std::getline(f, line)) {
                if (line.empty()) continue;
                raw.push_back(ParseQuery(line));
                if (!raw.back()) { std::cout << "PARSEFAIL " << line << std::endl; return 0; }
            }
        } else {
            std::ifstream f(argv[2], std::ios::binary);
            std::stringstream ss;
            ss << f.rdbuf();
            raw = T.fromXml(ss.str(), n, fmt == "bin");
        }
        for (size_t i = 0; i < raw.size(); ++i) {
            emit(i, "raw.text", T.text(raw[i]));
            if (auto p = ParseQuery(T.text(raw[i]))) {
                std::vector<Condition_ptr> q{p};
                q = T.logic(q);
                T.analyse(q);
                emit(i, "raw.text-xml", T.xml(q[0], false));
            } else emit(i, "raw.text-fail", T.text(raw[i]));
        }
        auto qs = T.logic(raw);
        T.analyse(qs);
        std::vector<std::vector<MarkVal>> marks;
        if (argc > 6) {
            std::ifstream f(argv[6]);
            std::string line;
            std::vector<std::string> names;
            std::getline(f, line);
            std::istringstream h(line);
            for (std::string s; h >> s;) names.push_back(s);
            while (std::getline(f, line)) {
                std::istringstream l(line);
                std::vector<MarkVal> m(T.net->numberOfPlaces());
                for (auto& nm : names) {
                    uint32_t v;
                    l >> v;
                    for (auto& kv : T.builder.getPlaceNames())
                        if (*kv.first == nm) m[kv.second] = v;
                }
                marks.push_back(m);
            }
        }
        auto evals = [&](size_t i, const std::string& stage, const Condition_ptr& c) {
            if (isTemporal(c) || containsUpperBounds(c)) return;
            std::stringstream o;
            for (auto& m : marks) {
                EvaluationContext ctx(m.data(), T.net.get());
                auto r = PQL::evaluate(c.get(), ctx);
                o << (r == Condition::RTRUE ? '1' : r == Condition::RFALSE ? '0' : '?');
            }
            emit(i, stage + ".eval", o.str());
        };
        for (size_t i = 0; i < qs.size(); ++i) {
            T.notations(i, "read", qs[i], true);
            evals(i, "read", qs[i]);
            emit(i, "size", std::to_string(formulaSize(qs[i])));
            if (!T.ltl) {
                auto cp = ExplicitColored::ConditionCopyVisitor::copyCondition(qs[i]);
                std::vector<Condition_ptr> v{cp};
                T.analyse(v);
                T.notations(i, "copy", v[0], false);
                evals(i, "copy", v[0]);
            }
            {
                negstat_t st;
                EvaluationContext ctx(nullptr, nullptr);
                auto p = pushNegation(qs[i], st, ctx, false, false, false);
                std::vector<Condition_ptr> v{p};
                T.analyse(v);
                T.notations(i, "push", v[0], true);
                evals(i, "push", v[0]);
            }
        }
        std::cout << "END" << std::endl;
    } catch (std::exception& e) {
        std::cout << "ERROR " << e.what() << std::endl;
        return 1;
    } catch (base_error& e) {
        std::cout << "ERROR " << e.what() << std::endl;
        return 1;
    }
    return 0;
}
