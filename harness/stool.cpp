// Containers of markings and work: random histories on the real classes against naive models, checked online.
// usage: stool MODE SEED; prints COUNT and FAIL lines, then END.  Judges: checks/C19.py, C20.py.
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <thread>
#include <VerifyPN.h>
#include <PetriEngine/Structures/AlignedEncoder.h>
#include <PetriEngine/Structures/State.h>
#include <PetriEngine/Structures/StateSet.h>
#include <PetriEngine/Structures/linked_bucket.h>
#include <PetriEngine/Structures/SuccessorQueue.h>
#include <PetriEngine/Structures/Queue.h>
#include <PetriEngine/Structures/PotencyQueue.h>
#include <LTL/Structures/ProductState.h>
#include <LTL/Structures/BitProductStateSet.h>
#include <utils/structures/light_deque.h>
#include <CTL/SearchStrategy/DFSSearch.h>
#include <CTL/SearchStrategy/BFSSearch.h>
#include <CTL/SearchStrategy/RDFSSearch.h>
#include <CTL/SearchStrategy/HeuristicSearch.h>
#include <CTL/DependencyGraph/Configuration.h>
#include <CTL/PetriNets/PetriConfig.h>
#include <PetriEngine/PQL/Analyze.h>
#include <PetriEngine/PQL/PQLParser.h>

using namespace PetriEngine;
using Marking = std::vector<uint32_t>;
static std::mt19937_64 rng;
static std::map<std::string, size_t> counts;
static size_t fails = 0;
static size_t rnd(size_t n) { return rng() % n; }
static bool chance(double p) { return (rng() >> 11) * 0x1.0p-53 < p; }
static void fail(const std::string& key, const std::string& what) {
    if (++fails <= 20) std::cout << "FAIL " << key << " " << what << "\n";
}
static std::string show(const Marking& m) {
    std::string s;
    for (auto x : m) { s += std::to_string(x) + ","; if (s.size() > 200) return s + ".."; }
    return s;
}

static void build(PetriNetBuilder& b, size_t n, size_t nt) {
    for (size_t i = 0; i < n; ++i) b.addPlace("p" + std::to_string(i), 1, 0, 0);
    for (size_t i = 0; i < nt; ++i) {
        b.addTransition("t" + std::to_string(i), 0, 0, 0);
        b.addInputArc("p" + std::to_string(i % n), "t" + std::to_string(i), false, 1);
    }
    b.sort();
}

// a net with n places and one transition per place, whose initial marking does not matter
static std::unique_ptr<PetriNet> make_net(size_t n, size_t nt) {
    static std::vector<std::unique_ptr<shared_string_set>> keep;
    keep.emplace_back(std::make_unique<shared_string_set>());
    PetriNetBuilder b{*keep.back()};
    build(b, n, nt);
    return std::unique_ptr<PetriNet>(b.makePetriNet(false));
}
static Marking gen_marking(size_t n, const std::vector<Marking>& pool) {
    static const uint32_t edge[] = {1, 2, 3, 4, 7, 100, 119, 120, 121, 122, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 1u << 24, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    constexpr size_t ne = sizeof(edge) / sizeof(edge[0]);
    Marking m(n, 0);
    if (!pool.empty() && chance(0.3)) {   // a near copy
        m = pool[rnd(pool.size())];
        if (n) {
            size_t i = rnd(n);
            if (chance(0.5)) m[i] ^= 1u << rnd(chance(0.7) ? 9 : 32);
            else std::swap(m[i], m[rnd(n)]);
        }
        return m;
    }
    double dens = chance(0.4) ? 0.03 + 0.1 * rnd(3) : 0.3 + 0.1 * rnd(8);
    int kind = rnd(6);
    uint32_t same = chance(0.6) ? 1 + rnd(130) : edge[rnd(ne)];
    for (auto& x : m) {
        if (!chance(dens)) continue;
        switch (kind) {
            case 0: x = same; break;
            case 1: x = 1 + rnd(3); break;
            case 2: x = 1 + rnd(255); break;
            case 3: x = chance(0.5) ? 1 + rnd(65535) : 1 + rnd(5); break;
            case 4: x = edge[rnd(ne)]; break;
            default: x = chance(0.9) ? 1 + rnd(4) : edge[rnd(ne)];
        }
    }
    if (chance(0.05)) std::fill(m.begin(), m.end(), same);
    return m;
}

static size_t gen_places() {
    static const size_t edge[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 511, 700};
    return chance(0.7) ? 1 + rnd(40) : edge[rnd(sizeof(edge) / sizeof(edge[0]))];
}

static void codec() {
    for (int net = 0; net < 6; ++net) {
        size_t n = net == 0 && chance(0.15) ? 65530 + rnd(12) : gen_places();
        AlignedEncoder enc(n, 0);
        std::map<std::string, Marking> seen;
        std::vector<Marking> pool;
        std::vector<std::pair<std::string, Marking>> later;
        for (int i = 0, k = n > 1000 ? 12 : 150; i < k; ++i) {
            Marking m = gen_marking(n, pool);
            pool.push_back(m);
            uint32_t sum = 0, val = 0, active = 0;
            bool same = true;
            for (auto x : m) if (x) {
                if (val && x != val) same = false;
                val = std::max(val, x);
                ++active;
                sum += x;
            }
            auto type = enc.getType(sum, active, same, val);
            size_t len = enc.encode(m.data(), type);
            if (len > enc.scratchpad().size()) { fail("codec-overrun", "an encoding of " + std::to_string(len) + " bytes in a buffer of " + std::to_string(enc.scratchpad().size())); continue; }
            std::string bytes((const char*)enc.scratchpad().raw(), len);
            counts["markings encoded"]++;
            counts["encoding type " + std::to_string(type <= 120 ? 0 : type <= 240 ? 1 : type - 239)]++;
            // decoding reads the stored bytes only, into memory that held something else before
            Marking back(n + 2, 0xabcdef01u);
            std::string stored = bytes + std::string(64, '\xee');
            enc.decode(back.data(), (const uint8_t*)stored.data());
            if (back[n] != 0xabcdef01u || back[n + 1] != 0xabcdef01u) fail("codec-overrun", "decoding writes past the last of " + std::to_string(n) + " places");
            back.resize(n);
            if (back != m) fail("codec-roundtrip", "places " + std::to_string(n) + " type " + std::to_string((int)type) + " stored " + show(m) + " got " + show(back));
            auto sz = enc.size((const uint8_t*)stored.data());
            if (sz != len) fail("codec-size", "places " + std::to_string(n) + " type " + std::to_string((int)type) + " size " + std::to_string(sz) + " of an encoding of " + std::to_string(len) + " bytes");
            auto it = seen.emplace(bytes, m);
            if (it.first->second != m) fail("codec-collision", show(m) + " and " + show(it.first->second) + " have the same encoding");
            later.emplace_back(bytes, m);
        }
        for (auto& [b, m] : later) {     // equal markings get equal bytes, whatever was encoded in between
            uint32_t sum = 0, val = 0, active = 0;
            bool same = true;
            for (auto x : m) if (x) { if (val && x != val) same = false; val = std::max(val, x); ++active; sum += x; }
            size_t len = enc.encode(m.data(), enc.getType(sum, active, same, val));
            if (std::string((const char*)enc.scratchpad().raw(), len) != b) fail("codec-unstable", "a second encoding of " + show(m) + " differs");
        }
    }
}

template<typename S, typename F>
static void set_history(const char* what, size_t n, const PetriNet& net, S& set, F&& extra) {
    std::map<Marking, size_t> ids;
    std::map<size_t, Marking> by;
    std::vector<Marking> pool;
    std::vector<uint32_t> bound(n, 0);
    uint32_t maxsum = 0;
    Structures::State st;
    st.setMarking(new MarkVal[n]);
    auto load = [&](const Marking& m) { std::copy(m.begin(), m.end(), st.marking()); };
    size_t adds = 0;
    for (int i = 0; i < 300; ++i) {
        bool dup = !pool.empty() && chance(0.3);
        Marking m = dup ? pool[rnd(pool.size())] : gen_marking(n, pool);
        load(m);
        if (chance(0.2)) {
            auto r = set.lookup(st);
            auto it = ids.find(m);
            if (r.first != (it != ids.end()) || (r.first && r.second != it->second)) fail(std::string(what) + "-lookup", show(m));
            counts["lookups"]++;
            continue;
        }
        auto r = set.add(st);
        ++adds;
        counts["insertions"]++;
        if (Marking(st.marking(), st.marking() + n) != m) fail(std::string(what) + "-clobber", "adding changes the marking " + show(m));
        auto it = ids.find(m);
        uint32_t sum = 0;
        for (auto x : m) sum += x;
        maxsum = std::max(maxsum, sum);
        if (r.first != (it == ids.end())) fail(std::string(what) + "-new", show(m) + (r.first ? " is added twice" : " is taken for another marking"));
        if (it == ids.end()) {
            if (by.count(r.second)) fail(std::string(what) + "-id", "two markings share an identifier");
            ids[m] = r.second;
            by[r.second] = m;
            pool.push_back(m);
            for (size_t p = 0; p < n; ++p) bound[p] = std::max(bound[p], m[p]);
        } else if (it->second != r.second) fail(std::string(what) + "-id", "a known marking gets another identifier");
        extra(r, m, set, st);
        if (chance(0.3) && !by.empty()) {
            auto x = std::next(by.begin(), rnd(by.size()));
            set.decode(st, x->first);
            counts["decodings"]++;
            if (Marking(st.marking(), st.marking() + n) != x->second) fail(std::string(what) + "-decode", "stored " + show(x->second) + " read " + show(Marking(st.marking(), st.marking() + n)));
        }
    }
    for (auto& [id, m] : by) {
        set.decode(st, id);
        if (Marking(st.marking(), st.marking() + n) != m) fail(std::string(what) + "-decode", "stored " + show(m) + " read " + show(Marking(st.marking(), st.marking() + n)));
    }
    if (set.size() != ids.size()) fail(std::string(what) + "-size", std::to_string(set.size()) + " of " + std::to_string(ids.size()));
    if (set.discovered() != adds) fail(std::string(what) + "-discovered", std::to_string(set.discovered()) + " of " + std::to_string(adds));
    if (set.maxTokens() != maxsum) fail(std::string(what) + "-tokens", std::to_string(set.maxTokens()) + " of " + std::to_string(maxsum));
    if (set.maxPlaceBound() != bound) fail(std::string(what) + "-bounds", show(set.maxPlaceBound()) + " of " + show(bound));
}

static void sets() {
    for (int k = 0; k < 3; ++k) {
        size_t n = std::min<size_t>(gen_places(), 300);
        auto net = make_net(n, 1);
        {
            Structures::StateSet s(*net, 0);
            set_history("set", n, *net, s, [](auto&, auto&, auto&, auto&) {});
        }
        {
            Structures::TracableStateSet s(*net, 0);
            std::map<size_t, std::pair<size_t, size_t>> hist;
            std::vector<size_t> order;
            set_history("trace-set", n, *net, s, [&](auto& r, auto&, auto& set, auto& st) {
                if (r.first) {
                    // the way a search uses it: decode the parent, then record the step
                    size_t parent = order.empty() ? r.second : order[rnd(order.size())], t = rnd(1000);
                    order.push_back(r.second);
                    set.decode(st, parent);
                    set.setHistory(r.second, t);
                    hist[r.second] = {parent, t};
                }
                if (!order.empty()) {
                    auto id = order[rnd(order.size())];
                    counts["histories"]++;
                    if (set.getHistory(id) != hist[id]) fail("trace-set-history", "a state has another parent or transition than recorded");
                }
            });
        }
        {   // product states
            LTL::Structures::BitProductStateSet<> s(*net);
            std::map<std::pair<Marking, size_t>, size_t> ids;
            std::vector<Marking> pool;
            std::set<Marking> marks;
            for (int i = 0; i < 200; ++i) {
                Marking m = pool.empty() || chance(0.3) ? gen_marking(n, pool) : pool[rnd(pool.size())];
                pool.push_back(m);
                size_t q = chance(0.9) ? rnd(5) : (1u << 20) - 1 - rnd(3);
                LTL::Structures::ProductState st(nullptr);
                st.setMarking(new MarkVal[n]);
                std::copy(m.begin(), m.end(), st.marking());
                st.set_buchi_state(q);
                auto [isnew, id, data] = s.add(st);
                counts["product insertions"]++;
                auto it = ids.find({m, q});
                if (isnew != (it == ids.end())) fail("product-new", show(m) + " q" + std::to_string(q));
                if (it != ids.end() && it->second != id) fail("product-id", "a known product state gets another identifier");
                ids[{m, q}] = id;
                marks.insert(m);
                auto x = std::next(ids.begin(), rnd(ids.size()));
                s.decode(st, x->second);
                if (Marking(st.marking(), st.marking() + n) != x->first.first || st.get_buchi_state() != x->first.second) fail("product-decode", show(x->first.first));
            }
            if (s.markings() != marks.size() || s.configurations() != ids.size()) fail("product-size", "");
        }
    }
}

static void bucket() {
    {
        constexpr size_t C = 8;
        linked_bucket_t<uint64_t, C> b(1);
        std::vector<uint64_t> ref;
        size_t n = 1 + rnd(chance(0.5) ? 200 : 3000);
        for (size_t i = 0; i < n; ++i) {
            auto id = b.next(0);
            uint64_t v = rng();
            if (id != ref.size()) fail("bucket-id", std::to_string(id) + " instead of " + std::to_string(ref.size()));
            if (b[id] != 0) fail("bucket-zero", "a new cell is not zero");
            b[id] = v;
            ref.push_back(v);
            auto j = rnd(ref.size());
            if (b[j] != ref[j]) fail("bucket-read", "cell " + std::to_string(j));
            counts["bucket cells"]++;
        }
        for (size_t j = 0; j < ref.size(); ++j) if (b[j] != ref[j]) fail("bucket-read", "cell " + std::to_string(j));
        if (b.size() != ref.size()) fail("bucket-size", "");
    }
    {   // every thread fills its own buckets
        constexpr size_t C = 4;
        const size_t T = 2 + rnd(3), N = 200 + rnd(400);
        linked_bucket_t<uint64_t, C> b(T);
        std::vector<std::vector<size_t>> ids(T);
        std::vector<std::thread> ts;
        for (size_t t = 0; t < T; ++t)
            ts.emplace_back([&, t]() {
                for (size_t i = 0; i < N; ++i) {
                    auto id = b.next(t);
                    b[id] = (uint64_t(t) << 32) | (i + 1);
                    ids[t].push_back(id);
                }
            });
        for (auto& t : ts) t.join();
        std::set<size_t> all;
        for (size_t t = 0; t < T; ++t)
            for (size_t i = 0; i < N; ++i) {
                counts["concurrent bucket cells"]++;
                if (!all.insert(ids[t][i]).second) fail("bucket-shared", "two threads were given cell " + std::to_string(ids[t][i]));
                if (b[ids[t][i]] != ((uint64_t(t) << 32) | (i + 1))) fail("bucket-lost", "a thread's value is gone");
            }
    }
}

static void deque_() {
    struct Obj {
        std::unique_ptr<int> v;
        static int& live() { static int n = 0; return n; }
        explicit Obj(int x) : v(new int(x)) { ++live(); }
        Obj(Obj&& o) : v(new int(*o.v)) { ++live(); }
        Obj(const Obj& o) : v(new int(*o.v)) { ++live(); }
        ~Obj() { --live(); }
    };
    {
        light_deque<uint32_t> d(1 + rnd(5));
        std::deque<uint32_t> ref;
        double grow = 0.4 + 0.1 * rnd(4);
        for (int i = 0; i < 600; ++i) {
            if (chance(grow)) { uint32_t v = rng(); d.push_back(v); ref.push_back(v); }
            else if (!ref.empty()) {
                if (chance(0.5)) { d.pop_front(); ref.pop_front(); } else { d.pop_back(); ref.pop_back(); }
            }
            if (chance(0.005)) { d.clear(); ref.clear(); }
            if (chance(0.02) && !ref.empty()) { light_deque<uint32_t> e(1 + rnd(4)); e.push_back(7); e = d; if (!std::equal(ref.begin(), ref.end(), e.begin(), e.end())) fail("deque-assign", ""); e.push_back(1); e.push_back(2); if (e.back() != 2 || e.size() != ref.size() + 2) fail("deque-assign", ""); }
            counts["deque operations"]++;
            if (d.size() != ref.size() || d.empty() != ref.empty()) { fail("deque-size", ""); return; }
            if (!ref.empty() && (d.front() != ref.front() || d.back() != ref.back())) fail("deque-ends", "");
            if (!std::equal(ref.begin(), ref.end(), d.begin(), d.end())) fail("deque-content", "");
            if (!ref.empty()) { auto j = rnd(ref.size()); if (d[j] != ref[j]) fail("deque-index", ""); }
        }
    }
    {   // successor queues: what was popped is never offered again, the rest exactly once
        std::vector<uint32_t> pool(3 + rnd(12));
        for (size_t i = 0; i < pool.size(); ++i) pool[i] = i * 3;
        std::shuffle(pool.begin(), pool.end(), rng);
        size_t k = 1 + rnd(pool.size());
        std::vector<uint32_t> first(pool.begin(), pool.begin() + k);
        SuccessorQueue<uint32_t> q(first.data(), k);
        std::multiset<uint32_t> left(first.begin(), first.end()), popped;
        bool extended = false;
        for (int i = 0; i < 60 && (!q.empty() || !extended); ++i) {
            counts["successor queue operations"]++;
            if (q.size() != left.size() || q.empty() != left.empty()) { fail("succqueue-size", std::to_string(q.size()) + " of " + std::to_string(left.size())); break; }
            if (!extended && chance(0.3)) {
                auto all = pool;
                std::shuffle(all.begin(), all.end(), rng);
                q.extend_to(all.data(), all.size());
                extended = true;
                left = {all.begin(), all.end()};
                for (auto x : popped) left.erase(x);
            } else if (!q.empty()) {
                auto x = q.front();
                q.pop();
                if (!q.has_consumed() || q.last_pop() != x) fail("succqueue-last", "");
                auto it = left.find(x);
                if (it == left.end()) { fail("succqueue-twice", std::to_string(x) + " is offered again or was never there"); break; }
                left.erase(it);
                popped.insert(x);
            }
        }
        if (!left.empty() && q.empty()) fail("succqueue-lost", std::to_string(left.size()) + " successors never offered");
    }
}

static PQL::Condition_ptr gen_query(size_t n, PetriNetBuilder& b, const PetriNet& net) {
    std::string s = "p0 >= " + std::to_string(rnd(6)) + (chance(0.5) ? " and " : " or ") + "p" + std::to_string(n - 1) + " < " + std::to_string(1 + rnd(4));
    if (chance(0.5)) s = "not (" + s + ")";
    auto q = PQL::ParseQuery(s);
    std::vector<PQL::Condition_ptr> qs{q};
    shared_name_name_map tn;
    shared_place_color_map pn;
    contextAnalysis(false, tn, pn, b, &net, qs);
    return qs[0];
}

// kind: 0 any order, 1 last in first out, 2 least distance first, 3 earlier generations first
template<typename Q, typename Push>
static void work(const char* name, Q& q, Push&& push, int kind, std::function<uint32_t(const Marking&)> dist, size_t n) {
    std::map<size_t, uint32_t> in;      // waiting
    std::set<size_t> out;
    std::vector<size_t> order;
    size_t next = 0, burst = 1 + rnd(6), pops = 0;
    std::map<size_t, size_t> born;
    auto push1 = [&]() {
        Marking m(n);
        for (auto& x : m) x = rnd(7);
        size_t id = next++;
        if (chance(0.05)) next += rnd(5);
        in[id] = dist(m);
        order.push_back(id);
        born[id] = pops;
        push(id, m);
    };
    bool first = true;
    for (int i = 0; i < 400; ++i) {
        if (q.empty() != in.empty()) { fail(std::string(name) + "-empty", std::to_string(in.size()) + " are waiting"); return; }
        if (in.empty() || (chance(0.45) && i < 300)) {
            if (i >= 300 && in.empty()) break;
            for (size_t k = first ? 1 : 1 + rnd(burst); k > 0; --k) push1();
            first = false;
        } else {
            auto id = q.pop();
            counts[std::string(name) + " pops"]++;
            auto it = in.find(id);
            if (it == in.end()) { fail(std::string(name) + "-exactly-once", std::to_string(id) + (out.count(id) ? " comes out twice" : " was never put in")); return; }
            ++pops;
            if (kind == 3) for (auto& [a, d] : in) if (born[a] < born[id]) { fail(std::string(name) + "-order", "a later generation comes first"); break; }
            if (kind == 1 && id != order.back()) fail(std::string(name) + "-order", "not the last one put in");
            if (kind == 2) for (auto& [a, d] : in) if (d < it->second) { fail(std::string(name) + "-order", "distance " + std::to_string(it->second) + " before " + std::to_string(d)); break; }
            order.erase(std::find(order.begin(), order.end(), id));
            out.insert(id);
            in.erase(it);
        }
    }
    while (!q.empty()) {
        auto id = q.pop();
        if (!in.erase(id)) { fail(std::string(name) + "-exactly-once", "while draining"); return; }
    }
    if (!in.empty()) fail(std::string(name) + "-lost", std::to_string(in.size()) + " items are lost");
    if (q.pop() != Structures::Queue::EMPTY) fail(std::string(name) + "-empty", "an empty list hands out something");
    counts[std::string(name) + " histories"]++;
}

static void queues() {
    size_t n = 1 + rnd(3), nt = 1 + rnd(5);
    shared_string_set strings;
    PetriNetBuilder b{strings};
    build(b, n, nt);
    std::unique_ptr<PetriNet> net(b.makePetriNet(false));
    auto q = gen_query(n, b, *net);
    auto dist = [&](const Marking& m) -> uint32_t { PQL::DistanceContext c(net.get(), m.data()); return q->distance(c); };
    auto plain = [&](auto& w) { return [&](size_t id, const Marking& m) { PQL::DistanceContext c(net.get(), m.data()); w.push(id, &c, q.get()); }; };
    { Structures::BFSQueue w(0); work("bfs", w, plain(w), 3, dist, n); }
    { Structures::DFSQueue w(0); work("dfs", w, plain(w), 1, dist, n); }
    { Structures::RDFSQueue w(rnd(100)); work("rdfs", w, plain(w), 0, dist, n); }
    { Structures::HeuristicQueue w(0); work("best", w, plain(w), 2, dist, n); }
    for (bool given : {false, true}) {
        std::vector<MarkVal> init(nt);
        for (auto& x : init) x = rnd(4);
        std::unique_ptr<Structures::RandomPotencyQueue> w(given ? new Structures::RandomPotencyQueue(init, rnd(100)) : new Structures::RandomPotencyQueue(rnd(100)));
        bool first = true;
        work("potency", *w, [&](size_t id, const Marking& m) {
            PQL::DistanceContext c(net.get(), m.data());
            if (first) w->push(id, &c, q.get());
            else w->push(id, &c, q.get(), rnd(nt));
            first = false;
        }, 0, dist, n);
    }
}

template<typename S>
static void ctl(const char* name) {
    using namespace DependencyGraph;
    S s;
    const size_t N = 40;
    std::vector<std::unique_ptr<PetriNets::PetriConfig>> confs;
    static const char* texts[] = {"EF p0 >= 1", "AG (EF p0 == 2)", "A (p0 >= 1 U p0 == 0)", "p0 >= 3", "EG (AF p0 == 2 or AX p0 == 1)"};
    static std::vector<PQL::Condition_ptr> queries;
    if (queries.empty()) for (auto* t : texts) if (auto q = PQL::ParseQuery(t)) queries.push_back(q);
    for (size_t i = 0; i < N; ++i) { confs.emplace_back(std::make_unique<PetriNets::PetriConfig>()); confs.back()->query = queries[rnd(queries.size())].get(); }
    std::vector<std::unique_ptr<Edge>> edges;
    for (size_t i = 0; i < 60; ++i) {
        edges.emplace_back(std::make_unique<Edge>(*confs[rnd(N)]));
        edges.back()->refcnt = 0;
        for (size_t k = rnd(3); k > 0; --k) edges.back()->addTarget(confs[rnd(N)].get());
    }
    std::multiset<Edge*> waiting;
    for (int i = 0; i < 300; ++i) {
        if (s.available() != !waiting.empty()) { fail(std::string(name) + "-empty", std::to_string(waiting.size())); return; }
        if (waiting.empty() || (chance(0.5) && i < 200)) {
            auto* e = edges[rnd(edges.size())].get();
            if (chance(0.2)) { if (waiting.count(e)) continue; s.pushDependency(e); waiting.insert(e); }
            else {
                bool known = waiting.count(e);
                s.pushEdge(e);
                if (!known) waiting.insert(e);
            }
            counts["edges pushed"]++;
        } else {
            auto* e = s.popEdge();
            counts["edges popped"]++;
            auto it = waiting.find(e);
            if (it == waiting.end()) { fail(std::string(name) + "-exactly-once", "an edge comes out that is not waiting"); return; }
            waiting.erase(it);
        }
    }
    while (s.available()) { auto* e = s.popEdge(); auto it = waiting.find(e); if (it == waiting.end()) { fail(std::string(name) + "-exactly-once", ""); return; } waiting.erase(it); }
    if (!waiting.empty()) fail(std::string(name) + "-lost", std::to_string(waiting.size()) + " edges are lost");
    if (s.popEdge() != nullptr) fail(std::string(name) + "-empty", "");
}

int main(int argc, char** argv) {
    std::string mode = argv[1];
    rng.seed(std::stoull(argv[2]));
    if (mode == "codec") codec();
    else if (mode == "sets") sets();
    else if (mode == "bucket") bucket();
    else if (mode == "deque") for (int i = 0; i < 10; ++i) deque_();
    else if (mode == "queues") for (int i = 0; i < 5; ++i) queues();
    else if (mode == "ctl") for (int i = 0; i < 10; ++i) {
        ctl<SearchStrategy::DFSSearch>("ctl-dfs");
        ctl<SearchStrategy::BFSSearch>("ctl-bfs");
        ctl<SearchStrategy::RDFSSearch>("ctl-rdfs");
        ctl<SearchStrategy::HeuristicSearch>("ctl-best");
    }
    for (auto& [k, v] : counts) std::cout << "COUNT " << v << " " << k << "\n";
    std::cout << "END" << std::endl;
    return 0;
}
