// H04: every interleaving (up to the preemption bound) of threads that set, clear and test bits of one set.
#include "lin.hpp"
#include "datastructures/Bit_Set.hxx"

enum { SET, CLR, HAS };

struct Spec {
    std::set<int> s;
    bool step(const lin::Op &o) {
        bool in = s.count(o.key) > 0;
        if (o.kind == SET) s.insert(o.key);
        if (o.kind == CLR) s.erase(o.key);
        return (int) in == o.res;
    }
    bool operator<(const Spec &o) const { return s < o.s; }
};

static void conc(mc::Choice &c, std::vector<int> lens, const std::vector<int> &pos) {
    std::vector<std::vector<std::pair<int, int>>> p;
    bool pre = c.flag();
    std::string d = pre ? "all set before " : "";
    for (int len : lens) {
        p.emplace_back();
        d += "{";
        for (int i = 0; i < len; ++i) {
            int x = c.pick(3 * pos.size());
            p.back().push_back({x % 3, pos[x / 3]});
            d += mc::fmt("%s(%d) ", x % 3 == SET ? "set" : x % 3 == CLR ? "clear" : "test", pos[x / 3]);
        }
        d += "}";
    }
    c.shard();
    mc::describe(d);
    Concurrent_Bit_Set s(0, 64);
    Spec spec;
    if (pre) for (int x : pos) { s.testAndSet(x); spec.s.insert(x); }
    lin::History h;
    std::vector<std::function<void()>> bodies;
    for (auto &t : p)
        bodies.push_back([&, t] {
            for (auto &o : t) {
                if (o.first == SET) h.op(SET, o.second, 0, mc::fmt("testAndSet(%d)", o.second), [&] { return (int) s.testAndSet(o.second); });
                else if (o.first == CLR) h.op(CLR, o.second, 0, mc::fmt("testAndUnset(%d)", o.second), [&] { return (int) s.testAndUnset(o.second); });
                else h.op(HAS, o.second, 0, mc::fmt("isSet(%d)", o.second), [&] { return (int) s.isSet(o.second); });
            }
        });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, bodies, opt);
    std::set<int> fin;
    for (auto it = s.begin(); it != s.end(); ++it) fin.insert(*it);
    mc::requireF(s.ones() == fin.size() && s.zeros() == 64 - fin.size(), [&] { return mc::fmt("%zu bits are set but ones() is %zu; ", fin.size(), (size_t) s.ones()) + h.str(); });
    bool ok = lin::linearizable<Spec>(h, spec, [&](const Spec &e) { return e.s == fin; });
    mc::requireF(ok, [&] { return "no sequential order explains this history: " + h.str(); });
    Bit_Set q(std::move(s));
    mc::requireF(q.ones() == fin.size(), [&] { return std::string("the conversion to the sequential set changes the count"); });
    for (int x = 0; x < 64; ++x) mc::requireF(q.isSet(x) == (fin.count(x) > 0), [&] { return mc::fmt("the conversion to the sequential set changes bit %d", x); });
    mc::state(h.hash());
    uint64_t oc = 5;
    for (auto &o : h.ops) oc = mc::mix(oc, o.res);
    mc::outcome(oc);
}

MC_SCENARIO("2x1", 4, 6, 3) { conc(c, {1, 1}, {0, 31, 32}); }
MC_SCENARIO("2x2", 2, 4, 3) { conc(c, {2, 2}, {30, 31}); }
MC_SCENARIO("3x1", 2, 4, 3) { conc(c, {1, 1, 1}, {0, 31}); }
MC_SCENARIO("3x2", 1, 2, 2) { conc(c, {2, 2, 2}, {0, 31}); }
MC_SCENARIO("2x3", 2, 3, 2) { conc(c, {3, 3}, {0, 31}); }

MC_MAIN
