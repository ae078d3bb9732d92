// E01: base triangulations registered by several threads at once, under every interleaving.
#include "sched.hpp"
#include "lbsample.hpp"
#include "load_balancing/monitors/ComprehensiveMonitor.h"

static void body(mc::Choice &c, int threads, int ops, bool own) {
    std::vector<std::vector<int>> p(threads);
    std::string d;
    int last = -1;
    for (int t = 0; t < threads; ++t) {
        int code = 0;
        d += "{";
        for (int i = 0; i < ops; ++i) { int k = c.pick(2); code = code * 2 + k; p[t].push_back(k); d += k ? "sample " : "base "; }
        if (code < last) throw mc::Skip();
        last = code;
        d += "}";
    }
    c.shard();
    mc::describe(d + (own ? " own monitors" : " one monitor"));
    lb::ComprehensiveAccumulator acc;
    lb::ComprehensiveMonitor m(acc);
    std::vector<lb::ComprehensiveMonitor> copies(threads, m);
    std::multiset<std::pair<size_t, std::string>> want;
    size_t total = 0;
    std::vector<std::function<void()>> b;
    for (int t = 0; t < threads; ++t) {
        for (int i = 0; i < ops; ++i) { size_t n = size_t(1) << (t * ops + i) * 3; total += n; want.insert({n, mc::fmt("0%d%d", t, i)}); }
        b.push_back([&, t] {
            auto &x = own ? copies[t] : m;
            for (int i = 0; i < ops; ++i) {
                size_t n = size_t(1) << (t * ops + i) * 3;
                auto prov = mc::fmt("0%d%d", t, i);
                if (p[t][i]) x.registerSampleTriangulation(n, prov); else x.registerBaseTriangulation(n, prov);
            }
        });
    }
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, b, opt);
    std::multiset<std::pair<size_t, std::string>> got(acc.baseTriangulations.begin(), acc.baseTriangulations.end());
    mc::requireF(got == want, [&] { return mc::fmt("%zu base triangulations on record instead of %zu, or others", got.size(), want.size()); });
    mc::requireF(acc.numTriangulatedPoints == total, [&] { return mc::fmt("%zu triangulated points on record instead of %zu", acc.numTriangulatedPoints, total); });
    uint64_t h = threads;
    for (auto &x : acc.baseTriangulations) h = mc::mix(h, mc::hashStr(x.second));
    mc::outcome(h);
    mc::state(mc::mix(h, mc::hashStr(d)));
}

MC_SCENARIO("monitor-two-threads", 3, 6, 3) { body(c, 2, 2, c.flag()); }
MC_SCENARIO("monitor-three-threads", 2, 3, 3) { body(c, 3, mc::thorough() ? 2 : 1, c.flag()); }
MC_MAIN
