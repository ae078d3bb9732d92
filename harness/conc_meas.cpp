// U03: every interleaving of threads that count and measure into one record.
#include "sched.hpp"
#include "utils/Timings.h"

static const char *NM[] = {"x", "y"};

struct Op { bool meas; int name; unsigned long v; };

static void bodyRun(mc::Choice &c, int threads, int ops, bool accessor, bool reg) {
    std::vector<std::vector<Op>> p(threads);
    std::string d = accessor ? "via registry " : "";
    int last = -1;
    for (int t = 0; t < threads; ++t) {
        d += "{";
        int code = 0;
        for (int i = 0; i < ops; ++i) {
            int k = c.pick(4);
            code = code * 4 + k;
            // values that tell the operations apart in every subset
            Op o{k >= 2, k % 2, accessor && k < 2 && i == 0 ? 1ul : 1ul << (t * ops + i) * 2};
            p[t].push_back(o);
            d += mc::fmt("%s(%s,%lu) ", o.meas ? "measure" : "count", NM[o.name], o.v);
        }
        if (code < last) throw mc::Skip();       // threads are interchangeable
        last = code;
        d += "}";
    }
    c.shard();
    mc::describe(d);
    ExperimentRun r;
    bool pre = reg;
    if (pre) { r.incCounter("x", 1000000); r.addMeasurement("y", 1000000); }
    if (accessor) PROFILER.setRun(&r);
    std::vector<std::function<void()>> b;
    for (int t = 0; t < threads; ++t)
        b.push_back([&, t] {
            for (auto &o : p[t]) {
                if (accessor) {
                    if (o.meas) PROFILER.addMeasurement(NM[o.name], o.v);
                    else if (o.v == 1) PROFILER.incCounter(NM[o.name]);
                    else PROFILER.incCounter(NM[o.name], o.v);
                } else {
                    if (o.meas) r.addMeasurement(NM[o.name], o.v); else if (o.v == 1) r.incCounter(NM[o.name]); else r.incCounter(NM[o.name], o.v);
                }
            }
        });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, b, opt);
    if (accessor) PROFILER.setRun(nullptr);
    std::map<std::string, unsigned long> cnt, gc;
    std::map<std::string, std::multiset<unsigned long>> ms, gm;
    if (pre) { cnt["x"] = 1000000; ms["y"].insert(1000000); }
    for (auto &t : p) for (auto &o : t) if (o.meas) ms[NM[o.name]].insert(o.v); else cnt[NM[o.name]] += o.v;
    for (auto &x : r.counters()) gc[x.first] = x.second;
    for (auto &x : r.measurements()) gm[x.first] = std::multiset<unsigned long>(x.second.begin(), x.second.end());
    mc::requireF(gc == cnt, [&] {
        std::string s = "counters differ from the sum of the increments:";
        for (auto &x : cnt) s += mc::fmt(" %s=%lu (expected %lu)", x.first.c_str(), gc[x.first], x.second);
        return s;
    });
    mc::requireF(gm == ms, [&] {
        std::string s = "measurements differ from those added:";
        for (auto &x : ms) s += mc::fmt(" %s: %zu (expected %zu)", x.first.c_str(), gm[x.first].size(), x.second.size());
        return s;
    });
    // per thread the order of its own measurements is kept
    for (auto &t : p) {
        std::map<int, std::vector<unsigned long>> own;
        for (auto &o : t) if (o.meas) own[o.name].push_back(o.v);
        for (auto &x : own) {
            size_t i = 0;
            for (auto v : r.measurements(NM[x.first])) if (i < x.second.size() && v == x.second[i]) ++i;
            mc::requireF(i == x.second.size(), [] { return std::string("the measurements of one thread are out of order"); });
        }
    }
    uint64_t h = mc::hashStr(d);
    for (auto &x : r.measurements()) for (auto v : x.second) h = mc::mix(h, v);
    mc::state(mc::mix(h, sched::switches()));
    mc::outcome(h);
}

MC_SCENARIO("2x2", 3, 6, 3) { bodyRun(c, 2, 2, false, false); }
MC_SCENARIO("2x2-known-names", 3, 6, 3) { bodyRun(c, 2, 2, false, true); }
MC_SCENARIO("3x1", 3, 5, 3) { bodyRun(c, 3, 1, false, false); }
MC_SCENARIO("2x1-registry", 3, 6, 3) { bodyRun(c, 2, 1, true, false); }
MC_SCENARIO("2x2-registry", 2, 4, 3) { bodyRun(c, 2, 2, true, true); }
MC_SCENARIO("2x3", 3, 4, 2) { bodyRun(c, 2, 3, false, false); }

MC_MAIN
