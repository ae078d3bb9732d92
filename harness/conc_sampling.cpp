// G12: the graph of a sample, built by several threads, under every interleaving.
#include "sched.hpp"
#include "lbsample.hpp"

typedef dPoint<2, double> Pt;

static void graph(mc::Choice &c, int k, int leaves, bool weighted) {
    auto u = universe<2>(7, 0, 60, 7);
    std::vector<IP<2>> in;
    for (int i : pickSubset(c, 7, k)) in.push_back(u[i]);
    c.shard();
    mc::describe(mc::fmt("sample of all of %d points, %d pieces, %s: ", k, leaves, weighted ? "weighted" : "uniform") + ptsStr<2>(in));
    dPoints<2, double> pts;
    Point_Ids ids;
    dBox<2, double> b;
    sched::Threaded pol(&c, leaves);
    lb::Sampling<2, double> s;
    {
        sched::Quiet q;
        startGen.seed(START_SEED);
        ids = Point_Ids();
        fill<2, double>(pts, in);
        for (int i = 0; i < k; ++i) ids.insert(i + 1);
        b = boundsOf<2, double>(in);
        dSimplices<2, double>::simplexID = 1;
        kaffpaCalls.clear();
    }
    auto size = [&](size_t) -> size_t { return k; };
    auto sampler = weighted ? lb::Sampler<2, double>(1, size, FAST, 0.1, [](double d) { return 1 - d; }) : lb::Sampler<2, double>(1, size, FAST, 0.1);
    {
        mtbb::ScopedPolicy sp(&pol);
        s = sampler(b, pts, ids, 2);
    }
    std::vector<tIdType> id;
    for (auto &v : s.points) for (int i = 0; i < k; ++i) if (pts[i + 1].coords == v) id.push_back(i);
    mc::requireF((int) id.size() == k && (int) s.size() == k && (int) s.partition.size() == k, [&] { return mc::fmt("%zu sample points, %zu vertices, %zu partition entries instead of %d", s.points.size(), s.size(), s.partition.size(), k); });
    std::map<std::pair<int, int>, int> e, want;
    for (int i = 0; i < k; ++i) for (int j = s.graph.nodeRecords.at(i); j < s.graph.nodeRecords.at(i + 1); ++j)
        mc::requireF(s.graph.adjacency.at(j) >= 0 && s.graph.adjacency[j] < k && e.insert({{id[i], id[s.graph.adjacency[j]]}, s.graph.edgeWeights.at(j)}).second, [&] { return mc::fmt("edge %d-%d occurs twice or leads nowhere", i, s.graph.adjacency[j]); });
    long d0 = b.high[0] - b.low[0], d1 = b.high[1] - b.low[1];
    for (int x = 0; x < k; ++x) for (int y = x + 1; y < k; ++y) for (int z = y + 1; z < k; ++z) {
        bool empty = true;
        for (int w = 0; w < k; ++w) if (w != x && w != y && w != z) empty &= inSphereExact<2>({in[x], in[y], in[z]}, in[w]) <= 0;
        if (!empty) continue;
        for (int p : {x, y, z}) for (int q : {x, y, z}) if (p != q) {
            long e0 = in[p][0] - in[q][0], e1 = in[p][1] - in[q][1];
            want[{p, q}] = weighted ? 1 + (int) (98 * (1 - double(e0 * e0 + e1 * e1) / (d0 * d0 + d1 * d1))) : 1;
        }
    }
    mc::requireF(e.size() == want.size() && s.graph.adjacency.size() == want.size(), [&] { return mc::fmt("%zu edges, %zu entries instead of %zu", e.size(), s.graph.adjacency.size(), want.size()); });
    for (auto &w : want) mc::requireF(e.count(w.first) && std::abs(e[w.first] - w.second) <= 1, [&] { return mc::fmt("edge %d-%d is missing or weighs %d instead of %d", w.first.first, w.first.second, e[w.first], w.second); });
    mc::transition(sched::points());
    mc::state(mc::hashStr(ptsStr<2>(in)));
}

MC_SCENARIO("2 threads", 1, 2, 3) { graph(c, 4, 2, c.flag()); }
MC_SCENARIO("3 threads", 1, 1, 2) { graph(c, 4, 3, false); }
MC_MAIN
