// G09: the tests made from points by several threads, under every interleaving.
#include "sched.hpp"
#include "Geometry.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "reseed.hpp"

namespace lb = LoadBalancing;
typedef dPoint<2, double> Pt;

static void make(mc::Choice &c, int k, int parts, bool grid, int leaves) {
    std::vector<int> part;
    int used = 0;
    for (int i = 0; i < k; ++i) { part.push_back(c.pick(std::min(parts, used + 1))); used = std::max(used, part.back() + 1); }
    c.shard();
    dPoints<2, double> pts;
    Point_Ids ids;
    std::string d = grid ? "grid test," : "bounds test,";
    {
        sched::Quiet q;
        for (int i = 0; i < k; ++i) {
            Pt p;
            p.coords = {double((i * 5) % 7), double((i * 3) % 4)};
            pts.emplace_back(p);
            ids.insert(i + 1);
            d += mc::fmt(" (%g,%g)@%d", p.coords[0], p.coords[1], part[i]);
        }
    }
    mc::describe(d);
    sched::Threaded pol(&c, leaves);
    std::vector<lb::IntersectionPartition<2, double>> res;
    {
        mtbb::ScopedPolicy sp(&pol);
        auto assign = [&](tIdType id) -> size_t { return part[id - 1]; };
        if (grid) res = lb::GridIntersectionPartitionMaker<2, double>(lb::Grid<2, double>(2))(pts, ids, parts, assign);
        else res = lb::BoundsIntersectionPartitionMaker<2, double>()(pts, ids, parts, assign);
    }
    mc::requireF(res.size() == (size_t) parts, [&] { return mc::fmt("%zu partitions instead of %d", res.size(), parts); });
    for (int q = 0; q < parts; ++q) {
        std::set<tIdType> want, got(res[q].pointIds.begin(), res[q].pointIds.end());
        dBox<2, double> b;
        bool first = true;
        for (int i = 0; i < k; ++i) if (part[i] == q) {
            want.insert(i + 1);
            for (uint d = 0; d < 2; ++d) {
                double x = pts[i + 1].coords[d];
                if (first || x < b.low[d]) b.low[d] = x;
                if (first || x > b.high[d]) b.high[d] = x;
            }
            first = false;
        }
        for (tIdType id = Pt::cINF; id != 0; ++id) want.insert(id);
        mc::requireF(got == want, [&] { return mc::fmt("partition %d does not hold its points", q); });
        if (first) continue;
        mc::requireF(res[q].intersectionChecker->bounds() == b, [&] {
            auto &g = res[q].intersectionChecker->bounds();
            return mc::fmt("bounds of partition %d are [%g,%g]x[%g,%g] and not those of its points [%g,%g]x[%g,%g]", q, g.low[0], g.high[0], g.low[1], g.high[1], b.low[0], b.high[0], b.low[1], b.high[1]);
        });
        dSimplex<2, double> dummy{};
        for (int i = 0; i < k; ++i) if (part[i] == q) {
            dSphere<2, double> s;
            s.center = pts[i + 1].coords;
            s.radius = 0.25;
            mc::requireF(res[q].intersectionChecker->intersects(s, dummy), [&] { return mc::fmt("the test of partition %d misses a sphere around one of its points", q); });
        }
    }
    mc::transition(sched::points());
    mc::state(mc::hashStr(d));
}

MC_SCENARIO("bounds, 2 threads", 2, 3, 3) { make(c, 4, 2, false, 2); }
MC_SCENARIO("grid, 2 threads", 1, 2, 3) { make(c, 4, 2, true, 2); }
MC_SCENARIO("bounds, 3 threads", 1, 2, 3) { make(c, mc::thorough() ? 5 : 3, 3, false, 3); }
MC_MAIN
