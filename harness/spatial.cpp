// S02: spatial sorting permutes the points behind the reserved first slot.
#include "geo.hpp"
#include "SpatialSort.h"
#include "reseed.hpp"

template<uint D, typename P>
static void spatial(mc::Choice &c, const std::vector<IP<D>> &in) {
    mc::describe(mc::fmt("D=%u precision=%zu ", D, sizeof(P)) + ptsStr<D>(in));
    dPoints<D, P> pts;
    for (uint d = 0; d < D; ++d) pts[0].coords[d] = -777 - (int) d;      // the reserved slot
    fill<D, P>(pts, in);
    std::array<dPoint<D, P>, dPoint<D, P>::nINF> inf;
    for (uint i = 0; i < (1u << D); ++i)
        for (uint d = 0; d < D; ++d) pts[dPoint<D, P>::cINF | i].coords[d] = 5000 + i * 10 + d;
    CGALSpatialSorter<D, P> s;
    s.sort(pts);
    mc::requireF(pts.finite_size() == in.size() + 1, [&] { return mc::fmt("%zu points, expected %zu", (size_t) pts.finite_size() - 1, in.size()); });
    for (uint d = 0; d < D; ++d) mc::requireF(pts[0].coords[d] == -777 - (int) d, [] { return std::string("the reserved slot was changed"); });
    for (uint i = 0; i < (1u << D); ++i)
        for (uint d = 0; d < D; ++d) mc::requireF(pts[dPoint<D, P>::cINF | i].coords[d] == 5000 + i * 10 + d, [] { return std::string("an auxiliary point was changed"); });
    std::multiset<IP<D>> want, got;
    for (auto x : in) { for (auto &y : x) y *= SC; want.insert(x); }
    uint64_t h = D;
    for (size_t i = 1; i <= in.size(); ++i) {
        auto x = exactOf<D, P>(pts, i);
        got.insert(x);
        for (uint d = 0; d < D; ++d) h = mc::mix(h, x[d]);
    }
    mc::requireF(want == got, [] { return std::string("the result is no permutation of the points"); });
    mc::state(h);
}

// all sequences of up to n points of a small lattice, duplicates included
template<uint D, typename P>
static void all(mc::Choice &c, int n) {
    int k = c.pick(n + 1);
    std::vector<IP<D>> in;
    for (int i = 0; i < k; ++i) {
        IP<D> p;
        int x = c.pick(D == 2 ? 6 : 8);
        for (uint d = 0; d < D; ++d) { p[d] = x % (D == 2 && d == 0 ? 3 : 2) * 2 - 1; x /= (D == 2 && d == 0 ? 3 : 2); }
        in.push_back(p);
        if (i == 1) c.shard();
    }
    spatial<D, P>(c, in);
}

// larger inputs: every size, every arrangement of a family
template<uint D, typename P>
static void sizes(mc::Choice &c, int n) {
    int k = c.pick(n + 1), kind = c.pick(5);
    c.shard();
    std::vector<IP<D>> in;
    uint64_t s = 88172645463325252ull + k;
    for (int i = 0; i < k; ++i) {
        IP<D> p;
        for (uint d = 0; d < D; ++d) {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            p[d] = kind == 0 ? i : kind == 1 ? -i : kind == 2 ? (d ? 0 : i % 7) : kind == 3 ? 5 : (long) (s % 200) - 100;
        }
        in.push_back(p);
    }
    spatial<D, P>(c, in);
}

MC_SCENARIO("2d", 0, 0, 3) { all<2, double>(c, mc::thorough() ? 7 : 6); }
MC_SCENARIO("2d float", 0, 0, 3) { all<2, float>(c, 5); }
MC_SCENARIO("3d", 0, 0, 3) { all<3, double>(c, mc::thorough() ? 6 : 5); }
MC_SCENARIO("3d float", 0, 0, 3) { all<3, float>(c, 4); }
MC_SCENARIO("2d sizes", 0, 0, 3) { sizes<2, double>(c, mc::thorough() ? 1200 : 300); }
MC_SCENARIO("3d sizes", 0, 0, 3) { sizes<3, float>(c, mc::thorough() ? 1200 : 300); }

MC_MAIN
