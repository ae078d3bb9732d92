// G03: the load balanced triangulation with the partitioners of the library; points, samples, partitions of the sample
// and random choices are the explorer's. Judged by the definition of the Delaunay triangulation.
#include "lbrun.hpp"
#include "large.hpp"

template<uint D> static const std::vector<IP<D>> &uni() { static auto u = universe<D>(D == 2 ? 16 : 14, 0, 60, D == 2 ? 7 : 11); return u; }
template<uint D> static std::vector<IP<D>> sub(mc::Choice &c, int n, int k) {
    std::vector<IP<D>> r;
    for (int i : pickSubset(c, n, k)) r.push_back(uni<D>()[i]);
    return r;
}

template<uint D>
static void direct(mc::Choice &c, const std::vector<IP<D>> &in) {
    Cfg g;
    g.kind = c.pick(3);
    if (g.kind == KWAY) g.parts = 1 << c.pick(4);
    if (g.kind == OLD) {
        g.old = c.of(D == 2 ? std::vector<char>{'d', 'c', 'e', '0', '1'} : std::vector<char>{'d', 'c', 'e', '0', '1', '2'});
        g.rec = c.pick(3);
        g.cutoff = c.pick(2) ? (1 << D) + 4 : 0;
    }
    g.flat = c.flag();
    g.parBase = c.flag();
    g.parEdge = c.flag();
    run<D, double>(c, in, g);
}
template<uint D, typename P>
static void sampled(mc::Choice &c, const std::vector<IP<D>> &in, Cfg g) {
    g.flat = c.flag();
    if (g.kind != BINBOX && g.kind != HYPER) g.maker = c.pick(3);
    if (g.kind == BINBOX) g.cutoff = (1 << D) + (c.flag() ? 2 : 4);
    if (g.kind == NEARBI) g.cutoff = (1 << D) + (c.flag() ? 2 : 4);
    if (g.kind >= NEARBI) g.parts = 1 << c.pick(3); else if (g.kind != BINBOX) g.parts = 2 + c.pick(2);
    run<D, P>(c, in, g);
}

MC_SCENARIO("real-direct-2d", 0, 0, 3) { auto in = sub<2>(c, mc::thorough() ? 10 : 9, mc::thorough() ? 7 : 6); c.shard(); direct<2>(c, in); }
MC_SCENARIO("real-direct-3d", 0, 0, 3) { auto in = sub<3>(c, mc::thorough() ? 10 : 8, mc::thorough() ? 7 : 6); c.shard(); direct<3>(c, in); }
MC_SCENARIO("real-direct-many", 0, 0, 3) {
    if (c.flag()) { auto in = sub<2>(c, 14, 12); c.shard(); direct<2>(c, in); }
    else { auto in = sub<3>(c, 13, 11); c.shard(); direct<3>(c, in); }
}
MC_SCENARIO("real-sampled-2d", 0, 0, 3) {
    auto in = sub<2>(c, mc::thorough() ? 9 : 8, mc::thorough() ? 7 : 6);
    Cfg g;
    g.kind = BINBOX + c.pick(6);
    g.sample = 3 + c.pick(mc::thorough() ? 3 : 2);
    c.shard();
    g.draws = 1;
    g.free = mc::thorough() ? 4 : 3;
    sampled<2, double>(c, in, g);
}
MC_SCENARIO("real-sampled-3d", 0, 0, 3) {
    auto in = sub<3>(c, mc::thorough() ? 9 : 7, 6);
    Cfg g;
    g.kind = BINBOX + c.pick(6);
    g.sample = 4 + (mc::thorough() ? c.pick(2) : 0);
    c.shard();
    g.free = mc::thorough() ? 5 : 3;
    sampled<3, double>(c, in, g);
}
MC_SCENARIO("real-sampled-many", 0, 0, 3) {
    Cfg g;
    g.sample = 6;
    g.free = mc::thorough() ? 3 : 2;
    if (c.flag()) { auto in = sub<2>(c, 14, 12); g.kind = BINBOX + c.pick(6); c.shard(); sampled<2, double>(c, in, g); }
    else { auto in = sub<3>(c, 13, 11); g.kind = BINBOX + c.pick(6); c.shard(); sampled<3, double>(c, in, g); }
}
// coordinates that are no whole numbers
MC_SCENARIO("real-fractions", 0, 0, 3) {
    Scale sc(c.of(std::vector<int>{-3, -20, 24}));
    bool two = c.flag(), dir = c.flag();
    auto in2 = two ? sub<2>(c, 8, 6) : std::vector<IP<2>>();
    auto in3 = two ? std::vector<IP<3>>() : sub<3>(c, 7, 6);
    Cfg g;
    if (!dir) g.kind = BINBOX + c.pick(6);
    g.sample = 4;
    g.draws = 0;
    g.free = 1;
    c.shard();
    if (dir) { if (two) direct<2>(c, in2); else direct<3>(c, in3); }
    else if (two) sampled<2, double>(c, in2, g); else sampled<3, double>(c, in3, g);
}
// inputs without extent in some dimension
MC_SCENARIO("real-without-extent", 0, 0, 3) {
    int k = c.of(mc::thorough() ? std::vector<int>{1, 2, 3, 5, 7} : std::vector<int>{1, 3, 6});
    bool two = c.flag();
    auto in2 = two ? flatSet<2>(c, 7, k) : std::vector<IP<2>>();
    auto in3 = two ? std::vector<IP<3>>() : flatSet<3>(c, 7, k);
    c.shard();
    if (two) direct<2>(c, in2); else direct<3>(c, in3);
}
// coinciding points: one of them takes part
MC_SCENARIO("real-repeated", 0, 0, 3) {
    bool two = c.flag();
    int n = mc::thorough() ? 8 : 6;
    auto in2 = two ? repeated<2>(c, n, 6) : std::vector<IP<2>>();
    auto in3 = two ? std::vector<IP<3>>() : repeated<3>(c, n, 6);
    c.shard();
    if (two) direct<2>(c, in2); else direct<3>(c, in3);
}
MC_MAIN
