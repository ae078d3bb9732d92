// G03: the load balanced triangulation of many points with the partitioners of the library, with the thresholds and
// parameters they are shipped with. The stand-in for the graph partitioner cuts the sample graph into connected pieces.
#include "lbrun.hpp"
#include "large.hpp"

template<uint D>
static void large(mc::Choice &c, std::vector<size_t> sizes, int variants, int parts) {
    int kind = c.pick(FAMILIES);
    size_t n = c.of(sizes);
    int variant = c.pick(variants);
    Cfg g;
    g.kind = c.pick(9);
    c.shard();
    kaffpaConnected = true;
    g.free = 0;
    g.cell = kind == 3 ? 8 : 200;
    g.sample = n / 10;
    g.parts = parts;
    bool sampled = g.kind >= BINBOX;
    if (g.kind == OLD) { g.old = c.of(std::vector<char>{'d', 'c'}); g.rec = 3; }
    if (g.kind == KWAY) g.parts = 8;
    if (g.kind >= NEARBI) g.parts = 4;                    // a power of two
    if (sampled) g.cutoff = n / 6;
    if (g.kind >= CENTERS && g.kind <= NEARBI) g.maker = mc::thorough() ? c.pick(3) : c.pick(2);
    g.flat = c.flag();
    g.parEdge = c.flag();
    g.parBase = g.parEdge && c.flag();
    g.leaves = g.parEdge ? 4 : 1;
    Scale sc(kind % 2 ? -7 : 0);
    setName = mc::fmt("%zu, %s, variant %d", n, familyName[kind], variant);
    run<D, double>(c, family<D>(kind, n, variant), g);
}
MC_SCENARIO("real-2d-large", 0, 0, 3) { large<2>(c, mc::thorough() ? std::vector<size_t>{600, 1300, 3000} : std::vector<size_t>{1300}, mc::thorough() ? 2 : 1, 5); }
MC_SCENARIO("real-3d-large", 0, 0, 3) { large<3>(c, mc::thorough() ? std::vector<size_t>{600, 1000, 2000} : std::vector<size_t>{800}, mc::thorough() ? 2 : 1, 4); }

// complete lattices: everything is collinear, coplanar and cospherical
template<uint D>
static void lattice(mc::Choice &c, const std::vector<IP<D>> &in) {
    Cfg g;
    g.kind = c.pick(9);
    kaffpaConnected = true;
    g.free = 0;
    g.cell = 4;
    g.sample = in.size() / 2;
    g.parts = 4;
    if (g.kind == OLD) { g.old = c.of(std::vector<char>{'d', 'c', '0', '1'}); g.rec = 1 + c.pick(3); } else if (g.kind < BINBOX) g.parts = 2 << c.pick(3);
    if (g.kind >= BINBOX) g.cutoff = std::max(in.size() / 3, size_t(2) << D);
    if (g.kind >= CENTERS && g.kind <= NEARBI) g.maker = c.pick(3);
    g.flat = c.flag();
    g.parEdge = g.parBase = c.flag();
    run<D, double>(c, in, g);
}
MC_SCENARIO("real-2d-lattices", 0, 0, 3) {
    int top = mc::thorough() ? 16 : 7, a = 2 + c.pick(top), b = 2 + c.pick(top);
    c.shard();
    auto in = latticeBox<2>(a, b, 1, c.of(std::vector<long>{0, 1000002}));
    lattice<2>(c, in);
}
MC_SCENARIO("real-3d-lattices", 0, 0, 3) {
    int top = mc::thorough() ? 5 : 3, a = 2 + c.pick(top), b = 2 + c.pick(top), e = 2 + c.pick(top);
    c.shard();
    auto in = latticeBox<3>(a, b, e, c.of(std::vector<long>{0, 10002}));
    lattice<3>(c, in);
}
MC_MAIN
