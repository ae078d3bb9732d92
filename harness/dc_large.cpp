// G01/G02: the recursive triangulation of many points, with the thresholds it is shipped with.
#include "dcrun.hpp"
#include "large.hpp"

template<uint D>
static void large(mc::Choice &c, std::vector<size_t> sizes, int variants) {
    int kind = c.pick(FAMILIES);
    size_t n = c.of(sizes);
    int variant = c.pick(variants);
    char t = c.of(D == 2 ? std::vector<char>{'d', 'c', 'e', '0', '1'} : std::vector<char>{'d', 'c', 'e', '0', '1', '2'});
    c.shard();
    uint th = t == 'd' ? (c.flag() ? 1 << (2 * D) : 1 << D) : (c.flag() ? 16 : 2);
    bool pe = c.flag();
    bool pb = pe && mc::thorough() && c.flag();
    size_t leaves = pe ? 4 : 1;
    Scale sc(kind % 2 ? -7 : 0);
    setName = mc::fmt("%zu, %s, variant %d", n, familyName[kind], variant);
    run<D>(c, family<D>(kind, n, variant), t, th, pe, leaves, pb);
}
MC_SCENARIO("2d-large", 0, 0, 3) { large<2>(c, mc::thorough() ? std::vector<size_t>{501, 700, 1100, 2500, 6000} : std::vector<size_t>{1500}, mc::thorough() ? 3 : 1); }
MC_SCENARIO("3d-large", 0, 0, 3) { large<3>(c, mc::thorough() ? std::vector<size_t>{501, 700, 1100, 2000, 4000} : std::vector<size_t>{1100}, mc::thorough() ? 2 : 1); }

// complete lattices: everything is collinear, coplanar and cospherical
MC_SCENARIO("2d-lattices", 0, 0, 3) {
    int top = mc::thorough() ? 24 : 9, a = 2 + c.pick(top), b = 2 + c.pick(top);
    long off = c.of(std::vector<long>{0, 98, 1000002});
    c.shard();
    char t = c.of(std::vector<char>{'d', 'c', 'e', '0', '1'});
    run<2>(c, latticeBox<2>(a, b, 1, off), t, t == 'd' ? 16 : 8, c.flag(), 1, false);
}
MC_SCENARIO("3d-lattices", 0, 0, 3) {
    int top = mc::thorough() ? 7 : 4, a = 2 + c.pick(top), b = 2 + c.pick(top), e = 2 + c.pick(top);
    long off = c.of(std::vector<long>{0, 98, 10002});
    c.shard();
    char t = c.of(std::vector<char>{'d', 'c', 'e', '0', '1', '2'});
    run<3>(c, latticeBox<3>(a, b, e, off), t, t == 'd' ? 64 : 8, c.flag(), 1, false);
}
MC_MAIN
