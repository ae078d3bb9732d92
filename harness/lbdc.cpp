// G03: the load balanced triangulation for partition trees chosen by the explorer, against the definition.
#include "lbtree.hpp"
#include "lbjudge.hpp"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "utils/Random.h"
#include "reseed.hpp"
#include "large.hpp"

template<uint D, typename P = double>
static void run(mc::Choice &c, const std::vector<IP<D>> &in, const Shape &shape, Test test, bool parBase, bool parEdge, size_t leaves) {
    static const char *tn[] = {"bounds", "grid", "blunt", "sharp", "closed"};
    mc::describe(mc::fmt("D=%u units of 2^%d ids multiples of %d test=%s parBase=%d parEdge=%d leaves=%zu tree=", D, scaleExp, idStride, tn[test], parBase, parEdge, leaves) + shape.str() + " points=" + ptsStr<D>(in));
    dPoints<D, P> pts;
    fill<D, P>(pts, in);
    auto b = boundsOf<D, P>(in);
    startGen.seed(START_SEED);
    dSimplices<D, P>::simplexID = 1;
    McPolicy pol(&c, leaves);
    Plain<D> p;
    std::string err;
    {
        mtbb::ScopedPolicy sp(&pol);
        auto part = std::make_unique<Tree<D, P>>(shape, in, test);
        lb::DCTriangulator<D, P> t(b, pts, 2, std::move(part), 1, parBase, parEdge);
        auto dt = idStride == 1 ? static_cast<Triangulator<D, P> &>(t).triangulate() : static_cast<Triangulator<D, P> &>(t).triangulate(idsOf<D, P>(in.size()));
        p = plain<D>(dt);
        err = checkConsistent<D, P>(dt, p);
        mc::transition(p.s.size() + pol.picks);
    }
    judge<D, P>(pts, in, b, p, err);
}

static const std::vector<IP<2>> &U2() { static auto u = universe<2>(16, 0, 60, 7); return u; }
static const std::vector<IP<3>> &U3() { static auto u = universe<3>(14, 0, 60, 11); return u; }
template<uint D> static std::vector<IP<D>> sub(mc::Choice &c, int n, int k) {
    std::vector<IP<D>> r;
    for (int i : pickSubset(c, n, k)) { if constexpr (D == 2) r.push_back(U2()[i]); else r.push_back(U3()[i]); }
    return r;
}

// every assignment of the points to at most a children; deeper: children of at least two points are split again
static Shape pickShape(mc::Choice &c, const std::vector<int> &ids, int arity, int depth, int minSplit) {
    Shape s;
    s.ids = ids;
    s.leaf = false;
    std::vector<std::vector<int>> blocks;
    for (int i : ids) {
        size_t b = c.pick(std::min<int>(arity, blocks.size() + 1));
        if (b == blocks.size()) blocks.emplace_back();
        blocks[b].push_back(i);
    }
    for (auto &b : blocks) {
        if (depth > 1 && (int) b.size() >= minSplit && c.flag()) s.kids.push_back(pickShape(c, b, 2, depth - 1, minSplit));
        else { Shape l; l.ids = b; s.kids.push_back(l); }
    }
    return s;
}

static std::vector<int> iota(int k) { std::vector<int> r; for (int i = 0; i < k; ++i) r.push_back(i); return r; }

template<uint D>
static void flat(mc::Choice &c, int n, int k, int arity) {
    auto in = sub<D>(c, n, k);
    auto s = pickShape(c, iota(k), arity, 1, 2);
    c.shard();
    Test t = (Test) c.pick(4);
    run<D>(c, in, s, t, false, c.flag(), 1);
}
template<uint D>
static void nested(mc::Choice &c, int n, int k, int depth) {
    auto in = sub<D>(c, n, k);
    auto s = pickShape(c, iota(k), 2, depth, 2);
    c.shard();
    run<D>(c, in, s, (Test) c.pick(4), c.flag(), c.flag(), 1);
}
// empty children, single children, wrappers around wrappers
template<uint D>
static Shape odd(mc::Choice &c, const std::vector<int> &ids, int depth) {
    Shape s;
    s.ids = ids;
    int k = depth ? c.pick(4) : 0;
    if (k == 0) return s;
    s.leaf = false;
    if (k == 1) { s.kids.push_back(odd<D>(c, ids, depth - 1)); return s; }
    Shape e;
    if (k == 2) { s.kids.push_back(odd<D>(c, ids, depth - 1)); s.kids.push_back(e); return s; }
    std::vector<int> a(ids.begin(), ids.begin() + ids.size() / 2), b(ids.begin() + ids.size() / 2, ids.end());
    s.kids.push_back(odd<D>(c, a, depth - 1));
    s.kids.push_back(odd<D>(c, b, depth - 1));
    return s;
}

MC_SCENARIO("2d-flat", 0, 0, 3) { flat<2>(c, mc::thorough() ? 10 : 8, mc::thorough() ? 7 : 6, 3); }
MC_SCENARIO("3d-flat", 0, 0, 3) { flat<3>(c, mc::thorough() ? 9 : 8, 6, mc::thorough() ? 3 : 2); }
MC_SCENARIO("2d-nested", 0, 0, 3) { nested<2>(c, mc::thorough() ? 8 : 7, 6, mc::thorough() ? 3 : 2); }
MC_SCENARIO("3d-nested", 0, 0, 3) { nested<3>(c, mc::thorough() ? 8 : 6, mc::thorough() ? 6 : 5, 2); }
MC_SCENARIO("odd-trees", 0, 0, 3) {
    if (c.flag()) { auto in = sub<2>(c, 7, 6); auto s = odd<2>(c, iota(6), 3); c.shard(); run<2>(c, in, s, (Test) c.pick(4), false, c.flag(), 1); }
    else { auto in = sub<3>(c, 6, 6); auto s = odd<3>(c, iota(6), 3); c.shard(); run<3>(c, in, s, (Test) c.pick(4), false, c.flag(), 1); }
}
MC_SCENARIO("many", 0, 0, 3) {       // one partition per point, and partitions by a coordinate, with more points
    int k = mc::thorough() ? 12 : 10;
    bool d3 = c.flag();
    auto part = [&](auto &in) {
        int mode = c.pick(4);
        Shape s;
        s.leaf = false;
        s.ids = iota(k);
        std::vector<int> o = iota(k);
        if (mode) std::sort(o.begin(), o.end(), [&](int a, int b) { return in[a][(mode - 1) % 2] < in[b][(mode - 1) % 2]; });
        int size = mode == 0 ? 1 : mode == 3 ? 5 : 3;
        for (int i = 0; i < k; i += size) { Shape l; for (int j = i; j < std::min(k, i + size); ++j) l.ids.push_back(o[j]); s.kids.push_back(l); }
        return s;
    };
    if (!d3) { auto in = sub<2>(c, 14, k); auto s = part(in); c.shard(); run<2>(c, in, s, (Test) c.pick(4), c.flag(), c.flag(), 1); }
    else { auto in = sub<3>(c, 13, k); auto s = part(in); c.shard(); run<3>(c, in, s, (Test) c.pick(4), c.flag(), c.flag(), 1); }
}
// every level of the tree takes further marks off the simplices
MC_SCENARIO("deep-trees", 0, 0, 3) {
    static const auto u = universe<2>(48, 0, 3000, 7);
    static const auto v = universe<3>(8, 0, 60, 11);
    int kind = c.pick(3);
    int depth = c.of(mc::thorough() ? std::vector<int>{20, 40, 41, 42, 43, 44, 45, 46, 60, 86, 87, 130} : std::vector<int>{42, 43, 44, 60});
    int k = kind == 0 ? 6 : kind == 1 ? 8 : std::min(depth, 48);
    bool low = c.flag();                        // where the points are split: below all the levels, or above
    Shape s;
    s.ids = iota(k);
    if (kind < 2) {                             // levels of one child each
        auto wrap = [](Shape x, int n) { for (int i = 0; i < n; ++i) { Shape w; w.leaf = false; w.ids = x.ids; w.kids.push_back(std::move(x)); x = std::move(w); } return x; };
        Shape a, b;
        for (int i = 0; i < k; ++i) (i < k / 2 ? a : b).ids.push_back(i);
        s.leaf = false;
        if (!low) { a = wrap(a, depth); b = wrap(b, depth / 2); }
        s.kids.push_back(a);
        s.kids.push_back(b);
        if (low) s = wrap(s, depth);
    } else {                                    // one point is split off at a time
        std::vector<int> o = iota(k);
        if (low) std::sort(o.begin(), o.end(), [&](int a, int b) { return u[a][0] < u[b][0]; });
        Shape x;
        x.ids = {o[0]};
        for (int i = 1; i < k; ++i) { Shape l, p; l.ids = {o[i]}; p.leaf = false; p.ids = x.ids; p.ids.push_back(o[i]); p.kids.push_back(std::move(x)); p.kids.push_back(l); x = std::move(p); }
        s = std::move(x);
    }
    c.shard();
    bool parEdge = c.flag();
    if (kind == 1) run<3>(c, v, s, BOUNDS, false, parEdge, 1);
    else run<2>(c, {u.begin(), u.begin() + k}, s, BOUNDS, false, parEdge, 1);
}
// ids whose exclusive or vanishes: different simplices and faces have the same fingerprint
MC_SCENARIO("2d-colliding", 0, 0, 3) { Stride st(64); flat<2>(c, mc::thorough() ? 8 : 7, mc::thorough() ? 7 : 6, 2); }
MC_SCENARIO("3d-colliding", 0, 0, 3) { Stride st(64); flat<3>(c, mc::thorough() ? 8 : 7, mc::thorough() ? 7 : 6, 2); }
// coordinates that are no whole numbers
MC_SCENARIO("2d-fractions", 0, 0, 3) { Scale sc(c.of(std::vector<int>{-3, -20, 24})); flat<2>(c, mc::thorough() ? 8 : 7, 6, 2); }
MC_SCENARIO("3d-fractions", 0, 0, 3) { Scale sc(c.of(std::vector<int>{-3, -20, 24})); flat<3>(c, mc::thorough() ? 8 : 7, 6, 2); }
// coinciding points, in one partition or in several; where the spheres touch a test has to say so
static Test touching(mc::Choice &c) { static const Test t[] = {BOUNDS, GRID, BLUNT, CLOSED}; return t[c.pick(4)]; }
MC_SCENARIO("2d-repeated", 0, 0, 3) {
    auto in = repeated<2>(c, mc::thorough() ? 7 : 5, 5);
    auto s = pickShape(c, iota(in.size()), mc::thorough() ? 3 : 2, 1, 2);
    c.shard();
    run<2>(c, in, s, touching(c), false, c.flag(), 1);
}
MC_SCENARIO("3d-repeated", 0, 0, 3) {
    auto in = repeated<3>(c, mc::thorough() ? 6 : 5, 5);
    auto s = pickShape(c, iota(in.size()), 2, 1, 2);
    c.shard();
    run<3>(c, in, s, touching(c), false, c.flag(), 1);
}
// lattices: every circumsphere has more points on it
MC_SCENARIO("2d-lattice", 0, 0, 3) {
    auto in = c.flag() ? latticeBox<2>(3, 3, 1, 0) : latticeBox<2>(2, 4, 1, 100);
    auto s = pickShape(c, iota(in.size()), 2, mc::thorough() ? 2 : 1, 3);
    c.shard();
    run<2>(c, in, s, touching(c), false, c.flag(), 1);
}
MC_SCENARIO("3d-lattice", 0, 0, 3) {
    auto in = latticeBox<3>(2, 2, mc::thorough() ? 3 : 2, 0);
    auto s = pickShape(c, iota(in.size()), 2, mc::thorough() ? 1 : 2, 4);
    c.shard();
    run<3>(c, in, s, touching(c), false, c.flag(), 1);
}
MC_SCENARIO("2d-orders", 1, 2, 3) {
    auto in = sub<2>(c, 7, 6);
    auto s = pickShape(c, iota(6), 2, 1, 3);
    c.shard();
    run<2>(c, in, s, (Test) c.pick(2), false, c.flag(), 3);
}
MC_SCENARIO("3d-orders", 1, 2, 3) {
    auto in = sub<3>(c, 6, 6);
    auto s = pickShape(c, iota(6), 2, 1, 3);
    c.shard();
    run<3>(c, in, s, (Test) c.pick(2), false, c.flag(), 3);
}
MC_MAIN
