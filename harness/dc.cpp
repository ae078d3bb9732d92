// G01/G02: divide and conquer triangulation against the definition, over all inputs of a universe,
// all partitioners, recursion depths and task orders (up to a deviation bound).
#include "dcrun.hpp"
#include "large.hpp"

static const std::vector<IP<2>> &U2() { static auto u = universe<2>(16, 0, 60, 7); return u; }
static const std::vector<IP<3>> &U3() { static auto u = universe<3>(14, 0, 60, 11); return u; }

// the same points elsewhere: all coordinates doubled (so that midpoints are integers) and shifted
template<uint D>
static std::vector<IP<D>> shifted(std::vector<IP<D>> in, int where) {
    for (auto &x : in) for (uint d = 0; d < D; ++d) {
        long off = where == 0 ? 0 : where == 1 ? -400 : where == 2 ? (d == 0 ? 100000 : -300000) : (d == 0 ? -100000 : 0);
        x[d] = 2 * x[d] + off;
    }
    return in;
}

static std::vector<IP<2>> sub2(mc::Choice &c, int n, int k) { std::vector<IP<2>> r; for (int i : pickSubset(c, n, k)) r.push_back(U2()[i]); return r; }
static std::vector<IP<3>> sub3(mc::Choice &c, int n, int k) { std::vector<IP<3>> r; for (int i : pickSubset(c, n, k)) r.push_back(U3()[i]); return r; }

static const std::vector<char> T2{'d', 'c', 'e', '0', '1'}, T3{'d', 'c', 'e', '0', '1', '2'};

MC_SCENARIO("2d-subsets", 0, 0, 3) {
    int n = mc::thorough() ? 14 : 12;
    auto in = sub2(c, n, 8);
    c.shard();
    char t = c.of(T2);
    bool pe = c.flag();
    uint th = t == 'd' ? (c.flag() ? 4 : 16) : (c.flag() ? 2 : 8);
    run<2>(c, in, t, th, pe, 1 + 2 * c.pick(2), false);
}

MC_SCENARIO("3d-subsets", 0, 0, 3) {
    int n = mc::thorough() ? 12 : 10;
    auto in = sub3(c, n, 8);
    c.shard();
    char t = c.of(T3);
    bool pe = c.flag();
    uint th = t == 'd' ? 8 : (c.flag() ? 2 : 8);
    run<3>(c, in, t, th, pe, 1 + 2 * c.pick(2), false);
}
// the input lies anywhere
MC_SCENARIO("2d-offset", 0, 0, 3) {
    auto in = sub2(c, 10, 7);
    c.shard();
    char t = c.of(T2);
    run<2>(c, shifted<2>(in, 1 + c.pick(3)), t, 4, c.flag(), 1, false);
}

MC_SCENARIO("3d-offset", 0, 0, 3) {
    auto in = sub3(c, 9, 7);
    c.shard();
    char t = c.of(T3);
    run<3>(c, shifted<3>(in, 1 + c.pick(3)), t, 8, c.flag(), 1, false);
}

// points of a lattice: many of them are collinear, coplanar or cospherical
template<uint D>
static std::vector<IP<D>> lattice(mc::Choice &c, int n, int k) {
    int total = 1;
    for (uint d = 0; d < D; ++d) total *= n;
    std::vector<IP<D>> r;
    for (int i : pickSubset(c, total, k)) {
        IP<D> p;
        for (uint d = 0; d < D; ++d) { p[d] = 2 * (i % n); i /= n; }
        r.push_back(p);
    }
    return r;
}

MC_SCENARIO("2d-lattice", 0, 0, 3) {
    auto in = lattice<2>(c, mc::thorough() ? 4 : 3, 5 + c.pick(4));
    c.shard();
    char t = c.of(T2);
    run<2>(c, in, t, 4, c.flag(), 1, false);
}

MC_SCENARIO("3d-lattice", 0, 0, 3) {
    auto in = lattice<3>(c, 2, 5 + c.pick(4));
    c.shard();
    char t = c.of(T3);
    run<3>(c, in, t, 8, c.flag(), 1, false);
}

// ids whose exclusive or vanishes: different simplices and faces have the same fingerprint
// inputs without extent in some dimension
MC_SCENARIO("2d-without-extent", 0, 0, 3) {
    int k = c.of(std::vector<int>{1, 2, 3, 5, 8});
    auto in = flatSet<2>(c, mc::thorough() ? 10 : 9, k);
    c.shard();
    char t = c.of(T2);
    run<2>(c, in, t, 4, c.flag(), 1, false);
}
MC_SCENARIO("3d-without-extent", 0, 0, 3) {
    int k = c.of(std::vector<int>{1, 2, 3, 5, 8});
    auto in = flatSet<3>(c, 9, k);
    c.shard();
    char t = c.of(T3);
    run<3>(c, in, t, 8, c.flag(), 1, false);
}
// coinciding points: one of them takes part
MC_SCENARIO("2d-repeated", 0, 0, 3) {
    auto in = repeated<2>(c, mc::thorough() ? 9 : 8, 6);
    c.shard();
    char t = c.of(T2);
    run<2>(c, in, t, 4, c.flag(), 1, false);
}
MC_SCENARIO("3d-repeated", 0, 0, 3) {
    auto in = repeated<3>(c, mc::thorough() ? 8 : 7, 6);
    c.shard();
    char t = c.of(T3);
    run<3>(c, in, t, 8, c.flag(), 1, false);
}
// coordinates that are no whole numbers
MC_SCENARIO("2d-fractions", 0, 0, 3) {
    Scale sc(c.of(std::vector<int>{-3, -20, 24}));
    auto in = sub2(c, 10, 7);
    c.shard();
    char t = c.of(T2);
    run<2>(c, shifted<2>(in, c.pick(3)), t, 4, c.flag(), 1, false);
}
MC_SCENARIO("3d-fractions", 0, 0, 3) {
    Scale sc(c.of(std::vector<int>{-3, -20, 24}));
    auto in = sub3(c, 9, 7);
    c.shard();
    char t = c.of(T3);
    run<3>(c, shifted<3>(in, c.pick(3)), t, 8, c.flag(), 1, false);
}
MC_SCENARIO("2d-colliding", 0, 0, 3) {
    Stride st(64);
    auto in = sub2(c, mc::thorough() ? 12 : 10, 8);
    c.shard();
    char t = c.of(T2);
    run<2>(c, in, t, t == 'd' ? 4 : 2 << c.pick(2), c.flag(), 1, false);
}

MC_SCENARIO("3d-colliding", 0, 0, 3) {
    Stride st(64);
    auto in = sub3(c, mc::thorough() ? 11 : 9, 8);
    c.shard();
    char t = c.of(T3);
    run<3>(c, in, t, t == 'd' ? 8 : 2 << c.pick(2), c.flag(), 1, false);
}

MC_SCENARIO("2d-float", 0, 0, 3) {
    auto in = sub2(c, 9, 7);
    c.shard();
    char t = c.of(T2);
    run<2, float>(c, in, t, 4, c.flag(), 1, c.flag());
}

MC_SCENARIO("3d-float", 0, 0, 3) {
    auto in = sub3(c, 9, 7);
    c.shard();
    char t = c.of(T3);
    run<3, float>(c, in, t, 8, c.flag(), 1, c.flag());
}

MC_SCENARIO("2d-orders", 1, 2, 3) {
    auto in = sub2(c, 9, 8);
    char t = c.of(T2);
    c.shard();
    run<2>(c, in, t, 4, c.flag(), 4, false);
}

MC_SCENARIO("3d-orders", 1, 2, 3) {
    auto in = sub3(c, mc::thorough() ? 9 : 8, 8);
    char t = c.of(T3);
    c.shard();
    run<3>(c, in, t, 8, c.flag(), 4, false);
}
// the direct triangulators, also of a part of the points and without auxiliary points
template<uint D, typename Prec, bool PAR, template<uint, typename, bool> class T>
void plainRun(mc::Choice &c, const std::vector<IP<D>> &in, const std::vector<int> &part, const char *name, int how) {
    mc::describe(mc::fmt("%s<%u,%s> %zu of the points, how=%d, points=", name, D, PAR ? "parallel" : "sequential", part.size(), how) + ptsStr<D>(in));
    startGen.seed(START_SEED);
    dSimplices<D, Prec>::simplexID = 1;
    dPoints<D, Prec> pts;
    fill<D, Prec>(pts, in);
    auto b = boundsOf<D, Prec>(in);
    McPolicy pol(&c, 2);
    mtbb::ScopedPolicy sp(&pol);
    T<D, Prec, PAR> t(b, pts, 1);
    Triangulator<D, Prec> &base = t;
    std::vector<tIdType> ids;
    for (int i : part) ids.push_back(i + 1);
    std::vector<dSimplices<D, Prec>> res;
    if (how == 0) res.push_back(base.triangulate(ids));
    else {                          // twice by the same object: the ids of all results are distinct
        res.push_back(base.triangulate(std::set<tIdType>(ids.begin(), ids.end())));
        res.push_back(base.triangulate(ids));
    }
    // the definition: all simplices with an empty circumsphere
    std::map<tIdType, IP<D>> ex;
    for (auto i : ids) for (uint d = 0; d < D; ++d) ex[i][d] = in[i - 1][d];
    std::set<Simp<D>> want;
    std::vector<int> sel;
    std::function<void(size_t)> rec = [&](size_t from) {
        if (sel.size() == D + 1) {
            std::vector<IP<D>> v;
            Simp<D> s;
            for (uint i = 0; i < D + 1; ++i) { s[i] = ids[sel[i]]; v.push_back(ex[s[i]]); }
            bool ok = true;
            for (auto &q : ex) {
                bool mine = false;
                for (auto x : s) mine |= x == q.first;
                if (!mine && inSphereExact<D>(v, q.second) >= 0) { ok = false; break; }
            }
            if (ok) want.insert(s);
            return;
        }
        for (size_t i = from; i < ids.size(); ++i) { sel.push_back(i); rec(i + 1); sel.pop_back(); }
    };
    rec(0);
    std::set<tIdType> all;
    for (auto &dt : res) {
        auto p = plain<D>(dt);
        auto got = p.verts();
        mc::requireF(got.size() == p.s.size() && got == want, [&] { return mc::fmt("%zu simplices, the Delaunay triangulation has %zu or other ones", p.s.size(), want.size()); });
        auto e = checkConsistent<D, Prec>(dt, p);
        mc::requireF(e.empty(), [&] { return e; });
        for (auto &s : p.s) mc::requireF(all.insert(s.id).second, [&] { return std::string("two triangulations share a simplex id"); });
        mc::transition(p.s.size());
        uint64_t h = D;
        for (auto &s : p.s) { h = mc::mix(h, s.id); for (auto v : s.v) h = mc::mix(h, v); }
        mc::state(h);
        mc::outcome(h);
    }
    mc::count("direct_triangulations", res.size());
}

template<uint D>
std::vector<int> pickPart(mc::Choice &c, int n) {
    std::vector<int> r;
    for (int i = 0; i < n; ++i) if (c.flag()) r.push_back(i);
    return r;
}

MC_SCENARIO("2d-direct", 0, 1, 3) {
    int n = mc::thorough() ? 10 : 9;
    auto part = pickPart<2>(c, n);
    c.shard();
    std::vector<IP<2>> in(U2().begin(), U2().begin() + n);
    if (c.flag()) in = shifted<2>(in, 2);
    int how = c.pick(2);
    switch (c.pick(3)) {
    case 0: plainRun<2, double, false, CGALTriangulator>(c, in, part, "CGALTriangulator", how); break;
    case 1: plainRun<2, double, true, CGALTriangulator>(c, in, part, "CGALTriangulator", how); break;
    default: plainRun<2, float, false, CGALTriangulator>(c, in, part, "CGALTriangulator float", how); break;
    }
}

MC_SCENARIO("3d-direct", 0, 1, 3) {
    int n = mc::thorough() ? 10 : 9;
    auto part = pickPart<3>(c, n);
    c.shard();
    std::vector<IP<3>> in(U3().begin(), U3().begin() + n);
    if (c.flag()) in = shifted<3>(in, 2);
    int how = c.pick(2);
    switch (c.pick(3)) {
    case 0: plainRun<3, double, false, CGALTriangulator>(c, in, part, "CGALTriangulator", how); break;
    case 1: plainRun<3, double, true, CGALTriangulator>(c, in, part, "CGALTriangulator", how); break;
    default: plainRun<3, float, false, CGALTriangulator>(c, in, part, "CGALTriangulator float", how); break;
    }
}
MC_MAIN
