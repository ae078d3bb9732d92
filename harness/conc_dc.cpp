// G13: the recursive triangulators with their parallel loops run by logical threads, under every
// interleaving up to a number of preemptions: no data race, and the Delaunay triangulation every time.
#include "sched.hpp"
#include "lbtree.hpp"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "reseed.hpp"

template<uint D>
static void judge(dSimplices<D, double> &dt, dPoints<D, double> &pts, const std::vector<IP<D>> &in) {
    auto p = plain<D>(dt);
    auto err = checkConsistent<D, double>(dt, p);
    auto got = p.verts();
    mc::requireF(got.size() == p.s.size(), [&] { return std::string("the same simplex occurs twice"); });
    std::map<tIdType, IP<D>> ex;
    for (size_t i = 0; i < in.size(); ++i) for (uint d = 0; d < D; ++d) ex[i + 1][d] = SC * in[i][d];
    I vol = 1;
    for (uint d = 0; d < D; ++d) vol *= d + 1;
    for (uint i = 0; i < (1u << D); ++i) ex[dPoint<D, double>::cINF | i] = exactOf<D, double>(pts, dPoint<D, double>::cINF | i);
    for (uint d = 0; d < D; ++d) vol *= ex[dPoint<D, double>::cINF | ((1 << D) - 1)][d] - ex[dPoint<D, double>::cINF][d];
    bool tie;
    static std::map<std::pair<std::vector<IP<D>>, decltype(got)>, std::string> known;     // most interleavings agree
    std::pair<std::vector<IP<D>>, decltype(got)> key;
    for (auto &x : ex) key.first.push_back(x.second);
    key.second = got;
    auto k = known.find(key);
    if (k == known.end()) k = known.emplace(key, checkDelaunay<D>(got, ex, vol, tie)).first;
    auto &e2 = k->second;
    mc::requireF(e2.empty(), [&] { return e2; });
    mc::requireF(err.empty(), [&] { return err; });
    uint64_t h = D;
    for (auto &s : got) for (auto v : s) h = mc::mix(h, v);
    mc::outcome(h);
    for (auto &s : p.s) { h = mc::mix(h, s.id); for (auto n : s.n) h = mc::mix(h, n); }
    mc::state(h);
}

struct Threads : sched::Threaded {
    Threads(mc::Choice *c, size_t leaves) : Threaded(c, leaves) { opt.orderCosts = true; opt.maxSteps = 200000; }
};

template<uint D>
static void dc(mc::Choice &c, const std::vector<IP<D>> &in, char type, uint threads, bool parEdge, bool parBase, size_t leaves) {
    c.shardDeviations();
    mc::describe(mc::fmt("D=%u splitter=%c threads=%u parEdge=%d parBase=%d pieces=%zu points=", D, type, threads, parEdge, parBase, leaves) + ptsStr<D>(in));
    dPoints<D, double> pts;
    fill<D, double>(pts, in);
    auto b = boundsOf<D, double>(in);
    dSimplices<D, double>::simplexID = 1;
    Threads pol(&c, leaves);
    dSimplices<D, double> dt;
    {
        mtbb::ScopedPolicy sp(&pol);
        DCTriangulator<D, double> t(b, pts, threads, Partitioner<D, double>::make(type), 1, parBase, parEdge);
        dt = static_cast<Triangulator<D, double> &>(t).triangulate();
    }
    judge<D>(dt, pts, in);
}

template<uint D>
static void lbRun(mc::Choice &c, const std::vector<IP<D>> &in, const Shape &s, bool parEdge, bool parBase, size_t leaves) {
    c.shardDeviations();
    mc::describe(mc::fmt("D=%u parEdge=%d parBase=%d pieces=%zu tree=", D, parEdge, parBase, leaves) + s.str() + " points=" + ptsStr<D>(in));
    dPoints<D, double> pts;
    fill<D, double>(pts, in);
    auto b = boundsOf<D, double>(in);
    dSimplices<D, double>::simplexID = 1;
    Threads pol(&c, leaves);
    dSimplices<D, double> dt;
    {
        mtbb::ScopedPolicy sp(&pol);
        lb::DCTriangulator<D, double> t(b, pts, 2, std::make_unique<Tree<D, double>>(s, in, BOUNDS), 1, parBase, parEdge);
        dt = static_cast<Triangulator<D, double> &>(t).triangulate();
    }
    judge<D>(dt, pts, in);
}

static Shape halves(int k, int parts) {
    Shape s;
    s.leaf = false;
    for (int p = 0; p < parts; ++p) { Shape l; for (int i = p * k / parts; i < (p + 1) * k / parts; ++i) l.ids.push_back(i); s.kids.push_back(l); }
    for (int i = 0; i < k; ++i) s.ids.push_back(i);
    return s;
}

template<uint D>
static std::vector<IP<D>> some(mc::Choice &c, int variants, int k) {
    // a different cloud for each variant
    static auto u = universe<D>(24, 0, D == 2 ? 200 : 100, D == 2 ? 7 : 11);
    int v = c.pick(variants);
    std::vector<IP<D>> r;
    for (int i = 0; i < k; ++i) r.push_back(u[(v * 5 + i * (1 + v % 3)) % 24]);
    return r;
}

MC_SCENARIO("2d", 1, 1, 3) { auto in = some<2>(c, mc::thorough() ? 3 : 1, 7); char t = mc::thorough() ? c.of(std::vector<char>{'d', 'c'}) : 'c'; dc<2>(c, in, t, mc::thorough() ? 4 : 2, c.flag(), false, 2); }
MC_SCENARIO("3d", 1, 1, 3) { auto in = some<3>(c, mc::thorough() ? 2 : 1, 7); char t = mc::thorough() ? c.of(std::vector<char>{'d', 'c'}) : 'c'; dc<3>(c, in, t, t == 'd' ? 8 : mc::thorough() ? 4 : 2, mc::thorough() && c.flag(), false, 2); }
MC_SCENARIO("2d, load balanced", 1, 1, 3) { auto in = some<2>(c, mc::thorough() ? 2 : 1, 6); int parts = mc::thorough() ? 2 + c.pick(2) : 2; lbRun<2>(c, in, halves(6, parts), mc::thorough() && c.flag(), false, 2); }
MC_SCENARIO("3d, load balanced", 1, 1, 3) { auto in = some<3>(c, mc::thorough() ? 2 : 1, 6); int parts = mc::thorough() ? 2 + c.pick(2) : 2; lbRun<3>(c, in, halves(6, parts), mc::thorough() && c.flag(), false, 2); }
MC_MAIN
