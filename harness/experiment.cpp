// E01: what an experiment with the load balanced triangulation writes down, against what the explorer let happen.
#include "lbsample.hpp"
#include "load_balancing/Experiment.h"
#include "lbtree.hpp"
#include "lbjudge.hpp"
#include "json.hpp"
#include "reseed.hpp"
#include <variant>

// ---- partitioners that remember what they did -----------------------------------------------------
typedef lb::ComprehensiveMonitor CM;

template<uint D> struct Never : lb::IntersectionChecker<D, double> {      // a test that misses everything
    using lb::IntersectionChecker<D, double>::IntersectionChecker;
    bool intersects(const dSphere<D, double> &, const dSimplex<D, double> &) const override { return false; }
    std::unique_ptr<lb::IntersectionChecker<D, double>> copy() const override { return std::make_unique<Never>(*this); }
};
struct Seen {
    std::vector<size_t> leaves;                       // sizes in the order of the tree
    std::vector<std::pair<std::string, size_t>> base; // provenance and points of the leaves that are triangulated
    std::set<std::string> edges;                      // provenance of the border triangulations
    std::vector<std::pair<size_t, std::string>> samples;
};
template<uint D>
static void look(const lb::PartitionTree<D, double> &t, Seen &s, const std::string &prov, bool live) {
    typedef typename lb::PartitionTree<D, double>::ChildContainer Kids;
    if (t.isLeaf()) {
        auto n = std::get<Point_Ids>(t.attachment).size();
        s.leaves.push_back(n);
        if (live) s.base.emplace_back(prov, n);
        return;
    }
    auto &kids = std::get<Kids>(t.attachment);
    std::function<bool(const lb::PartitionTree<D, double> &)> finite = [&](const lb::PartitionTree<D, double> &k) {
        if (k.isLeaf()) { for (auto i : std::get<Point_Ids>(k.attachment)) if (dPoint<D, double>::isFinite(i)) return true; return false; }
        for (auto &x : std::get<Kids>(k.attachment)) if (finite(x)) return true;
        return false;
    };
    size_t n = 0;
    for (auto &k : kids) n += finite(k);
    size_t i = 0;
    bool none = n == 0;                               // of children without points the first stands for all
    for (auto &k : kids) {
        bool l = live && (finite(k) || (none && &k == &kids.front()));
        look<D>(k, s, n > 1 ? prov + (l ? std::to_string(i++) : "-") : prov, l);
    }
    if (n > 1 && live) s.edges.insert(prov + "e");
}

template<uint D>
struct ByShape : lb::Partitioner<D, double, CM> {
    Tree<D, double> inner;
    bool lie;
    std::vector<Seen> *seen;
    ByShape(const Shape &s, const std::vector<IP<D>> &in, Test t, bool l, std::vector<Seen> *w) : inner(s, in, t), lie(l), seen(w) {}
    static void blind(lb::PartitionTree<D, double> &t) {
        t.intersectionChecker = std::make_unique<Never<D>>(t.intersectionChecker->bounds());
        if (!t.isLeaf()) for (auto &k : std::get<typename lb::PartitionTree<D, double>::ChildContainer>(t.attachment)) blind(k);
    }
    lb::PartitionTree<D, double> partition(const dBox<D, double> &b, dPoints<D, double> &pts, const Point_Ids &ids, CM &) override {
        lb::UnpluggedMonitor m;
        auto t = inner.partition(b, pts, ids, m);
        if (lie) blind(t);
        seen->emplace_back();
        look<D>(t, seen->back(), "0", true);
        return t;
    }
    std::string info() const override { return lie ? "the liar, a bipartitioner" : "by shape"; }
};
// one of the library, sampling ones with the sample of the explorer
template<uint D>
struct Wrapped : lb::SamplePartitioner<D, double, CM> {
    std::unique_ptr<lb::SamplePartitioner<D, double, CM>> inner;
    std::vector<Seen> *seen;
    Wrapped(std::unique_ptr<lb::SamplePartitioner<D, double, CM>> i, std::vector<Seen> *w) : inner(std::move(i)), seen(w) {}
    lb::PartitionTree<D, double> partition(const dBox<D, double> &b, dPoints<D, double> &pts, const Point_Ids &ids, CM &m) override {
        kaffpaCalls.clear();
        auto t = inner->partition(b, pts, ids, m);
        seen->emplace_back();
        look<D>(t, seen->back(), "0", true);
        for (auto &k : kaffpaCalls) seen->back().samples.emplace_back(k.n, "");
        return t;
    }
    const lb::Sampling<D, double> &sampling() const override { return inner->sampling(); }
    std::string info() const override { return inner->info(); }
};

// ---- one experiment -------------------------------------------------------------------------------
template<uint D>
static bool truth(const std::vector<IP<D>> &in, const dBox<D, double> &b, const Shape &shape, Test test, bool lie, bool parEdge, size_t &simplices) {
    typedef lb::UnpluggedMonitor U;
    struct P : lb::Partitioner<D, double, U> {
        Tree<D, double> t;
        bool lie;
        P(const Shape &s, const std::vector<IP<D>> &i, Test q, bool l) : t(s, i, q), lie(l) {}
        lb::PartitionTree<D, double> partition(const dBox<D, double> &b, dPoints<D, double> &p, const Point_Ids &ids, U &m) override {
            auto x = t.partition(b, p, ids, m);
            if (lie) ByShape<D>::blind(x);
            return x;
        }
        std::string info() const override { return ""; }
    };
    dPoints<D, double> pts;
    fill<D, double>(pts, in);
    lb::DCTriangulator<D, double> t(b, pts, 2, std::make_unique<P>(shape, in, test, lie), 100, false, parEdge);
    auto dt = static_cast<Triangulator<D, double> &>(t).triangulate();
    auto p = plain<D>(dt);
    simplices = p.s.size();
    if (!checkConsistent<D, double>(dt, p).empty()) return false;
    auto got = p.verts();
    if (got.size() != p.s.size()) return false;
    std::map<tIdType, IP<D>> ex;
    for (size_t i = 0; i < in.size(); ++i) for (uint d = 0; d < D; ++d) ex[i + 1][d] = SC * in[i][d];
    I vol = 1;
    for (uint d = 0; d < D; ++d) vol *= d + 1;
    for (uint i = 0; i < (1u << D); ++i) ex[dPoint<D, double>::cINF | i] = exactOf<D, double>(pts, dPoint<D, double>::cINF | i);
    for (uint d = 0; d < D; ++d) vol *= ex[dPoint<D, double>::cINF | ((1 << D) - 1)][d] - ex[dPoint<D, double>::cINF][d];
    bool tie;
    auto e = checkDelaunay<D>(got, ex, vol, tie);
    if (tie) throw mc::Skip();
    return e.empty();
}
// the number of simplices of the only triangulation there is
template<uint D>
static size_t expected(const std::vector<IP<D>> &in, const dBox<D, double> &b) {
    static std::map<std::vector<IP<D>>, size_t> known;
    auto &n = known[in];
    if (n) { if (n == size_t(-1)) throw mc::Skip(); return n; }
    Shape s;
    for (size_t i = 0; i < in.size(); ++i) s.ids.push_back(i);
    n = -1;
    size_t k;
    bool ok = truth<D>(in, b, s, BOUNDS, false, false, k);
    mc::requireF(ok, [] { return std::string("the triangulation without partitions is not the Delaunay triangulation"); });
    return n = k;
}

struct Given { bool verify; std::string args, dist; size_t threads; uint seed; int runs; };

template<uint D>
static void experiment(const std::vector<IP<D>> &in, const dBox<D, double> &b, const Given &g, std::unique_ptr<lb::Partitioner<D, double, CM>> part,
                       const std::string &name, std::vector<Seen> &seen, bool valid, size_t simplices) {
    std::stringstream out;
    std::vector<bool> ret;
    {
        dPoints<D, double> pts;
        fill<D, double>(pts, in);
        lb::Experiment<D, double> e(std::move(part), typename lb::Experiment<D, double>::Setup{g.args, b, pts, g.verify, g.dist, g.threads, g.seed}, out);
        for (int i = 0; i < g.runs; ++i) { ret.push_back(e.runOnce()); mc::transition(); }
    }
    auto txt = out.str();
    JsonReader r{txt};
    auto j = r.all();
    auto eq = [&](const std::string &got, const std::string &want, const char *what) { mc::requireF(got == want, [&] { return std::string(what) + " is given as " + got + " instead of " + want; }); };
    eq(j.at("args").str(), g.args, "the command line");
    eq(j.at("distribution").str(), g.dist, "the distribution");
    eq(j.at("partitioner").str(), name, "the partitioner");
    eq(j.at("numpoints").num(), std::to_string(in.size()), "the number of points");
    eq(j.at("threads").num(), std::to_string(g.threads), "the number of threads");
    eq(j.at("seed").num(), std::to_string(g.seed), "the seed");
    eq(j.at("commit").str(), GIT_COMMIT, "the commit");
    mc::requireF(!j.at("date").str().empty() && !j.at("triangulator").str().empty(), [] { return std::string("date or triangulator is empty"); });
    auto &res = j.at("results").arr();
    mc::requireF((int) res.size() == g.runs && (int) seen.size() == g.runs, [&] { return mc::fmt("%zu results, %zu partitionings for %d runs", res.size(), seen.size(), g.runs); });
    uint64_t h = mc::hashStr(name);
    for (int i = 0; i < g.runs; ++i) {
        auto &o = res[i];
        auto w = mc::fmt("run %d of %d: ", i + 1, g.runs);
        for (auto k : {"partitiontime", "triangulationtime"}) mc::requireF(std::stoll(o.at(k).num()) >= 0 && std::stoll(o.at(k).num()) < 600000, [&] { return w + "the time " + o.at(k).s + " is impossible"; });
        mc::requireF(o.has("valid") == g.verify, [&] { return w + "validity given although not asked for, or not given"; });
        if (g.verify) mc::requireF(o.at("valid").flag() == valid, [&] { return w + "said to be " + o.at("valid").s + ", which is wrong"; });
        mc::requireF(ret[i] == (!g.verify || valid), [&] { return w + mc::fmt("returned %d", (int) ret[i]); });
        auto ss = std::stoull(o.at("sampleSize").num());
        bool drawn = seen[i].samples.empty() && ss == 0;
        for (auto &x : seen[i].samples) drawn |= x.first == ss;
        mc::requireF(drawn, [&] { return w + mc::fmt("a sample of %llu points is reported that was not drawn", ss); });
        std::vector<size_t> leaves;
        for (auto &x : o.at("partitions").arr()) leaves.push_back(std::stoull(x.at("size").num()));
        mc::requireF(leaves == seen[i].leaves, [&] { std::string s = w + "the partitions are given as"; for (auto x : leaves) s += mc::fmt(" %zu", x); s += " instead of"; for (auto x : seen[i].leaves) s += mc::fmt(" %zu", x); return s; });
        size_t total = 0;
        std::multiset<std::pair<std::string, size_t>> base, want(seen[i].base.begin(), seen[i].base.end());
        std::set<std::string> edges;
        std::multiset<size_t> samples, ws;
        for (auto &x : seen[i].samples) ws.insert(x.first);
        for (auto &x : o.at("basetriangulations").arr()) {
            auto n = std::stoull(x.at("points").num());
            auto p = x.at("provenance").str();
            total += n;
            if (p[0] == 's') samples.insert(n);
            else if (!p.empty() && p.back() == 'e') {
                mc::requireF(edges.insert(p).second, [&] { return w + "the border triangulation " + p + " is listed twice"; });
                mc::requireF(n >= (1u << D) && n <= in.size() + (1u << D), [&] { return w + mc::fmt("%llu points in the border triangulation", n); });
            } else base.insert({p, n});
        }
        mc::requireF(base == want, [&] { std::string s = w + "the base triangulations are given as"; for (auto &x : base) s += mc::fmt(" %s:%zu", x.first.c_str(), x.second); s += " instead of"; for (auto &x : want) s += mc::fmt(" %s:%zu", x.first.c_str(), x.second); return s; });
        mc::requireF(edges == seen[i].edges, [&] { std::string s = w + "border triangulations"; for (auto &x : edges) s += " " + x; s += " instead of"; for (auto &x : seen[i].edges) s += " " + x; return s; });
        mc::requireF(samples == ws, [&] { return w + mc::fmt("%zu sample triangulations listed instead of %zu, or of other sizes", samples.size(), ws.size()); });
        eq(o.at("triangulatedPoints").num(), std::to_string(total), (w + "the number of triangulated points").c_str());
        size_t ns = std::stoull(o.at("simplices").num());
        if (valid || i == 0) mc::requireF(ns == simplices, [&] { return w + mc::fmt("%zu simplices instead of %zu", ns, simplices); });
        h = mc::mix(mc::mix(h, total), ns);
    }
    mc::outcome(h);
    mc::state(mc::hashStr(name + g.args) ^ h);
}

template<uint D> static const std::vector<IP<D>> &uni() { static auto u = universe<D>(D == 2 ? 12 : 10, 0, 60, D == 2 ? 7 : 11); return u; }
template<uint D> static std::vector<IP<D>> sub(mc::Choice &c, int n, int k) {
    std::vector<IP<D>> r;
    for (int i : pickSubset(c, n, k)) r.push_back(uni<D>()[i]);
    return r;
}
static Shape pickShape(mc::Choice &c, const std::vector<int> &ids, int depth) {
    Shape s;
    s.ids = ids;
    int k = depth ? c.pick(4) : 0;
    if (k == 0) return s;
    s.leaf = false;
    std::vector<std::vector<int>> parts(k == 1 ? 1 : k == 2 ? 2 : 3);
    for (size_t i = 0; i < ids.size(); ++i) parts[k == 3 ? i % 3 == 2 ? 0 : i % 3 : i * parts.size() / std::max<size_t>(1, ids.size())].push_back(ids[i]);   // k == 3: the last one is empty
    for (auto &p : parts) s.kids.push_back(pickShape(c, p, depth - 1));
    return s;
}
static Given given(mc::Choice &c) {
    Given g;
    g.verify = c.flag();
    g.runs = c.pick(mc::thorough() ? 4 : 3);
    g.args = g.runs == 1 ? "" : "--n 5 --partitioner x";
    g.dist = g.verify ? "uniform" : "a file.points";
    g.threads = 1u << g.runs;
    g.seed = g.verify ? 4294967295u : 0;
    return g;
}

template<uint D>
static void shaped(mc::Choice &c, int n, int k, int depth, size_t leaves) {
    auto in = sub<D>(c, n, k);
    std::vector<int> ids;
    for (int i = 0; i < k; ++i) ids.push_back(i);
    auto shape = pickShape(c, ids, depth);
    c.shard();
    bool lie = c.flag();
    Test t = lie ? BOUNDS : (Test) c.pick(4);
    auto g = given(c);
    mc::describe(mc::fmt("D=%u %d runs, verify %d, lie %d, test %d, tree ", D, g.runs, g.verify, lie, t) + shape.str() + " points " + ptsStr<D>(in));
    auto b = boundsOf<D, double>(in);
    startGen.seed(START_SEED);
    size_t simplices = expected<D>(in, b);
    bool ok = true;
    startGen.seed(START_SEED);
    dSimplices<D, double>::simplexID = 1;
    if (lie) ok = truth<D>(in, b, shape, t, lie, false, simplices);
    startGen.seed(START_SEED);
    dSimplices<D, double>::simplexID = 1;
    McPolicy pol(&c, leaves);
    mtbb::ScopedPolicy sp(&pol);
    std::vector<Seen> seen;
    auto part = std::make_unique<ByShape<D>>(shape, in, t, lie, &seen);
    std::string name = part->info();
    experiment<D>(in, b, g, std::move(part), name, seen, ok, simplices);
    mc::count(ok ? "experiments_with_valid_results" : "experiments_with_invalid_results");
}

template<uint D>
static void sampled(mc::Choice &c, int n, int k) {
    typedef lb::SamplePartitioner<D, double, CM> SP;
    auto in = sub<D>(c, n, k);
    c.shard();
    int kind = c.pick(6);
    size_t sample = 3 + c.pick(2);
    auto g = given(c);
    static const char *nm[] = {"box", "centers", "boxes", "nearest", "nearest bi", "hyperplane"};
    mc::describe(mc::fmt("D=%u %d runs, verify %d, sample of %zu, %s, points ", D, g.runs, g.verify, sample, nm[kind]) + ptsStr<D>(in));
    auto b = boundsOf<D, double>(in);
    startGen.seed(START_SEED);
    dSimplices<D, double>::simplexID = 1;
    size_t simplices = expected<D>(in, b);
    startGen.seed(START_SEED);
    dSimplices<D, double>::simplexID = 1;
    kaffpaChoice = &c;
    kaffpaFree = 2;
    kaffpaFreeCalls = 1;
    lb::Sampler<D, double> s(1, [=](size_t) { return sample; }, ECO, 0.25);
    lb::IntersectionPartitionMakerFunction<D, double> mk = lb::BoundsIntersectionPartitionMaker<D, double>();
    std::unique_ptr<SP> p;
    size_t cut = (1 << D) + 3;
    switch (kind) {
        case 0: p = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, double, CM>>(cut, std::move(s)); break;
        case 1: p = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, double, CM>>(2, std::move(s), mk); break;
        case 2: p = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, double, CM>>(2, std::move(s), mk); break;
        case 3: p = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, double, CM>>(2, std::move(s), mk); break;
        case 4: p = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, double, CM>>(2, std::move(s), cut, mk); break;
        case 5: p = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, double, CM>>(2, std::move(s)); break;
    }
    McPolicy pol(&c, 1);
    mtbb::ScopedPolicy sp(&pol);
    std::vector<Seen> seen;
    std::string name = p->info();
    auto part = std::make_unique<Wrapped<D>>(std::move(p), &seen);
    experiment<D>(in, b, g, std::move(part), name, seen, true, simplices);
    kaffpaChoice = nullptr;
    mc::count("experiments_with_samples");
}

MC_SCENARIO("shapes-2d", 0, 0, 3) { shaped<2>(c, 9, mc::thorough() ? 7 : 6, 2, 1); }
MC_SCENARIO("shapes-3d", 0, 0, 3) { shaped<3>(c, 8, mc::thorough() ? 6 : 5, 2, 1); }
MC_SCENARIO("orders", 1, 1, 3) { shaped<2>(c, 6, 5, mc::thorough() ? 2 : 1, 3); }
MC_SCENARIO("samples-2d", 0, 0, 3) { sampled<2>(c, mc::thorough() ? 10 : 9, 6); }
MC_SCENARIO("samples-3d", 0, 0, 3) { sampled<3>(c, mc::thorough() ? 9 : 8, 6); }
MC_MAIN
