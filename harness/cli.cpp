// E02: what the command line selects, against the parts built by hand.
#include "lbsample.hpp"
#include "load_balancing/CommandLineInterface.h"
#include "reseed.hpp"
#include <iostream>

typedef lb::UnpluggedMonitor Mon;

struct Caught {              // what is written to a stream meanwhile
    std::ostream &o;
    std::stringstream s;
    std::streambuf *old;
    explicit Caught(std::ostream &x) : o(x), old(x.rdbuf(s.rdbuf())) {}
    ~Caught() { o.rdbuf(old); }
};

static po::variables_map parse(std::vector<std::string> a) {
    a.insert(a.begin(), "program");
    std::vector<const char *> v;
    for (auto &x : a) v.push_back(x.c_str());
    po::variables_map vm;
    auto o = defaultOptions<double>();
    po::store(po::parse_command_line((int) v.size(), v.data(), o), vm);
    po::notify(vm);
    return vm;
}
static std::string line(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += x + " "; return s; }

// ---- partitioners ---------------------------------------------------------------------------------
template<uint D>
static std::string leaves(const lb::PartitionTree<D, double> &t) {
    if (t.isLeaf()) {
        auto &i = std::get<Point_Ids>(t.attachment);
        std::vector<tIdType> v(i.begin(), i.end());
        std::sort(v.begin(), v.end());
        std::string s = "{";
        if (v.size() > 100) return mc::fmt("{%zu points, %016llx}", v.size(), (unsigned long long) [&] { unsigned long long h = 1; for (auto x : v) h = h * 1000003 + x; return h; }());
        for (auto x : v) if (dPoint<D, double>::isFinite(x)) s += std::to_string(x) + " ";
        return s + mc::fmt("+%zd}", std::count_if(v.begin(), v.end(), [](auto x) { return !dPoint<D, double>::isFinite(x); }));
    }
    std::string s = "[";
    for (auto &k : std::get<typename lb::PartitionTree<D, double>::ChildContainer>(t.attachment)) s += leaves<D>(k);
    return s + "]";
}
// the answers of the tests of the subtrees to the spheres of a lattice
template<uint D>
static void answers(const lb::PartitionTree<D, double> &t, std::string &r) {
    dSimplex<D, double> none{};
    none.vertices.fill(1);
    if (t.intersectionChecker) for (int k = 0; k < 40; ++k) {
        dSphere<D, double> s;
        for (uint d = 0; d < D; ++d) s.center[d] = (k * (7 + 6 * d)) % 110 - 5;
        s.radius = 3 + k % 3 * 9;
        // the sharp test looks at the simplex as well; all its vertices in one cell
        r += t.intersectionChecker->intersects(s, none) ? '1' : '0';
    }
    r += '/';
    if (!t.isLeaf()) for (auto &k : std::get<typename lb::PartitionTree<D, double>::ChildContainer>(t.attachment)) answers<D>(k, r);
}
static std::string graphs() {
    std::string s;
    for (auto &k : kaffpaCalls) {
        s += mc::fmt(" n=%d parts=%d mode=%d imbalance=%g edges", k.n, k.nparts, k.mode, k.imbalance);
        for (auto x : k.adj) s += mc::fmt(" %d", x);
        s += " weights";
        for (auto x : k.w) s += mc::fmt(" %d", x);
    }
    return s;
}
static std::string norm(std::string s) {      // irrelevant where a sampling partitioner answers with its own name
    return s;
}

template<uint D> static std::vector<IP<D>> points(int which) {
    auto u = universe<D>(12, 0, 100, D == 2 ? 7 : 11);
    std::vector<IP<D>> r;
    if (which == 2) {          // enough for the size below which nothing is split to matter
        uint32_t x = 12345;
        for (int i = 0; i < 12000; ++i) {
            IP<D> q;
            for (uint d = 0; d < D; ++d) { x = x * 1664525u + 1013904223u; q[d] = (x >> 8) % 100003; }
            r.push_back(q);
        }
        return r;
    }
    for (int i = 0; i < 9; ++i) r.push_back(u[(i + which * 3) % 12]);
    return r;
}
template<uint D>
static std::string use(lb::Partitioner<D, double, Mon> &p, const std::vector<IP<D>> &in) {
    dPoints<D, double> pts;
    fill<D, double>(pts, in);
    Point_Ids ids;
    for (tIdType k = dPoint<D, double>::cINF; k != 0; ++k) { for (uint d = 0; d < D; ++d) pts[k].coords[d] = (k - dPoint<D, double>::cINF) >> d & 1 ? 4000 : -4000; ids.insert(k); }
    for (size_t i = 1; i <= in.size(); ++i) ids.insert(i);
    kaffpaCalls.clear();
    dSimplices<D, double>::simplexID = 1;
    auto b = boundsOf<D, double>(in);
    Mon m;
    auto t = p.partition(b, pts, ids, m);
    std::string a;
    answers<D>(t, a);
    return norm(p.info()) + " " + leaves<D>(t) + graphs() + " tests " + a;
}

template<uint D>
static void partitioner(mc::Choice &c, bool all) {
    static const std::vector<std::string> names = {"binary-besp", "center-distance-pasp", "bounds-distance-pasp", "nearest-sample-pasp", "nearest-sample-pasb", "hyperplane-sample-pasb",
                                                   "kway-cycle", "dWay", "cycle", "extend", "one-dim", "no-such-thing"};
    std::vector<std::string> a;
    std::string kind = c.of(names);
    bool cuts = kind == "binary-besp" || kind == "nearest-sample-pasb" || kind == "dWay" || kind == "cycle" || kind == "extend" || kind == "one-dim";
    int which = cuts ? (all ? c.pick(3) : 2 * c.pick(2)) : all ? c.pick(2) : 0;
    a.insert(a.end(), {"--partitioner", kind});
    bool sampling = kind.find("-p") != std::string::npos || kind == "binary-besp";
    bool tests = kind.find("-pas") != std::string::npos && kind != "hyperplane-sample-pasb";
    uint threads = kind == "dWay" ? 1u << c.pick(mc::thorough() ? 3 : 2) * D : 1u << (mc::thorough() ? c.pick(5) : c.pick(2) * 2);   // powers of 2, 2^D where demanded
    auto opt = [&](const char *name, const std::vector<std::string> &v) { int k = c.dev(v.size() + 1); if (k == 0) return std::string(); a.push_back(name); a.push_back(v[k - 1]); return v[k - 1]; };
    bool refused = kind == "no-such-thing", told = false;
    std::function<size_t(size_t)> size = [](size_t n) -> size_t { return std::sqrt(n); };
    lb::Sampler<D, double> *none = nullptr;
    (void) none;
    std::string sm, ss, ew, im, mode, bo, cw, sd;
    sm = opt("--sampling", {"sqrt", "log", "cube"});
    ss = opt("--sample-size", {"4", "5"});
    c.shard();
    ew = opt("--edge-weights", {"uniform", "squared-inverted", "inverted", "linear", "log", "heavy"});
    if (sampling) { im = opt("--imbalance", {"0.3"}); mode = opt("--kaffpa-mode", {"FAST", "ECO", "STRONG", "PAR", "SLOW"}); }
    else { mode = opt("--kaffpa-mode", {"ECO"}); }
    if (tests) { bo = opt("--bounds", {"grid", "accurate-grid", "box", "boxes", "none"}); cw = opt("--cell-width", {"20", "35.5"}); }
    if (kind == "one-dim") sd = opt("--split-dimension", D == 2 ? std::vector<std::string>{"0", "1", "2"} : std::vector<std::string>{"0", "1", "2", "3"});
    bool flat = c.flag();
    if (flat) a.push_back("--flatten");

    // what is asked for
    if (!sm.empty() && !ss.empty()) refused = true;
    else if (!ss.empty()) { size_t k = std::stoul(ss); size = [k](size_t) { return k; }; }
    else if (sm == "log") size = [](size_t n) -> size_t { return std::log2(n); };
    else if (sm == "cube") refused = true;
    int md = FAST;
    if (mode == "ECO") md = ECO;
    if (mode == "STRONG") md = STRONG;
    if (mode == "PAR") md = FASTSOCIALMULTITRY_PARALLEL;
    if (mode == "SLOW") told = true;
    typename lb::Sampler<D, double>::DistanceToEdgeWeightFunction w;
    if (ew == "squared-inverted") w = [](double d) { return 1 / (d + 0.0000001); };
    if (ew == "inverted") w = [](double d) { return 1 / std::sqrt(d + 0.0000001); };
    if (ew == "linear") w = [](double d) { return 1.0 - d; };
    if (ew == "log") w = [](double d) { return -std::log(d + 0.0000001); };
    if (ew == "heavy") refused = true;
    double imb = im.empty() ? 0.05 : 0.3;
    lb::IntersectionPartitionMakerFunction<D, double> mk;
    if (tests) {
        bool grid = bo.empty() || bo == "grid" || bo == "accurate-grid";
        if (bo == "none" || (grid && cw.empty())) refused = true;
        else if (bo == "accurate-grid") mk = lb::AccurateGridIntersectionPartitionMaker<D, double>(lb::Grid<D, double>(std::stod(cw)));
        else if (grid) mk = lb::GridIntersectionPartitionMaker<D, double>(lb::Grid<D, double>(std::stod(cw)));
        else mk = lb::BoundsIntersectionPartitionMaker<D, double>();
    }
    if (kind == "one-dim" && (sd.empty() || std::stoul(sd) >= D)) refused = true;

    mc::describe(mc::fmt("D=%u threads=%u ", D, threads) + line(a));
    auto in = points<D>(which);
    startGen.seed(START_SEED);
    std::string err, text, got, want;
    bool thrown = false;
    {
        Caught cerr(std::cerr);
        auto vm = parse(a);
        try {
            std::mt19937 rand(17);
            auto p = createPartitioner<D, double, Mon>(vm, threads, rand);
            mc::requireF(p != nullptr, [] { return std::string("no partitioner, and no error"); });
            got = use<D>(*p, in);
        } catch (const mc::Fail &) { throw; } catch (const mc::Skip &) { throw; } catch (const std::exception &e) { thrown = true; text = e.what(); }
        err = cerr.s.str();
    }
    mc::transition();
    if (refused) {
        mc::requireF(thrown, [&] { return "accepted, although an option names nothing: " + got; });
        mc::state(mc::hashStr(line(a)));
        mc::outcome(1);
        mc::count("refused_command_lines");
        return;
    }
    mc::requireF(!thrown, [&] { return "refused: " + text; });
    mc::requireF(!told || !sampling || !err.empty(), [] { return std::string("an unknown mode is replaced silently"); });
    startGen.seed(START_SEED);
    std::mt19937 rand(17);
    std::unique_ptr<lb::Partitioner<D, double, Mon>> p;
    auto sampler = w ? lb::Sampler<D, double>(rand(), size, md, imb, w) : lb::Sampler<D, double>(rand(), size, md, imb);
    constexpr size_t cut = lb::DCTriangulator<D, double>::BASE_CUTOFF;
    auto old = [&](auto q) { auto depth = q->getRecursionDepth(threads); p = std::make_unique<lb::OldPartitionerPartitioner<D, double, Mon>>(std::move(q), depth, cut); };
    if (kind == "binary-besp") p = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, double, Mon>>(cut, std::move(sampler));
    if (kind == "center-distance-pasp") p = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, double, Mon>>(threads, std::move(sampler), mk);
    if (kind == "bounds-distance-pasp") p = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, double, Mon>>(threads, std::move(sampler), mk);
    if (kind == "nearest-sample-pasp") p = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, double, Mon>>(threads, std::move(sampler), mk);
    if (kind == "nearest-sample-pasb") p = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, double, Mon>>(threads, std::move(sampler), cut, mk);
    if (kind == "hyperplane-sample-pasb") p = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, double, Mon>>(threads, std::move(sampler));
    if (kind == "kway-cycle") p = std::make_unique<lb::KWaySplitter<D, double, Mon>>(threads);
    if (kind == "dWay") old(std::unique_ptr<::Partitioner<D, double>>(new dWayPartitioner<D, double>()));
    if (kind == "cycle") old(std::unique_ptr<::Partitioner<D, double>>(new CyclePartitioner<D, double>()));
    if (kind == "extend") old(std::unique_ptr<::Partitioner<D, double>>(new ExtendPartitioner<D, double>()));
    if (kind == "one-dim") old(std::unique_ptr<::Partitioner<D, double>>(new OneDimPartitioner<D, double>(std::stoul(sd))));
    if (flat) p = std::make_unique<lb::FlatPartitioner<D, double, Mon>>(std::move(p));
    want = use<D>(*p, in);
    mc::requireF(got == want, [&] { return "yields " + got + " instead of " + want; });
    mc::state(mc::hashStr(line(a)) + threads);
    mc::outcome(mc::hashStr(got));
    mc::count("accepted_command_lines");
}
MC_SCENARIO("partitioners-2d", 3, 5, 3) { partitioner<2>(c, mc::thorough()); }
MC_SCENARIO("partitioners-3d", 0, 4, 2) { partitioner<3>(c, true); }

// ---- generators -----------------------------------------------------------------------------------
template<uint D>
static void generator(mc::Choice &c) {
    std::string kind = c.of(std::vector<std::string>{"ellipsoid", "skew-line", "normal", "uniform", "bubble", "unbound-bubble", "patch-bubble", "malicious-bubble", "no-such-thing"});
    std::vector<std::string> a{"--distribution", kind};
    auto opt = [&](const char *name, const std::vector<std::string> &v) { int k = c.pick(v.size() + 1); if (k == 0) return std::string(); a.push_back(name); a.push_back(v[k - 1]); return v[k - 1]; };
    auto nb = opt("--num-bubbles", {"1", "2", "3", "7", "20"});
    auto br = opt("--bubble-radius", {"1", "2.5", "40"});
    if (nb == "1" && (kind == "patch-bubble" || kind == "malicious-bubble")) throw mc::Skip();      // both want two
    uint n = c.of(mc::thorough() ? std::vector<uint>{1, 2, 5, 17, 40} : std::vector<uint>{1, 5, 40});
    uint seed = 1 + c.pick(mc::thorough() ? 20 : 2);
    c.shard();
    mc::describe(mc::fmt("D=%u n=%u seed=%u ", D, n, seed) + line(a));
    auto vm = parse(a);
    dBox<D, double> b;
    b.low.fill(0);
    b.high.fill(100);
    uint bubbles = nb.empty() ? (D == 2 ? 16 : 64) : std::stoul(nb);
    double radius = br.empty() ? 10 : std::stod(br);
    std::unique_ptr<PointGenerator<D, double>> got, want;
    bool thrown = false;
    try { got = createGenerator<D, double>(vm); } catch (const std::exception &) { thrown = true; }
    mc::transition();
    mc::state(mc::hashStr(line(a)) + n * 100 + seed);
    if (kind == "no-such-thing") { mc::requireF(thrown, [] { return std::string("an unknown distribution is accepted"); }); mc::outcome(1); return; }
    mc::requireF(!thrown && got, [] { return std::string("refused"); });
    if (kind == "ellipsoid") want = std::make_unique<EllipsoidPointGenerator<D, double>>();
    if (kind == "skew-line") want = std::make_unique<SkewLinePointGenerator<D, double>>();
    if (kind == "normal") want = std::make_unique<NormalPointGenerator<D, double>>();
    if (kind == "uniform") want = std::make_unique<UniformPointGenerator<D, double>>();
    if (kind == "bubble") want = std::make_unique<BubblePointGenerator<D, double>>();
    if (kind == "unbound-bubble") want = std::make_unique<lb::UnboundBubbleGenerator<D, double>>(bubbles, radius);
    if (kind == "patch-bubble") want = std::make_unique<lb::PatchBubbleGenerator<D, double>>(bubbles);
    if (kind == "malicious-bubble") want = std::make_unique<lb::MaliciousBubbleGenerator<D, double>>(bubbles);
    tGenerator g1(seed), g2(seed);
    auto p = got->generate(n, b, g1), q = want->generate(n, b, g2);
    auto text = [&](dPoints<D, double> &x) { std::string s; for (size_t i = 1; i < x.finite_size(); ++i) for (uint d = 0; d < D; ++d) s += mc::fmt("%a ", x[i].coords[d]); return s; };
    auto t1 = text(p), t2 = text(q);
    mc::requireF(t1 == t2, [&] { return "other points than those of the distribution named: " + t1.substr(0, 60) + " instead of " + t2.substr(0, 60); });
    mc::outcome(mc::hashStr(t1));
}
MC_SCENARIO("generators-2d", 0, 0, 3) { generator<2>(c); }
MC_SCENARIO("generators-3d", 0, 0, 3) { generator<3>(c); }
MC_MAIN
