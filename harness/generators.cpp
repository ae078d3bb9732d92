// U08: every generator for all small counts, bounds and chosen beginnings of the random sequence.
#include "mc.hpp"
#include "Geometry.h"
#include "utils/Generator.h"
#include "load_balancing/MaliciousBubbleGenerator.h"
#include "load_balancing/PatchBubbleGenerator.h"
#include "load_balancing/UnboundBubbleGenerator.h"
#include "utils/Random.h"
#include <tbb/parallel_for.h>
#include "reseed.hpp"

namespace lb = LoadBalancing;

// the word of the state from which the generator makes this output
static uint32_t untemper(uint32_t y) {
    y ^= y >> 18;
    y ^= (y << 15) & 0xefc60000u;
    uint32_t t = y;
    for (int i = 0; i < 4; ++i) t = y ^ ((t << 7) & 0x9d2c5680u);
    y = t;
    t = y;
    for (int i = 0; i < 2; ++i) t = y ^ (t >> 11);
    return t;
}

// a generator whose next outputs are the given ones, followed by those of the seed
static tGenerator withOutputs(uint32_t seed, const std::vector<uint32_t> &first) {
    tGenerator g(seed);
    g();
    std::stringstream s;
    s << g;
    std::vector<unsigned long> w(624);
    for (auto &x : w) s >> x;
    for (size_t i = 0; i < first.size(); ++i) w[i] = untemper(first[i]);
    std::stringstream o;
    for (auto x : w) o << x << " ";
    o << 0;
    o >> g;
    tGenerator h = g;
    for (auto x : first) if (h() != x) throw std::runtime_error("the state of the generator is not understood");
    return g;
}

template<uint D, typename P>
struct Gen {
    const char *name;
    std::function<std::unique_ptr<PointGenerator<D, P>>()> make;
    bool wide;          // needs bounds of at least twice the bubble radius
};

template<uint D, typename P>
static const std::vector<Gen<D, P>> &gens() {
    static const std::vector<Gen<D, P>> g = {
        {"uniform", [] { return GeneratorFactory<D, P>::make('u'); }, false},
        {"normal", [] { return GeneratorFactory<D, P>::make('n'); }, false},
        {"ellipsoid", [] { return GeneratorFactory<D, P>::make('e'); }, false},
        {"lines", [] { return GeneratorFactory<D, P>::make('l'); }, false},
        {"bubbles", [] { return GeneratorFactory<D, P>::make('b'); }, false},
        {"default", [] { return GeneratorFactory<D, P>::make('?'); }, false},
        {"malicious bubbles (2)", [] { return std::make_unique<lb::MaliciousBubbleGenerator<D, P>>(2); }, false},
        {"malicious bubbles (5)", [] { return std::make_unique<lb::MaliciousBubbleGenerator<D, P>>(5); }, false},
        {"malicious bubbles (8)", [] { return std::make_unique<lb::MaliciousBubbleGenerator<D, P>>(8); }, false},
        {"patch bubbles (2)", [] { return std::make_unique<lb::PatchBubbleGenerator<D, P>>(2); }, false},
        {"patch bubbles (5)", [] { return std::make_unique<lb::PatchBubbleGenerator<D, P>>(5); }, false},
        {"unbound bubbles (1)", [] { return std::make_unique<lb::UnboundBubbleGenerator<D, P>>(1, (P) .5); }, true},
        {"unbound bubbles (4)", [] { return std::make_unique<lb::UnboundBubbleGenerator<D, P>>(4, (P) .25); }, true},
    };
    return g;
}

template<uint D, typename P>
static dBox<D, P> bounds(int k) {
    static const double L[][3] = {{0, 0, 0}, {10, 20, 30}, {-5, -7, -9}, {-101, -102, -103}, {.1, .1, .1}, {1e6, -1e6, 0}, {-.3, .7, 1e-3}};
    static const double H[][3] = {{100, 100, 100}, {11, 22, 33}, {5, 3, 1}, {-1, -2, -3}, {1.2, 1.3, 1.7}, {1e6 + 3, -1e6 + 5, 1e6}, {1, 2.1, 1e3}};
    dBox<D, P> b;
    for (uint d = 0; d < D; ++d) { b.low[d] = L[k][d]; b.high[d] = H[k][d]; }
    return b;
}
enum { BOUNDS = 7 };

template<uint D, typename P>
static std::vector<dVector<D, P>> run(const Gen<D, P> &g, size_t n, const dBox<D, P> &b, tGenerator &r) {
    auto pts = g.make()->generate(n, b, r);
    mc::requireF(pts.finite_size() == n + 1, [&] { return mc::fmt("%zu points instead of %zu", (size_t) pts.finite_size() - 1, n); });
    std::vector<dVector<D, P>> v;
    for (size_t i = 1; i <= n; ++i) {
        v.push_back(pts[i].coords);
        for (uint d = 0; d < D; ++d)
            mc::requireF(pts[i].coords[d] >= b.low[d] && pts[i].coords[d] <= b.high[d], [&] {
                return mc::fmt("coordinate %u of point %zu is %.17g, outside of [%.17g,%.17g]", d, i, (double) pts[i].coords[d], (double) b.low[d], (double) b.high[d]);
            });
    }
    for (uint d = 0; d < D; ++d) mc::requireF(pts[0].coords[d] == 0, [] { return std::string("the reserved entry is used"); });
    return v;
}

template<uint D, typename P>
static void generate(mc::Choice &c, const std::vector<size_t> &ns, const std::vector<uint32_t> &outs, int depth, int seeds) {
    const auto &g = c.of(gens<D, P>());
    size_t n = c.of(ns);
    int bb = c.pick(BOUNDS);
    uint32_t seed = c.pick(seeds);
    std::vector<uint32_t> first;
    int k = depth ? c.pick(depth + 1) : 0;
    if (k < depth && seed) throw mc::Skip();          // shorter beginnings with one seed only
    for (int i = 0; i < k; ++i) first.push_back(c.of(outs));
    c.shard();
    std::string d = mc::fmt("%s, %uD, %zu bytes, %zu points, bounds %d, seed %u, beginning with", g.name, D, sizeof(P), n, bb, seed);
    for (auto x : first) d += mc::fmt(" %08x", x);
    mc::describe(d);
    auto b = bounds<D, P>(bb);
    tGenerator r = withOutputs(seed, first), s = r, before = r;
    auto v = run<D, P>(g, n, b, r);
    auto w = run<D, P>(g, n, b, s);
    bool same = v.size() == w.size();
    for (size_t i = 0; same && i < v.size(); ++i) same = !memcmp(v[i].data(), w[i].data(), sizeof v[i]);
    mc::requireF(same, [] { return std::string("the same random sequence yields other points"); });
    mc::requireF(r == s, [] { return std::string("the same random sequence is left in another state"); });
    mc::requireF(n == 0 || !(r == before), [] { return std::string("the next call would draw the same random numbers again"); });
    uint64_t h = mc::mix(D, sizeof(P));
    for (auto &x : v) for (auto y : x) { uint64_t z = 0; memcpy(&z, &y, sizeof y); h = mc::mix(h, z); }
    mc::state(mc::mix(h, n));
}

static const std::vector<uint32_t> EDGE = {0, 0xffffffffu, 0x80000000u, 0x7fffffffu};
static const std::vector<size_t> SMALL = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17};
static const std::vector<size_t> FEW = {1, 2, 3};
static const std::vector<size_t> MORE = {31, 33, 100, 129};

template<uint D, typename P>
static void counts(mc::Choice &c) { generate<D, P>(c, SMALL, {}, 0, mc::thorough() ? 12 : 3); }
template<uint D, typename P>
static void edges(mc::Choice &c) { generate<D, P>(c, FEW, EDGE, mc::thorough() ? 6 : 4, 1); }

MC_SCENARIO("counts 2D double", 0, 0, 3) { counts<2, double>(c); }
MC_SCENARIO("counts 3D double", 0, 0, 3) { counts<3, double>(c); }
MC_SCENARIO("counts 2D float", 0, 0, 3) { counts<2, float>(c); }
MC_SCENARIO("counts 3D float", 0, 0, 3) { counts<3, float>(c); }
MC_SCENARIO("extreme random numbers 2D double", 0, 0, 3) { edges<2, double>(c); }
MC_SCENARIO("extreme random numbers 3D double", 0, 0, 3) { edges<3, double>(c); }
MC_SCENARIO("extreme random numbers 2D float", 0, 0, 3) { edges<2, float>(c); }
MC_SCENARIO("extreme random numbers 3D float", 0, 0, 3) { edges<3, float>(c); }
MC_SCENARIO("more points", 0, 0, 3) {
    switch (c.pick(4)) {
        case 0: generate<2, double>(c, MORE, {}, 0, 2); break;
        case 1: generate<3, double>(c, MORE, {}, 0, 2); break;
        case 2: generate<2, float>(c, MORE, {}, 0, 2); break;
        case 3: generate<3, float>(c, MORE, {}, 0, 2); break;
    }
}
MC_MAIN
