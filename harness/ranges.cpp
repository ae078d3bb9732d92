// H06: every node of the complete splitting tree of every range, against the contents of the container. A split is
// deterministic, so the parts of any splitting a scheduler may choose are nodes of this tree.
#include "mc.hpp"
#include "Geometry.h"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Bit_Set.hxx"
#include "datastructures/BlockedArray2.hxx"
#include "datastructures/VectorAdapter.hxx"
#include "datastructures/VectorAdapter2.hxx"
#include "datastructures/Growing_LP.hxx"
#include "utils/Random.h"
#include <tbb/parallel_for.h>
#include "reseed.hpp"

typedef std::vector<uint64_t> V;

// the elements the loop bodies of the library see: from begin() until end(), compared for inequality
template<typename R, typename F>
static V visit(R &r, size_t limit, const F &name) {
    V v;
    if (r.empty()) return v;
    for (auto it = r.begin(); it != r.end(); ++it) {
        v.push_back(name(it));
        mc::requireF(v.size() <= limit, [&] { return mc::fmt("a range visits more than the %zu elements", limit); });
    }
    return v;
}

// returns what the parts of the range visit, in order
template<typename R, typename F>
static V tree(R &r, size_t limit, const F &name, int depth, size_t &nodes) {
    mc::requireF(depth < 64, [] { return std::string("splitting does not end"); });
    ++nodes;
    V mine = visit(r, limit, name);
    if (!r.is_divisible()) return mine;
    mc::requireF(!r.empty(), [] { return std::string("an empty range is divisible"); });
    R left(r), right(left, tbb::split());          // 'left' keeps the upper part for some ranges, the order does not matter
    V a = tree(left, limit, name, depth + 1, nodes), b = tree(right, limit, name, depth + 1, nodes);
    a.insert(a.end(), b.begin(), b.end());
    std::sort(a.begin(), a.end());
    V m = mine;
    std::sort(m.begin(), m.end());
    mc::requireF(a == m, [&] { return mc::fmt("the parts of a range of %zu elements visit %zu elements, or others", m.size(), a.size()); });
    return mine;
}

template<typename R, typename F>
static void whole(R r, V want, const F &name, const char *what) {
    std::sort(want.begin(), want.end());
    size_t nodes = 0;
    V got = tree(r, want.size() + 1, name, 0, nodes);
    std::sort(got.begin(), got.end());
    mc::requireF(got == want, [&] { return mc::fmt("%s: the range visits %zu elements, expected are %zu, or others", what, got.size(), want.size()); });
    mc::requireF(!want.empty() || r.empty(), [&] { return mc::fmt("%s: the range of an empty container is not empty", what); });
    mc::count("nodes of splitting trees", nodes);
    mc::transition();
}

static const auto deref = [](auto &it) { return (uint64_t) *it; };
static const auto pairKey = [](auto &it) { auto p = *it; return (uint64_t) p.first * 1000003 + (uint64_t) p.second; };

static const std::vector<size_t> GRAINS = {0, 1, 2, 3, 1000};

template<typename T, typename F>
static void grains(const T &t, const V &want, const F &name, const char *what) {
    for (size_t g : GRAINS) whole(typename T::const_range_type(t, g), want, name, what);
    whole(t.range(), want, name, what);
}

// run by a parallel loop under the explored schedule
template<typename R, typename F>
static void loop(R r, V want, const F &name, const char *what) {
    V got;
    tbb::parallel_for(r, [&](auto &s) { for (auto it = s.begin(); it != s.end(); ++it) got.push_back(name(it)); });
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    mc::requireF(got == want, [&] { return mc::fmt("%s: a parallel loop over the range visits %zu elements, expected are %zu, or others", what, got.size(), want.size()); });
}

// ---- hash tables: every occupancy of the slots ----------------------------------------------------------
template<typename K>
static Hasher<K> identity() { Hasher<K> h; h.a = 1; return h; }

static void slots(mc::Choice &c, int maxLog) {
    int log = c.pick(maxLog + 1);
    size_t cap = (size_t) 1 << log;
    int kind = c.pick(6);
    size_t m = c.pick((size_t) 1 << cap);
    if (log > 2) c.shard();
    size_t n = __builtin_popcountll(m);
    // the tables that grow never fill beyond a half, the fixed ones keep a free slot
    bool half = kind == 0 || kind == 1 || kind == 2;
    if (half ? 2 * n > cap : n + 1 > cap) throw mc::Skip();
    V keys;
    for (size_t s = 0; s < cap; ++s) if (m >> s & 1) keys.push_back(s ? s : cap);
    mc::describe(mc::fmt("kind %d, capacity %zu, slots %zx", kind, cap, m));
    auto check = [&](auto &t, bool pairs, const char *what) {
        mc::requireF(t.size() == n, [&] { return mc::fmt("%s: %zu elements", what, (size_t) t.size()); });
        (void) pairs;
    };
    V pairs;
    for (auto k : keys) pairs.push_back(k * 1000003 + k % 3 + 1);
    switch (kind) {
        case 0: { LP_Set<uint64_t, true> t(cap, identity<uint64_t>()); for (auto k : keys) t.insert(k); check(t, false, "set"); grains(t, keys, deref, "set"); break; }
        case 1: { LP_Map<uint64_t, uint64_t> t(cap, identity<uint64_t>()); for (auto k : keys) t.insert(k, k % 3 + 1); check(t, true, "map"); grains(t, pairs, pairKey, "map"); break; }
        case 2: { LP_MultiMap<uint64_t, uint64_t> t(cap, identity<uint64_t>()); for (auto k : keys) t.insert(k, k % 3 + 1); check(t, true, "multimap"); grains(t, pairs, pairKey, "multimap"); break; }
        case 3: { LP_Set<uint64_t, false> t(cap, identity<uint64_t>()); for (auto k : keys) t.insert(k); check(t, false, "fixed set"); grains(t, keys, deref, "fixed set"); break; }
        case 4: { Concurrent_LP_Set<uint64_t, false> t(cap, 0, identity<uint64_t>()); for (auto k : keys) t.insert(k); check(t, false, "concurrent set"); grains(t, keys, deref, "concurrent set"); break; }
        case 5: {
            if (2 * n > cap) throw mc::Skip();      // reported as full beyond that
            Concurrent_LP_MultiMap<uint64_t, uint64_t> t(cap, 0, identity<uint64_t>());
            for (auto k : keys) t.insert(k, k % 3 + 1);
            Concurrent_LP_Map<uint64_t, uint64_t> u(cap, 0, identity<uint64_t>());
            for (auto k : keys) u.insert(k, k % 3 + 1);
            check(t, true, "concurrent multimap");
            grains(t, pairs, pairKey, "concurrent multimap");
            grains(u, pairs, pairKey, "concurrent map");
            break;
        }
    }
    mc::state(mc::mix(mc::mix(m, cap), kind));
}
MC_SCENARIO("hash tables", 0, 0, 3) { slots(c, 4); }

// every colliding insertion order of few keys: elements off their home slot, wrapped around
MC_SCENARIO("displaced elements", 0, 0, 3) {
    size_t cap = c.flag() ? 8 : 4;
    int n = 1 + c.pick(cap == 4 ? 2 : mc::thorough() ? 6 : 4);
    LP_Set<uint64_t, false> s(cap, identity<uint64_t>());
    LP_MultiMap<uint64_t, uint64_t> m(2 * cap, identity<uint64_t>());
    std::set<uint64_t> k;
    V pairs;
    std::string d = mc::fmt("capacity %zu:", cap);
    for (int i = 0; i < n; ++i) {
        uint64_t x = (1 + c.pick((size_t) 2)) * cap - 1 + c.pick((size_t) 3);
        d += mc::fmt(" %llu", (unsigned long long) x);
        s.insert(x);
        k.insert(x);
        m.insert(x, i + 1);
        pairs.push_back(x * 1000003 + i + 1);
    }
    mc::describe(d);
    if (k.size() + 1 > cap) throw mc::Skip();
    grains(s, V(k.begin(), k.end()), deref, "set");
    grains(m, pairs, pairKey, "multimap");
    mc::state(mc::hashStr(d));
}

// default grain size: large tables, sparse and dense, single elements everywhere near the cuts
static const std::vector<std::vector<int>> &patterns() {
    static const std::vector<std::vector<int>> P = {{0, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 7}, {0, 1}, {2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {3, 0}, {3, 1}, {3, 2}};
    return P;
}
static bool in(const std::vector<int> &p, size_t i, size_t cap) {
    switch (p[0]) {
        case 0: return p[1] && i < cap / 2;                        // nothing, or the lower half
        case 1: return i % p[1] == 0;                              // every so many
        case 2: { size_t at[] = {0, cap - 1, cap / 2, cap / 2 - 1, cap / 4, cap / 4 * 3 + 1}; return i == at[p[1]]; }
        default: return p[1] == 0 ? i >= cap / 2 : p[1] == 1 ? (i >= cap / 4 && i < cap / 4 * 3) : (i < cap / 4 || i >= cap / 4 * 3);
    }
}
static void large(mc::Choice &c) {
    const auto &p = c.of(patterns());
    size_t cap = c.of(mc::thorough() ? std::vector<size_t>{512, 1024, 2048, 4096, 8192} : std::vector<size_t>{1024, 4096});
    c.shard();
    V keys, pairs;
    for (size_t s = 0; s < cap; ++s) if (in(p, s, cap)) keys.push_back(s ? s : cap);
    if (keys.size() == cap) keys.pop_back();
    for (auto k : keys) pairs.push_back(k * 1000003 + 1);
    mc::describe(mc::fmt("pattern %d %d of %zu slots", p[0], p[1], cap));
    LP_Set<uint64_t, false> s(cap, identity<uint64_t>());
    for (auto k : keys) s.insert(k);
    whole(s.range(), keys, deref, "set");
    loop(s.range(), keys, deref, "set");
    LP_MultiMap<uint64_t, uint64_t> m(2 * cap, identity<uint64_t>());
    for (auto k : keys) m.insert(k, 1);
    whole(m.range(), pairs, pairKey, "multimap");
    LP_Map<uint64_t, uint64_t> q(2 * cap, identity<uint64_t>());
    for (auto k : keys) q.insert(k, 1);
    whole(q.range(), pairs, pairKey, "map");
    Bit_Set b(1, cap + 1);
    for (auto k : keys) b.insert(k);
    whole(b.range(), keys, deref, "bit set");
    loop(b.range(), keys, deref, "bit set");
    GrowingHashTable<Concurrent_LP_Set<uint64_t, true>> g(4);
    {
        GrowingHashTableHandle<Concurrent_LP_Set<uint64_t, true>> h(g);
        ConstGrowingHashTableHandle<Concurrent_LP_Set<uint64_t, true>> old(g);
        for (auto k : keys) h.insert(k);
        whole(h.range(), keys, deref, "growing set");
        whole(old.range(), keys, deref, "growing set through a handle obtained before it grew");
        loop(g.handle().range(), keys, deref, "growing set");
    }
    mc::state(mc::mix(cap, mc::hashStr(mc::fmt("%d %d", p[0], p[1]))));
}
MC_SCENARIO("default grain size", 0, 0, 3) { large(c); }

// ---- bit set: bits around the block borders --------------------------------------------------------------
template<typename B>
static void bits(mc::Choice &c, const char *what) {
    static const std::vector<size_t> POS = {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 190, 191};
    size_t lo = c.of(std::vector<size_t>{0, 64, 5});
    int n = mc::thorough() ? 16 : 13;
    size_t m = c.pick((size_t) 1 << n);
    c.shard();
    V want;
    B b(lo, lo + 192);
    for (int i = 0; i < n; ++i) if (m >> i & 1) { size_t p = POS[i * 16 / n] + lo; want.push_back(p); b.insert(p); }
    mc::describe(mc::fmt("%s from %zu, bits %zx", what, lo, m));
    grains(b, want, deref, what);
    whole(typename B::const_range_type(b, 64), want, deref, what);
    mc::state(mc::mix(mc::mix(m, lo), mc::hashStr(what)));
}
MC_SCENARIO("bit set", 0, 0, 3) { bits<Bit_Set>(c, "bit set"); }
MC_SCENARIO("concurrent bit set", 0, 0, 3) { bits<Concurrent_Bit_Set>(c, "concurrent bit set"); }

// ---- block storage ---------------------------------------------------------------------------------------
typedef std::pair<size_t, size_t> Iv;
static const std::vector<Iv> BLOCKS = {{3, 4}, {4, 7}, {8, 10}, {13, 14}, {14, 18}, {40, 43}};

MC_SCENARIO("block storage", 0, 0, 3) {
    size_t m = 1 + c.pick(((size_t) 1 << BLOCKS.size()) - 1);
    c.shard();
    std::unique_ptr<BlockedArray2<int>> a;
    V want;
    for (size_t i = 0; i < BLOCKS.size(); ++i) if (m >> i & 1) {
        if (!a) a.reset(new BlockedArray2<int>(BLOCKS[i].first, BLOCKS[i].second)); else a->addBlock(BLOCKS[i].first, BLOCKS[i].second);
        for (size_t j = BLOCKS[i].first; j < BLOCKS[i].second; ++j) { a->unsafe_at(j) = j; want.push_back(j); }
    }
    mc::describe(mc::fmt("blocks %zx", m));
    grains(static_cast<const BlockedArray2<int> &>(*a), want, deref, "block storage");
    mc::state(m);
}

template<typename S, typename R>
static void simplexRange(S &s, const V &want, const char *what) {
    static const auto id = [](auto &it) { return (uint64_t) it->id; };
    for (size_t g : GRAINS) whole(R(s, g), want, id, what);
    whole(s.range(), want, id, what);
    loop(R(s, 1), want, id, what);
    V v;
    for (auto &x : s) v.push_back(x.id);
    mc::requireF(v == want, [&] { return mc::fmt("%s: iteration visits %zu simplices, expected are %zu", what, v.size(), want.size()); });
}

template<uint D>
static void simplices(mc::Choice &c, int maxElems) {
    typedef dSimplices<D, double> S;
    static const std::vector<std::vector<Iv>> LAYOUTS = {
        {{1, 2}}, {{1, 6}}, {{0, 4}, {4, 7}}, {{2, 3}, {3, 4}, {4, 5}}, {{5, 8}, {9, 10}, {20, 24}}, {{0, 4}, {6, 10}, {10, 14}}, {{1, 4}, {5, 8}, {9, 12}, {13, 16}}, {{0, 16}}, {{0, 9}, {11, 14}, {14, 15}, {15, 22}}};    // blocks are never empty
    const auto &l = c.of(LAYOUTS);
    size_t n = 0;
    for (auto &b : l) n += b.second - b.first;
    if ((int) n > maxElems) throw mc::Skip();
    size_t m = c.pick((size_t) 1 << n);
    if (n > 3) c.shard();
    std::unique_ptr<S> s;
    std::string d = mc::fmt("%uD simplices in", D);
    V want;
    size_t k = 0;
    for (auto &b : l) {
        if (!s) s.reset(new S(b.first, b.second, 0)); else s->addBlock(b.first, b.second);
        d += mc::fmt(" [%zu,%zu)", b.first, b.second);
    }
    for (auto &b : l) for (size_t i = b.first; i < b.second; ++i, ++k) {
        bool used = m >> k & 1;
        s->unsafe_at(i).id = used ? i : dSimplex<D, double>::cINF;
        if (used) want.push_back(i);
    }
    d += mc::fmt(", used %zx", m);
    mc::describe(d);
    simplexRange<S, typename S::range_type>(*s, want, "simplices");
    simplexRange<const S, typename S::const_range_type>(*s, want, "constant simplices");
    mc::state(mc::hashStr(d));
}
MC_SCENARIO("simplices 2D", 0, 0, 3) { simplices<2>(c, mc::thorough() ? 20 : 14); }
MC_SCENARIO("simplices 3D", 0, 0, 3) { simplices<3>(c, mc::thorough() ? 16 : 9); }

// ---- index ranges of the points ----------------------------------------------------------------------------
MC_SCENARIO("points", 0, 0, 3) {
    size_t off = c.of(std::vector<size_t>{0, 1, 17});
    size_t n = c.pick((size_t) 20);
    c.shard();
    mc::describe(mc::fmt("%zu points from id %zu", n, off));
    auto idx = [](auto &it) { return (uint64_t) it; };
    dPoints<2, double> p;
    p.offset(off);
    for (size_t i = 0; i < n; ++i) p.emplace_back(dPoint<2, double>());
    V want;
    for (size_t i = 0; i < n; ++i) want.push_back(off + 1 + i);
    whole(p.range(), want, idx, "points");
    loop(p.range(), want, idx, "points");
    VectorAdapter2<dPoint<2, double>> a;
    a.offset(off);
    for (size_t i = 0; i < n; ++i) a.emplace_back(dPoint<2, double>());
    want.clear();
    for (size_t i = 0; i < n; ++i) want.push_back(off + i);
    whole(a.range(), want, idx, "adapted vector");
    mc::state(mc::mix(off, n));
}
MC_MAIN
