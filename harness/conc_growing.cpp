// H03: threads insert into one growing table through handles of their own while it migrates.
#include "lin.hpp"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
#include "utils/Random.h"

typedef uint64_t K;

static Hasher<K> hasher(K a) { Hasher<K> h; h.a = a; return h; }

enum { INS, HAS };

struct SetSpec {
    std::set<int> s;
    bool step(const lin::Op &o) {
        if (o.kind == INS) return s.insert(o.key).second == (o.res == 1) && o.res <= 1;
        return (int) s.count(o.key) == o.res;
    }
    bool operator<(const SetSpec &o) const { return s < o.s; }
};

struct MultiSpec {
    std::multiset<std::pair<int, int>> s;
    bool step(const lin::Op &o) {
        if (o.kind == INS) { s.insert({o.key, o.arg}); return o.res == 1; }
        bool in = false;
        for (auto &x : s) in |= x.first == o.key;
        return (int) in == o.res;
    }
    bool operator<(const MultiSpec &o) const { return s < o.s; }
};

static int code(const InsertReturn &r) { return r == InsertReturn::State::Full ? 2 : r ? 1 : 0; }

struct Prog { std::vector<std::vector<std::pair<int, K>>> t; };

static std::string show(const Prog &p) {
    std::string s;
    for (auto &t : p.t) {
        s += "{";
        for (auto &o : t) s += mc::fmt("%s(%llu) ", o.first == INS ? "insert" : "contains", (unsigned long long) o.second);
        s += "}";
    }
    return s;
}

struct SetT {
    typedef Concurrent_LP_Set<K, true> T;
    static const char *name() { return "set"; }
    template<typename H> static InsertReturn ins(H &h, K k, K) { return h.insert(k); }
    static K key(K x) { return x; }
    static K val(K) { return 0; }
    typedef SetSpec S;
    static void add(S &s, K k, K) { s.s.insert(k); }
    static bool same(const S &s, const std::multiset<std::pair<int, int>> &f) {
        std::multiset<std::pair<int, int>> w;
        for (auto k : s.s) w.insert({k, 0});
        return w == f;
    }
    static const bool unique = true;
};

struct MapT : SetT {
    typedef Concurrent_LP_Map<K, K> T;
    static const char *name() { return "map"; }
    template<typename H> static InsertReturn ins(H &h, K k, K v) { return h.insert(k, v); }
    template<typename P> static K key(const P &x) { return x.first; }
    template<typename P> static K val(const P &) { return 0; }
};

struct MultiT {
    typedef Concurrent_LP_MultiMap<K, K> T;
    static const char *name() { return "multimap"; }
    template<typename H> static InsertReturn ins(H &h, K k, K v) { return h.insert(k, v); }
    template<typename P> static K key(const P &x) { return x.first; }
    template<typename P> static K val(const P &x) { return x.second; }
    typedef MultiSpec S;
    static void add(S &s, K k, K v) { s.s.insert({(int) k, (int) v}); }
    static bool same(const S &s, const std::multiset<std::pair<int, int>> &f) { return s.s == f; }
    static const bool unique = false;
};

template<typename X>
static void run(mc::Choice &c, const Prog &p, size_t cap, K a, const std::vector<K> &pre) {
    std::string d = mc::fmt("growing %s capacity=%zu multiplier=%llu before=%zu ", X::name(), cap, (unsigned long long) a, pre.size()) + show(p);
    mc::describe(d);
    startGen.seed(START_SEED);
    GrowingHashTable<typename X::T> table(cap, 0u, hasher(a));
    typename X::S spec;
    {
        auto h = table.handle();
        K v = 100;
        for (auto k : pre) { X::ins(h, k, v); X::add(spec, k, v); ++v; }
    }
    lin::History h;
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < p.t.size(); ++t)
        bodies.push_back([&, t] {
            auto hd = table.handle();
            K val = 1000 * (t + 1);
            for (auto &o : p.t[t])
                if (o.first == INS) { ++val; h.op(INS, o.second, val, "insert(" + std::to_string(o.second) + ")", [&] { return code(X::ins(hd, o.second, val)); }); }
                else h.op(HAS, o.second, 0, "contains(" + std::to_string(o.second) + ")", [&] { return (int) hd.contains(o.second); });
        });
    sched::Options opt;
    opt.reportRaces = !getenv("NORACE");
    opt.maxSteps = 4000 + 40 * pre.size();
    sched::run(c, bodies, opt);
    std::multiset<std::pair<int, int>> fin;
    std::set<int> keys;
    auto hd = table.handle();
    for (auto it = hd.begin(); it != hd.end(); ++it) { fin.insert({(int) X::key(*it), (int) X::val(*it)}); keys.insert(X::key(*it)); }
    mc::requireF(hd.size() == fin.size(), [&] { return mc::fmt("size() is %zu but %zu elements are stored; ", (size_t) hd.size(), fin.size()) + h.str(); });
    bool ok = lin::linearizable<typename X::S>(h, spec, [&](const typename X::S &e) { return X::same(e, fin); });
    mc::requireF(ok, [&] {
        std::string s = "no sequential order explains this history: " + h.str() + " final content:";
        for (auto &x : fin) s += mc::fmt(" %d", x.first);
        return s;
    });
    for (int k : keys) mc::requireF(hd.contains((K) k), [&] { return "an element is stored but not found; " + h.str(); });
    mc::state(mc::mix(h.hash(), mc::hashStr(d)));
    mc::count(hd.capacity() > cap ? "executions_with_migration" : "executions_without_migration");
    uint64_t oc = 5;
    for (auto &o : h.ops) oc = mc::mix(oc, o.res);
    mc::outcome(oc);
}

template<typename X>
static void two(mc::Choice &c) {
    // one element before, a table of four slots: the second or third element triggers the migration
    Prog p;
    const std::vector<K> keys{1, 2};
    auto body = [&](int n, const std::vector<K> &ks) {
        std::vector<std::pair<int, K>> r;
        for (int i = 0; i < n; ++i) {
            int x = c.pick((int) ks.size() + 1);
            if (x == (int) ks.size()) r.push_back({HAS, ks[0]}); else r.push_back({INS, ks[x]});
        }
        return r;
    };
    p.t.push_back(body(2, keys));
    p.t.push_back(body(2, {1, 3}));
    int pre = c.pick(2);
    c.shard();
    run<X>(c, p, 4, 1, pre ? std::vector<K>{1, 9} : std::vector<K>{17});
}

template<typename X>
static void three(mc::Choice &c) {
    Prog p;
    for (int i = 0; i < 3; ++i) { int x = c.pick(3); p.t.push_back({{x == 2 ? HAS : INS, (K) (x == 1 ? 10 + i : 1)}}); }
    c.shard();
    run<X>(c, p, 8, 1, {17, 25, 33});
}

// two migrations in a row: threads may lag behind by more than one table
template<typename X>
static void chain(mc::Choice &c) {
    Prog p;
    K a = c.flag() ? 2 : 11;
    p.t.push_back({{INS, 11}, {INS, 12}, {INS, 13}, {INS, 14}});
    p.t.push_back({{INS, a}, {HAS, 11}});
    c.shard();
    run<X>(c, p, 4, 1, {17});
}

// a tiny table that more threads fill at once than it has slots
template<typename X>
static void tiny(mc::Choice &c) {
    Prog p;
    const std::vector<K> keys{1, 2, 3, 4};
    int n = mc::thorough() ? 3 + c.pick(2) : 3;
    for (int i = 0; i < n; ++i) p.t.push_back({{INS, keys[i]}});
    switch (c.pick(3)) {
        case 1: p.t[2] = {{HAS, 5}}; break;
        case 2: p.t[2] = {{INS, 1}}; break;
        default:;
    }
    size_t cap = c.of(std::vector<size_t>{1, 2});
    K a = c.of(std::vector<K>{1, 8, (K) -1});
    c.shard();
    run<X>(c, p, cap, a, {});
}

// several blocks are copied, by one thread or by several at once
template<typename X>
static void blocks(mc::Choice &c) {
    size_t cap = mc::thorough() ? c.of(std::vector<size_t>{512, 1024}) : 512;
    size_t n = cap / 2 - c.pick(2);
    K step = c.of(std::vector<K>{1, 3});
    std::vector<K> pre;
    for (size_t i = 0; i < n; ++i) pre.push_back(1 + i * step);
    Prog p;
    K last = 1 + (n - 1) * step;
    p.t.push_back({{INS, 5000}, {HAS, last}});
    p.t.push_back({{INS, c.flag() ? 5000 : last}, {HAS, 1}});
    c.shard();
    run<X>(c, p, cap, 1, pre);
}
// one thread, many migrations
template<typename X>
static void large(mc::Choice &c) {
    size_t cap = c.of(std::vector<size_t>{1, 2, 64, 256, 4096}), n = c.of(std::vector<size_t>{10, 127, 128, 129, 1000, 5000, 20000});
    int kind = c.pick(5);
    K a = c.of(std::vector<K>{1, (K) -1, 0x9e3779b97f4a7c15ull});
    c.shard();
    mc::describe(mc::fmt("growing %s capacity=%zu multiplier=%llu, %zu insertions of kind %d", X::name(), cap, (unsigned long long) a, n, kind));
    GrowingHashTable<typename X::T> table(cap, 0u, hasher(a));
    std::multiset<std::pair<K, K>> want, got;
    std::set<K> keys;
    auto h = table.handle();
    auto old = table.handle();                           // notices each new table late
    uint64_t s = 88172645463325252ull;
    for (size_t i = 0; i < n; ++i) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        K k = kind == 0 ? i + 1 : kind == 1 ? (i % 700) + 1 : kind == 2 ? ((K) (i + 1) << 40) + i : kind == 3 ? s | 1 : ((K) -1) - i;
        bool fresh = keys.insert(k).second;
        auto r = X::ins(i % 100 == 99 ? old : h, k, i + 1);
        mc::requireF((code(r) == 1) == (fresh || !X::unique), [&] { return mc::fmt("inserting %llu returned %d", (unsigned long long) k, code(r)); });
        if (fresh || !X::unique) want.insert({k, X::unique ? 0 : i + 1});
    }
    for (auto it = old.begin(); it != old.end(); ++it) got.insert({X::key(*it), X::val(*it)});
    mc::requireF(got == want, [&] { return mc::fmt("%zu elements are stored instead of %zu", got.size(), want.size()); });
    mc::requireF(h.size() == want.size() && old.size() == want.size(), [&] { return mc::fmt("size() is %zu instead of %zu", (size_t) h.size(), want.size()); });
    for (K k : keys) mc::requireF(h.contains(k) && old.contains(k) && h.count(k) == 1, [&] { return mc::fmt("%llu is not found", (unsigned long long) k); });
    for (K k : keys) for (K x : {k + 1, k ^ (K(1) << 40), k ^ (K(1) << 63)}) if (x) mc::requireF(h.contains(x) == (keys.count(x) > 0), [&] { return mc::fmt("contains(%llu) is %d", (unsigned long long) x, (int) h.contains(x)); });
    mc::state(mc::mix(mc::mix(mc::mix(mc::mix(cap, n), kind), a), X::unique));
    mc::transition(n);
}
MC_SCENARIO("set-large", 0, 0, 3) { large<SetT>(c); }
MC_SCENARIO("map-large", 0, 0, 3) { large<MapT>(c); }
MC_SCENARIO("multimap-large", 0, 0, 3) { large<MultiT>(c); }
MC_SCENARIO("set-blocks", 1, 1, 3) { blocks<SetT>(c); }
MC_SCENARIO("multimap-blocks", 1, 1, 3) { blocks<MultiT>(c); }
MC_SCENARIO("set-two", 2, 3, 3) { two<SetT>(c); }
MC_SCENARIO("multimap-two", 2, 3, 3) { two<MultiT>(c); }
MC_SCENARIO("map-two", 2, 3, 3) { two<MapT>(c); }
MC_SCENARIO("set-three", 2, 3, 3) { three<SetT>(c); }
MC_SCENARIO("multimap-three", 2, 3, 3) { three<MultiT>(c); }
MC_SCENARIO("set-tiny", 2, 3, 3) { tiny<SetT>(c); }
MC_SCENARIO("multimap-tiny", 2, 3, 3) { tiny<MultiT>(c); }
MC_SCENARIO("map-tiny", 2, 3, 3) { tiny<MapT>(c); }
MC_SCENARIO("set-chain", 2, 3, 3) { chain<SetT>(c); }
MC_SCENARIO("multimap-chain", 2, 3, 3) { chain<MultiT>(c); }
MC_MAIN
