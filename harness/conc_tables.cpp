// H02: every interleaving (up to the preemption bound) of threads that use one shared hash table.
#include "lin.hpp"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "utils/Random.h"

typedef uint64_t K;

static Hasher<K> hasher(K a) { Hasher<K> h; h.a = a; return h; }

enum { INS, HAS };

// an insertion may be refused if the elements stored, or being stored at that time, take up the room there is
static void refusals(const lin::History &h, size_t before, size_t room) {
    for (auto &o : h.ops)
        if (o.kind == INS && o.res == 2) {
            size_t n = before;
            for (auto &x : h.ops) n += x.kind == INS && x.res == 1 && x.b < o.e;
            mc::requireF(n >= room, [&] { return mc::fmt("an insertion is refused although there is room; ") + h.str(); });
        }
}

struct SetSpec {
    std::set<int> s;
    bool step(const lin::Op &o) {
        if (o.kind == INS && o.res == 2) return true;     // see refusals()
        if (o.kind == INS) return s.insert(o.key).second == (o.res == 1) && o.res <= 1;
        return (int) s.count(o.key) == o.res;
    }
    bool operator<(const SetSpec &o) const { return s < o.s; }
};

struct Prog { std::vector<std::vector<std::pair<int, K>>> t; };

static int code(const InsertReturn &r) { return r == InsertReturn::State::Full ? 2 : r ? 1 : 0; }

// programs: every thread a sequence of operations over the keys; the last thread may do fewer
static std::vector<std::pair<int, K>> body(mc::Choice &c, int n, const std::vector<K> &keys) {
    std::vector<std::pair<int, K>> r;
    for (int i = 0; i < n; ++i) {
        int x = c.pick((int) keys.size() * 2);
        r.push_back({x % 2, keys[x / 2]});
    }
    return r;
}

static std::string show(const Prog &p) {
    std::string s;
    for (auto &t : p.t) {
        s += "{";
        for (auto &o : t) s += mc::fmt("%s(%llu) ", o.first == INS ? "insert" : "contains", (unsigned long long) o.second);
        s += "}";
    }
    return s;
}

template<bool Growing>
static void setRun(mc::Choice &c, const Prog &p, size_t cap, K a, const std::vector<K> &pre) {
    mc::describe(mc::fmt("set growing=%d capacity=%zu multiplier=%llu before=%zu ", Growing, cap, (unsigned long long) a, pre.size()) + show(p));
    Concurrent_LP_Set<K, Growing> s(cap, 0, hasher(a));
    SetSpec spec;
    for (auto k : pre) { s.insert(k); spec.s.insert(k); }
    lin::History h;
    std::vector<std::function<void()>> bodies;
    for (auto &t : p.t)
        bodies.push_back([&, t] {
            for (auto &o : t)
                if (o.first == INS) h.op(INS, o.second, 0, "insert(" + std::to_string(o.second) + ")", [&] { return code(s.insert(o.second)); });
                else h.op(HAS, o.second, 0, "contains(" + std::to_string(o.second) + ")", [&] { return (int) s.contains(o.second); });
        });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, bodies, opt);
    refusals(h, pre.size(), Growing ? cap / 2 : cap);
    std::multiset<K> fin;
    for (auto it = s.begin(); it != s.end(); ++it) fin.insert(*it);
    mc::requireF(s.size() == fin.size(), [&] { return mc::fmt("size() is %zu but %zu elements are stored; ", (size_t) s.size(), fin.size()) + h.str(); });
    bool ok = lin::linearizable<SetSpec>(h, spec, [&](const SetSpec &e) {
        std::multiset<K> w(e.s.begin(), e.s.end());
        return w == fin;
    });
    mc::requireF(ok, [&] { return "no sequential order explains this history: " + h.str(); });
    for (K k : fin) mc::requireF(s.contains(k), [&] { return "an element is stored but not found; " + h.str(); });
    mc::state(h.hash());
    uint64_t oc = 5;
    for (auto &o : h.ops) oc = mc::mix(oc, o.res);
    mc::outcome(oc);
    // conversion to the sequential set keeps the content
    LP_Set<K, true> q(std::move(s));
    std::multiset<K> got;
    for (auto it = q.begin(); it != q.end(); ++it) got.insert(*it);
    mc::requireF(got == fin && q.size() == fin.size(), [&] { return "conversion to the sequential set changes the content"; });
}

static const std::vector<K> KEYS{1, 9};

template<bool G>
static void sets(mc::Choice &c, int threads, int ops) {
    Prog p;
    K a = c.flag() ? 7 : 1;             // 7: the chain wraps around the end of the table
    bool pre = c.flag();
    for (int i = 0; i < threads; ++i) p.t.push_back(body(c, ops, KEYS));
    c.shard();
    setRun<G>(c, p, 16, a, pre ? std::vector<K>{17} : std::vector<K>{});
}

MC_SCENARIO("set-2x2", 2, 4, 3) { sets<false>(c, 2, 2); }
MC_SCENARIO("set-3x1", 3, 5, 3) { sets<false>(c, 3, 1); }
MC_SCENARIO("growing-set-2x2", 1, 3, 3) { sets<true>(c, 2, 2); }
MC_SCENARIO("set-3x2", 2, 2, 2) { sets<false>(c, 3, 2); }

// ---- map and multimap -----------------------------------------------------------------------------
struct MultiSpec {
    std::multiset<std::pair<int, int>> s;
    bool step(const lin::Op &o) {
        if (o.kind == INS && o.res == 2) return true;     // see refusals()
        if (o.kind == INS) { s.insert({o.key, o.arg}); return o.res == 1; }
        bool in = false;
        for (auto &x : s) in |= x.first == o.key;
        return (int) in == o.res;
    }
    bool operator<(const MultiSpec &o) const { return s < o.s; }
};

static void multiRun(mc::Choice &c, const Prog &p, size_t cap, K a, const std::vector<K> &pre) {
    mc::describe(mc::fmt("multimap capacity=%zu multiplier=%llu before=%zu ", cap, (unsigned long long) a, pre.size()) + show(p));
    Concurrent_LP_MultiMap<K, K> s(cap, 0, hasher(a));
    MultiSpec spec;
    int v = 100;
    for (auto k : pre) { s.insert(k, v); spec.s.insert({(int) k, v}); ++v; }
    lin::History h;
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < p.t.size(); ++t)
        bodies.push_back([&, t] {
            K val = 1000 * (t + 1);
            for (auto &o : p.t[t])
                if (o.first == INS) { ++val; h.op(INS, o.second, val, "insert(" + std::to_string(o.second) + ")", [&] { return code(s.insert(o.second, val)); }); }
                else h.op(HAS, o.second, 0, "contains(" + std::to_string(o.second) + ")", [&] { return (int) s.contains(o.second); });
        });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, bodies, opt);
    refusals(h, pre.size(), cap / 2);
    std::multiset<std::pair<int, int>> fin;
    std::set<int> keys;
    for (auto it = s.begin(); it != s.end(); ++it) { fin.insert({(int) (*it).first, (int) (*it).second}); keys.insert((*it).first); }
    mc::requireF(s.size() == fin.size(), [&] { return mc::fmt("size() is %zu but %zu elements are stored; ", (size_t) s.size(), fin.size()) + h.str(); });
    bool ok = lin::linearizable<MultiSpec>(h, spec, [&](const MultiSpec &e) { return e.s == fin; });
    mc::requireF(ok, [&] { return "no sequential order explains this history: " + h.str(); });
    for (int k : keys) {
        std::multiset<std::pair<int, int>> w, g;
        for (auto &x : fin) if (x.first == k) w.insert(x);
        auto r = s.get(k);
        for (auto it = r.first; it != r.second; ++it) g.insert({(int) (*it).first, (int) (*it).second});
        mc::requireF(w == g, [&] { return mc::fmt("get(%d) does not return exactly the values stored under the key; ", k) + h.str(); });
    }
    mc::state(h.hash());
    LP_MultiMap<K, K> q(std::move(s));
    std::multiset<std::pair<int, int>> got;
    for (auto it = q.begin(); it != q.end(); ++it) got.insert({(int) (*it).first, (int) (*it).second});
    mc::requireF(got == fin && q.size() == fin.size(), [&] { return "conversion to the sequential multimap changes the content"; });
}

static void mapRun(mc::Choice &c, const Prog &p, size_t cap, K a, const std::vector<K> &pre) {
    mc::describe(mc::fmt("map capacity=%zu multiplier=%llu before=%zu ", cap, (unsigned long long) a, pre.size()) + show(p));
    Concurrent_LP_Map<K, K> s(cap, 0, hasher(a));
    SetSpec spec;
    K v = 100;
    std::map<K, K> init;
    for (auto k : pre) { s.insert(k, v); spec.s.insert(k); init[k] = v; ++v; }
    lin::History h;
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < p.t.size(); ++t)
        bodies.push_back([&, t] {
            K val = 1000 * (t + 1);
            for (auto &o : p.t[t])
                if (o.first == INS) { ++val; h.op(INS, o.second, val, "insert(" + std::to_string(o.second) + ")", [&] { return code(s.insert(o.second, val)); }); }
                else h.op(HAS, o.second, 0, "get(" + std::to_string(o.second) + ")", [&] { K g = s.get(o.second); h.ops.back(); return (int) g; });
        });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, bodies, opt);
    refusals(h, pre.size(), cap / 2);
    // values: what a lookup returned was inserted under the key, and not superseded by a later insertion
    auto valid = [&](K k, K val, uint64_t b, uint64_t e) {
        const lin::Op *x = nullptr;
        for (auto &o : h.ops) if (o.kind == INS && o.res != 2 && o.key == (int) k && o.arg == (int) val) x = &o;
        if (!x && !(init.count(k) && init[k] == val)) return false;
        if (x && x->b > e) return false;
        for (auto &o : h.ops) if (o.kind == INS && o.res != 2 && o.key == (int) k && &o != x && o.e < b && (!x || x->e < o.b)) return false;
        return true;
    };
    lin::History hh = h;
    for (auto &o : hh.ops)
        if (o.kind == HAS) {
            if (o.res) mc::requireF(valid(o.key, o.res, o.b, o.e), [&] { return mc::fmt("a lookup returned %d, which is not a current value; ", o.res) + h.str(); });
            o.res = o.res != 0;
        }
    std::multiset<K> fin;
    for (auto it = s.begin(); it != s.end(); ++it) {
        auto kv = *it;
        fin.insert(kv.first);
        mc::requireF(valid(kv.first, kv.second, UINT64_MAX - 1, UINT64_MAX), [&] { return mc::fmt("key %d ends with value %d, which is not current; ", (int) kv.first, (int) kv.second) + h.str(); });
        mc::requireF(s.get(kv.first) == kv.second && s.contains(kv.first), [&] { return "a stored key is not found; " + h.str(); });
    }
    mc::requireF(s.size() == fin.size(), [&] { return mc::fmt("size() is %zu but %zu elements are stored; ", (size_t) s.size(), fin.size()) + h.str(); });
    bool ok = lin::linearizable<SetSpec>(hh, spec, [&](const SetSpec &e) { return std::multiset<K>(e.s.begin(), e.s.end()) == fin; });
    mc::requireF(ok, [&] { return "no sequential order explains this history: " + h.str(); });
    mc::state(h.hash());
    LP_Map<K, K> q(std::move(s));
    std::multiset<K> got;
    for (auto it = q.begin(); it != q.end(); ++it) got.insert((*it).first);
    mc::requireF(got == fin && q.size() == fin.size(), [&] { return "conversion to the sequential map changes the content"; });
}

template<typename F>
static void prog(mc::Choice &c, int threads, int ops, F f) {
    Prog p;
    K a = c.flag() ? 7 : 1;
    bool pre = c.flag();
    for (int i = 0; i < threads; ++i) p.t.push_back(body(c, ops, KEYS));
    c.shard();
    f(c, p, 16, a, pre ? std::vector<K>{17} : std::vector<K>{});
}

MC_SCENARIO("multimap-2x2", 2, 4, 3) { prog(c, 2, 2, multiRun); }
MC_SCENARIO("multimap-3x1", 3, 5, 3) { prog(c, 3, 1, multiRun); }
MC_SCENARIO("map-2x2", 2, 4, 3) { prog(c, 2, 2, mapRun); }
MC_SCENARIO("map-3x1", 3, 5, 3) { prog(c, 3, 1, mapRun); }

// a set of fixed size that is filled completely: lookups still end and are right
MC_SCENARIO("set-filled", 2, 4, 3) {
    Prog p;
    K a = c.flag() ? 7 : 1;
    size_t cap = c.flag() ? 4 : 2;
    std::vector<K> ks{1, 17, 9, 2, 33};
    std::vector<K> pre;
    if (cap == 4) pre = {33, 2};
    for (int i = 0; i < 2; ++i) p.t.push_back({{INS, ks[i]}, {HAS, c.of(ks)}});
    if (c.flag()) p.t.push_back({{HAS, c.of(ks)}});
    c.shard();
    setRun<false>(c, p, cap, a, pre);
}

// more threads insert than there are slots: insertions are refused, but all of them end, and so do lookups
template<typename F>
static void overflow(mc::Choice &c, F f) {
    Prog p;
    K a = c.of(std::vector<K>{1, 7, (K) -1});
    size_t cap = c.of(std::vector<size_t>{1, 2, 4});
    std::vector<K> ks{1, 9, 17, 2}, pre;
    int n = 2 + c.flag();
    for (int i = 0; i < n; ++i) p.t.push_back({{INS, c.flag() ? ks[i] : ks[0]}, {HAS, c.flag() ? ks[(i + 1) % 3] : 5}});
    if (cap == 4) pre = std::vector<K>{33, 2, 3};
    pre.resize(c.flag() && pre.size() ? pre.size() - 1 : pre.size());
    c.shard();
    f(c, p, cap, a, pre);
}
MC_SCENARIO("set-overflow", 2, 3, 3) { overflow(c, setRun<false>); }
MC_SCENARIO("map-overflow", 2, 3, 3) { overflow(c, [](mc::Choice &c, const Prog &p, size_t cap, K a, std::vector<K> pre) { pre.resize(std::min(pre.size(), cap / 2)); mapRun(c, p, cap, a, pre); }); }
MC_SCENARIO("multimap-overflow", 2, 3, 3) { overflow(c, [](mc::Choice &c, const Prog &p, size_t cap, K a, std::vector<K> pre) { pre.resize(std::min(pre.size(), cap / 2)); multiRun(c, p, cap, a, pre); }); }

// ---- merging two tables with a filter, in parallel -----------------------------------------------------
MC_SCENARIO("set-merge", 2, 3, 3) {
    std::vector<K> all{1, 9, 17, 2, 10};
    size_t ca = c.of(std::vector<int>{4, 8}), cb = c.of(std::vector<int>{4, 8});
    std::set<K> x, y, f;
    for (auto k : all) switch (c.pick(4)) { case 1: x.insert(k); break; case 2: y.insert(k); break; case 3: x.insert(k); y.insert(k); break; default:; }
    f = c.flag() ? std::set<K>{9} : std::set<K>{};
    if (x.size() >= ca || y.size() >= cb || x.size() + y.size() == 0) throw mc::Skip();
    bool seq = c.flag();               // the other operand is a sequential set
    c.shard();
    std::string d = "merge {";
    for (auto k : x) d += std::to_string(k) + " ";
    d += "} with {";
    for (auto k : y) d += std::to_string(k) + " ";
    mc::describe(d + mc::fmt("} capacities %zu %zu filter=%zu sequential operand=%d", ca, cb, f.size(), seq));
    startGen.seed(START_SEED);
    Concurrent_LP_Set<K, false> a(ca, 0, hasher(1)), b(cb, 0, hasher(7));
    LP_Set<K, false> q(cb, hasher(7));
    for (auto k : x) a.insert(k);
    for (auto k : y) { b.insert(k); q.insert(k); }
    {
        sched::Threaded pol(&c, 2);
        mtbb::ScopedPolicy sp(&pol);
        if (seq) a.unsafe_merge(std::move(q), f); else a.unsafe_merge(std::move(b), f);
    }
    std::multiset<K> want, got;
    std::set<K> u = x;
    u.insert(y.begin(), y.end());
    for (auto k : u) if (!f.count(k)) want.insert(k);
    for (auto it = a.begin(); it != a.end(); ++it) got.insert(*it);
    mc::requireF(got == want && a.size() == want.size(), [&] { return mc::fmt("the merged set holds %zu elements (size() %zu), expected %zu", got.size(), (size_t) a.size(), want.size()); });
    for (auto k : all) mc::requireF(a.contains(k) == (want.count(k) > 0), [&] { return mc::fmt("contains(%llu) is wrong after merging", (unsigned long long) k); });
    uint64_t h = sched::points();
    for (auto k : got) h = mc::mix(h, k);
    mc::state(mc::mix(h, mc::hashStr(mc::R().desc)));
}

MC_SCENARIO("multimap-merge", 2, 3, 3) {
    std::vector<K> all{1, 9, 2};
    size_t ca = 8, cb = 8;
    std::multimap<K, K> x, y;
    std::set<K> f;
    K v = 5;
    for (auto k : all) for (int n = c.pick(3); n > 0; --n) x.insert({k, ++v});
    for (auto k : all) for (int n = c.pick(3); n > 0; --n) y.insert({k, ++v});
    f = c.flag() ? std::set<K>{9} : std::set<K>{};
    if (x.size() >= ca / 2 || y.size() >= cb / 2 || x.size() + y.size() == 0) throw mc::Skip();
    c.shard();
    std::string d = "merge {";
    for (auto k : x) d += std::to_string(k.first) + " ";
    d += "} with {";
    for (auto k : y) d += std::to_string(k.first) + " ";
    mc::describe(d + mc::fmt("} filter=%zu", f.size()));
    Concurrent_LP_MultiMap<K, K> a(ca, 0, hasher(1)), b(cb, 0, hasher(7));
    for (auto &k : x) a.insert(k.first, k.second);
    for (auto &k : y) b.insert(k.first, k.second);
    {
        sched::Threaded pol(&c, 2);
        mtbb::ScopedPolicy sp(&pol);
        a.unsafe_merge(std::move(b), f);
    }
    std::multiset<std::pair<K, K>> want, got;
    for (auto &k : x) if (!f.count(k.first)) want.insert(k);
    for (auto &k : y) if (!f.count(k.first)) want.insert(k);
    for (auto it = a.begin(); it != a.end(); ++it) got.insert(*it);
    mc::requireF(got == want && a.size() == want.size(), [&] { return mc::fmt("the merged multimap holds %zu elements (size() %zu), expected %zu", got.size(), (size_t) a.size(), want.size()); });
    for (auto k : all) {
        std::multiset<std::pair<K, K>> w, g;
        for (auto &z : want) if (z.first == k) w.insert(z);
        auto r = a.get(k);
        for (auto it = r.first; it != r.second; ++it) g.insert(*it);
        mc::requireF(w == g, [&] { return mc::fmt("get(%llu) is wrong after merging", (unsigned long long) k); });
    }
    uint64_t h = sched::points();
    for (auto k : got) h = mc::mix(mc::mix(h, k.first), k.second);
    mc::state(mc::mix(h, mc::hashStr(mc::R().desc)));
}
MC_MAIN
