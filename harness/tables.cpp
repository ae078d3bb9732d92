// H01: all operation sequences up to a length on the sequential hash tables, against the standard containers.
#include "mc.hpp"
#include <deque>
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "utils/Random.h"

template<typename K>
static Hasher<K> hasher(K a) { Hasher<K> h; h.a = a; return h; }

// multipliers that make the keys collide, wrap around the end of the table, or spread
template<typename K>
static const std::vector<K> &mults() {
    static const std::vector<K> m = {1, (K) -1, (K) 0x9e3779b97f4a7c15ull};
    return m;
}

static const std::vector<int> KEYS = {1, 2, 3, 5, 9};
static const std::vector<int> ALL = {1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33};

struct Filter {
    std::set<int> s;
    template<typename T>
    size_t count(const T &k) const { return s.count((int) k); }
};
static const std::vector<std::set<int>> FILTERS = {{}, {1}, {2, 3}, {1, 2, 3, 5, 9}};
static const std::vector<std::vector<int>> OTHERS = {{}, {1}, {2, 9}, {3, 4, 8}};

// long sequences use one representative of each parameter
struct Alpha {
    bool small;
    template<typename T>
    const T &of(mc::Choice &c, const std::vector<T> &v, size_t rep) const { return small ? v[rep] : c.of(v); }
};

static std::vector<size_t> caps(bool small) {
    return small || mc::thorough() ? std::vector<size_t>{1, 2, 4} : std::vector<size_t>{1, 4};
}

// the same elements in the opposite order
template<typename T>
static void backwards(const T &t) {
    std::vector<decltype(t.begin() - t.begin())> at;
    for (auto it = t.begin(); it != t.end(); ++it) at.push_back(it - t.begin());
    auto it = t.end();
    for (size_t i = at.size(); i-- > 0;) { --it; mc::requireF(it - t.begin() == at[i], [] { return std::string("iterating backwards does not visit the elements in the opposite order"); }); }
    mc::requireF(it == t.begin(), [] { return std::string("iterating backwards does not end at the beginning"); });
}

template<typename K, bool G>
static void checkSet(const LP_Set<K, G> &s, const std::set<int> &m) {
    mc::requireF(s.size() == m.size(), [&] { return mc::fmt("size() is %zu, %zu elements expected", (size_t) s.size(), m.size()); });
    mc::requireF(s.empty() == m.empty(), [] { return std::string("empty() is wrong"); });
    std::multiset<int> got;
    for (auto it = s.begin(); it != s.end(); ++it) got.insert((int) *it);
    mc::requireF(got == std::multiset<int>(m.begin(), m.end()), [] { return std::string("iteration does not visit each element exactly once"); });
    backwards(s);
    for (int k : ALL) mc::requireF(s.contains(k) == (m.count(k) > 0) && s.count(k) == m.count(k), [&] { return mc::fmt("contains(%d) is %d", k, s.contains(k)); });
}

template<typename K, bool G>
static void setSeq(mc::Choice &c, int maxLen, bool small) {
    int len = maxLen - c.pick(small ? 1 : maxLen);    // every length; the shorter of the long ones are covered by the others
    Alpha al{small};
    typedef LP_Set<K, G> T;
    size_t cap = c.of(G ? caps(small) : small || mc::thorough() ? std::vector<size_t>{4, 8} : std::vector<size_t>{4});
    K a = c.of(mults<K>());
    std::string d = mc::fmt("%s set of %zu bytes keys, capacity %zu, multiplier %llx: ", G ? "growing" : "fixed", sizeof(K), cap, (unsigned long long) a);
    T s(cap, hasher(a));
    std::set<int> m;
    auto room = [&](const T &t, size_t items) { return G || items + 2 <= t.capacity(); };
    for (int i = 0; i < len; ++i) {
        int k = c.pick((int) KEYS.size() + 8);
        if (i == 1 || len == 1) c.shard();
        if (k < (int) KEYS.size()) {
            int key = KEYS[k];
            if (!m.count(key) && !room(s, m.size())) throw mc::Skip();
            d += mc::fmt("insert(%d) ", key);
            mc::describe(d);
            bool r = s.insert(key), w = m.insert(key).second;
            mc::requireF(r == w, [&] { return mc::fmt("insert(%d) returned %d", key, r); });
        } else switch (k - (int) KEYS.size()) {
            case 0: {
                int f = small ? 1 : 1 + c.pick(2);
                d += mc::fmt("rehash(x%d) ", f);
                mc::describe(d);
                s.rehash(s.capacity() * f);
                break;
            }
            case 1: {
                const auto &f = al.of(c, FILTERS, 2);
                d += mc::fmt("filter(%zu) ", f.size());
                mc::describe(d);
                s.filter(Filter{f});
                for (int x : f) m.erase(x);
                break;
            }
            case 2: {
                const auto &o = al.of(c, OTHERS, 2);
                size_t oc = small ? 4 : c.of(std::vector<size_t>{4, 8});
                d += mc::fmt("merge(%zu of %zu) ", o.size(), oc);
                mc::describe(d);
                T t(oc, hasher(al.of(c, mults<K>(), 0)));
                for (int x : o) t.insert(x);
                s.merge(std::move(t));
                for (int x : o) m.insert(x);
                break;
            }
            case 3: {
                const auto &o = al.of(c, OTHERS, 2);
                const auto &f = al.of(c, FILTERS, 2);
                bool cmp = c.flag();
                d += mc::fmt("merge(%zu, filter %zu, %s) ", o.size(), f.size(), cmp ? "keep" : "drop");
                mc::describe(d);
                T t(8, hasher(a));
                for (int x : o) t.insert(x);
                if (cmp) s.merge(std::move(t), Filter{f}, true); else s.merge(std::move(t), Filter{f});
                std::set<int> n;
                for (int x : m) if ((f.count(x) > 0) == cmp) n.insert(x);
                for (int x : o) if ((f.count(x) > 0) == cmp) n.insert(x);
                m = n;
                break;
            }
            case 4: {
                d += "copy ";
                mc::describe(d);
                T t(s);
                checkSet(t, m);
                T u = s.copy();
                checkSet(u, m);
                mc::requireF(t == s && s == u, [] { return std::string("a copy is not equal"); });
                // the copy is independent
                if (room(t, m.size() + 1)) { t.insert(7); checkSet(s, m); }
                s = std::move(u);
                break;
            }
            case 5: {
                d += "move ";
                mc::describe(d);
                T t(std::move(s));
                checkSet(t, m);
                s = std::move(t);
                break;
            }
            case 6: {
                d += "convert ";
                mc::describe(d);
                Concurrent_LP_Set<K, G> t(std::move(s));
                mc::requireF(t.size() == m.size(), [] { return std::string("the conversion changes the size"); });
                for (int x : ALL) mc::requireF(t.contains(x) == (m.count(x) > 0), [&] { return mc::fmt("the conversion changes contains(%d)", x); });
                T u(std::move(t));
                s = std::move(u);
                break;
            }
            default: {
                // comparison with sets that differ in one element
                d += "compare ";
                mc::describe(d);
                std::set<int> x = m, y = m;
                mc::requireF(s == x || false, [] { return std::string("not equal to the same content"); });
                x.insert(33);
                mc::requireF(!(s == x), [] { return std::string("equal to a larger set"); });
                if (!y.empty()) {
                    y.erase(y.begin());
                    mc::requireF(!(s == y), [] { return std::string("equal to a smaller set"); });
                    y.insert(17);
                    mc::requireF(!(s == y), [] { return std::string("equal to another set of the same size"); });
                }
            }
        }
        mc::describe(d);
        if (i == len - 1) checkSet(s, m);
    }
    mc::state(mc::hashStr(d));
    uint64_t h = mc::mix(s.capacity(), a);
    for (int x : m) h = mc::mix(h, x);
    mc::outcome(h);
}

MC_SCENARIO("growing set", 0, 0, 3) { setSeq<uint64_t, true>(c, 3, false); }
MC_SCENARIO("growing set, long", 0, 0, 3) { setSeq<uint64_t, true>(c, mc::thorough() ? 5 : 4, true); }
MC_SCENARIO("fixed set", 0, 0, 3) { setSeq<uint64_t, false>(c, 3, false); }
MC_SCENARIO("fixed set, long", 0, 0, 3) { setSeq<uint64_t, false>(c, mc::thorough() ? 5 : 4, true); }
MC_SCENARIO("growing set, 32 bit", 0, 0, 3) { setSeq<uint32_t, true>(c, mc::thorough() ? 5 : 4, true); }
MC_SCENARIO("growing set, 16 bit", 0, 0, 3) { setSeq<uint16_t, true>(c, mc::thorough() ? 5 : 4, true); }

MC_SCENARIO("set fill", 0, 0, 3) {
    // many insertions in every rotation of the keys, growing through several sizes
    int n = 1 + c.pick(40), step = c.of(std::vector<int>{1, 3, 7, 16, 64});
    uint64_t a = c.of(mults<uint64_t>());
    c.shard();
    mc::describe(mc::fmt("%d insertions, step %d, multiplier %llx", n, step, (unsigned long long) a));
    LP_Set<uint64_t, true> s(1, hasher(a));
    std::set<int> m;
    for (int i = 0; i < n; ++i) {
        int k = 1 + i * step % 67;
        mc::requireF(s.insert(k) == m.insert(k).second, [&] { return mc::fmt("insert(%d) is wrong", k); });
        mc::requireF(s.size() == m.size() && s.capacity() > s.size(), [] { return std::string("the table is full"); });
        for (int x = 1; x < 70; ++x) mc::requireF(s.contains(x) == (m.count(x) > 0), [&] { return mc::fmt("contains(%d) is wrong after insert(%d)", x, k); });
    }
    checkSet(s, [&] { std::set<int> t(m); return t; }());
    mc::state(mc::mix(mc::mix(n, step), a));
}

// ---------------------------------------------------------------- map
typedef uint64_t U;

template<typename M>
static void checkMap(const M &s, const std::map<int, int> &m) {
    mc::requireF(s.size() == m.size(), [&] { return mc::fmt("size() is %zu, %zu keys expected", (size_t) s.size(), m.size()); });
    mc::requireF(s.empty() == m.empty(), [] { return std::string("empty() is wrong"); });
    std::multiset<std::pair<int, int>> got;
    for (auto it = s.begin(); it != s.end(); ++it) { auto p = *it; got.insert({(int) p.first, (int) p.second}); }
    mc::requireF(got == std::multiset<std::pair<int, int>>(m.begin(), m.end()), [] { return std::string("iteration does not visit each pair exactly once"); });
    backwards(s);
    for (int k : ALL) {
        auto it = m.find(k);
        mc::requireF(s.contains(k) == (it != m.end()) && s.count(k) == m.count(k), [&] { return mc::fmt("contains(%d) is %d", k, s.contains(k)); });
        int w = it == m.end() ? 0 : it->second;
        mc::requireF((int) s.get(k) == w, [&] { return mc::fmt("get(%d) is %d, expected %d", k, (int) s.get(k), w); });
    }
}

static void mapSeq(mc::Choice &c, int maxLen, bool small) {
    int len = maxLen - c.pick(small ? 1 : maxLen);    // every length; the shorter of the long ones are covered by the others
    typedef LP_Map<U, U> T;
    Alpha al{small};
    size_t cap = c.of(caps(small));
    U a = c.of(mults<U>());
    std::string d = mc::fmt("map, capacity %zu, multiplier %llx: ", cap, (unsigned long long) a);
    T s(cap, hasher(a));
    std::map<int, int> m;
    for (int i = 0; i < len; ++i) {
        int k = c.pick((int) KEYS.size() + 5);
        if (i == 1 || len == 1) c.shard();
        if (k < (int) KEYS.size()) {
            int key = KEYS[k], val = c.flag() ? 100 + i : 0;
            d += mc::fmt("insert(%d,%d) ", key, val);
            mc::describe(d);
            bool w = !m.count(key), r = i % 2 ? s.insert(key, val) : s.insert(std::make_pair((U) key, (U) val));
            m[key] = val;
            mc::requireF(r == w, [&] { return mc::fmt("insert(%d) returned %d", key, r); });
        } else switch (k - (int) KEYS.size()) {
            case 0: {
                int f = small ? 1 : 1 + c.pick(2);
                d += mc::fmt("rehash(x%d) ", f);
                mc::describe(d);
                s.rehash(s.capacity() * f);
                break;
            }
            case 1: {
                const auto &f = al.of(c, FILTERS, 2);
                d += mc::fmt("rehash(filter %zu) ", f.size());
                mc::describe(d);
                s.rehash(s.capacity(), Filter{f});
                for (int x : f) m.erase(x);
                break;
            }
            case 2: case 3: {
                const auto &o = al.of(c, OTHERS, 2);
                std::set<int> f;
                if (k - (int) KEYS.size() == 3) f = al.of(c, FILTERS, 2);
                d += mc::fmt("merge(%zu, filter %zu) ", o.size(), f.size());
                mc::describe(d);
                T t(4, hasher(al.of(c, mults<U>(), 0)));
                for (int x : o) t.insert(x, x * 10);
                if (k - (int) KEYS.size() == 3) s.merge(std::move(t), Filter{f}); else s.merge(std::move(t));
                for (int x : o) m[x] = x * 10;
                for (int x : f) m.erase(x);
                break;
            }
            default: {
                d += "move ";
                mc::describe(d);
                T t(std::move(s));
                checkMap(t, m);
                if (c.flag()) {
                    d += "convert ";
                    mc::describe(d);
                    Concurrent_LP_Map<U, U> x(std::move(t));
                    mc::requireF(x.size() == m.size(), [] { return std::string("the conversion changes the size"); });
                    for (int q : ALL) mc::requireF((int) x.get(q) == (m.count(q) ? m[q] : 0), [&] { return mc::fmt("the conversion changes get(%d)", q); });
                    T y(std::move(x));
                    s = std::move(y);
                } else s = std::move(t);
            }
        }
        mc::describe(d);
        if (i == len - 1) checkMap(s, m);
    }
    mc::state(mc::hashStr(d));
    uint64_t h = mc::mix(s.capacity(), a);
    for (auto &x : m) h = mc::mix(mc::mix(h, x.first), x.second);
    mc::outcome(h);
}

MC_SCENARIO("map", 0, 0, 3) { mapSeq(c, 3, false); }
MC_SCENARIO("map, long", 0, 0, 3) { mapSeq(c, mc::thorough() ? 5 : 4, true); }

// ---------------------------------------------------------------- multimap
typedef std::multiset<std::pair<int, int>> MM;

template<typename M>
static void checkMulti(const M &s, const MM &m) {
    mc::requireF(s.size() == m.size(), [&] { return mc::fmt("size() is %zu, %zu pairs expected", (size_t) s.size(), m.size()); });
    mc::requireF(s.empty() == m.empty(), [] { return std::string("empty() is wrong"); });
    MM got;
    for (auto it = s.begin(); it != s.end(); ++it) { auto p = *it; got.insert({(int) p.first, (int) p.second}); }
    mc::requireF(got == m, [] { return std::string("iteration does not visit each pair exactly once"); });
    backwards(s);
    for (int k : ALL) {
        MM w, g;
        for (auto &x : m) if (x.first == k) w.insert(x);
        mc::requireF(s.contains(k) == !w.empty() && s.count(k) == !w.empty(), [&] { return mc::fmt("contains(%d) is %d", k, s.contains(k)); });
        auto r = s.get(k);
        size_t steps = 0;
        for (auto it = r.first; it != r.second; ++it) {
            mc::requireF(++steps <= m.size() + 1, [&] { return mc::fmt("the range of get(%d) does not end", k); });
            auto p = *it;
            g.insert({(int) p.first, (int) p.second});
        }
        mc::requireF(g == w, [&] { return mc::fmt("get(%d) yields %zu values, expected %zu", k, g.size(), w.size()); });
    }
}

static void multimapSeq(mc::Choice &c, int maxLen, bool small) {
    int len = maxLen - c.pick(small ? 1 : maxLen);    // every length; the shorter of the long ones are covered by the others
    typedef LP_MultiMap<U, U> T;
    Alpha al{small};
    size_t cap = c.of(caps(small));
    U a = c.of(mults<U>());
    std::string d = mc::fmt("multimap, capacity %zu, multiplier %llx: ", cap, (unsigned long long) a);
    T s(cap, hasher(a));
    MM m;
    for (int i = 0; i < len; ++i) {
        int k = c.pick((int) KEYS.size() + 5);
        if (i == 1 || len == 1) c.shard();
        if (k < (int) KEYS.size()) {
            int key = KEYS[k], val = c.flag() ? 100 + i : 0;
            d += mc::fmt("insert(%d,%d) ", key, val);
            mc::describe(d);
            bool r = i % 2 ? s.insert(key, val) : s.insert(std::make_pair((U) key, (U) val));
            m.insert({key, val});
            mc::requireF(r, [&] { return mc::fmt("insert(%d) returned false", key); });
        } else switch (k - (int) KEYS.size()) {
            case 0: {
                int f = small ? 1 : 1 + c.pick(2);
                d += mc::fmt("rehash(x%d) ", f);
                mc::describe(d);
                s.rehash(s.capacity() * f);
                break;
            }
            case 1: {
                const auto &f = al.of(c, FILTERS, 2);
                d += mc::fmt("rehash(filter %zu) ", f.size());
                mc::describe(d);
                s.rehash(s.capacity(), Filter{f});
                MM n;
                for (auto &x : m) if (!f.count(x.first)) n.insert(x);
                m = n;
                break;
            }
            case 2: case 3: {
                const auto &o = al.of(c, OTHERS, 2);
                std::set<int> f;
                if (k - (int) KEYS.size() == 3) f = al.of(c, FILTERS, 2);
                d += mc::fmt("merge(%zu, filter %zu) ", o.size(), f.size());
                mc::describe(d);
                T t(4, hasher(al.of(c, mults<U>(), 0)));
                for (int x : o) { t.insert(x, x * 10); m.insert({x, x * 10}); t.insert(x, 7); m.insert({x, 7}); }
                if (k - (int) KEYS.size() == 3) s.merge(std::move(t), Filter{f}); else s.merge(std::move(t));
                MM n;
                for (auto &x : m) if (!f.count(x.first)) n.insert(x);
                m = n;
                break;
            }
            default: {
                d += "move ";
                mc::describe(d);
                T t(std::move(s));
                checkMulti(t, m);
                if (c.flag()) {
                    d += "convert ";
                    mc::describe(d);
                    Concurrent_LP_MultiMap<U, U> x(std::move(t));
                    checkMulti(x, m);
                    T y(std::move(x));
                    s = std::move(y);
                } else s = std::move(t);
            }
        }
        mc::describe(d);
        if (i == len - 1) checkMulti(s, m);
    }
    mc::state(mc::hashStr(d));
    uint64_t h = mc::mix(s.capacity(), a);
    for (auto &x : m) h = mc::mix(mc::mix(h, x.first), x.second);
    mc::outcome(h);
}

MC_SCENARIO("multimap", 0, 0, 3) { multimapSeq(c, 3, false); }
MC_SCENARIO("multimap, long", 0, 0, 3) { multimapSeq(c, mc::thorough() ? 5 : 4, true); }

// ---------------------------------------------------------------- keys that need all their bits, and many of them
static const std::vector<U> WIDE = {1, (U) 1 + (1ull << 32), (U) 1 + (1ull << 63), ~0ull, 0xffffffffull, 1ull << 16, 1ull << 32};
template<typename T, typename M, typename Ins, typename Model>
static void wide(mc::Choice &c, const char *what, Ins ins, Model add) {
    U a = c.of(mults<U>());
    size_t cap = c.of(std::vector<size_t>{1, 16});
    T s(cap, hasher(a)), o(cap, hasher(a));
    M m;
    std::string d = mc::fmt("%s, capacity %zu, multiplier %llx, keys", what, cap, (unsigned long long) a);
    int n = 1 + c.pick(4);
    for (int i = 0; i < n; ++i) {
        int k = c.pick(WIDE.size() + 2);
        if (k < (int) WIDE.size()) { d += mc::fmt(" %llx", (unsigned long long) WIDE[k]); mc::describe(d); ins(s, WIDE[k], (U) (i + 1) << 33, m); continue; }
        T t(4, hasher(a));
        M none;
        for (U x : {1ull + (1ull << 33), ~1ull, 1ull << 16}) { ins(t, x, x << 1, none); add(m, x, x << 1); }
        if (k == (int) WIDE.size()) { d += " merge"; mc::describe(d); s.merge(std::move(t)); }
        else { d += " merge-filtered"; mc::describe(d); std::set<U> f{1, 1ull << 16}; s.merge(std::move(t), f); for (U x : f) m.erase(x); }
    }
    c.shard();
    std::vector<U> probe = WIDE;
    for (U x : WIDE) for (int b = 0; b < 64; ++b) if ((x ^ (1ull << b)) != 0) probe.push_back(x ^ (1ull << b));
    mc::requireF(s.size() == m.size(), [&] { return mc::fmt("size() is %zu instead of %zu", (size_t) s.size(), m.size()); });
    for (U x : probe) mc::requireF(s.contains(x) == (m.count(x) > 0), [&] { return mc::fmt("contains(%llx) is %d", (unsigned long long) x, s.contains(x)); });
    if constexpr (!std::is_same<M, std::set<U>>::value) {
        M got;
        for (auto it = s.begin(); it != s.end(); ++it) { auto p = *it; got.insert({p.first, p.second}); }
        mc::requireF(got == m, [] { return std::string("iteration does not yield the content"); });
    } else {
        M got;
        for (auto it = s.begin(); it != s.end(); ++it) got.insert(*it);
        mc::requireF(got == m, [] { return std::string("iteration does not yield the content"); });
    }
    mc::state(mc::hashStr(d));
}
typedef std::multimap<U, U> WM;
static bool sameMulti(const WM &a, const WM &b) {
    return std::multiset<std::pair<U, U>>(a.begin(), a.end()) == std::multiset<std::pair<U, U>>(b.begin(), b.end());
}
static void addSet(std::set<U> &m, U k, U) { m.insert(k); }
static void addMap(std::map<U, U> &m, U k, U v) { m[k] = v; }
static void insSet(LP_Set<U, true> &s, U k, U, std::set<U> &m) { bool w = m.insert(k).second; mc::requireF(s.insert(k) == w, [&] { return mc::fmt("insert(%llx) is wrong", (unsigned long long) k); }); }
static void insMap(LP_Map<U, U> &s, U k, U v, std::map<U, U> &m) { bool w = !m.count(k); m[k] = v; mc::requireF(s.insert(k, v) == w && s.get(k) == v, [&] { return mc::fmt("insert(%llx) is wrong", (unsigned long long) k); }); }
MC_SCENARIO("set, wide keys", 0, 0, 3) { wide<LP_Set<U, true>, std::set<U>>(c, "set", insSet, addSet); }
MC_SCENARIO("map, wide keys", 0, 0, 3) { wide<LP_Map<U, U>, std::map<U, U>>(c, "map", insMap, addMap); }
MC_SCENARIO("multimap, wide keys", 0, 0, 3) {
    U a = c.of(mults<U>());
    size_t cap = c.of(std::vector<size_t>{1, 16});
    LP_MultiMap<U, U> s(cap, hasher(a));
    WM m;
    std::string d = mc::fmt("multimap, capacity %zu, multiplier %llx, keys", cap, (unsigned long long) a);
    int n = 1 + c.pick(4);
    for (int i = 0; i < n; ++i) {
        U k = c.of(WIDE), v = (U) (i + 1) << (c.flag() ? 33 : 0);
        d += mc::fmt(" %llx:%llx", (unsigned long long) k, (unsigned long long) v);
        s.insert(k, v);
        m.insert({k, v});
    }
    c.shard();
    mc::describe(d);
    WM got;
    for (auto it = s.begin(); it != s.end(); ++it) { auto p = *it; got.insert({p.first, p.second}); }
    mc::requireF(sameMulti(got, m), [] { return std::string("iteration does not yield the content"); });
    for (U x : WIDE) for (int b = -1; b < 64; ++b) {
        U k = b < 0 ? x : x ^ (1ull << b);
        if (!k) continue;
        WM g, w;
        auto r = s.get(k);
        for (auto it = r.first; it != r.second; ++it) { auto p = *it; g.insert({p.first, p.second}); }
        auto e = m.equal_range(k);
        w.insert(e.first, e.second);
        mc::requireF(sameMulti(g, w) && s.contains(k) == !w.empty(), [&] { return mc::fmt("get(%llx) yields %zu values instead of %zu", (unsigned long long) k, g.size(), w.size()); });
    }
    mc::state(mc::hashStr(d));
}

static U manyKey(int kind, size_t i, uint64_t &s) {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    switch (kind) {
        case 0: return i + 1;
        case 1: return i % 700 + 1;
        case 2: return ((U) (i + 1) << 40) + i;
        case 3: return s | 1;
        default: return ~(U) 0 - i;
    }
}
// tables as large as those of real triangulations: filled, merged with another (parts dropped), copied, iterated in parts
MC_SCENARIO("many", 0, 0, 3) {
    int type = c.pick(3), kind = c.pick(5), other = c.pick(5);
    size_t cap = c.of(std::vector<size_t>{1, 1024}), n = c.of(std::vector<size_t>{127, 128, 1000, 5000}), n2 = c.of(std::vector<size_t>{0, 300, 4000});
    U a = c.of(std::vector<U>{1, 0x9e3779b97f4a7c15ull});
    bool filtered = c.flag();
    c.shard();
    mc::describe(mc::fmt("type %d, %zu keys of kind %d, capacity %zu, multiplier %llx, merged with %zu of kind %d%s", type, n, kind, cap, (unsigned long long) a, n2, other, filtered ? ", filtered" : ""));
    uint64_t s = 88172645463325252ull;
    std::multiset<std::pair<U, U>> want, got;
    std::map<U, U> m;
    std::set<U> filter;
    auto model = [&](U k, U v) { if (type == 2) want.insert({k, v}); m[k] = type == 0 ? 0 : v; };
    auto fill = [&](auto &t, size_t n, int kind, U base) {
        for (size_t i = 0; i < n; ++i) {
            U k = manyKey(kind, i, s), v = base + i;
            if constexpr (std::is_same<std::decay_t<decltype(t)>, LP_Set<U, true>>::value) t.insert(k); else t.insert(k, v);
            model(k, v);
            if (filtered && i % 3 == 0) filter.insert(k);
        }
    };
    auto done = [&](auto &t, auto collect) {
        for (U k : filter) { m.erase(k); for (auto it = want.lower_bound({k, 0}); it != want.end() && it->first == k;) it = want.erase(it); }
        if (type != 2) { want.clear(); want.insert(m.begin(), m.end()); }
        mc::requireF(t.size() == want.size(), [&] { return mc::fmt("size() is %zu instead of %zu", (size_t) t.size(), want.size()); });
        for (auto it = t.begin(); it != t.end(); ++it) got.insert(collect(*it));
        mc::requireF(got == want, [] { return std::string("iteration does not yield the content"); });
        got.clear();
        auto r = t.range();
        std::deque<decltype(r)> parts{r};
        for (size_t i = 0; i < parts.size(); ++i) while (parts[i].is_divisible()) parts.emplace_back(parts[i], tbb::split());
        for (auto &p : parts) for (auto it = p.begin(); it != p.end(); ++it) got.insert(collect(*it));
        mc::requireF(got == want, [&] { return mc::fmt("the %zu parts of the range do not yield the content", parts.size()); });
        for (auto &x : m) mc::requireF(t.contains(x.first), [&] { return mc::fmt("%llx is not found", (unsigned long long) x.first); });
        for (U k : filter) mc::requireF(!t.contains(k), [&] { return mc::fmt("%llx has been dropped but is found", (unsigned long long) k); });
    };
    auto merge = [&](auto &t, auto &o) { if (filtered) t.merge(std::move(o), filter); else t.merge(std::move(o)); };
    if (type == 0) {
        LP_Set<U, true> t(cap, hasher(a)), o(8, hasher(a));
        fill(t, n, kind, 1); fill(o, n2, other, 100000); merge(t, o);
        LP_Set<U, true> x = t.copy();
        done(x, [](U k) { return std::make_pair(k, (U) 0); });
        mc::requireF(x == t, [] { return std::string("the copy differs"); });
    } else if (type == 1) {
        LP_Map<U, U> t(cap, hasher(a)), o(8, hasher(a));
        fill(t, n, kind, 1); fill(o, n2, other, 100000); merge(t, o);
        done(t, [](auto p) { return std::make_pair((U) p.first, (U) p.second); });
        for (auto &x : m) mc::requireF(t.get(x.first) == x.second, [&] { return mc::fmt("get(%llx) is wrong", (unsigned long long) x.first); });
    } else {
        LP_MultiMap<U, U> t(cap, hasher(a)), o(8, hasher(a));
        fill(t, n, kind, 1); fill(o, n2, other, 100000); merge(t, o);
        done(t, [](auto p) { return std::make_pair((U) p.first, (U) p.second); });
        for (auto &x : m) {
            size_t k = 0;
            auto r = t.get(x.first);
            for (auto it = r.first; it != r.second; ++it) { auto p = *it; ++k; mc::requireF(p.first == x.first && want.count({p.first, p.second}), [] { return std::string("get() yields a foreign pair"); }); }
            size_t w = std::distance(want.lower_bound({x.first, 0}), want.upper_bound({x.first, ~(U) 0}));
            mc::requireF(k == w, [&] { return mc::fmt("get(%llx) yields %zu values instead of %zu", (unsigned long long) x.first, k, w); });
        }
    }
    mc::state(mc::mix(mc::mix(mc::mix(mc::mix(mc::mix(mc::mix(type, kind), other), cap), n), n2), a + filtered));
    mc::transition(n + n2);
}

MC_MAIN
