// H05: id-addressed block storage: operation sequences, block layouts, hints and offsets against plain containers.
#include "mc.hpp"
#include "Geometry.h"
#include "datastructures/BlockedArray.hxx"
#include "datastructures/BlockedArray2.hxx"
#include "datastructures/VectorAdapter.hxx"
#include "datastructures/IndexedVector.hxx"
#include "reseed.hpp"

static std::vector<std::string> dummy;

// ---- BlockedArray ------------------------------------------------------------------------------------
template<typename A, size_t BS>
static void blocked(mc::Choice &c, const char *name, int len) {
    size_t cap = c.pick(3 * BS + 2);
    std::string d = mc::fmt("%s, capacity %zu: ", name, cap);
    bool def = cap == BS && c.flag();
    std::unique_ptr<A> a(def ? new A() : new A(cap));
    std::map<size_t, int> m;                         // what was stored
    int v = 1;
    auto check = [&]() {
        const A &k = *a;
        for (auto &x : m) mc::requireF((*a)[x.first] == x.second && a->at(x.first) == x.second && k[x.first] == x.second && k.at(x.first) == x.second,
                                       [&] { return mc::fmt("element %zu is not what was stored", x.first); });
        for (size_t i = 0; i < cap + 3 * BS; ++i) {
            // beyond the reserved elements: storage or an exception, nothing else
            bool thrown = false, thrownC = false;
            try { int &r = a->at(i); int old = r; r = 77; mc::requireF((*a)[i] == 77, [&] { return mc::fmt("at(%zu) and [%zu] differ", i, i); }); r = old; } catch (std::out_of_range &) { thrown = true; }
            try { volatile int x = k.at(i); (void) x; } catch (std::out_of_range &) { thrownC = true; }
            mc::requireF(thrown == thrownC, [&] { return mc::fmt("at(%zu) throws only if constant or only if not", i); });
            mc::requireF(!(thrown && i < cap), [&] { return mc::fmt("at(%zu) throws although %zu elements are reserved", i, cap); });
        }
        for (size_t i : {(size_t) 1 << 20, ~(size_t) 0, ~(size_t) 0 - BS}) {
            bool t = false;
            try { (void) a->at(i); } catch (std::out_of_range &) { t = true; }
            mc::requireF(t, [&] { return mc::fmt("at(%zu) does not throw", i); });
        }
    };
    for (int i = 0; i < len; ++i) {
        int op = c.pick(4);
        if (op == 0) {
            size_t n = c.pick(4 * BS + 2);
            d += mc::fmt("reserve(%zu) ", n);
            a->reserve(n);
            cap = std::max(cap, n);
        } else if (op == 1) {
            d += "fill ";
            for (size_t j = 0; j < cap; ++j) { m[j] = ++v; if (j % 2) (*a)[j] = v; else a->at(j) = v; }
        } else if (op == 2) {
            if (!cap) throw mc::Skip();
            size_t j = c.pick(std::min(cap, 2 * BS));
            d += mc::fmt("store(%zu) ", j);
            m[j] = ++v;
            (*a)[j] = v;
        } else {
            d += "move ";
            a.reset(new A(std::move(*std::unique_ptr<A>(std::move(a)))));
        }
        if (i == 0) c.shard();
        mc::describe(d);
        check();
        mc::transition();
    }
    uint64_t h = mc::mix(cap, mc::hashStr(name));
    for (auto &x : m) h = mc::mix(mc::mix(h, x.first), x.second);
    mc::state(h);
}

MC_SCENARIO("BlockedArray", 0, 0, 3) { blocked<BlockedArray<int, 4>, 4>(c, "BlockedArray of 4", mc::thorough() ? 3 : 2); }
MC_SCENARIO("BlockedArray of 3", 0, 0, 3) { blocked<BlockedArray<int, 3>, 3>(c, "BlockedArray of 3", mc::thorough() ? 3 : 2); }
MC_SCENARIO("Concurrent_BlockedArray", 0, 0, 3) { blocked<Concurrent_BlockedArray<int, 4>, 4>(c, "Concurrent_BlockedArray of 4", mc::thorough() ? 3 : 2); }

// ---- BlockedArray2 -----------------------------------------------------------------------------------
typedef BlockedArray2<int, size_t> BA2;
typedef std::pair<size_t, size_t> Iv;
// disjoint blocks: single elements, neighbours without a gap, gaps of one and more
static const std::vector<Iv> BLOCKS = {{3, 4}, {4, 7}, {8, 10}, {13, 14}, {14, 18}, {40, 43}};

template<typename A>
static std::string walk(A &a, const std::map<size_t, int> &m) {
    std::vector<int> want, got;
    for (auto &x : m) want.push_back(x.second);
    for (auto it = a.begin(); it != a.end(); ++it) { got.push_back(*it); if (got.size() > want.size()) break; }
    if (got != want) return mc::fmt("iteration visits %zu elements, not the %zu stored ones in order", got.size(), want.size());
    auto it = a.end();
    for (size_t i = want.size(); i-- > 0;) { --it; if (*it != want[i]) return "backward iteration is wrong"; }
    if (it != a.begin()) return "backward iteration does not arrive at the beginning";
    // order of the iterators
    auto p = a.begin();
    for (auto q = a.begin(); q != a.end(); q++) {
        if (p != q) return "iterators to the same element differ";
        if (!(q < a.end()) || !(q <= a.end()) || q > a.end() || q >= a.end() || !(a.begin() <= q)) return "the order of the iterators is wrong";
        p++;
    }
    return "";
}

static void checkBA2(BA2 &a, const std::map<size_t, int> &m, size_t blocks) {
    size_t lo = m.begin()->first, up = m.rbegin()->first + 1;
    const BA2 &k = a;
    mc::requireF(a.lowerBound() == lo && a.upperBound() == up, [&] { return mc::fmt("bounds are [%zu,%zu)", a.lowerBound(), a.upperBound()); });
    mc::requireF(a.exact_size() == m.size(), [&] { return mc::fmt("exact_size() is %zu, expected %zu", a.exact_size(), m.size()); });
    auto s = walk(a, m);
    if (s.empty()) s = walk(k, m);
    mc::requireF(s.empty(), [&] { return s; });
    for (size_t i = 0; i < 50; ++i) {
        auto it = m.find(i);
        bool in = it != m.end();
        for (uint h = 0; h < blocks; ++h) {
            uint x = h;
            mc::requireF(a.contains(i, x) == in, [&] { return mc::fmt("contains(%zu) with hint %u is %d", i, h, !in); });
            mc::requireF(x < blocks && (!in || (a.at(i, x) == it->second)), [&] { return mc::fmt("contains(%zu) with hint %u leaves a bad hint", i, h); });
            if (!in) continue;
            x = h;
            mc::requireF(a.at(i, x) == it->second, [&] { return mc::fmt("at(%zu) with hint %u is wrong", i, h); });
            x = h;
            mc::requireF(&k.at(i, x) == &a.at(i, x), [&] { return mc::fmt("at(%zu) with hint %u is wrong", i, h); });
        }
        mc::requireF(a.unsafe_contains(i) == in, [&] { return mc::fmt("unsafe_contains(%zu) is %d", i, !in); });
        if (in) mc::requireF(a.unsafe_at(i) == it->second && k.unsafe_at(i) == it->second, [&] { return mc::fmt("unsafe_at(%zu) is wrong", i); });
    }
    BlockedArray2Handle<BA2> ha(a), hb(a);
    for (size_t i = 50; i-- > 0;) mc::requireF(hb.contains(i) == (m.count(i) > 0), [&] { return mc::fmt("handle: contains(%zu) is wrong", i); });
    for (auto &x : m) mc::requireF(ha[x.first] == x.second && ha.at(x.first) == x.second, [&] { return mc::fmt("handle: element %zu is wrong", x.first); });
    // stride through the blocks with one handle
    BlockedArray2Handle<const BA2> hc(k);
    for (size_t s = 1; s < 41; s += 6)
        for (size_t i = 0; i < 50; ++i) {
            size_t j = i * s % 50;
            auto it = m.find(j);
            if (it != m.end()) mc::requireF(hc[j] == it->second, [&] { return mc::fmt("handle: element %zu is wrong", j); });
            else mc::requireF(!hc.contains(j), [&] { return mc::fmt("handle: contains(%zu) is wrong", j); });
        }
    // unknown ids beyond all blocks are refused
    bool t = false;
    try { uint h = 0; (void) a.at(1000, h); } catch (std::out_of_range &) { t = true; }
    mc::requireF(t, [] { return std::string("an id beyond all blocks is not refused"); });
}

static void ba2(mc::Choice &c, int len) {
    std::vector<bool> used(BLOCKS.size());
    std::map<size_t, int> m;
    int v = 0;
    std::string d;
    size_t blocks = 0;
    auto take = [&](int &b) {
        b = c.pick(BLOCKS.size());
        if (used[b]) throw mc::Skip();
        used[b] = true;
        ++blocks;
        d += mc::fmt("[%zu,%zu) ", BLOCKS[b].first, BLOCKS[b].second);
    };
    auto fill = [&](int b, auto store) {
        for (size_t i = BLOCKS[b].first; i < BLOCKS[b].second; ++i) { m[i] = ++v; store(i, v); }
    };
    int b;
    take(b);
    std::unique_ptr<BA2> a(new BA2(BLOCKS[b].first, BLOCKS[b].second));
    fill(b, [&](size_t i, int x) { a->unsafe_at(i) = x; });
    for (int i = 0; i < len; ++i) {
        switch (c.pick(5)) {
            case 0: {
                d += "add";
                take(b);
                auto &blk = a->addBlock(BLOCKS[b].first, BLOCKS[b].second);
                mc::requireF(blk.min() == BLOCKS[b].first && blk.max() == BLOCKS[b].second && blk.size() == blk.max() - blk.min(), [&] { return std::string("the new block has other bounds"); });
                mc::requireF(blk.contains(blk.min()) && blk.contains(blk.max() - 1) && !blk.contains(blk.max()) && !blk.contains(blk.min() - 1), [&] { return std::string("the new block contains other ids"); });
                fill(b, [&](size_t j, int x) { if (j % 2) blk[j] = x; else blk.at(j) = x; });
                break;
            }
            case 1: {
                d += "merge";
                take(b);
                BA2 o(BLOCKS[b].first, BLOCKS[b].second);
                fill(b, [&](size_t j, int x) { o.unsafe_at(j) = x; });
                if (c.flag()) {
                    take(b);
                    o.addBlock(BLOCKS[b].first, BLOCKS[b].second);
                    fill(b, [&](size_t j, int x) { o.unsafe_at(j) = x; });
                }
                a->merge(std::move(o));
                break;
            }
            case 2: {
                d += "move ";
                std::unique_ptr<BA2> n(new BA2(std::move(*a)));
                a = std::move(n);
                break;
            }
            case 3: {
                d += "assign ";
                BA2 o(BLOCKS[0].first, BLOCKS[0].second);
                o.addBlock(90, 95);
                o.unsafe_at(93) = 4;                  // leaves a hint to the second block
                o = std::move(*a);
                checkBA2(o, m, blocks);
                *a = std::move(o);
                break;
            }
            default: {
                d += "store ";
                auto it = m.begin();
                std::advance(it, c.pick(m.size()));
                it->second = ++v;
                a->unsafe_at(it->first) = v;
            }
        }
        if (i == 0) c.shard();
        mc::describe(d);
        checkBA2(*a, m, blocks);
        mc::transition();
    }
    uint64_t h = 1;
    for (auto &x : m) h = mc::mix(mc::mix(h, x.first), x.second);
    mc::state(h);
}

MC_SCENARIO("BlockedArray2", 0, 0, 3) { ba2(c, mc::thorough() ? 4 : 3); }

// ---- simplices ---------------------------------------------------------------------------------------
typedef dSimplices<2, double> DS;
typedef dSimplex<2, double> S;

static void checkDS(DS &a, const std::map<tIdType, bool> &m, const std::vector<tIdType> &hull, size_t blocks) {
    const DS &k = a;
    std::vector<tIdType> want, got, gotC, back;
    for (auto &x : m) if (x.second) want.push_back(x.first);
    for (auto it = a.begin(); it != a.end(); ++it) { got.push_back((*it).id); if (got.size() > want.size()) break; }
    for (auto it = k.begin(); it != k.end(); it++) { gotC.push_back(it->id); if (gotC.size() > want.size()) break; }
    mc::requireF(got == want && gotC == want, [&] { return mc::fmt("iteration visits %zu simplices, not the %zu valid ones in order", got.size(), want.size()); });
    auto it = a.end();
    for (size_t i = want.size(); i-- > 0;) { --it; mc::requireF((*it).id == want[i], [&] { return std::string("backward iteration is wrong"); }); }
    for (tIdType i = 0; i < 50; ++i) {
        bool in = m.count(i) > 0, valid = in && m.at(i);
        for (uint h = 0; h < blocks; ++h) {
            uint x = h, y = h, z = h;
            S s;
            s.id = i;
            mc::requireF(k.contains(i, x) == valid && k.contains(s, y) == valid && k.inRange(i, z) == in, [&] { return mc::fmt("simplex %llu is %s but contains() or inRange() says otherwise", (unsigned long long) i, valid ? "valid" : in ? "invalid" : "unknown"); });
        }
        mc::requireF(k.unsafe_contains(i) == valid && k.unsafe_inRange(i) == in, [&] { return mc::fmt("simplex %llu: unsafe_contains() or unsafe_inRange() is wrong", (unsigned long long) i); });
        if (in) mc::requireF(k.unsafe_at(i).vertices[0] == 1000 + i, [&] { return mc::fmt("simplex %llu has the vertices of another one", (unsigned long long) i); });
    }
    mc::requireF(std::vector<tIdType>(a.convexHull.begin(), a.convexHull.end()) == hull, [&] { return std::string("the list of hull simplices is wrong"); });
}

static void simplices(mc::Choice &c, int len) {
    std::vector<bool> used(BLOCKS.size());
    std::map<tIdType, bool> m;
    std::vector<tIdType> hull;
    std::string d;
    size_t blocks = 0;
    auto make = [&](std::vector<tIdType> &hl) {
        int b = c.pick(BLOCKS.size());
        if (used[b]) throw mc::Skip();
        used[b] = true;
        ++blocks;
        int kind = c.pick(4);                          // all, none, odd, even valid
        d += mc::fmt("[%zu,%zu)/%d ", BLOCKS[b].first, BLOCKS[b].second, kind);
        DS s(BLOCKS[b].first, BLOCKS[b].second, 4);
        for (tIdType i = BLOCKS[b].first; i < BLOCKS[b].second; ++i) {
            bool valid = kind == 0 || (kind == 2 && i % 2) || (kind == 3 && i % 2 == 0);
            uint h = 0;
            s.at(i, h).id = valid ? i : S::cINF;
            s.at(i, h).vertices[0] = 1000 + i;
            m[i] = valid;
            if (valid && i % 3 == 0) { s.convexHull.push_back(i); hl.push_back(i); }
        }
        s.mark = b;
        return s;
    };
    DS a = make(hull);
    uint mark = a.mark;
    for (int i = 0; i < len; ++i) {
        switch (c.pick(4)) {
            case 0: case 1: {
                bool hullToo = c.flag();
                d += hullToo ? "merge " : "merge without hull ";
                std::vector<tIdType> hl;
                DS b = make(hl);
                mark = std::max<uint>(mark, b.mark);
                a.merge(std::move(b), hullToo);
                if (hullToo) hull.insert(hull.end(), hl.begin(), hl.end());
                break;
            }
            case 2: {
                int kind = c.pick(4);
                std::vector<tIdType> f;
                for (auto &x : m) if (x.second && (kind == 0 || (kind == 1 && x.first % 3 == 0) || (kind == 2 && x.first % 2 == 0))) f.push_back(x.first);
                d += mc::fmt("filter(%zu) ", f.size());
                if (c.flag()) {
                    Simplex_Ids ids(f.size() + 1);
                    for (auto x : f) ids.insert(x);
                    a.filter(ids);
                } else {
                    Concurrent_Growing_Simplex_Ids ids(1);
                    { auto h = ids.handle(); for (auto x : f) h.insert(x); }
                    a.filter(ids.handle());
                }
                for (auto x : f) m[x] = false;
                std::vector<tIdType> n;
                for (auto x : hull) if (std::find(f.begin(), f.end(), x) == f.end()) n.push_back(x);
                hull = n;
                break;
            }
            default: {
                d += "move ";
                DS b(std::move(a));
                DS e;
                e = std::move(b);
                a = std::move(e);
            }
        }
        if (i == 0) c.shard();
        mc::describe(d);
        checkDS(a, m, hull, blocks);
        mc::requireF(a.mark == mark, [&] { return std::string("the mark is wrong"); });
        mc::transition();
    }
    uint64_t h = 2;
    for (auto &x : m) h = mc::mix(mc::mix(h, x.first), x.second);
    mc::state(h);
}

MC_SCENARIO("simplices", 0, 0, 3) { simplices(c, mc::thorough() ? 3 : 2); }

// ---- vectors addressed by id -------------------------------------------------------------------------
struct El {
    int x;
    El(int x_ = 0) : x(x_) {}
    static const tIdType cINF = ~tIdType(0) ^ 3;
    static const tIdType nINF = 4;
    static bool isFinite(tIdType i) { return !((i & cINF) == cINF); }
    static tIdType infIndex(tIdType i) { return ~cINF & i; }
};
const tIdType El::cINF, El::nINF;

static void adapter2(mc::Choice &c, int len) {
    typedef VectorAdapter2<El> V;
    size_t off = c.of(std::vector<size_t>{0, 1, 5});
    V a(off);
    std::vector<int> m;
    std::array<int, 4> inf{};
    for (tIdType i = 0; i < 4; ++i) a[El::cINF + i] = El(0);
    int v = 0;
    std::string d = mc::fmt("VectorAdapter2, offset %zu: ", off);
    for (int i = 0; i < len; ++i) {
        switch (c.pick(8)) {
            case 0: d += "emplace_back "; a.emplace_back(++v); m.push_back(v); break;
            case 1: { size_t n = c.pick(4); d += mc::fmt("resize(%zu) ", n); a.resize(n); m.resize(n); break; }
            case 2: { size_t n = off + c.pick(5); d += mc::fmt("reserveUpToIdx(%zu) ", n); a.reserveUpToIdx(n); if (m.size() < n - off) m.resize(n - off); break; }
            case 3: { off = c.of(std::vector<size_t>{0, 2, 7}); d += mc::fmt("offset(%zu) ", off); a.offset(off); break; }
            case 4: { int k = c.pick(4); d += mc::fmt("store(inf %d) ", k); inf[k] = ++v; if (k % 2) a[El::cINF + k] = El(v); else a.at(El::cINF + k) = El(v); break; }
            case 5: { if (m.empty()) throw mc::Skip(); size_t k = c.pick(m.size()); d += mc::fmt("store(%zu) ", k); m[k] = ++v; if (k % 2) a[off + k] = El(v); else a.at(off + k) = El(v); break; }
            case 6: { bool front = c.flag(); d += front ? "insert front " : "insert back "; std::vector<El> n{El(++v), El(++v)}; a.insert(front ? a.begin() : a.end(), n.begin(), n.end()); m.insert(front ? m.begin() : m.end(), {v - 1, v}); break; }
            default: { d += "copy "; V b(a); b.emplace_back(5); a = std::move(b); m.push_back(5); }
        }
        if (i == 0) c.shard();
        mc::describe(d);
        mc::transition();
        const V &k = a;
        mc::requireF(a.finite_size() == m.size() && a.size() == m.size() + 4 && a.offset() == off, [&] { return mc::fmt("finite_size() %zu, size() %zu, offset() %zu", (size_t) a.finite_size(), (size_t) a.size(), a.offset()); });
        for (size_t j = 0; j < 20; ++j) mc::requireF(a.contains(j) == (j >= off && j < off + m.size()), [&] { return mc::fmt("contains(%zu) is %d", j, a.contains(j)); });
        for (tIdType j = El::cINF - 3; j < El::cINF; ++j) mc::requireF(!a.contains(j), [&] { return mc::fmt("contains(%llu) although that is no auxiliary id", (unsigned long long) j); });
        for (tIdType j = 0; j < 4; ++j) mc::requireF(a.contains(El::cINF + j) && a[El::cINF + j].x == inf[j] && k.at(El::cINF + j).x == inf[j] && k[El::cINF + j].x == inf[j], [&] { return mc::fmt("auxiliary element %llu is wrong", (unsigned long long) j); });
        for (size_t j = 0; j < m.size(); ++j) mc::requireF(a[off + j].x == m[j] && a.at(off + j).x == m[j] && k[off + j].x == m[j] && k.at(off + j).x == m[j], [&] { return mc::fmt("element %zu is wrong", off + j); });
        std::vector<int> it, itc, rg;
        for (auto &x : a) it.push_back(x.x);
        for (auto &x : k) itc.push_back(x.x);
        auto r = k.range();
        for (auto j = r.begin(); j != r.end(); ++j) rg.push_back(k[j].x);
        mc::requireF(it == m && itc == m && rg == m, [&] { return std::string("iteration does not visit the elements in order"); });
        std::vector<size_t> ids;
        for (size_t j = m.size(); j-- > 0;) ids.push_back(off + j);
        ids.push_back(El::cINF + 2);
        auto f = k.filter<std::vector<El>>(ids);
        mc::requireF(f.size() == ids.size(), [&] { return std::string("filter() returns another number of elements"); });
        for (size_t j = 0; j < f.size(); ++j) mc::requireF(f[j].x == k[ids[j]].x, [&] { return std::string("filter() returns other elements"); });
    }
    uint64_t h = off;
    for (int x : m) h = mc::mix(h, x);
    for (int x : inf) h = mc::mix(h, x);
    mc::state(h);
}

// the older adapter keeps the auxiliary elements at the end of the vector
static void adapter(mc::Choice &c) {
    typedef VectorAdapter<El> V;
    size_t off = c.of(std::vector<size_t>{0, 1, 5}), n = c.pick(5);
    int how = c.pick(3);
    c.shard();
    V a(how == 0 ? off : 0);
    if (how) a.offset(off);
    if (how == 2) { a.reserveEntries(n + 4); a.reserveEntries(1); } else for (size_t i = 0; i < n + 4; ++i) a.emplace_back(0);
    mc::describe(mc::fmt("VectorAdapter, offset %zu, %zu elements, built in way %d", off, n, how));
    for (size_t i = 0; i < n; ++i) a[off + i] = El(10 + i);
    for (tIdType i = 0; i < 4; ++i) a.at(El::cINF + i) = El(100 + i);
    const V &k = a;
    mc::requireF(a.size() == n + 4 && a.finite_size() == n && a.offset() == off, [&] { return std::string("a size is wrong"); });
    for (size_t i = 0; i < n; ++i) mc::requireF(k[off + i].x == (int) (10 + i) && k.at(off + i).x == (int) (10 + i), [&] { return mc::fmt("element %zu is wrong", off + i); });
    for (tIdType i = 0; i < 4; ++i) mc::requireF(k[El::cINF + i].x == (int) (100 + i) && a.contains(El::cINF + i), [&] { return mc::fmt("auxiliary element %llu is wrong", (unsigned long long) i); });
    for (size_t j = 0; j < 20; ++j) mc::requireF(a.contains(j) == (j >= off && j < off + n), [&] { return mc::fmt("contains(%zu) is %d", j, a.contains(j)); });
    size_t cnt = 0;
    auto r = k.range();
    for (auto j = r.begin(); j != r.end(); ++j) mc::requireF(k[j].x == (int) (10 + cnt++), [&] { return std::string("the range is wrong"); });
    mc::requireF(cnt == n, [&] { return std::string("the range has another size"); });
    std::vector<size_t> ids{El::cINF + 1};
    if (n) ids.push_back(off + n - 1);
    auto f = k.filter<std::vector<El>>(ids);
    mc::requireF(f.size() == ids.size() && f[0].x == 101 && (!n || f[1].x == (int) (9 + n)), [&] { return std::string("filter() returns other elements"); });
    mc::state(mc::mix(off * 10 + n, how));
}

static void indexed(mc::Choice &c) {
    IndexedVector<int> a;
    size_t res = c.pick(10), n = c.pick(6), g = c.pick(8);
    c.shard();
    mc::describe(mc::fmt("IndexedVector, reserve %zu, %zu elements, grow %zu", res, n, g));
    a.reserve(res);
    std::vector<int> m;
    for (size_t i = 0; i < n; ++i) { m.push_back(5 + i); }
    if (n > 2) { a.insert(m[0]); a.insert(m.begin() + 1, m.end()); } else for (int x : m) a.insert(x);
    a.grow(g);
    m.resize(std::max(m.size(), g));
    const auto &k = a;
    mc::requireF(a.size() == m.size(), [&] { return mc::fmt("size() is %zu", (size_t) a.size()); });
    for (size_t i = 0; i < m.size(); ++i) mc::requireF(a[i] == m[i] && a.at(i) == m[i] && k[i] == m[i] && k.at(i) == m[i], [&] { return mc::fmt("element %zu is wrong", i); });
    mc::requireF(std::vector<int>(a.begin(), a.end()) == m && std::vector<int>(k.begin(), k.end()) == m, [&] { return std::string("iteration is wrong"); });
    std::vector<size_t> ids;
    for (size_t i = m.size(); i-- > 0;) ids.push_back(i);
    std::vector<int> want(m.rbegin(), m.rend());
    auto p = k.project(ids);
    mc::requireF(std::vector<int>(p.begin(), p.end()) == want, [&] { return std::string("project() returns other elements"); });
    mc::state(mc::mix(mc::mix(res, n), g));
}

MC_SCENARIO("VectorAdapter2", 0, 0, 3) { adapter2(c, mc::thorough() ? 4 : 3); }
MC_SCENARIO("VectorAdapter", 0, 0, 3) { adapter(c); }
MC_SCENARIO("IndexedVector", 0, 0, 3) { indexed(c); }

MC_MAIN
