// H04: all operation sequences up to a length on the bit set, against std::set.
#include "mc.hpp"
#include "datastructures/Bit_Set.hxx"

typedef std::set<unsigned> M;
typedef std::pair<unsigned, unsigned> Range;

static const std::vector<Range> BOUNDS = {{0, 40}, {0, 64}, {40, 64}, {33, 128}, {10, 70}};
static const std::vector<unsigned> POS = {0, 1, 31, 32, 33, 63, 64, 95, 96, 127};
static const std::vector<M> CONTENT = {{}, {63}, {32, 33, 62, 63}};
static const std::vector<Range> BATCH = {{0, 1}, {0, 32}, {0, 64}, {1, 31}, {31, 33}, {32, 64}, {33, 63}, {40, 40}, {50, 41}, {63, 64}, {40, 96}, {64, 96}, {70, 80}, {33, 128}, {96, 128}};

template<typename B>
static void checkBits(const B &s, const M &m, const char *what) {
    size_t lo = s.lowerBound(), up = s.upperBound();
    mc::requireF(s.ones() == m.size() && s.size() == m.size(), [&] { return mc::fmt("%s: ones() is %zu, %zu bits are set", what, (size_t) s.ones(), m.size()); });
    mc::requireF(s.zeros() == up - lo - m.size(), [&] { return mc::fmt("%s: zeros() is %zu, expected %zu", what, (size_t) s.zeros(), up - lo - m.size()); });
    mc::requireF(s.empty() == m.empty() && s.zero() == m.empty() && s.one() == (m.size() == up - lo), [&] { return mc::fmt("%s: empty(), zero() or one() is wrong", what); });
    for (unsigned k = 0; k < 170; ++k) {
        bool w = m.count(k) > 0;
        mc::requireF(s.isSet(k) == w && s.contains(k) == w && s.count(k) == w && s.one(k) == w && s.zero(k) == !w && s.empty(k) == !w,
                     [&] { return mc::fmt("%s: bit %u is reported as %d", what, k, s.isSet(k)); });
    }
    std::vector<unsigned> got;
    size_t steps = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        mc::requireF(++steps <= 300, [&] { return mc::fmt("%s: the iteration does not end", what); });
        got.push_back(*it);
    }
    mc::requireF(got == std::vector<unsigned>(m.begin(), m.end()), [&] { return mc::fmt("%s: iteration visits %zu bits, expected the %zu set bits in order", what, got.size(), m.size()); });
    auto it = s.end();   // and backwards, as far as there are elements
    for (auto r = m.rbegin(); r != m.rend(); ++r) { --it; mc::requireF(*it == *r, [&] { return mc::fmt("%s: backward iteration is wrong", what); }); }
}

static Range rounded(Range r) { return {r.first / 32 * 32, (r.second + 31) / 32 * 32}; }

static std::string show(const Range &r) { return mc::fmt("[%u,%u)", r.first, r.second); }

template<typename B>
static B make(const Range &r, const M &content) {
    B b(r.first, r.second);
    for (unsigned x : content) b.insert(x);
    return b;
}

// len operations; the alphabet of the longer sequences is smaller
static void bits(mc::Choice &c, int len, bool small) {
    auto first = c.of(small ? std::vector<Range>{{0, 64}, {40, 64}} : BOUNDS);
    Bit_Set s(first.first, first.second);
    Range cur = rounded(first);
    M m;
    std::string d = "bit set " + show(first) + ": ";
    auto in = [&](unsigned p) { return cur.first <= p && p < cur.second; };
    auto content = [&](const Range &r) { M t; for (unsigned x : c.of(CONTENT)) if (x >= r.first && x < r.second) t.insert(x); return t; };
    std::vector<unsigned> pos = small ? std::vector<unsigned>{0, 32, 63, 64} : POS;
    std::vector<Range> batch = small ? std::vector<Range>{{0, 64}, {33, 63}, {32, 64}} : BATCH;
    std::vector<Range> bounds = small ? std::vector<Range>{{0, 40}, {33, 128}} : BOUNDS;
    for (int i = 0; i < len; ++i) {
        int op = c.pick(8);
        switch (op) {
            case 0: {
                unsigned p = c.of(pos);
                if (!in(p)) throw mc::Skip();
                bool compat = small ? i % 2 : c.flag();
                d += mc::fmt("set(%u) ", p);
                mc::describe(d);
                bool fresh = m.insert(p).second;
                bool r = compat ? s.insert(p) : !s.testAndSet(p);
                mc::requireF(r == fresh, [&] { return mc::fmt("setting bit %u reported the wrong previous value", p); });
                break;
            }
            case 1: {
                unsigned p = c.of(pos);
                if (!in(p)) throw mc::Skip();
                bool compat = small ? i % 2 : c.flag();
                d += mc::fmt("clear(%u) ", p);
                mc::describe(d);
                bool was = m.erase(p) > 0;
                bool r = compat ? s.erase(p) : s.testAndUnset(p);
                mc::requireF(r == was, [&] { return mc::fmt("clearing bit %u reported the wrong previous value", p); });
                break;
            }
            case 2: {
                Range r = c.of(batch);
                if (!in(r.first) || r.second > cur.second || r.second < cur.first) throw mc::Skip();
                d += "batchSet" + show(r) + " ";
                mc::describe(d);
                s.batchSet(r.first, r.second);
                for (unsigned x = r.first; x < r.second; ++x) m.insert(x);
                break;
            }
            case 3: {
                Range r = c.of(bounds);
                bool upper = c.flag();
                d += (upper ? mc::fmt("resize(%u) ", r.second) : "resize" + show(r) + " ");
                mc::describe(d);
                Range q = rounded(r);
                if (upper) s.resize(r.second); else s.resize(r.first, r.second);
                if (!upper) cur.first = std::min(cur.first, q.first);
                cur.second = std::max(cur.second, q.second);
                break;
            }
            case 4: case 5: case 6: {
                Range r = c.of(bounds), f{0, 0};
                M o = content(rounded(r)), g;
                bool conc = small || op != 5 ? false : c.flag();
                if (op == 6) { f = c.of(small ? std::vector<Range>{{40, 64}} : bounds); g = content(rounded(f)); }
                d += mc::fmt("%s(%zu bits of ", op == 4 ? "merge" : op == 5 ? "filter" : "mergeFilter", o.size()) + show(r) + mc::fmt(", %zu of ", g.size()) + show(f) + ") ";
                mc::describe(d);
                if (op == 4) {
                    s.merge(make<Bit_Set>(r, o));
                    m.insert(o.begin(), o.end());
                } else if (op == 5) {
                    if (conc) s.filter(make<Concurrent_Bit_Set>(r, o)); else s.filter(make<Bit_Set>(r, o));
                    for (unsigned x : o) m.erase(x);
                } else {
                    s.mergeFilter(make<Bit_Set>(r, o), make<Bit_Set>(f, g));
                    m.insert(o.begin(), o.end());
                    for (unsigned x : g) m.erase(x);
                }
                if (op != 5) { cur.first = std::min(cur.first, rounded(r).first); cur.second = std::max(cur.second, rounded(r).second); }
                break;
            }
            default: {
                int k = c.pick(4);
                d += mc::fmt("%s ", k == 0 ? "copy" : k == 1 ? "move" : k == 2 ? "convert" : "concurrent");
                mc::describe(d);
                if (k == 0) {
                    Bit_Set t(0, 32);
                    t.insert(5);
                    t.copy(s);
                    checkBits(t, m, "copy");
                    // copies are independent
                    if (in(40)) { if (m.count(40)) t.erase(40); else t.insert(40); }
                    checkBits(s, m, "original");
                } else if (k == 1) {
                    Bit_Set t(std::move(s));
                    checkBits(t, m, "moved");
                    s = std::move(t);
                } else if (k == 2) {
                    Concurrent_Bit_Set t(std::move(s));
                    checkBits(t, m, "converted");
                    Concurrent_Bit_Set u(std::move(t));
                    Concurrent_Bit_Set v(0, 32);
                    v = std::move(u);
                    checkBits(v, m, "moved concurrent");
                    s = Bit_Set(std::move(v));
                } else {
                    Concurrent_Bit_Set t(std::move(s));
                    for (unsigned p : {32u, 63u, 127u}) {
                        if (!in(p)) continue;
                        mc::requireF(t.testAndSet(p) == !m.insert(p).second, [&] { return mc::fmt("setting bit %u reported the wrong previous value", p); });
                        checkBits(t, m, "concurrent");
                    }
                    if (in(63)) {
                        m.erase(63);
                        mc::requireF(t.erase(63) && !t.testAndUnset(63), [&] { return std::string("clearing bit 63 reported the wrong previous value"); });
                        checkBits(t, m, "concurrent");
                    }
                    s = Bit_Set(std::move(t));
                }
            }
        }
        if (i == 0) c.shard();
        mc::transition();
        mc::describe(d);
        mc::requireF(s.lowerBound() <= cur.first && s.upperBound() >= cur.second, [&] { return mc::fmt("the bounds are [%zu,%zu)", (size_t) s.lowerBound(), (size_t) s.upperBound()); });
        if (i == len - 1) checkBits(s, m, "bit set");
    }
    uint64_t h = mc::mix(s.lowerBound(), s.upperBound());
    for (unsigned x : m) h = mc::mix(h, x);
    mc::state(h);
    mc::outcome(h);
}

MC_SCENARIO("1 operation", 0, 0, 3) { bits(c, 1, false); }
MC_SCENARIO("2 operations", 0, 0, 3) { bits(c, 2, false); }
MC_SCENARIO("3 operations", 0, 0, 3) { bits(c, 3, true); }
MC_SCENARIO("4 operations", 0, 0, 2) { bits(c, 4, true); }

MC_MAIN
