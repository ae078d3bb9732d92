// G08: the splitting strategies of the divide step, over point sets of a lattice, strategies and splits of the work.
#include "geo.hpp"
#include "reseed.hpp"

template<uint D, typename P>
struct T {
    typedef std::array<int, D> V;

    struct Frame { P scale, off; };

    static const std::vector<Frame> &frames() {
        static std::vector<Frame> f{{1, 0}, {(P) 0.5, -10}, {16, 4096}, {(P) 0.1, (P) -0.3}};
        return f;
    }

    static V unrank(int i, int n) {
        V v;
        for (uint d = 0; d < D; ++d) { v[d] = i % n; i /= n; }
        return v;
    }

    // k distinct points of {0..n-1}^D, ids from 1; some of them may not take part
    static void run(mc::Choice &c, int n, int k, bool subset) {
        const tIdType INF = dPoint<D, P>::cINF;
        int total = 1;
        for (uint d = 0; d < D; ++d) total *= n;
        auto idx = pickSubset(c, total, k);
        c.shard();
        auto &f = c.of(frames());
        std::vector<char> types{'d', 'c', 'e', '0', '1'};
        if (D == 3) types.push_back('2');
        char type = c.of(types);
        std::string prov(type == 'c' ? 1 + c.pick(2 * D) : 1, '0');
        bool ignore = c.flag(), withInf = c.flag(), wide = c.flag();
        int mask = subset ? c.pick(1 << k) : (1 << k) - 1;
        dPoints<D, P> pts;
        std::string d = mc::fmt("D=%u %s splitter %c provenance %s ignoreInfinite %d auxiliary points among the ids %d mask %d scale %g offset %g points ", D, sizeof(P) == 8 ? "double" : "float", type, prov.c_str(), ignore, withInf, mask, (double) f.scale, (double) f.off);
        std::vector<V> v;
        for (int i : idx) {
            V x = unrank(i, n);
            // no symmetric universe: the second dimension is stretched
            x[1] *= 2;
            if (D == 3) x[2] *= 3;
            v.push_back(x);
            dPoint<D, P> p;
            d += "(";
            for (uint e = 0; e < D; ++e) { p.coords[e] = f.off + f.scale * x[e]; d += std::to_string(x[e]) + " "; }
            d += ")";
            pts.emplace_back(p);
        }
        for (tIdType i = INF; i != 0; ++i) for (uint e = 0; e < D; ++e) pts[i].coords[e] = ((i >> e) & 1) ? 1e6 : -1e6;
        mc::describe(d);
        Point_Ids ids(k + (1 << D));
        std::set<tIdType> want;
        for (int i = 0; i < k; ++i) if (mask >> i & 1) { ids.insert(i + 1); want.insert(i + 1); }
        if (withInf) for (tIdType i = INF; i != 0; ++i) ids.insert(i);
        if (want.empty()) throw mc::Skip();
        dPointStats<D, P> stats;
        dBox<D, P> b;
        for (uint e = 0; e < D; ++e) {
            P lo = std::numeric_limits<P>::max(), hi = std::numeric_limits<P>::lowest();
            for (auto i : want) { lo = std::min(lo, pts[i].coords[e]); hi = std::max(hi, pts[i].coords[e]); }
            if (wide) { lo -= f.scale * (1 + e); hi += f.scale * 2; }
            stats.min[e] = b.low[e] = lo;
            stats.max[e] = b.high[e] = hi;
            stats.mid[e] = (lo + hi) / 2;
        }
        McPolicy pol(&c, 4);
        auto part = Partitioner<D, P>::make(type);
        mc::require(!part->to_string().empty(), "name", "the strategy has no name");
        Partitioning<D, P> r;
        {
            mtbb::ScopedPolicy sp(&pol);
            r = wide ? part->partition(stats, ids, pts, prov, ignore) : wideless(*part, stats, ids, pts, prov, ignore, c);
        }
        size_t parts = type == 'd' ? 1 << D : 2;
        mc::requireF(r.size() == parts, [&] { return mc::fmt("%zu parts", r.size()); });
        std::map<tIdType, std::vector<size_t>> where;
        uint64_t h = type;
        for (size_t i = 0; i < r.size(); ++i) {
            mc::requireF(r[i].id == i, [&] { return mc::fmt("part %zu has number %u", i, r[i].id); });
            std::set<tIdType> got;
            for (auto x : r[i].points) {
                mc::requireF(got.insert(x).second, [&] { return mc::fmt("point %lld is twice in part %zu", (long long) x, i); });
                where[x].push_back(i);
                h = mc::mix(h, x * 8 + i);
            }
            for (tIdType x = INF; x != 0; ++x) {
                mc::requireF((got.count(x) > 0) == !ignore, [&] { return mc::fmt("auxiliary point %lld is %sin part %zu", (long long) x, ignore ? "" : "not ", i); });
                mc::requireF(r[i].contains(x) == !ignore, [&] { return mc::fmt("part %zu denies its auxiliary points", i); });
            }
            for (uint e = 0; e < D; ++e) mc::requireF(r[i].bounds.low[e] <= r[i].bounds.high[e], [&] { return mc::fmt("bounds of part %zu are inverted", i); });
        }
        for (auto &w : where) {
            if (w.first >= INF) continue;
            mc::requireF(want.count(w.first), [&] { return mc::fmt("point %lld was invented", (long long) w.first); });
            mc::requireF(w.second.size() == 1, [&] { return mc::fmt("point %lld is in %zu parts", (long long) w.first, w.second.size()); });
        }
        for (auto x : want) {
            mc::requireF(where.count(x), [&] { return mc::fmt("point %lld is in no part", (long long) x); });
            size_t p = where[x][0];
            mc::requireF(r.partition(x) == p, [&] { return mc::fmt("point %lld is reported to be in part %u, it is in %zu", (long long) x, r.partition(x), p); });
            for (size_t i = 0; i < r.size(); ++i) mc::requireF(r[i].contains(x) == (i == p), [&] { return mc::fmt("part %zu is wrong about point %lld", i, (long long) x); });
            for (uint e = 0; e < D; ++e) mc::requireF(r[p].bounds.low[e] <= pts[x].coords[e] && pts[x].coords[e] <= r[p].bounds.high[e], [&] { return mc::fmt("point %lld lies outside of the bounds of part %zu", (long long) x, p); });
            mc::transition();
        }
        bool thrown = false;
        try { (void) r.partition(k + 17); } catch (std::out_of_range &) { thrown = true; }
        mc::requireF(thrown, [&] { return std::string("the part of an unknown point is reported"); });
        // simplices of the points: completely or partially in a part
        if (want.size() > D) {
            std::array<tIdType, D + 1> sv;
            auto it = want.begin();
            for (uint i = 0; i < D + 1; ++i) sv[i] = *it++;
            dSimplex<D, P> s(sv);
            for (size_t i = 0; i < r.size(); ++i) {
                bool all = true, any = false;
                for (auto x : sv) { all &= where[x][0] == i; any |= where[x][0] == i; }
                mc::requireF(r[i].contains(s) == all && r[i].contains(s, true) == any, [&] { return mc::fmt("part %zu is wrong about containing a simplex", i); });
            }
        }
        // the bounds: cells of the grid spanned by the split positions, each covered exactly once
        std::vector<uint> split;
        if (type == 'd') for (uint e = 0; e < D; ++e) split.push_back(e);
        else if (type == 'c') split.push_back((prov.size() - 1) % D);
        else if (type == 'e') {
            uint best = 0;
            for (uint e = 1; e < D; ++e) if (stats.max[e] - stats.min[e] > stats.max[best] - stats.min[best]) best = e;
            split.push_back(best);
        } else split.push_back(type - '0');
        std::set<std::vector<P>> cells, expect;
        for (auto &p : r) {
            std::vector<P> x;
            for (uint e = 0; e < D; ++e) { x.push_back(p.bounds.low[e]); x.push_back(p.bounds.high[e]); }
            cells.insert(x);
        }
        for (uint m = 0; m < (1u << split.size()); ++m) {
            std::vector<P> x;
            for (uint e = 0; e < D; ++e) {
                P lo = stats.min[e], hi = stats.max[e];
                for (uint j = 0; j < split.size(); ++j) if (split[j] == e) (m >> j & 1 ? lo : hi) = stats.mid[e];
                x.push_back(lo);
                x.push_back(hi);
            }
            expect.insert(x);
        }
        mc::requireF(cells == expect, [&] {
            std::string m = "the bounds of the parts are not the halves of the bounding box:";
            for (auto &x : cells) { m += " ["; for (auto y : x) m += mc::fmt("%g ", (double) y); m += "]"; }
            return m;
        });
        // depth of the recursion for a number of threads
        uint branch = parts, t = 1;
        for (uint depth = 0; depth < 4; ++depth, t *= branch)
            mc::requireF(part->getRecursionDepth(t) == depth, [&] { return mc::fmt("recursion depth for %u threads is %u", t, part->getRecursionDepth(t)); });
        mc::outcome(h);
        mc::state(mc::mix(h, mc::hashStr(d)));
    }

    // through the variant that determines the statistics itself
    static Partitioning<D, P> wideless(Partitioner<D, P> &p, const dPointStats<D, P> &stats, const Point_Ids &ids, const dPoints<D, P> &pts, const std::string &prov, bool ignore, mc::Choice &c) {
        if (c.flag()) return p.partition(ids, pts, prov, ignore);
        return p.partition(stats, ids, pts, prov, ignore);
    }
};

MC_SCENARIO("2d", 1, 2, 3) { T<2, double>::run(c, 3, 1 + c.pick(4), false); }
MC_SCENARIO("2d-float-some", 0, 1, 3) { T<2, float>::run(c, 2, 1 + c.pick(4), true); }
MC_SCENARIO("3d", 0, 1, 3) { T<3, double>::run(c, 2, 1 + c.pick(4), false); }
MC_SCENARIO("3d-some", 0, 1, 2) { T<3, float>::run(c, 2, 1 + c.pick(6), true); }
MC_MAIN
