// G11: statistics of point sets and classification of point ids.
#include "geo.hpp"
#include <cmath>
#include "reseed.hpp"

template<uint D, typename P>
struct T {
    static const std::vector<P> &values() {
        static std::vector<P> v{0, (P) 1, (P) -1, (P) -0.25, (P) 7.5, std::numeric_limits<P>::max() / 4, std::numeric_limits<P>::lowest() / 4, std::numeric_limits<P>::min(), -std::numeric_limits<P>::min(), (P) 1e-3, (P) 1000003, (P) -4097};
        return v;
    }

    // k points, their coordinates from the list, dimension e rotated by e
    static void run(mc::Choice &c, int k, int nval) {
        const tIdType INF = dPoint<D, P>::cINF;
        auto &vals = values();
        if (nval > (int) vals.size()) nval = vals.size();
        dPoints<D, P> pts;
        std::string d = mc::fmt("D=%u %s coordinates ", D, sizeof(P) == 8 ? "double" : "float");
        std::vector<dVector<D, P>> in;
        for (int i = 0; i < k; ++i) {
            int a = c.pick(nval);
            int b = i < 2 ? c.pick(nval) : (a * 5 + i) % nval;
            if (i == 0) c.shard();
            dPoint<D, P> p;
            d += "(";
            for (uint e = 0; e < D; ++e) { p.coords[e] = vals[e == 0 ? a : e == 1 ? b : (a + b) % nval]; d += mc::fmt("%g ", (double) p.coords[e]); }
            d += ")";
            pts.emplace_back(p);
            in.push_back(p.coords);
        }
        std::vector<dVector<D, P>> inf;
        for (tIdType i = INF; i != 0; ++i) {
            dVector<D, P> x;
            for (uint e = 0; e < D; ++e) x[e] = pts[i].coords[e] = ((i >> e) & 1) ? (P) 2e6 : (P) -2e6;
            inf.push_back(x);
        }
        bool withInf = c.flag(), ignore = c.flag();
        int way = c.pick(6);
        if (k == 0 && !(withInf && !ignore)) throw mc::Skip();
        if ((way == 0 || way == 2) && (withInf || k == 0)) throw mc::Skip();   // these cover the finite points only
        mc::describe(d + mc::fmt(" auxiliary points among the ids %d, ignored %d, way %d", withInf, ignore, way));
        std::set<tIdType> set;
        for (int i = 0; i < k; ++i) set.insert(i + 1);
        if (withInf) for (tIdType i = INF; i != 0; ++i) set.insert(i);
        Point_Ids ids(2 * set.size() + 8);
        for (auto i : set) ids.insert(i);
        std::vector<tIdType> vec(set.begin(), set.end());
        dPointStats<D, P> s;
        McPolicy pol(&c, 5, 3);
        {
            mtbb::ScopedPolicy sp(&pol);
            if (way == 0) s = getPointStats(pts, pts, ignore);
            else if (way == 1) s = getPointStats(ids, pts, ignore);
            else if (way == 2) s = getPointStatsSeq(std::size_t(1), pts.finite_size(), pts, ignore);
            else if (way == 3) s = getPointStatsSeq(ids.begin(), ids.end(), pts, ignore);
            else if (way == 4) s = getPointStatsSeq(vec.begin(), vec.end(), pts, ignore);
            else { Partitioning<D, P> q; (void) q; s = getPointStats(Range{vec}, pts, ignore); }
        }
        for (uint e = 0; e < D; ++e) {
            std::vector<P> x;
            for (auto &p : in) x.push_back(p[e]);
            if (withInf && !ignore) for (auto &p : inf) x.push_back(p[e]);
            P lo = *std::min_element(x.begin(), x.end()), hi = *std::max_element(x.begin(), x.end());
            mc::requireF(s.min[e] == lo && s.max[e] == hi, [&] { return mc::fmt("range in dimension %u is [%g, %g], expected [%g, %g]", e, (double) s.min[e], (double) s.max[e], (double) lo, (double) hi); });
            P mid = (P) (((long double) lo + (long double) hi) / 2);
            mc::requireF(s.mid[e] == mid || s.mid[e] == std::nextafter(mid, hi) || s.mid[e] == std::nextafter(mid, lo), [&] { return mc::fmt("midpoint in dimension %u is %g, expected %g", e, (double) s.mid[e], (double) mid); });
            mc::requireF(lo <= s.mid[e] && s.mid[e] <= hi, [&] { return mc::fmt("midpoint in dimension %u lies outside of the range", e); });
        }
        dPointStats<D, P> t = s;
        mc::requireF(t == s, [&] { return std::string("equal statistics compare as different"); });
        for (uint e = 0; e < D; ++e) for (int w = 0; w < 3; ++w) {
            t = s;
            auto &x = w == 0 ? t.min : w == 1 ? t.mid : t.max;
            x[e] = std::nextafter(x[e], std::numeric_limits<P>::max());
            mc::requireF(!(t == s), [&] { return std::string("different statistics compare as equal"); });
        }
        mc::transition(set.size());
        uint64_t h = 1;
        for (uint e = 0; e < D; ++e) h = mc::mix(mc::mix(h, mc::hashStr(std::to_string(s.min[e]))), mc::hashStr(std::to_string(s.max[e])));
        mc::outcome(h);
        mc::state(mc::mix(h, mc::hashStr(d) + way));
    }

    struct Range {
        const std::vector<tIdType> &v;
        tbb::blocked_range<std::vector<tIdType>::const_iterator> range() const { return {v.begin(), v.end()}; }
    };

    // ids: the classification as input or auxiliary point, lookup, offset
    static void ids(mc::Choice &c) {
        const tIdType INF = dPoint<D, P>::cINF;
        int n = c.pick(5);
        tIdType off = c.of(std::vector<tIdType>{0, 1, 7, 1000003, INF - 10, (tIdType) 1 << 32});
        c.shard();
        mc::describe(mc::fmt("D=%u %d points, offset %llu", D, n, (unsigned long long) off));
        dPoints<D, P> pts;
        for (int i = 0; i < n; ++i) {
            dPoint<D, P> p;
            for (uint e = 0; e < D; ++e) p.coords[e] = 10 * (i + 1) + e;
            pts.emplace_back(p);
        }
        pts.offset(off);
        for (tIdType i = INF; i != 0; ++i) for (uint e = 0; e < D; ++e) pts[i].coords[e] = (P) (1000 + 10 * (i - INF) + e);
        const auto &cp = pts;
        mc::requireF(pts.offset() == off && pts.finite_size() == (size_t) n + 1 && pts.size() == (size_t) n + 1 + (1 << D), [&] { return mc::fmt("size %zu (%zu finite)", (size_t) pts.size(), (size_t) pts.finite_size()); });
        std::vector<tIdType> probe;
        for (tIdType i = 0; i < 12; ++i) { probe.push_back(i); probe.push_back(off + i); probe.push_back(off - i); probe.push_back(0 - i); probe.push_back(INF - i); }
        for (auto i : probe) {
            bool aux = i >= ~(tIdType) 0 - ((1 << D) - 1);
            mc::requireF(dPoint<D, P>::isFinite(i) == !aux, [&] { return mc::fmt("id %lld is misclassified", (long long) i); });
            bool in = aux || (i > off && i - off <= (tIdType) n);
            mc::requireF(cp.contains(i) == in, [&] { return mc::fmt("id %lld is %scontained", (long long) i, in ? "not " : ""); });
            if (aux) mc::requireF(dPoint<D, P>::infIndex(i) == i - INF, [&] { return mc::fmt("index of auxiliary point %lld is wrong", (long long) i); });
            if (!in) continue;
            for (uint e = 0; e < D; ++e) {
                P w = aux ? 1000 + 10 * (i - INF) + e : 10 * (i - off) + e;
                mc::requireF(cp[i].coords[e] == w && pts[i].coords[e] == w && cp.at(i).coords[e] == w && pts.at(i).coords[e] == w, [&] { return mc::fmt("looking up id %lld yields another point", (long long) i); });
            }
            mc::transition();
        }
        // an enumeration covers exactly the input points
        auto r = cp.range();
        mc::requireF(r.begin() == off + 1 && r.end() == off + 1 + n, [&] { return std::string("the range does not cover the points"); });
        // comparison with a set of ids: equal exactly if it holds all of them
        std::set<tIdType> all;
        for (int i = 1; i <= n; ++i) all.insert(off + i);
        for (tIdType i = INF; i != 0; ++i) all.insert(i);
        mc::requireF(cp == all && !(cp != all), [&] { return std::string("the ids of all points differ from them"); });
        for (auto i : all) {
            auto m = all;
            m.erase(i);
            mc::requireF(cp != m && !(cp == m), [&] { return mc::fmt("the ids without %lld are taken for those of all points", (long long) i); });
            m.insert(off + n + 1);
            mc::requireF(cp != m, [&] { return mc::fmt("the ids with %lld replaced are taken for those of all points", (long long) i); });
        }
        if (n) {
            auto s = cp.template filter<std::vector<dPoint<D, P>>>(std::vector<tIdType>{off + (tIdType) n, off + 1, INF});
            mc::requireF(s.size() == 3 && s[0].coords[0] == 10 * n && s[1].coords[0] == 10 && s[2].coords[0] == 1000, [&] { return std::string("selecting points by ids yields others"); });
        }
        mc::outcome(n);
        mc::state(mc::mix(n, off));
    }
};

MC_SCENARIO("2d", 1, 2, 3) { T<2, double>::run(c, c.pick(4), 7); }
MC_SCENARIO("3d", 0, 1, 3) { T<3, float>::run(c, c.pick(4), 12); }
MC_SCENARIO("2d-many", 1, 1, 3) { T<2, float>::run(c, 6, 3); }
MC_SCENARIO("ids", 0, 0, 3) { if (c.flag()) T<2, double>::ids(c); else T<3, float>::ids(c); }
MC_MAIN
