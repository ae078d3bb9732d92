// U09: the uniform grid: index, box and centre of a cell, and the sphere test, in exact arithmetic.
#include "geo.hpp"
#include "load_balancing/Grid.h"

template<uint D, typename P, typename IX>
struct T {
    typedef LoadBalancing::Grid<D, P, IX> G;
    typedef dIndex<D, IX> Ix;
    typedef std::array<int, D> V;

    static std::string str(const V &v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }
    static long fdiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
    static V pickV(mc::Choice &c, int lo, int hi) { V v; for (uint d = 0; d < D; ++d) v[d] = lo + c.pick(hi - lo + 1); return v; }

    // coordinates are multiples of unit = width / sub; everything is exactly representable
    static void exact(mc::Choice &c, int lim) {
        const int sub = c.of(std::vector<int>{1, 2, 4});
        const P width = c.of(std::vector<P>{1, (P) 0.125, 4, (P) 1.5, (P) 4096});
        const long off = sizeof(IX) == 1 ? 0 : c.of(std::vector<long>{0, -3, 1000});          // in cells
        V p = pickV(c, -lim, lim);
        c.shard();
        mc::describe(mc::fmt("D=%u %s/%zu width %g off %ld point (1/%d cells) ", D, sizeof(P) == 8 ? "double" : "float", sizeof(IX), (double) width, off, sub) + str(p));
        const G g(width);
        mc::requireF(g.cellWidth() == width, [&] { return std::string("cell width is not the given one"); });
        const P unit = width / sub;
        dVector<D, P> x;
        Ix want;
        for (uint d = 0; d < D; ++d) { x[d] = unit * (p[d] + off * sub); want[d] = (IX) fdiv(p[d] + off * sub, sub); }
        auto i = g.indexAt(x);
        mc::requireF(i == want, [&] { return mc::fmt("index of the point is (%ld ..), expected (%ld ..)", (long) i[0], (long) want[0]); });
        auto b = g.boundsOf(i);
        auto m = g.centerOf(i);
        for (uint d = 0; d < D; ++d) {
            mc::requireF(b.low[d] == width * want[d] && b.high[d] == width * (P) ((long) want[d] + 1), [&] { return mc::fmt("box of the cell is [%g,%g] in dimension %u", (double) b.low[d], (double) b.high[d], d); });
            mc::requireF(b.low[d] <= x[d] && x[d] < b.high[d], [&] { return std::string("the box of the cell does not contain the point"); });
            mc::requireF(m[d] == width * want[d] + width / 2, [&] { return mc::fmt("centre of the cell is %g in dimension %u", (double) m[d], d); });
        }
        mc::requireF(g.indexAt(m) == i, [&] { return std::string("the centre of the cell lies in another cell"); });
        double diag = g.diagonalCellLength(), wd = std::sqrt((double) D) * width;
        mc::requireF(std::fabs(diag - wd) <= wd * 1e-6, [&] { return mc::fmt("diagonal is %g, expected %g", diag, wd); });
        // the neighbouring values belong to the neighbouring cells
        for (uint d = 0; d < D; ++d) {
            auto y = x;
            y[d] = std::nextafter(x[d], -std::numeric_limits<P>::infinity());
            if (fdiv(p[d] + off * sub, sub) * sub == p[d] + off * sub && x[d] == width * want[d] && want[d] != 0) {
                // just below a cell border; the quotient may round up to the border
                auto j = g.indexAt(y);
                mc::requireF(j[d] == i[d] || j[d] == i[d] - 1, [&] { return std::string("point just below the border is in a remote cell"); });
            }
        }
        mc::transition();
        mc::state(mc::hashStr(str(p)) ^ sub);
    }

    // cell against sphere: closed sets; lattice of half cells
    static void spheres(mc::Choice &c, int lim, int rmax) {
        const P width = c.of(std::vector<P>{1, (P) 0.125, (P) 6});
        const long off = c.of(std::vector<long>{0, -2, 500});
        V cell = pickV(c, 0, 1);
        c.shard();
        const G g(width);
        Ix i;
        for (uint d = 0; d < D; ++d) i[d] = cell[d] + off;
        V p;
        p.fill(-lim);
        uint64_t n = 0;
        for (;;) {
            dSphere<D, P> s;
            long dist = 0;
            for (uint d = 0; d < D; ++d) {
                s.center[d] = width * (P) off + width * p[d] / 2;
                long e = std::max({2 * cell[d] - p[d], p[d] - 2 * cell[d] - 2, 0});
                dist += e * e;
            }
            for (int r = 0; r <= rmax; ++r) {
                s.radius = width * r / 2;
                bool want = dist <= (long) r * r;
                mc::requireF(LoadBalancing::intersectsWith<D, P, IX>(g, s, i) == want, [&] {
                    return mc::fmt("D=%u width %g cell ", D, (double) width) + str(cell) + mc::fmt(" offset %ld, sphere around ", off) + str(p) + mc::fmt(" (half cells) of radius %d half cells ", r) + (want ? "meets the cell, but is reported not to" : "does not meet the cell, but is reported to");
                });
                ++n;
                mc::outcome(want);
            }
            uint d = 0;
            while (d < D && ++p[d] > lim) p[d++] = -lim;
            if (d == D) break;
        }
        mc::transition(n);
        mc::state(mc::hashStr(str(cell)));
    }

    // widths that are not powers of two: up to rounding
    static void inexact(mc::Choice &c, int lim) {
        const P width = c.of(std::vector<P>{(P) 0.1, (P) 0.3, (P) 1 / 3, (P) 7.7, (P) 1e-3, (P) 1e5 / 3});
        int k = c.pick(2 * lim + 1) - lim;
        int q = c.pick(8);
        c.shard();
        mc::describe(mc::fmt("D=%u width %.17g cell %d + %d/8", D, (double) width, k, q));
        const G g(width);
        const P eps = std::numeric_limits<P>::epsilon() * 4;
        dVector<D, P> x;
        for (uint d = 0; d < D; ++d) x[d] = width * ((P) (k + (int) d) + (P) q / 8);
        auto i = g.indexAt(x);
        auto b = g.boundsOf(i);
        for (uint d = 0; d < D; ++d) {
            const P tol = eps * (std::fabs(x[d]) + width);
            mc::requireF(b.low[d] - tol <= x[d] && x[d] <= b.high[d] + tol, [&] { return std::string("the box of the cell does not contain the point"); });
            mc::requireF(q == 0 || i[d] == k + (int) d, [&] { return mc::fmt("index %ld, expected %d", (long) i[d], k + (int) d); });
            mc::requireF(q != 0 || i[d] == k + (int) d || i[d] == k + (int) d - 1, [&] { return mc::fmt("index %ld, expected %d", (long) i[d], k + (int) d); });
            mc::requireF(std::fabs(b.high[d] - b.low[d] - width) <= tol, [&] { return std::string("the cell is not as wide as given"); });
        }
        auto m = g.centerOf(i);
        mc::requireF(g.indexAt(m) == i, [&] { return std::string("the centre of the cell lies in another cell"); });
        // neighbouring cells share their border exactly: nothing is covered by no cell
        auto j = i;
        j[0] += 1;
        mc::requireF(g.boundsOf(j).low[0] == b.high[0], [&] { return std::string("neighbouring cells do not share their border"); });
        mc::transition();
        mc::state(mc::mix(k, q));
    }
};

// an index determines its hash, and nearby cells do not all collide
template<uint D>
static void hashes(mc::Choice &c) {
    c.shard();
    dIndexHasher<D, int64_t> h;
    std::set<size_t> seen;
    int n = 0;
    dIndex<D, int64_t> i;
    i.fill(-3);
    for (;;) {
        auto j = i;
        mc::requireF(h(i) == h(j), [&] { return std::string("equal indices have different hashes"); });
        seen.insert(h(i));
        ++n;
        uint d = 0;
        while (d < D && ++i[d] > 3) i[d++] = -3;
        if (d == D) break;
    }
    mc::requireF(seen.size() > 1, [&] { return std::string("all cells have the same hash"); });
    mc::transition(n);
    mc::state(D);
}

MC_SCENARIO("exact", 0, 0, 3) {
    switch (c.pick(6)) {
        case 0: T<1, double, int64_t>::exact(c, 40); break;
        case 1: T<2, double, int64_t>::exact(c, mc::thorough() ? 20 : 9); break;
        case 2: T<2, float, int64_t>::exact(c, mc::thorough() ? 20 : 9); break;
        case 3: T<3, double, int64_t>::exact(c, mc::thorough() ? 9 : 5); break;
        case 4: T<3, float, int>::exact(c, mc::thorough() ? 9 : 5); break;
        default: T<2, double, int8_t>::exact(c, 6);
    }
}
MC_SCENARIO("spheres", 0, 0, 3) {
    switch (c.pick(4)) {
        case 0: T<2, double, int64_t>::spheres(c, mc::thorough() ? 24 : 12, mc::thorough() ? 40 : 20); break;
        case 1: T<2, float, int64_t>::spheres(c, 12, 20); break;
        case 2: T<3, double, int64_t>::spheres(c, mc::thorough() ? 14 : 7, mc::thorough() ? 24 : 12); break;
        default: T<3, float, int>::spheres(c, 7, 12);
    }
}
MC_SCENARIO("inexact", 0, 0, 3) {
    switch (c.pick(4)) {
        case 0: T<2, double, int64_t>::inexact(c, mc::thorough() ? 100000 : 2000); break;
        case 1: T<2, float, int64_t>::inexact(c, mc::thorough() ? 4000 : 1000); break;
        case 2: T<3, double, int>::inexact(c, mc::thorough() ? 50000 : 1000); break;
        default: T<1, double, int64_t>::inexact(c, 2000);
    }
}
MC_SCENARIO("hash", 0, 0, 3) { if (c.flag()) hashes<2>(c); else hashes<3>(c); }
MC_MAIN
