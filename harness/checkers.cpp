// G09: the intersection tests of the load balancer against exact arithmetic on a lattice.
#include "geo.hpp"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/HyperplaneIntersectionChecker.h"
#include <numeric>
#include "reseed.hpp"

namespace lb = LoadBalancing;
template<uint D> using V = std::array<int, D>;

template<uint D>
static std::string str(const V<D> &v) { std::string s = "("; for (uint d = 0; d < D; ++d) s += (d ? "," : "") + std::to_string(v[d]); return s + ")"; }
template<uint D>
static std::string str(const std::vector<V<D>> &v) { std::string s; for (auto &x : v) s += str<D>(x); return s; }

// spheres on the lattice of half cells
template<uint D>
struct Lattice {
    V<D> lo, hi;
    int rmax;
    template<class F>
    uint64_t each(F f) const {
        V<D> p = lo;
        uint64_t n = 0;
        for (;;) {
            for (int r = 0; r <= rmax; ++r) f(p, r), ++n;
            uint d = 0;
            while (d < D && ++p[d] > hi[d]) { p[d] = lo[d]; ++d; }
            if (d == D) return n;
        }
    }
};

template<uint D, typename P>
struct T {
    typedef dIndex<D, int64_t> Ix;
    typedef lb::GridIntersectionChecker<D, P> GIC;
    typedef lb::IntersectionChecker<D, P> IC;

    static dSphere<D, P> sphere(const V<D> &p, int r, P half, long off) {
        dSphere<D, P> s;
        for (uint d = 0; d < D; ++d) s.center[d] = half * (P) (p[d] + 2 * off);
        s.radius = half * r;
        return s;
    }

    // squared distance of a point to a cell, in half cells
    static long cellDist(const V<D> &cell, const V<D> &p) {
        long q = 0;
        for (uint d = 0; d < D; ++d) { long e = std::max({2 * cell[d] - p[d], p[d] - 2 * cell[d] - 2, 0}); q += e * e; }
        return q;
    }
    static long dist2(const V<D> &a, const V<D> &b) {
        long q = 0;
        for (uint d = 0; d < D; ++d) q += (long) (a[d] - b[d]) * (a[d] - b[d]);
        return q;
    }

    // the grid test for a given set of cells; at: where in its cell the extreme points lie
    static void gridCells(mc::Choice &c, const std::vector<V<D>> &cells, int at, int ext, int rmax, P width, long off) {
        lb::Grid<D, P> g(width);
        std::vector<Ix> ix;
        dBox<D, P> b;
        bool first = true;
        V<D> lo, hi;
        for (auto &x : cells) {
            Ix i;
            for (uint d = 0; d < D; ++d) {
                i[d] = x[d] + off;
                // at 0: points on the lower borders, 1: in the middle, 2: close to the upper border
                P v = width * (P) i[d] + (at == 0 ? 0 : at == 1 ? width / 2 : width * (P) 0.875);
                if (first || v < b.low[d]) b.low[d] = v;
                if (first || v > b.high[d]) b.high[d] = v;
                lo[d] = first ? x[d] : std::min(lo[d], x[d]);
                hi[d] = first ? x[d] : std::max(hi[d], x[d]);
            }
            first = false;
            ix.push_back(i);
        }
        GIC chk(b, g, ix.begin(), ix.end());
        auto cp = chk.copy();
        GIC moved(std::move(chk));
        Lattice<D> l{lo, hi, rmax};
        for (uint d = 0; d < D; ++d) { l.lo[d] = 2 * lo[d] - ext; l.hi[d] = 2 * hi[d] + 2 + ext; }
        dSimplex<D, P> dummy{};
        uint64_t n = l.each([&](const V<D> &p, int r) {
            auto s = sphere(p, r, width / 2, off);
            bool want = false;
            std::set<Ix> hit;
            for (size_t k = 0; k < cells.size(); ++k)
                if (cellDist(cells[k], p) <= (long) r * r) { want = true; hit.insert(ix[k]); }
            auto where = [&] { return "sphere around " + str<D>(p) + mc::fmt(" of radius %d (half cells) ", r); };
            bool got = moved.intersects(s, dummy);
            mc::requireF(got == want, [&] { return where() + (want ? "meets a cell of the partition, the test says no" : "meets no cell, the test says yes"); });
            mc::requireF(cp->intersects(s, dummy) == want, [&] { return where() + "the copy of the test answers differently"; });
            auto gi = moved.intersectingCells(s);
            mc::requireF(std::set<Ix>(gi.begin(), gi.end()) == hit, [&] { return where() + mc::fmt("%zu cells are listed, %zu are met", std::set<Ix>(gi.begin(), gi.end()).size(), hit.size()); });
            mc::outcome(want);
        });
        mc::transition(n);
        mc::requireF(moved.bounds() == b, [] { return std::string("bounds are not the given ones"); });
        mc::requireF(std::set<Ix>(moved.cellsBegin(), moved.cellsEnd()) == std::set<Ix>(ix.begin(), ix.end()), [] { return std::string("cells are not the given ones"); });
    }

    // all subsets of a block of cells; the order of the insertions varies
    static void gridSubsets(mc::Choice &c, const V<D> &dims, int orders, int ext, int rmax) {
        std::vector<V<D>> all;
        V<D> p;
        p.fill(0);
        for (;;) {
            all.push_back(p);
            uint d = 0;
            while (d < D && ++p[d] >= dims[d]) p[d++] = 0;
            if (d == D) break;
        }
        std::vector<V<D>> cells;
        int mask = 1 + c.pick((1 << all.size()) - 1);
        int ord = c.pick(orders), at = c.pick(3);
        int fr = c.pick(3);
        c.shard();
        for (size_t i = 0; i < all.size(); ++i) if (mask >> i & 1) cells.push_back(all[i]);
        if (ord == 1) std::reverse(cells.begin(), cells.end());
        if (ord == 2) std::rotate(cells.begin(), cells.begin() + cells.size() / 2, cells.end());
        if (ord == 3) { std::vector<V<D>> o; for (size_t i = 0; i < cells.size(); ++i) o.push_back(cells[i % 2 ? cells.size() - 1 - i / 2 : i / 2]); cells = o; }
        P width = fr == 0 ? 1 : fr == 1 ? (P) 0.25 : 6;
        long off = fr == 0 ? 0 : fr == 1 ? -1 : 1000;
        mc::describe(mc::fmt("grid test D=%u %s width %g offset %ld, points %s, cells ", D, sizeof(P) == 8 ? "double" : "float", (double) width, off, at == 0 ? "on lower borders" : at == 1 ? "in the middle" : "near upper borders") + str<D>(cells));
        gridCells(c, cells, at, ext, rmax, width, off);
        mc::state(mc::mix(mask, D));
    }

    // few cells far apart
    static void gridSparse(mc::Choice &c, int span, int k, int ext, int rmax) {
        std::vector<V<D>> cells;
        for (int i = 0; i < k; ++i) {
            V<D> x;
            for (uint d = 0; d < D; ++d) x[d] = c.pick(span);
            if (i && !(cells.back() < x)) throw mc::Skip();
            cells.push_back(x);
        }
        int at = c.pick(3);
        c.shard();
        mc::describe(mc::fmt("grid test D=%u, points %s, cells ", D, at == 0 ? "on lower borders" : at == 1 ? "in the middle" : "near upper borders") + str<D>(cells));
        gridCells(c, cells, at, ext, rmax, 1, 0);
        mc::state(mc::hashStr(str<D>(cells)));
    }

    // ---- from points to tests ----------------------------------------------------------------------
    enum Kind { BOUNDS, GRID, ACCURATE };

    static void maker(mc::Choice &c, const std::vector<V<D>> &pos, const std::vector<int> &part, int parts, Kind kind, P width, int cell, const Lattice<D> &l, int deferred) {
        // pos in half units of the lattice; a grid cell is `cell` half units wide
        dPoints<D, P> pts;
        const P half = width / cell;
        Point_Ids ids;
        for (size_t i = 0; i < pos.size(); ++i) {
            dPoint<D, P> p;
            for (uint d = 0; d < D; ++d) p.coords[d] = half * (P) pos[i][d];
            pts.emplace_back(p);
            ids.insert(i + 1);
        }
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
        McPolicy pol(&c, 3);
        std::vector<lb::IntersectionPartition<D, P>> res;
        {
            mtbb::ScopedPolicy sp(&pol);
            auto assign = [&](tIdType id) -> size_t {
                mc::requireF(id >= 1 && id <= pos.size(), [&] { return mc::fmt("point %llu is assigned, which is none of the points", (unsigned long long) id); });
                return part[id - 1];
            };
            if (kind == BOUNDS) res = lb::BoundsIntersectionPartitionMaker<D, P>()(pts, ids, parts, assign);
            else if (kind == GRID) res = lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(width))(pts, ids, parts, assign);
            else res = lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(width))(pts, ids, parts, assign);
        }
        (void) deferred;
        mc::requireF(res.size() == (size_t) parts, [&] { return mc::fmt("%zu partitions instead of %d", res.size(), parts); });
        uint64_t n = 0;
        // the simplex whose circumsphere is asked for, for the accurate test
        for (int q = 0; q < parts; ++q) {
            std::set<tIdType> want, got(res[q].pointIds.begin(), res[q].pointIds.end());
            std::vector<V<D>> mine;
            std::set<V<D>> cells;
            V<D> lo, hi;
            for (size_t i = 0; i < pos.size(); ++i) if (part[i] == q) {
                want.insert(i + 1);
                V<D> ce;
                for (uint d = 0; d < D; ++d) {
                    lo[d] = mine.empty() ? pos[i][d] : std::min(lo[d], pos[i][d]);
                    hi[d] = mine.empty() ? pos[i][d] : std::max(hi[d], pos[i][d]);
                    ce[d] = pos[i][d] >= 0 ? pos[i][d] / cell : -((-pos[i][d] + cell - 1) / cell);
                }
                mine.push_back(pos[i]);
                cells.insert(ce);
            }
            for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) want.insert(k);
            mc::requireF(got == want, [&] { return mc::fmt("partition %d holds %zu points instead of %zu, or other ones", q, got.size(), want.size()); });
            if (mine.empty()) continue;
            auto &chk = *res[q].intersectionChecker;
            for (uint d = 0; d < D; ++d)
                mc::requireF(chk.bounds().low[d] == half * (P) lo[d] && chk.bounds().high[d] == half * (P) hi[d], [&] { return mc::fmt("bounds of partition %d are [%g,%g] in dimension %u, those of its points [%g,%g]", q, (double) chk.bounds().low[d], (double) chk.bounds().high[d], d, (double) (half * lo[d]), (double) (half * hi[d])); });
            auto cp = chk.copy();
            if (kind != ACCURATE) {
                dSimplex<D, P> dummy{};
                n += l.each([&](const V<D> &p, int r) {
                    auto s = sphere(p, r, half, 0);
                    bool yes;
                    if (kind == BOUNDS) {
                        long e2 = 0;
                        for (uint d = 0; d < D; ++d) { long e = std::max({lo[d] - p[d], p[d] - hi[d], 0}); e2 += e * e; }
                        yes = e2 <= (long) r * r;
                    } else {
                        yes = false;
                        for (auto &ce : cells) {
                            long e2 = 0;
                            for (uint d = 0; d < D; ++d) { long e = std::max({cell * ce[d] - p[d], p[d] - cell * ce[d] - cell, 0}); e2 += e * e; }
                            yes |= e2 <= (long) r * r;
                        }
                    }
                    mc::requireF(chk.intersects(s, dummy) == yes && cp->intersects(s, dummy) == yes, [&] {
                        return mc::fmt("partition %d: sphere around ", q) + str<D>(p) + mc::fmt(" of radius %d (lattice units) ", r) + (yes ? "meets the region, the test or its copy says no" : "does not meet the region, the test or its copy says yes");
                    });
                    mc::outcome(yes);
                });
            } else {
                // all simplices over the points of the other partitions
                std::vector<int> oth;
                for (size_t i = 0; i < pos.size(); ++i) if (part[i] != q) oth.push_back(i);
                std::vector<int> pick;
                std::function<void(size_t)> rec = [&](size_t from) {
                    if (pick.size() == D + 1) {
                        std::vector<IP<D>> v;
                        dSimplex<D, P> s;
                        for (uint i = 0; i < D + 1; ++i) { s.vertices[i] = pick[i] + 1; IP<D> x; for (uint d = 0; d < D; ++d) x[d] = pos[pick[i]][d]; v.push_back(x); }
                        if (volume<D>(v) == 0) return;
                        auto cs = s.circumsphere(pts);
                        bool must = false;
                        for (auto &x : mine) { IP<D> y; for (uint d = 0; d < D; ++d) y[d] = x[d]; must |= inSphereExact<D>(v, y) > 0; }
                        bool got = chk.intersects(cs, s);
                        if (must) mc::requireF(got && cp->intersects(cs, s), [&] { return mc::fmt("partition %d has a point inside the circumsphere of the simplex over the points", q) + [&] { std::string t; for (int i : pick) t += " " + str<D>(pos[i]); return t; }() + ", the test or its copy says no"; });
                        mc::outcome(must * 2 + got);
                        ++n;
                        return;
                    }
                    for (size_t i = from; i < oth.size(); ++i) { pick.push_back(oth[i]); rec(i + 1); pick.pop_back(); }
                };
                rec(0);
            }
        }
        mc::transition(n);
    }

    static std::vector<V<D>> lattice(int side) {
        std::vector<V<D>> r;
        V<D> p;
        p.fill(0);
        for (;;) {
            r.push_back(p);
            uint d = 0;
            while (d < D && ++p[d] >= side) p[d++] = 0;
            if (d == D) return r;
        }
    }

    static void makers(mc::Choice &c, int side, int k, int parts, int cell, Kind kind, int ext, int rmax) {
        auto all = lattice(side);
        auto sub = pickSubset(c, all.size(), k);
        std::vector<V<D>> pos;
        const int shift = c.flag() ? -cell : 0;
        for (int i : sub) { auto v = all[i]; for (uint d = 0; d < D; ++d) v[d] += shift; pos.push_back(v); }
        std::vector<int> part;
        int used = 0;
        for (int i = 0; i < k; ++i) { part.push_back(c.pick(std::min(parts, used + 1))); used = std::max(used, part.back() + 1); }
        c.shard();
        std::string d = mc::fmt("D=%u %s test made from points (cell %d)", D, kind == BOUNDS ? "bounds" : kind == GRID ? "grid" : "accurate grid", cell);
        for (int i = 0; i < k; ++i) d += " " + str<D>(pos[i]) + "@" + std::to_string(part[i]);
        mc::describe(d);
        Lattice<D> l;
        l.lo.fill(shift - ext);
        l.hi.fill(shift + side - 1 + ext);
        l.rmax = rmax;
        maker(c, pos, part, parts, kind, 1, cell, l, 0);
        mc::state(mc::hashStr(d));
    }

    // ---- half spaces -----------------------------------------------------------------------------------
    static void plane(mc::Choice &c, int nmax, int omax, int ext, int rmax) {
        V<D> nv;
        for (uint d = 0; d < D; ++d) nv[d] = c.pick(2 * nmax + 1) - nmax;
        long len2 = 0;
        for (auto x : nv) len2 += (long) x * x;
        if (!len2) throw mc::Skip();
        int off = c.pick(2 * omax + 1) - omax;
        const bool unit = true;          // the checker takes a unit normal, its only user passes one
        c.shard();
        mc::describe(mc::fmt("half space with normal %s%s beyond %d", unit ? "normalised " : "", str<D>(nv).c_str(), off));
        dVector<D, P> nn;
        P o = off;
        const P len = std::sqrt((P) len2);
        for (uint d = 0; d < D; ++d) nn[d] = unit ? (P) nv[d] / len : (P) nv[d];
        if (unit) o = (P) off / len;
        dBox<D, P> b;
        b.low.fill(-ext);
        b.high.fill(ext);
        lb::HyperplaneIntersectionChecker<D, P> chk(b, nn, o);
        auto cp = chk.copy();
        dSimplex<D, P> dummy{};
        Lattice<D> l;
        l.lo.fill(-ext);
        l.hi.fill(ext);
        l.rmax = rmax;
        mc::transition(l.each([&](const V<D> &p, int r) {
            dSphere<D, P> s;
            long dot = 0;
            for (uint d = 0; d < D; ++d) { s.center[d] = p[d]; dot += (long) p[d] * nv[d]; }
            s.radius = r;
            // the sphere reaches n.x > off  iff  dot - off + r |n| > 0
            long e = off - dot;
            int side = e < 0 ? 1 : sgn((I) r * r * len2 - (I) e * e);
            if (e == 0 && r == 0) side = 0;
            if (!side) return;       // touches the plane: either answer will do
            bool got = chk.intersects(s, dummy);
            mc::requireF(got == (side > 0) && cp->intersects(s, dummy) == got, [&] { return "sphere around " + str<D>(p) + mc::fmt(" of radius %d ", r) + (side > 0 ? "reaches into the half space, the test says no" : "does not reach into the half space, the test says yes"); });
            mc::outcome(got);
        }));
        mc::requireF(chk.bounds() == b && cp->bounds() == b, [] { return std::string("bounds are not the given ones"); });
        mc::state(mc::hashStr(str<D>(nv)) ^ off);
    }

    // boxes as the whole test
    static void box(mc::Choice &c, int lim, int rmax) {
        V<D> lo, hi;
        for (uint d = 0; d < D; ++d) { lo[d] = c.pick(lim + 1); hi[d] = lo[d] + c.pick(lim + 1 - lo[d]); }
        c.shard();
        mc::describe(mc::fmt("bounds test D=%u box ", D) + str<D>(lo) + str<D>(hi));
        dBox<D, P> b;
        for (uint d = 0; d < D; ++d) { b.low[d] = lo[d]; b.high[d] = hi[d]; }
        lb::BoundsIntersectionChecker<D, P> chk(b);
        auto cp = chk.copy();
        dSimplex<D, P> dummy{};
        Lattice<D> l;
        l.lo.fill(-lim);
        l.hi.fill(2 * lim);
        l.rmax = rmax;
        mc::transition(l.each([&](const V<D> &p, int r) {
            auto s = sphere(p, r, 1, 0);
            long e2 = 0;
            for (uint d = 0; d < D; ++d) { long e = std::max({lo[d] - p[d], p[d] - hi[d], 0}); e2 += e * e; }
            bool want = e2 <= (long) r * r;
            mc::requireF(chk.intersects(s, dummy) == want && cp->intersects(s, dummy) == want, [&] { return "sphere around " + str<D>(p) + mc::fmt(" of radius %d ", r) + (want ? "meets the box, the test or its copy says no" : "does not meet the box, the test or its copy says yes"); });
        }));
        mc::state(mc::hashStr(str<D>(lo) + str<D>(hi)));
    }
};

typedef T<2, double> A2;
typedef T<3, double> A3;
typedef T<2, float> F2;

MC_SCENARIO("box", 0, 0, 3) { if (c.flag()) A2::box(c, 4, 10); else A3::box(c, mc::thorough() ? 3 : 2, 6); }
MC_SCENARIO("plane", 0, 0, 3) { if (c.flag()) A2::plane(c, 4, 6, 6, 6); else A3::plane(c, 2, mc::thorough() ? 4 : 3, 3, 4); }
MC_SCENARIO("grid-2d", 0, 0, 3) {
    switch (c.pick(4)) {
        case 0: A2::gridSubsets(c, {3, 3}, 2, 3, 5); break;
        case 1: A2::gridSubsets(c, {7, 1}, 4, 3, 5); break;
        case 2: A2::gridSubsets(c, {2, 4}, 4, 2, 5); break;
        default: F2::gridSubsets(c, {3, 2}, 4, 2, 5);
    }
}
MC_SCENARIO("grid-3d", 0, 0, 3) {
    switch (c.pick(2)) {
        case 0: A3::gridSubsets(c, {2, 2, 2}, 2, 1, 4); break;
        default: A3::gridSubsets(c, {3, 1, 3}, 1, 1, 4);
    }
}
MC_SCENARIO("grid-sparse", 0, 0, 3) {
    if (c.flag()) A2::gridSparse(c, mc::thorough() ? 8 : 5, 3, 3, 8); else A3::gridSparse(c, mc::thorough() ? 6 : 4, 2, 2, 7);
}
MC_SCENARIO("grid-2d-deep", 0, 0, 2) {
    switch (c.pick(3)) {
        case 0: A2::gridSubsets(c, {4, 3}, 4, 2, 5); break;
        case 1: A2::gridSubsets(c, {12, 1}, 2, 2, 5); break;
        default: A2::gridSubsets(c, {6, 2}, 2, 2, 5);
    }
}
MC_SCENARIO("grid-2d-16", 0, 0, 2) { A2::gridSubsets(c, {4, 4}, 1, 1, 4); }
MC_SCENARIO("grid-3d-deep", 0, 0, 2) { A3::gridSubsets(c, {2, 2, 3}, 1, 1, 3); }
MC_SCENARIO("makers-2d", 0, 1, 3) {
    switch (c.pick(2)) {
        case 0: A2::makers(c, mc::thorough() ? 5 : 4, 3, 3, 2, A2::BOUNDS, 3, 6); break;
        default: A2::makers(c, mc::thorough() ? 5 : 4, 3, 3, 2, A2::GRID, 3, 6); break;
    }
}
MC_SCENARIO("makers-3d", 0, 0, 3) {
    switch (c.pick(2)) {
        case 0: A3::makers(c, 3, mc::thorough() ? 3 : 2, 2, 2, A3::BOUNDS, 1, 4); break;
        default: A3::makers(c, 3, mc::thorough() ? 3 : 2, 2, 2, A3::GRID, 1, 4); break;
    }
}
MC_SCENARIO("accurate-2d", 0, 0, 3) { A2::makers(c, mc::thorough() ? 5 : 4, mc::thorough() ? 6 : 5, 3, 1 + c.pick(2), A2::ACCURATE, 0, 0); }
MC_SCENARIO("accurate-3d", 0, 0, 3) { A3::makers(c, 2 + mc::thorough(), mc::thorough() ? 5 : 6, 2, 1 + c.pick(2), A3::ACCURATE, 0, 0); }
MC_SCENARIO("makers-orders", 2, 4, 3) { A2::makers(c, 2, 4, 3, 1, (A2::Kind) c.pick(2), 2, 4); }
MC_MAIN
