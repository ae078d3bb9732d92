// G06: geometry and combinatorics of simplices against exact arithmetic, over all simplices and query points of a lattice.
#include "geo.hpp"
#include "reseed.hpp"

template<typename P>
struct Frame { P scale, off[3]; };

// lattice coordinates times scale plus offset are exact in P, and so are their differences
template<typename P>
static const std::vector<Frame<P>> &frames() {
    static std::vector<Frame<P>> f = sizeof(P) == 8
        ? std::vector<Frame<P>>{{1, {0, 0, 0}}, {1, {-2, -1, -3}}, {(P) 0.0009765625, {5, -7, 1}}, {1024, {1024 * 1000, -1024 * 333, 0}}, {(P) 0.25, {4096, 1000, -999}}, {1, {(P) 1e6, (P) -1e6, (P) 3e6}}, {std::ldexp((P) 1, -140), {0, 0, 0}}}
        : std::vector<Frame<P>>{{1, {0, 0, 0}}, {1, {-2, -1, -3}}, {(P) 0.0625, {1, -2, 3}}, {64, {-64, 0, 64 * 5}}, {1, {1000, -1000, 3000}}, {std::ldexp((P) 1, -20), {0, 0, 0}}};
    return f;
}

template<uint D, typename P>
struct T {
    typedef std::array<int, D> V;

    static std::string str(const V &v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }

    static bool next(V &v, int lo, int hi) {
        for (uint d = 0; d < D; ++d) {
            if (++v[d] <= hi) return true;
            v[d] = lo;
        }
        return false;
    }

    static dPoint<D, P> pt(const V &v, const Frame<P> &f) {
        dPoint<D, P> r;
        for (uint d = 0; d < D; ++d) r.coords[d] = f.off[d] + f.scale * v[d];
        return r;
    }

    static V unrank(int i, int n) {
        V v;
        for (uint d = 0; d < D; ++d) { v[d] = i % n; i /= n; }
        return v;
    }

    static IP<D> ip(const V &v) { IP<D> r; for (uint d = 0; d < D; ++d) r[d] = v[d]; return r; }

    // all simplices with vertices in [0,n)^D, in every order of the vertices, against all points in [lo,hi]^D
    static void run(mc::Choice &c, int n, int lo, int hi, bool allOrders) {
        auto &f = c.of(frames<P>());
        int total = 1;
        for (uint d = 0; d < D; ++d) total *= n;
        std::vector<V> v;
        std::vector<IP<D>> e;
        std::set<int> seen;
        int last = -1;
        for (uint i = 0; i < D + 1; ++i) {
            int k;
            if (allOrders) k = c.pick(total);
            else {
                if (last + 1 >= total) throw mc::Skip();
                k = last + 1 + c.pick(total - last - 1);
            }
            last = k;
            if (!seen.insert(k).second) throw mc::Skip();
            if (i == 1) c.shard();
            v.push_back(unrank(k, n));
        }
        if (!allOrders && c.flag()) std::swap(v[0], v[1]);
        for (auto &x : v) e.push_back(ip(x));
        I vol = volume<D>(e);
        if (vol == 0) {
            // degenerate: the orientation has to tell
            P o = orient(v, f);
            mc::requireF(o == 0, [&] { return std::string("orientation of a degenerate simplex is not zero"); });
            mc::count("degenerate");
            return;
        }
        std::string d = mc::fmt("D=%u %s frame %d simplex ", D, sizeof(P) == 8 ? "double" : "float", (int) (&f - &frames<P>()[0]));
        for (auto &x : v) d += str(x);
        mc::describe(d);
        dPoints<D, P> pts;
        for (auto &x : v) pts.emplace_back(pt(x, f));
        typename std::conditional<D == 2, std::array<tIdType, 3>, std::array<tIdType, 4>>::type ids;
        for (uint i = 0; i < D + 1; ++i) ids[i] = i + 1;
        dSimplex<D, P> s(ids);
        // 2D: counter-clockwise is positive; 3D: the last point below the counter-clockwise first three is positive,
        // i.e. the sign is that of det(a-d, b-d, c-d)
        int want = D == 2 ? sgn(vol) : -sgn(vol);
        P o = s.orientation(pts);
        mc::requireF((o > 0 ? 1 : o < 0 ? -1 : 0) == want, [&] { return mc::fmt("orientation %g, expected sign %d", (double) o, want); });
        // circumsphere
        auto sp = s.circumsphere(pts);
        long double R = 0, eps = (sizeof(P) == 8 ? 2.3e-16L : 1.2e-7L) * 256;
        {
            long double big = 0;
            for (uint i = 0; i < D + 1; ++i) for (uint k = 0; k < D; ++k) big = std::max<long double>(big, fabsl((long double) pts[i + 1].coords[k]));
            R = sp.radius;
            for (uint i = 0; i < D + 1; ++i) {
                long double q = 0;
                for (uint k = 0; k < D; ++k) { long double y = (long double) pts[i + 1].coords[k] - sp.center[k]; q += y * y; }
                q = sqrtl(q);
                long double tol = eps * (R + big + f.scale * n);
                mc::requireF(fabsl(q - R) <= tol, [&] { return mc::fmt("circumsphere misses vertex %u: radius %.12Lg, distance %.12Lg (the simplex measures %g)", i, R, q, (double) f.scale * n); });
            }
        }
        // query points
        V q;
        q.fill(lo);
        uint64_t cnt = 0, h = 7;
        do {
            auto p = pt(q, f);
            int pos = 1;                                       // 1 inside, 0 boundary, -1 outside
            for (uint i = 0; i < D + 1; ++i) {
                auto t = e;
                t[i] = ip(q);
                int g = sgn(volume<D>(t)) * sgn(vol);
                pos = std::min(pos, g);
            }
            bool in = s.inSimplex(p, pts);
            mc::requireF(in == (pos >= 0), [&] { return "point " + str(q) + (pos > 0 ? " inside" : pos == 0 ? " on the boundary" : " outside") + " of the simplex is reported as " + (in ? "inside" : "outside"); });
            int sph = inSphereExact<D>(e, ip(q));
            bool is = s.inSphere(p, pts);
            mc::requireF(is == (sph >= 0), [&] { return "point " + str(q) + (sph > 0 ? " inside" : sph == 0 ? " on" : " outside") + " the circumsphere is reported as " + (is ? "inside" : "outside"); });
            long best = -1;
            for (auto &x : v) { long y = 0; for (uint k = 0; k < D; ++k) y += (long) (x[k] - q[k]) * (x[k] - q[k]); if (best < 0 || y < best) best = y; }
            auto nv = s.findNearestVertex(p, pts) - 1;
            mc::requireF(nv <= D, [&] { return mc::fmt("nearest vertex is %lld", (long long) nv); });
            long y = 0;
            for (uint k = 0; k < D; ++k) y += (long) (v[nv][k] - q[k]) * (v[nv][k] - q[k]);
            mc::requireF(y == best, [&] { return "vertex " + str(v[nv]) + " is not a nearest one of " + str(q); });
            P sq = p.sqDistance(pts[nv + 1]);
            mc::requireF(sq == f.scale * f.scale * best, [&] { return mc::fmt("squared distance %g, expected %g", (double) sq, (double) (f.scale * f.scale * best)); });
            // the distance to a face vanishes exactly on its plane
            for (uint i = 0; i < D + 1; ++i) {
                auto t = e;
                t[i] = ip(q);
                P fd = s.sqDistanceToFace(i, p, pts);
                mc::requireF(fd >= 0 && (fd == 0) == (volume<D>(t) == 0), [&] { return mc::fmt("distance %g to the face opposite vertex %u, ", (double) fd, i) + "point " + str(q); });
            }
            h = mc::mix(h, (pos + 1) * 3 + sph + 1);
            ++cnt;
        } while (next(q, lo, hi));
        mc::outcome(h);
        mc::transition(cnt);
        uint64_t hs = D;
        for (auto &x : e) for (auto y : x) hs = mc::mix(hs, y);
        mc::state(hs);
    }

    static P orient(const std::vector<V> &v, const Frame<P> &f) {
        dPoints<D, P> pts;
        for (auto &x : v) pts.emplace_back(pt(x, f));
        std::array<tIdType, D + 1> ids;
        for (uint i = 0; i < D + 1; ++i) ids[i] = i + 1;
        return dSimplex<D, P>(ids).orientation(pts);
    }

    // combinatorics: two simplices over a small set of ids, including auxiliary points
    static void comb(mc::Choice &c) {
        const tIdType INF = dPoint<D, P>::cINF;
        std::vector<tIdType> ids{0, 1, 2, 33, 1000003, INF, INF + 1, INF + (1 << D) - 1};
        auto a = pickSubset(c, ids.size(), D + 1);
        c.shard();
        auto b = pickSubset(c, ids.size(), D + 1);
        std::array<tIdType, D + 1> va, vb, na, nb;
        std::set<tIdType> sa, sb;
        bool fin = true;
        for (uint i = 0; i < D + 1; ++i) {
            va[i] = ids[a[i]]; vb[i] = ids[b[i]]; sa.insert(va[i]); sb.insert(vb[i]);
            fin &= va[i] < INF;
            na[i] = 10 + i; nb[i] = 10 + i;
        }
        mc::describe(mc::fmt("D=%u ", D) + ptsStr<D + 1>({std::array<long, D + 1>(), std::array<long, D + 1>()}));
        uint shared = 0;
        for (auto x : sa) shared += sb.count(x);
        uint64_t idA = 5, idB = shared == D + 1 ? 5 : 6;
        dSimplex<D, P> x(idA, va, na), y(idB, vb, nb);
        x.genFingerprint();
        y.genFingerprint();
        mc::requireF(x.countSharedVertices(y) == shared, [&] { return mc::fmt("%u shared vertices reported, there are %u", x.countSharedVertices(y), shared); });
        mc::requireF(x.isNeighbor(y) == (shared == D), [&] { return mc::fmt("neighbour test wrong for %u shared vertices", shared); });
        mc::requireF(x.equalVertices(y) == (sa == sb), [&] { return std::string("equality of the vertices is wrong"); });
        mc::requireF((x == y) == (idA == idB), [&] { return std::string("equality is wrong"); });
        mc::requireF((x < y) == (idA < idB) && x == idA && !(x == tIdType(7)), [&] { return std::string("comparison by id is wrong"); });
        mc::requireF(x.isFinite() == fin, [&] { return std::string("finiteness is wrong"); });
        mc::requireF(x.equalNeighbors(y), [&] { return std::string("equal neighbours are reported as different"); });
        for (uint i = 0; i < D + 1; ++i) {
            auto z = y;
            z.neighbors[i] = 99;
            mc::requireF(!x.equalNeighbors(z), [&] { return std::string("different neighbours are reported as equal"); });
        }
        bool all = true, any = false;
        for (auto i : ids) {
            mc::requireF(x.contains(i) == (sa.count(i) > 0), [&] { return mc::fmt("vertex %llu: containment is wrong", (unsigned long long) i); });
        }
        for (auto i : sb) { all &= sa.count(i) > 0; any |= sa.count(i) > 0; }
        mc::requireF(x.containsAll(vb) == all && x.containsAny(vb) == any, [&] { return std::string("containment of all or any of some vertices is wrong"); });
        std::vector<tIdType> none;
        mc::requireF(x.containsAll(none) && !x.containsAny(none), [&] { return std::string("containment of all or any of no vertices is wrong"); });
        // one of the two unidentified: equality of the vertices decides
        auto u = x;
        u.id = dSimplex<D, P>::cINF;
        mc::requireF((u == y) == (sa == sb) && (y == u) == (sa == sb), [&] { return std::string("equality with a simplex without id is wrong"); });
        mc::requireF(dSimplex<D, P>::isFinite(idA) && !dSimplex<D, P>::isFinite(u.id), [&] { return std::string("validity of a simplex id is wrong"); });
        // sorting the vertices takes the neighbours along, the fingerprint does not depend on the order
        std::array<tIdType, D + 1> pv = va, pn = na;
        std::vector<int> perm;
        for (uint i = 0; i < D + 1; ++i) perm.push_back(i);
        do {
            for (uint i = 0; i < D + 1; ++i) { pv[i] = va[perm[i]]; pn[i] = na[perm[i]]; }
            dSimplex<D, P> w(idA, pv, pn);
            w.genFingerprint();
            mc::requireF(w.fingerprint() == x.fingerprint(), [&] { return std::string("fingerprint depends on the order of the vertices"); });
            w.sortVertices();
            mc::requireF(w.vertices == va && w.neighbors == na, [&] { return std::string("sorting the vertices loses the neighbours"); });
            mc::transition();
        } while (std::next_permutation(perm.begin(), perm.end()));
        // a shared face has the same fingerprint seen from both sides, and never zero
        for (uint i = 0; i < D + 1; ++i) for (uint j = 0; j < D + 1; ++j) {
            auto fa = sa, fb = sb;
            fa.erase(va[i]);
            fb.erase(vb[j]);
            mc::requireF(x.faceFingerprint(i) != 0, [&] { return std::string("fingerprint of a face is zero"); });
            if (fa == fb) mc::requireF(x.faceFingerprint(i) == y.faceFingerprint(j), [&] { return std::string("fingerprint of a shared face differs"); });
        }
        mc::outcome(shared);
        mc::state(mc::mix(mc::hashStr(std::string((char *) &va, sizeof va)), mc::hashStr(std::string((char *) &vb, sizeof vb))));
    }

    // a Delaunay triangulation of a subset of a universe, found by brute force, with gaps in the ids;
    // from every hint and for every query point the containing simplex is found
    static void walk(mc::Choice &c, int n, int k, long range) {
        static auto U = universe<D>(n, 0, range, 5);
        auto idx = pickSubset(c, n, k);
        c.shard();
        int gap = c.pick(3);
        std::vector<IP<D>> in;
        for (int i : idx) in.push_back(U[i]);
        mc::describe(mc::fmt("D=%u ids with gap %d, points ", D, gap) + ptsStr<D>(in));
        std::vector<std::vector<int>> ss;
        std::vector<int> cur;
        std::function<void(int)> rec = [&](int from) {
            if (cur.size() == D + 1) {
                std::vector<IP<D>> v;
                for (int i : cur) v.push_back(in[i]);
                for (int i = 0; i < k; ++i) if (!std::count(cur.begin(), cur.end(), i) && inSphereExact<D>(v, in[i]) > 0) return;
                ss.push_back(cur);
                return;
            }
            for (int i = from; i < k; ++i) { cur.push_back(i); rec(i + 1); cur.pop_back(); }
        };
        rec(0);
        dPoints<D, P> pts;                                       // id 0 is reserved
        fill<D, P>(pts, in);
        const tIdType INF = dSimplex<D, P>::cINF;
        // the ids: consecutive; the first ones free; every other one free
        auto idOf = [&](size_t i) { return (tIdType) (gap == 0 ? 1 + i : gap == 1 ? 4 + i : 2 + 2 * i); };
        tIdType top = idOf(ss.size());
        dSimplices<D, P> dt(1, top, 8);
        for (tIdType i = 1; i < top; ++i) {
            // an unused entry carries no id; what else it holds does not matter
            auto &s = dt.unsafe_at(i);
            s.id = INF;
            for (auto &x : s.vertices) x = 1;
            for (uint d = 0; d < D + 1; ++d) s.vertices[d] = 1 + (d < (uint) k ? d : 0);
            for (auto &x : s.neighbors) x = INF;
        }
        std::map<std::vector<int>, std::vector<size_t>> faces;
        auto face = [&](const std::vector<int> &s, uint d) { auto f = s; f.erase(f.begin() + d); return f; };
        for (size_t i = 0; i < ss.size(); ++i) for (uint d = 0; d < D + 1; ++d) faces[face(ss[i], d)].push_back(i);
        for (size_t i = 0; i < ss.size(); ++i) {
            auto &s = dt.unsafe_at(idOf(i));
            s.id = idOf(i);
            for (uint d = 0; d < D + 1; ++d) {
                s.vertices[d] = 1 + ss[i][d];
                s.neighbors[d] = INF;
                for (auto j : faces[face(ss[i], d)]) if (j != i) s.neighbors[d] = idOf(j);
            }
            s.genFingerprint();
        }
        std::vector<IP<D>> queries;
        for (auto &u : U) queries.push_back(u);
        for (long s = -1; s <= 4; ++s) for (long t = -1; t <= 4; ++t) {
            IP<D> q;
            for (uint d = 0; d < D; ++d) q[d] = (d == 0 ? s : d == 1 ? t : (s + 2 * t) % 5) * range / 4 + (long) d;
            queries.push_back(q);
        }
        uint64_t h = 3;
        for (auto &q : queries) {
            std::set<tIdType> cont;
            for (size_t i = 0; i < ss.size(); ++i) {
                std::vector<IP<D>> v;
                for (int j : ss[i]) v.push_back(in[j]);
                int o = sgn(volume<D>(v));
                bool inside = true;
                for (uint d = 0; d < D + 1; ++d) { auto w = v; w[d] = q; inside &= sgn(volume<D>(w)) * o >= 0; }
                if (inside) cont.insert(idOf(i));
            }
            dPoint<D, P> p;
            for (uint d = 0; d < D; ++d) p.coords[d] = (P) q[d];
            for (size_t hi = 0; hi <= ss.size(); ++hi) {
                tIdType r = hi == ss.size() ? dt.findNearestSimplex(p, pts) : dt.findNearestSimplex(p, pts, idOf(hi));
                std::string qs = ptsStr<D>({q});
                if (!cont.empty()) mc::requireF(cont.count(r), [&] { return "point " + qs + mc::fmt(" lies in simplex %llu, but %lld is returned (start: %s)", (unsigned long long) *cont.begin(), (long long) r, hi == ss.size() ? "default" : std::to_string(idOf(hi)).c_str()); });
                else mc::requireF(dt.unsafe_contains(r), [&] { return "point " + qs + mc::fmt(" lies in no simplex, and %lld is returned, which does not exist (start: %s)", (long long) r, hi == ss.size() ? "default" : std::to_string(idOf(hi)).c_str()); });
                h = mc::mix(h, r);
                mc::transition();
            }
        }
        mc::outcome(h);
        mc::state(h);
    }
};

MC_SCENARIO("2d", 0, 0, 3) { if (c.flag()) T<2, double>::run(c, 4, -1, 4, true); else T<2, float>::run(c, 4, -1, 4, true); }
MC_SCENARIO("3d", 0, 0, 1) { if (c.flag()) T<3, double>::run(c, 2, -1, 2, true); else T<3, float>::run(c, 2, -1, 2, true); }
MC_SCENARIO("3d-3", 0, 0, 1) { if (c.flag()) T<3, double>::run(c, 3, 0, 2, false); else T<3, float>::run(c, 3, 0, 2, false); }
MC_SCENARIO("3d-deep", 0, 0, 2) { if (c.flag()) T<3, double>::run(c, 3, -1, 3, true); else T<3, float>::run(c, 3, -1, 3, true); }
MC_SCENARIO("comb-2d", 0, 0, 3) { T<2, double>::comb(c); }
MC_SCENARIO("comb-3d", 0, 0, 3) { T<3, float>::comb(c); }
MC_SCENARIO("walk-2d", 0, 0, 3) { T<2, double>::walk(c, 9, 3 + c.pick(5), 40); }
MC_SCENARIO("walk-3d", 0, 0, 3) { T<3, double>::walk(c, 8, 4 + c.pick(4), 40); }
MC_MAIN
