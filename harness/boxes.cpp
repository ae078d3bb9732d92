// G07: box tests against points, boxes and spheres, as closed sets, in exact arithmetic on a lattice.
#include "geo.hpp"
#include "load_balancing/BoxUtils.h"
#include "load_balancing/VectorOperations.h"

// lattice coordinates are multiples of 1/2 * scale, shifted by off; all of them and their squares are exact
template<typename P>
struct Frame { P scale, off; };

template<typename P>
static const std::vector<Frame<P>> &frames() {
    static std::vector<Frame<P>> f = sizeof(P) == 8
        ? std::vector<Frame<P>>{{1, 0}, {(P) 0.0009765625, -3}, {4, (P) -1048576}, {(P) 1048576, (P) 4194304}}
        : std::vector<Frame<P>>{{1, 0}, {(P) 0.0625, -3}, {4, (P) -4096}, {(P) 1024, (P) 4096}};
    return f;
}

template<uint D, typename P>
struct T {
    typedef dBox<D, P> Box;
    typedef std::array<int, D> V;

    static dVector<D, P> vec(const V &v, const Frame<P> &f) {
        dVector<D, P> r;
        for (uint d = 0; d < D; ++d) r[d] = f.off + f.scale * v[d] / 2;
        return r;
    }

    static V pickV(mc::Choice &c, int lo, int hi) {
        V v;
        for (uint d = 0; d < D; ++d) v[d] = lo + c.pick(hi - lo + 1);
        return v;
    }

    static bool next(V &v, int lo, int hi) {
        for (uint d = 0; d < D; ++d) {
            if (++v[d] <= hi) return true;
            v[d] = lo;
        }
        return false;
    }

    static void pickBox(mc::Choice &c, V &lo, V &hi, int lim) {
        for (uint d = 0; d < D; ++d) {
            lo[d] = c.pick(lim + 1);
            hi[d] = lo[d] + c.pick(lim + 1 - lo[d]);
        }
    }

    static std::string str(const V &v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }

    static void run(mc::Choice &c, int lim, int rmax) {
        auto &f = c.of(frames<P>());
        V lo, hi;
        pickBox(c, lo, hi, lim);
        c.shard();
        mc::describe(mc::fmt("D=%u %s scale %g offset %g box (in half units) ", D, sizeof(P) == 8 ? "double" : "float", (double) f.scale, (double) f.off) + str(lo) + "-" + str(hi));
        Box b(vec(lo, f), vec(hi, f));
        const int l = -lim, h = 2 * lim;
        V p;
        p.fill(l);
        uint64_t n = 0;
        do {
            auto x = vec(p, f);
            bool in = true;
            long outside = 0, face = 1 << 20;               // squared distance to the box; distance to the nearest face, if inside
            long far = 0;
            bool reach = true;
            (void) reach;
            for (uint d = 0; d < D; ++d) {
                int e = std::max({lo[d] - p[d], p[d] - hi[d], 0});
                in &= e == 0;
                outside += (long) e * e;
                face = std::min<long>(face, std::min(p[d] - lo[d], hi[d] - p[d]));
                far = std::max<long>(far, std::max(p[d] - lo[d], hi[d] - p[d]));
            }
            mc::requireF(b.contains(x) == in, [&] { return "point " + str(p) + (in ? " lies in the box, but is reported as outside" : " lies outside the box, but is reported as inside"); });
            for (int r = 0; r <= rmax; ++r) {
                dSphere<D, P> s;
                s.center = x;
                s.radius = f.scale * r / 2;
                bool meet = outside <= (long) r * r, cont = in && face >= r;
                mc::requireF(b.intersects(s) == meet, [&] { return "sphere around " + str(p) + mc::fmt(" of radius %d ", r) + (meet ? "meets the box, but is reported not to" : "does not meet the box, but is reported to"); });
                mc::requireF(b.contains(s) == cont, [&] { return "sphere around " + str(p) + mc::fmt(" of radius %d ", r) + (cont ? "lies in the box, but is reported not to" : "does not lie in the box, but is reported to"); });
                ++n;
                mc::outcome(mc::mix(mc::mix(in, meet), cont));
            }
            // radii just short of and just beyond touching
            if (!in) {
                long double dist = sqrtl((long double) outside);
                for (int k = -1; k <= 1; k += 2) {
                    dSphere<D, P> s;
                    s.center = x;
                    s.radius = (P) (f.scale / 2 * (dist * (1 + k * (sizeof(P) == 8 ? 1e-12L : 1e-4L))));
                    mc::requireF(b.intersects(s) == (k > 0), [&] { return "sphere around " + str(p) + (k > 0 ? " that just meets the box is reported not to" : " that just misses the box is reported to meet it"); });
                    mc::requireF(!b.contains(s), [&] { return "sphere around " + str(p) + " lies not in the box, but is reported to"; });
                    ++n;
                }
            } else {
                for (int k = -1; k <= 1; k += 2) {
                    dSphere<D, P> s;
                    s.center = x;
                    s.radius = (P) (f.scale / 2 * ((long double) face * (1 + k * (sizeof(P) == 8 ? 1e-12L : 1e-4L))));
                    mc::requireF(b.intersects(s), [&] { return "sphere around a point of the box is reported not to meet it"; });
                    mc::requireF(b.contains(s) == (k < 0 || face == 0), [&] { return "sphere around " + str(p) + (k < 0 ? " just inside of the box is reported not to be contained" : " that just sticks out of the box is reported as contained"); });
                    ++n;
                }
            }
            if constexpr (std::is_same<P, double>::value) {
                // the vectors to the box and to its boundary (up to reflections): their length is the distance
                auto v = LoadBalancing::vecToBox<D, P>(x, b);
                P q = lenSquared(v);
                P want = f.scale * f.scale / 4 * outside;
                mc::requireF(q == want, [&] { return "vector from " + str(p) + mc::fmt(" to the box has squared length %g instead of %g", (double) q, (double) want); });
                auto w = LoadBalancing::vecToBoxBoundary<D, P>(x, b);
                q = lenSquared(w);
                if (in) want = f.scale * f.scale / 4 * face * face;
                mc::requireF(q == want, [&] { return "vector from " + str(p) + mc::fmt(" to the boundary of the box has squared length %g instead of %g", (double) q, (double) want); });
            }
        } while (next(p, l, h));
        mc::transition(n);
        mc::state(mc::hashStr(str(lo) + str(hi)) ^ D);
    }

    static void boxes(mc::Choice &c, int lim) {
        auto &f = c.of(frames<P>());
        V lo, hi;
        pickBox(c, lo, hi, lim);
        c.shard();
        mc::describe(mc::fmt("D=%u %s box ", D, sizeof(P) == 8 ? "double" : "float") + str(lo) + "-" + str(hi));
        Box b(vec(lo, f), vec(hi, f));
        V l2, h2;
        l2.fill(-1);
        uint64_t n = 0;
        do {
            h2 = l2;
            do {
                bool ok = true, cont = true, same = true;
                for (uint d = 0; d < D; ++d) {
                    ok &= l2[d] <= h2[d];
                    cont &= lo[d] <= l2[d] && h2[d] <= hi[d];
                    same &= lo[d] == l2[d] && h2[d] == hi[d];
                }
                if (!ok) continue;
                ++n;
                Box o(vec(l2, f), vec(h2, f));
                mc::requireF(b.contains(o) == cont, [&] { return "box " + str(l2) + "-" + str(h2) + (cont ? " is contained, but reported not to be" : " is not contained, but reported to be"); });
                mc::requireF((b == o) == same, [&] { return "box " + str(l2) + "-" + str(h2) + " is compared wrongly"; });
                // bounding box of two corners, of one and of many points
                std::vector<dVector<D, P>> pts{vec(l2, f), vec(hi, f), vec(lo, f), vec(h2, f)};
                auto bb = LoadBalancing::makeBoundingBox(pts.begin(), pts.end());
                for (uint d = 0; d < D; ++d) {
                    P wl = f.off + f.scale * std::min(lo[d], l2[d]) / 2, wh = f.off + f.scale * std::max(hi[d], h2[d]) / 2;
                    mc::requireF(bb.low[d] == wl && bb.high[d] == wh, [&] { return "bounding box of the corners of box " + str(l2) + "-" + str(h2) + " and this one is wrong"; });
                }
                auto one = LoadBalancing::makeBoundingBox(pts.begin(), pts.begin() + 1);
                mc::requireF(one == Box(pts[0], pts[0]), [&] { return std::string("bounding box of one point is wrong"); });
                if (!cont || same) continue;
                // subtract a part that differs in one face only
                int diff = 0, dim = -1;
                bool low = false;
                for (uint d = 0; d < D; ++d) {
                    if (lo[d] != l2[d]) ++diff, dim = d, low = true;
                    if (hi[d] != h2[d]) ++diff, dim = d, low = false;
                }
                if (diff != 1) continue;
                V rl = lo, rh = hi;
                if (low) rh[dim] = l2[dim]; else rl[dim] = h2[dim];
                Box r = b - o;
                mc::requireF(r == Box(vec(rl, f), vec(rh, f)), [&] { return "subtracting box " + str(l2) + "-" + str(h2) + " yields a wrong box"; });
                auto sp = LoadBalancing::splitBox<D, P>(b, dim, low ? o.low[dim] : o.high[dim]);
                mc::requireF(std::get<0>(sp) == (low ? r : o) && std::get<1>(sp) == (low ? o : r), [&] { return mc::fmt("splitting the box at %g in dimension %d yields wrong parts", (double) (low ? o.low[dim] : o.high[dim]), dim); });
            } while (next2(h2, l2, lim + 1));
        } while (next(l2, -1, lim + 1));
        mc::transition(n);
        mc::state(mc::hashStr(str(lo) + str(hi)) ^ D);
    }

    static bool next2(V &v, const V &lo, int hi) {
        for (uint d = 0; d < D; ++d) {
            if (++v[d] <= hi) return true;
            v[d] = lo[d];
        }
        return false;
    }
};

MC_SCENARIO("2d", 0, 0, 1) { if (c.flag()) T<2, double>::run(c, 5, 14); else T<2, float>::run(c, 5, 14); }
MC_SCENARIO("3d", 0, 0, 1) { if (c.flag()) T<3, double>::run(c, 3, 9); else T<3, float>::run(c, 3, 9); }
MC_SCENARIO("2d-deep", 0, 0, 2) { if (c.flag()) T<2, double>::run(c, 9, 28); else T<2, float>::run(c, 9, 28); }
MC_SCENARIO("3d-deep", 0, 0, 2) { if (c.flag()) T<3, double>::run(c, 4, 12); else T<3, float>::run(c, 4, 12); }
MC_SCENARIO("boxes-2d", 0, 0, 3) { if (c.flag()) T<2, double>::boxes(c, 4); else T<2, float>::boxes(c, 4); }
MC_SCENARIO("boxes-3d", 0, 0, 3) { if (c.flag()) T<3, double>::boxes(c, 2); else T<3, float>::boxes(c, 2); }
MC_MAIN
