// Shared by the geometric harnesses: point universes, the policy driven by the explorer, and an oracle
// for Delaunay triangulations in exact integer arithmetic that shares no code with /repo or CGAL.
#pragma once
#include "mc.hpp"
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/Logger.h"
#include <array>
#include <set>
#include <map>
#include <vector>

typedef __int128 I;

// integer point (coordinates are exactly representable, so are the auxiliary points)
template<uint D>
using IP = std::array<long, D>;

// ---- exact determinants -------------------------------------------------------------------------
inline I det(std::vector<std::vector<I>> m) {            // fraction free (Bareiss)
    size_t n = m.size();
    I prev = 1;
    int sg = 1;
    for (size_t k = 0; k + 1 < n; ++k) {
        if (m[k][k] == 0) {
            size_t r = k + 1;
            while (r < n && m[r][k] == 0) ++r;
            if (r == n) return 0;
            std::swap(m[k], m[r]);
            sg = -sg;
        }
        for (size_t i = k + 1; i < n; ++i)
            for (size_t j = k + 1; j < n; ++j)
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
        prev = m[k][k];
    }
    return m[n - 1][n - 1] * sg;
}

inline I det3(const I m[3][3]) {
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}

inline int sgn(I x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

template<uint D>
I volume(const std::vector<IP<D>> &v) {                  // D! times the signed volume
    std::vector<std::vector<I>> m(D, std::vector<I>(D));
    for (uint i = 0; i < D; ++i)
        for (uint d = 0; d < D; ++d) m[i][d] = (I) v[i + 1][d] - v[0][d];
    return det(m);
}

// > 0: q strictly inside the circumsphere of the simplex v, 0 on it, < 0 outside
template<uint D>
int inSphereExact(const std::vector<IP<D>> &v, const IP<D> &q) {
    I m[D + 1][D + 1];
    for (uint i = 0; i < D + 1; ++i) {
        I s = 0;
        for (uint d = 0; d < D; ++d) {
            m[i][d] = (I) v[i][d] - q[d];
            s += m[i][d] * m[i][d];
        }
        m[i][D] = s;
    }
    I t = 0;                                            // along the last column
    for (uint i = 0; i < D + 1; ++i) {
        I k;
        if (D == 2) {
            uint a = i == 0, b = i == 2 ? 1 : 2;
            k = m[a][0] * m[b][1] - m[a][1] * m[b][0];
        } else {
            I r[3][3];
            for (uint j = 0, o = 0; j < D + 1; ++j) if (j != i) { for (uint d = 0; d < 3; ++d) r[o][d] = m[j][d % (D + 1)]; ++o; }
            k = det3(r);
        }
        t += ((i + D) % 2 ? -1 : 1) * m[i][D] * k;
    }
    int o = sgn(volume<D>(v));
    // for a positively oriented simplex the sign convention depends on the dimension
    int conv = (D == 2) ? 1 : -1;
    return o * sgn(t) * conv;
}

template<uint D>
using Simp = std::array<tIdType, D + 1>;

// ---- deterministic universes of integer points in general position --------------------------------
// every D+1 points affinely independent, no D+2 on a sphere
template<uint D>
std::vector<IP<D>> universe(size_t n, long lo, long hi, uint64_t seed) {
    std::vector<IP<D>> u;
    uint64_t s = seed * 2654435761u + 12345;
    auto rnd = [&]() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s;
    };
    size_t guard = 0;
    while (u.size() < n && ++guard < 200000) {
        IP<D> p;
        for (uint d = 0; d < D; ++d) p[d] = lo + (long) (rnd() % (uint64_t) (hi - lo + 1));
        bool ok = true;
        // subsets of size D+1 / D+2 that contain p
        std::vector<int> idx;
        std::function<void(size_t)> rec = [&](size_t from) {
            if (!ok) return;
            if (idx.size() == D) {
                std::vector<IP<D>> v;
                for (int i : idx) v.push_back(u[i]);
                v.push_back(p);
                if (volume<D>(v) == 0) { ok = false; return; }
            }
            if (idx.size() == D + 1) {
                std::vector<IP<D>> v;
                for (int i : idx) v.push_back(u[i]);
                if (inSphereExact<D>(v, p) == 0) { ok = false; return; }
                return;
            }
            for (size_t i = from; i < u.size(); ++i) {
                idx.push_back(i);
                rec(i + 1);
                idx.pop_back();
            }
        };
        for (auto &q : u) if (q == p) ok = false;
        // no two points may agree in a coordinate
        for (auto &q : u) for (uint d = 0; d < D; ++d) if (q[d] == p[d]) ok = false;
        if (ok) rec(0);
        if (ok) u.push_back(p);
    }
    if (u.size() < n) { fprintf(stderr, "universe too dense\n"); abort(); }
    return u;
}

// k-subsets of {0..n-1} drawn from the explorer
inline std::vector<int> pickSubset(mc::Choice &c, int n, int k) {
    std::vector<int> r;
    int from = 0;
    for (int left = k; left > 0; --left) {
        int x = from + c.pick(n - left - from + 1);
        r.push_back(x);
        from = x + 1;
    }
    return r;
}

// ---- the policy: the explorer owns how work is split, ordered and assigned -------------------------
struct McPolicy : mtbb::Policy {
    mc::Choice *c;
    std::size_t leaves;
    int workers;
    uint64_t picks = 0;

    McPolicy(mc::Choice *c_, std::size_t leaves_, int workers_ = 2) : c(c_), leaves(leaves_), workers(workers_) {}

    std::size_t maxLeaves() override { return leaves; }

    std::size_t pick(std::size_t n) override {
        ++picks;
        return c ? c->dev((int) n) : 0;
    }

    int worker() override { return ctr++ % workers; }
};

static std::string setName;                             // of a large set

template<uint D>
std::string ptsStr(const std::vector<IP<D>> &p) {
    std::string s;
    if (p.size() > 64) return setName;
    for (auto &x : p) {
        s += "(";
        for (uint d = 0; d < D; ++d) s += (d ? "," : "") + std::to_string(x[d]);
        s += ")";
    }
    return s;
}

// the id of input point i; with a stride above 1 there are points that do not take part between them
// (multiples of 64: the fingerprints of simplices, exclusive or of rotated ids, collide)
static int idStride = 1;
static tIdType idOf(size_t i) { return (tIdType) idStride * (i + 1); }
struct Stride { int old; Stride(int s) : old(idStride) { idStride = s; } ~Stride() { idStride = old; } };

// the coordinates are given in units of 2^scaleExp
static int scaleExp = 0;
struct Scale { int old; Scale(int e) : old(scaleExp) { scaleExp = e; } ~Scale() { scaleExp = old; } };
template<typename P> static P scaled(long x) { return std::ldexp((P) x, scaleExp); }

template<uint D, typename Precision>
void fill(dPoints<D, Precision> &pts, const std::vector<IP<D>> &in) {
    for (auto &x : in) {
        dPoint<D, Precision> p;
        for (uint d = 0; d < D; ++d) p.coords[d] = scaled<Precision>(x[d]);
        for (int i = 0; i < idStride; ++i) pts.emplace_back(p);
    }
}

// the ids of the points that take part, including the auxiliary ones
template<uint D, typename Precision>
std::vector<tIdType> idsOf(size_t n) {
    std::vector<tIdType> r;
    for (size_t i = 0; i < n; ++i) r.push_back(idOf(i));
    for (tIdType k = dPoint<D, Precision>::cINF; k != 0; ++k) r.push_back(k);
    return r;
}

template<uint D, typename Precision>
dBox<D, Precision> boundsOf(const std::vector<IP<D>> &in) {
    dBox<D, Precision> b;
    for (uint d = 0; d < D; ++d) {
        b.low[d] = b.high[d] = scaled<Precision>(in[0][d]);
        for (auto &x : in) {
            b.low[d] = std::min(b.low[d], scaled<Precision>(x[d]));
            b.high[d] = std::max(b.high[d], scaled<Precision>(x[d]));
        }
    }
    return b;
}

struct Silence {
    Silence() { LOGGER.setLogLevel(Logger::Verbosity::SILENT); }
};
static Silence silence_;

// ---- the result as plain data -----------------------------------------------------------------------
template<uint D>
struct Plain {
    struct S {
        tIdType id;
        Simp<D> v, n;
        tHashType fp;
    };
    std::vector<S> s;
    std::vector<tIdType> hull;
    std::set<Simp<D>> verts() const {
        std::set<Simp<D>> r;
        for (auto &x : s) r.insert(x.v);
        return r;
    }
};

// all ids the result covers are probed, so this does not depend on its iterators
template<uint D, typename Precision>
Plain<D> plain(dSimplices<D, Precision> &dt) {
    Plain<D> p;
    for (auto &x : dt) p.s.push_back({x.id, x.vertices, x.neighbors, x.fingerprint()});
    p.hull.assign(dt.convexHull.begin(), dt.convexHull.end());
    return p;
}

// exact coordinates of a point id in units of 2^scaleExp/SC
static const long SC = 2;
template<uint D, typename Precision>
IP<D> exactOf(const dPoints<D, Precision> &pts, tIdType id) {
    IP<D> r;
    for (uint d = 0; d < D; ++d) {
        Precision x = std::ldexp(pts[id].coords[d], -scaleExp) * SC;
        r[d] = (long) x;
        if ((Precision) r[d] != x) throw std::logic_error("harness: non-integer coordinate");
    }
    return r;
}

// The same for many points, in linear time: no simplex is degenerate, inner facets have one simplex on each side, the
// other facets lie on the border of the box of the auxiliary points, the volumes add up. Then the simplices cover the
// box exactly once, and that they are a Delaunay triangulation follows if they are so across each facet.
template<uint D>
std::string checkDelaunayLocally(const std::set<Simp<D>> &ss, const std::map<tIdType, IP<D>> &pts, I hullVolume, bool &tie) {
    struct Side { const Simp<D> *s; uint v; };
    std::map<std::array<tIdType, D>, std::vector<Side>> faces;
    std::set<tIdType> used;
    IP<D> lo = pts.begin()->second, hi = lo;
    for (auto &q : pts) for (uint d = 0; d < D; ++d) { lo[d] = std::min(lo[d], q.second[d]); hi[d] = std::max(hi[d], q.second[d]); }
    I vol = 0;
    for (auto &s : ss) {
        std::vector<IP<D>> v;
        for (uint i = 0; i < D + 1; ++i) {
            if (i && !(s[i - 1] < s[i])) return "vertices of a simplex are not strictly sorted";
            auto it = pts.find(s[i]);
            if (it == pts.end()) return mc::fmt("simplex uses unknown point %llu", (unsigned long long) s[i]);
            v.push_back(it->second);
            used.insert(s[i]);
        }
        I w = volume<D>(v);
        if (w == 0) return "degenerate simplex";
        vol += w < 0 ? -w : w;
        for (uint d = 0; d < D + 1; ++d) {
            std::array<tIdType, D> f;
            uint k = 0;
            for (uint i = 0; i < D + 1; ++i) if (i != d) f[k++] = s[i];
            faces[f].push_back({&s, d});
        }
    }
    for (auto &q : pts) if (!used.count(q.first)) return mc::fmt("point %llu is not part of the triangulation", (unsigned long long) q.first);
    if (vol != hullVolume) return "the simplices do not tile the box of the auxiliary points exactly once (volume mismatch)";
    for (auto &f : faces) {
        if (f.second.size() > 2) return "a facet is shared by more than two simplices";
        std::vector<IP<D>> v;
        for (auto i : f.first) v.push_back(pts.at(i));
        if (f.second.size() == 1) {
            bool border = false;
            for (uint d = 0; d < D; ++d) {
                bool l = true, h = true;
                for (auto &x : v) { l &= x[d] == lo[d]; h &= x[d] == hi[d]; }
                border |= l || h;
            }
            if (!border) return "a facet inside has a simplex on one side only";
            continue;
        }
        auto a = v, b = v;
        auto &pb = pts.at((*f.second[1].s)[f.second[1].v]);
        a.push_back(pts.at((*f.second[0].s)[f.second[0].v]));
        b.push_back(pb);
        if (sgn(volume<D>(a)) == sgn(volume<D>(b))) return "two simplices on the same side of a facet";
        int r = inSphereExact<D>(a, pb);
        if (r > 0) return mc::fmt("point %llu lies strictly inside the circumsphere of a simplex", (unsigned long long) (*f.second[1].s)[f.second[1].v]);
        if (r == 0) tie = true;
    }
    return "";
}

// Full check against the definition: every simplex is non degenerate and has an empty circumsphere, the
// simplices form a proper cell complex that tiles the convex hull of the points (the volume adds up
// exactly), all points are used. Together: the simplices are a Delaunay triangulation.
template<uint D>
std::string checkDelaunay(const std::set<Simp<D>> &ss, const std::map<tIdType, IP<D>> &pts, I hullVolume, bool &tie) {
    std::map<std::array<tIdType, D>, int> faces;
    std::set<tIdType> used;
    I vol = 0;
    tie = false;
    if (pts.size() > 64) return checkDelaunayLocally<D>(ss, pts, hullVolume, tie);
    for (auto &s : ss) {
        std::vector<IP<D>> v;
        for (uint i = 0; i < D + 1; ++i) {
            if (i && !(s[i - 1] < s[i])) return "vertices of a simplex are not strictly sorted";
            auto it = pts.find(s[i]);
            if (it == pts.end()) return mc::fmt("simplex uses unknown point %llu", (unsigned long long) s[i]);
            v.push_back(it->second);
            used.insert(s[i]);
        }
        I w = volume<D>(v);
        if (w == 0) return "degenerate simplex";
        vol += w < 0 ? -w : w;
        for (auto &q : pts) {
            bool mine = false;
            for (auto x : s) mine |= x == q.first;
            if (mine) continue;
            int r = inSphereExact<D>(v, q.second);
            if (r > 0) return mc::fmt("point %llu lies strictly inside the circumsphere of a simplex", (unsigned long long) q.first);
            if (r == 0) tie = true;
        }
        for (uint d = 0; d < D + 1; ++d) {
            std::array<tIdType, D> f;
            uint k = 0;
            for (uint i = 0; i < D + 1; ++i) if (i != d) f[k++] = s[i];
            if (++faces[f] > 2) return "a facet is shared by more than two simplices";
        }
    }
    for (auto &q : pts) if (!used.count(q.first)) return mc::fmt("point %llu is not part of the triangulation", (unsigned long long) q.first);
    if (hullVolume >= 0 && vol != hullVolume) return "the simplices do not tile the convex hull exactly once (volume mismatch)";
    return "";
}

// the exact input; of points that coincide, the one that the triangulation uses
template<uint D>
std::map<tIdType, IP<D>> exactInput(const std::vector<IP<D>> &in, const std::set<Simp<D>> &got) {
    std::map<tIdType, IP<D>> ex;
    std::map<IP<D>, std::vector<tIdType>> at;
    for (size_t i = 0; i < in.size(); ++i) at[in[i]].push_back(idOf(i));
    std::set<tIdType> used;
    if (at.size() < in.size()) for (auto &s : got) used.insert(s.begin(), s.end());
    for (auto &a : at) {
        tIdType id = a.second[0];
        for (auto x : a.second) if (used.count(x)) id = x;
        for (uint d = 0; d < D; ++d) ex[id][d] = SC * a.first[d];
    }
    return ex;
}

// the book keeping of a result: ids, neighbour links, fingerprints and the list of hull simplices
template<uint D, typename Precision>
std::string checkConsistent(dSimplices<D, Precision> &dt, const Plain<D> &p) {
    std::map<tIdType, const typename Plain<D>::S *> byId;
    std::map<std::array<tIdType, D>, std::vector<tIdType>> faces;
    const tIdType INF = dSimplex<D, Precision>::cINF;
    for (auto &s : p.s) {
        if (s.id == INF) return "a listed simplex has the infinite id";
        if (!byId.insert({s.id, &s}).second) return mc::fmt("simplex id %llu occurs twice", (unsigned long long) s.id);
        if (!dt.unsafe_contains(s.id)) return mc::fmt("simplex id %llu is listed but not contained", (unsigned long long) s.id);
        if (dt.unsafe_at(s.id).vertices != s.v) return "lookup by id returns another simplex";
        for (uint i = 0; i < D; ++i) if (!(s.v[i] < s.v[i + 1])) return "vertices not sorted by id";
        dSimplex<D, Precision> t(s.v);
        if (t.genFingerprint() != s.fp) return "fingerprint does not match the vertices";
        for (uint d = 0; d < D + 1; ++d) {
            std::array<tIdType, D> f;
            uint k = 0;
            for (uint i = 0; i < D + 1; ++i) if (i != d) f[k++] = s.v[i];
            faces[f].push_back(s.id);
        }
    }
    if (dt.exact_size() != p.s.size()) return mc::fmt("the number of simplices is given as %llu instead of %zu", (unsigned long long) dt.exact_size(), p.s.size());
    for (auto &s : p.s) {
        for (uint d = 0; d < D + 1; ++d) {
            std::array<tIdType, D> f;
            uint k = 0;
            for (uint i = 0; i < D + 1; ++i) if (i != d) f[k++] = s.v[i];
            auto &o = faces[f];
            tIdType want = INF;
            for (auto x : o) if (x != s.id) want = x;
            if (o.size() > 2) return "facet with more than two simplices";
            if (s.n[d] != want)
                return mc::fmt("neighbour %u of simplex %llu is %lld, expected %lld (the simplex across the facet opposite that vertex)",
                               d, (unsigned long long) s.id, (long long) s.n[d], (long long) want);
        }
    }
    std::multiset<tIdType> hull(p.hull.begin(), p.hull.end());
    for (auto h : hull) {
        auto it = byId.find(h);
        if (it == byId.end()) return mc::fmt("hull list names simplex %llu which is not in the triangulation", (unsigned long long) h);
        if (hull.count(h) > 1) return mc::fmt("hull list names simplex %llu twice", (unsigned long long) h);
    }
    for (auto &s : p.s) {
        bool inf = false;
        for (auto v : s.v) inf |= v >= dPoint<D, Precision>::cINF;
        if (inf != (hull.count(s.id) > 0)) return mc::fmt("hull list is wrong for simplex %llu (%s an auxiliary vertex)", (unsigned long long) s.id, inf ? "has" : "has no");
    }
    return "";
}
