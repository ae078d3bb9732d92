// G04: dSimplices::verify and crossCheck on Delaunay triangulations and on every single corruption of them, against
// the definition evaluated on plain data.
#include "geo.hpp"
#include "CGALTriangulator.h"
#include "utils/Random.h"
#include "utils/MakeIds.h"
#include "reseed.hpp"

static const tIdType NONE = ~(tIdType) 0;

template<uint D>
struct Mesh {
    struct S { tIdType id; Simp<D> v, n; };
    std::vector<S> s;
    std::vector<tIdType> hull;
};

template<uint D>
std::array<tIdType, D> facet(const Simp<D> &v, uint i) {
    std::array<tIdType, D> f;
    uint k = 0;
    for (uint j = 0; j < D + 1; ++j) if (j != i) f[k++] = v[j];
    return f;
}

template<uint D, typename P>
struct World {
    std::vector<IP<D>> in;
    dPoints<D, P> pts;
    std::map<tIdType, IP<D>> ex;
    std::vector<tIdType> ids;      // triangulated points
    Mesh<D> base;

    World(const std::vector<IP<D>> &in_, bool aux) : in(in_) {
        startGen.seed(START_SEED);
        dSimplices<D, P>::simplexID = 1;
        fill<D, P>(pts, in);
        for (uint i = 0; i < (1u << D); ++i) {
            for (uint d = 0; d < D; ++d) pts[dPoint<D, P>::cINF | i].coords[d] = (i >> d & 1) ? 1000 + 7 * (int) d : -1000 - 3 * (int) d;
            if (aux) ids.push_back(dPoint<D, P>::cINF | i);
        }
        for (size_t i = 0; i < in.size(); ++i) ids.push_back(idOf(i));
        for (auto i : ids) ex[i] = exactOf<D, P>(pts, i);
        CGALTriangulator<D, P, false> t(boundsOf<D, P>(in), pts, 1);
        auto dt = static_cast<Triangulator<D, P> &>(t).triangulate(ids);
        std::map<tIdType, tIdType> re;
        auto p = plain<D>(dt);
        for (auto &x : p.s) re.insert({x.id, re.size() + 2});
        for (auto &x : p.s) {
            auto n = x.n;
            for (auto &y : n) if (y != NONE) y = re.at(y);
            base.s.push_back({re.at(x.id), x.v, n});
        }
        for (auto h : p.hull) base.hull.push_back(re.at(h));
        free = re.size() + 2;
    }
    tIdType free;                  // an id nobody has

    dSimplices<D, P> make(const Mesh<D> &m, tIdType shift = 0) const {
        dSimplices<D, P> r(1 + shift, free + 2 + shift, m.hull.size());
        for (auto &s : m.s) {
            dSimplex<D, P> x(s.id + shift, s.v, s.n);
            for (auto &y : x.neighbors) if (y != NONE) y += shift;
            x.genFingerprint();
            r.unsafe_at(s.id + shift) = x;
        }
        for (auto h : m.hull) r.convexHull.push_back(h + shift);
        return r;
    }

    // the definition; 0 not valid, 1 valid, 2 not specified (a degenerate simplex that nothing else gives away)
    int valid(const Mesh<D> &m, const std::set<tIdType> *sub, std::string &why) const {
        std::set<tIdType> used, input;
        std::map<tIdType, const typename Mesh<D>::S *> at;
        std::map<std::array<tIdType, D>, std::vector<tIdType>> f;
        std::set<Simp<D>> seen;
        bool deg = false;
        if (sub) input = *sub; else for (size_t i = 0; i < in.size(); ++i) input.insert(idOf(i));
        for (auto &s : m.s) {
            used.insert(s.v.begin(), s.v.end());
            at[s.id] = &s;
            if (!seen.insert(s.v).second) { why = "duplicate"; return 0; }
            for (uint i = 0; i < D + 1; ++i) f[facet<D>(s.v, i)].push_back(s.id);
        }
        auto fin = [](tIdType v) { return v < dPoint<D, P>::cINF; };
        for (auto i : input) if (fin(i) && !used.count(i)) { why = "unused point"; return 0; }
        for (auto i : used) if (fin(i) && !input.count(i)) { why = "foreign point"; return 0; }
        std::set<tIdType> hull(m.hull.begin(), m.hull.end());
        for (auto &s : m.s) {
            bool inf = false;
            for (auto v : s.v) inf |= !fin(v);
            if (inf != (hull.count(s.id) > 0)) { why = "hull list"; return 0; }
        }
        for (auto h : hull) if (!at.count(h)) { why = "hull list"; return 0; }
        for (auto &s : m.s) {
            std::vector<IP<D>> c;
            for (auto v : s.v) c.push_back(ex.at(v));
            deg |= volume<D>(c) == 0;
            for (uint i = 0; i < D + 1; ++i) {
                auto &o = f[facet<D>(s.v, i)];
                tIdType want = NONE;
                for (auto x : o) if (x != s.id) want = x;
                if (o.size() > 2 || s.n[i] != want) { why = "neighbour"; return 0; }
            }
        }
        for (auto &s : m.s) {
            std::vector<IP<D>> c;
            for (auto v : s.v) c.push_back(ex.at(v));
            if (volume<D>(c) == 0) continue;
            for (auto n : s.n) if (n != NONE) for (auto v : at.at(n)->v) {
                if (!fin(v) || std::find(s.v.begin(), s.v.end(), v) != s.v.end()) continue;
                if (inSphereExact<D>(c, ex.at(v)) > 0) { why = "circumsphere"; return 0; }
            }
        }
        why = "";
        return deg ? 2 : 1;
    }

    void check(mc::Choice &c, const Mesh<D> &m, const std::string &what, int sub, bool cross) {
        mc::describe(mc::fmt("D=%u %s ids multiples of %d: ", D, sizeof(P) == 4 ? "float" : "double", idStride) + what + " points=" + ptsStr<D>(in));
        McPolicy pol(&c, 3);
        mtbb::ScopedPolicy sp(&pol);
        auto dt = make(m);
        std::string why;
        if (!cross) {
            Point_Ids pi(4 * ids.size());
            std::set<tIdType> ss;
            if (sub) {             // a list of all points, or a proper subset: the last point is not listed
                for (auto i : ids) if (sub == 2 || i != idOf(in.size() - 1)) { pi.insert(i); ss.insert(i); }
            }
            int want = valid(m, sub ? &ss : nullptr, why);
            auto r = dt.verify(pts, sub ? &pi : nullptr);
            if (want < 2) mc::requireF(r.valid == (want == 1), [&] { return std::string(r.valid ? "verify accepts a flawed triangulation: " : "verify rejects a correct triangulation") + why; });
            if (r.valid) mc::requireF(r.inCircle.empty() && r.duplicates.empty() && r.wrongNeighbors.empty(), [&] { return std::string("valid, but flaws are listed"); });
            if (want == 0) {
                if (why == "duplicate") mc::requireF(!r.duplicates.empty(), [&] { return std::string("the duplicate is not listed"); });
                if (why == "neighbour") mc::requireF(!r.wrongNeighbors.empty(), [&] { return std::string("the wrong neighbour is not listed"); });
                if (why == "circumsphere") mc::requireF(!r.inCircle.empty(), [&] { return std::string("the point in the circumsphere is not listed"); });
            }
            mc::count("verify: " + (want == 2 ? std::string("unspecified") : want ? std::string("valid") : why));
        } else {
            // both ways, with the same and with disjoint ids
            for (int dir = 0; dir < 2; ++dir) for (tIdType shift : {(tIdType) 0, free + 5}) {
                auto ref = make(base, shift);
                auto r = dir ? ref.crossCheck(dt) : dt.crossCheck(ref);
                auto &mine = dir ? base : m, &real = dir ? m : base;
                std::set<Simp<D>> a, b, mis, inv, gmis, ginv;
                for (auto &s : mine.s) a.insert(s.v);
                for (auto &s : real.s) b.insert(s.v);
                for (auto &s : b) if (!a.count(s)) mis.insert(s);
                for (auto &s : a) if (!b.count(s)) inv.insert(s);
                for (auto &s : r.missing) gmis.insert(s.vertices);
                for (auto &s : r.invalid) ginv.insert(s.vertices);
                mc::requireF(gmis == mis && gmis.size() == r.missing.size(), [&] { return mc::fmt("crossCheck lists %zu missing simplices, there are %zu", r.missing.size(), mis.size()); });
                mc::requireF(ginv == inv && ginv.size() == r.invalid.size(), [&] { return mc::fmt("crossCheck lists %zu superfluous simplices, there are %zu", r.invalid.size(), inv.size()); });
                bool same = mis.empty() && inv.empty() && mine.s.size() == real.s.size();
                if (!same) mc::requireF(!r.valid, [&] { return std::string("crossCheck accepts different triangulations"); });
                bool links = true;
                for (auto &s : mine.s) for (auto &t : real.s) if (s.v == t.v) links &= s.n == t.n;
                if (same && links) mc::requireF(r.valid, [&] { return std::string("crossCheck rejects an identical triangulation"); });
                mc::count(r.valid ? "crossCheck: clean" : "crossCheck: differs");
            }
        }
        mc::transition(m.s.size());
        uint64_t h = D;
        for (auto &s : m.s) { for (auto v : s.v) h = mc::mix(h, v); for (auto n : s.n) h = mc::mix(h, n); }
        for (auto x : m.hull) h = mc::mix(h, x);
        mc::state(h);
        mc::outcome(mc::mix(std::hash<std::string>()(why), cross));
    }

    // relink: neighbour links computed from the facets
    static void relink(Mesh<D> &m) {
        std::map<std::array<tIdType, D>, std::vector<tIdType>> f;
        for (auto &s : m.s) for (uint i = 0; i < D + 1; ++i) f[facet<D>(s.v, i)].push_back(s.id);
        for (auto &s : m.s) for (uint i = 0; i < D + 1; ++i) {
            s.n[i] = NONE;
            for (auto x : f[facet<D>(s.v, i)]) if (x != s.id) s.n[i] = x;
        }
        m.hull.clear();
        for (auto &s : m.s) if (s.v[D] >= dPoint<D, P>::cINF) m.hull.push_back(s.id);
    }

    void run(mc::Choice &c) {
        bool cross = c.flag();
        int sub = cross ? 0 : idStride == 1 ? c.pick(3) : 1 + c.pick(2);
        Mesh<D> m = base;
        std::vector<tIdType> all = ids;
        std::sort(all.begin(), all.end());
        int kind = c.pick(9);
        auto pickS = [&]() -> typename Mesh<D>::S & { if (m.s.empty()) throw mc::Skip(); return m.s[c.pick((int) m.s.size())]; };
        std::string what;
        switch (kind) {
        case 0: what = "unchanged"; break;
        case 1: {                                    // another vertex
            auto &s = pickS();
            uint j = c.pick(D + 1);
            tIdType v = all[c.pick((int) all.size())];
            if (std::find(s.v.begin(), s.v.end(), v) != s.v.end()) throw mc::Skip();
            what = mc::fmt("vertex %u of simplex %d := %lld", j, (int) s.id, (long long) v);
            s.v[j] = v;
            for (uint i = 1; i < D + 1; ++i) for (uint k = i; k > 0 && s.v[k - 1] > s.v[k]; --k) { std::swap(s.v[k - 1], s.v[k]); std::swap(s.n[k - 1], s.n[k]); }
            if (c.flag()) { relink(m); what += ", links adapted"; }
            break;
        }
        case 2: {                                    // simplex missing
            int i = c.pick((int) m.s.size());
            what = mc::fmt("simplex %d dropped", (int) m.s[i].id);
            m.s.erase(m.s.begin() + i);
            if (c.flag()) { relink(m); what += ", links adapted"; }
            break;
        }
        case 3: {                                    // simplex twice
            auto s = pickS();
            what = mc::fmt("simplex %d duplicated", (int) s.id);
            s.id = free;
            m.s.push_back(s);
            if (std::find(m.hull.begin(), m.hull.end(), m.s.back().id) == m.hull.end() && s.v[D] >= dPoint<D, P>::cINF) m.hull.push_back(free);
            break;
        }
        case 4: {                                    // additional simplex
            Simp<D> v;
            int last = -1;
            for (uint i = 0; i < D + 1; ++i) {
                if (last + 1 >= (int) all.size()) throw mc::Skip();
                last = last + 1 + c.pick((int) all.size() - last - 1);
                v[i] = all[last];
            }
            for (auto &s : m.s) if (s.v == v) throw mc::Skip();
            what = "additional simplex";
            for (auto x : v) what += " " + std::to_string((long long) x);
            typename Mesh<D>::S s{free, v, {}};
            s.n.fill(NONE);
            m.s.push_back(s);
            if (c.flag()) { relink(m); what += ", links adapted"; }
            else if (v[D] >= dPoint<D, P>::cINF) m.hull.push_back(free);
            break;
        }
        case 5: {                                    // neighbour link
            auto &s = pickS();
            uint j = c.pick(D + 1);
            int k = c.pick((int) free + 2);
            s.n[j] = k == 0 ? NONE : k == 1 ? free + 100 : (tIdType) k;
            what = mc::fmt("neighbour %u of simplex %d := %lld", j, (int) s.id, (long long) s.n[j]);
            break;
        }
        case 6: {                                    // links exchanged
            auto &s = pickS();
            uint j = c.pick(D), k = j + 1 + c.pick(D - j);
            std::swap(s.n[j], s.n[k]);
            what = mc::fmt("neighbours %u and %u of simplex %d exchanged", j, k, (int) s.id);
            break;
        }
        case 7: {                                    // hull list
            if (m.hull.empty()) throw mc::Skip();
            int j = c.pick((int) m.hull.size());
            what = mc::fmt("hull entry %d dropped", (int) m.hull[j]);
            m.hull.erase(m.hull.begin() + j);
            break;
        }
        default: {
            auto &s = pickS();
            if (std::find(m.hull.begin(), m.hull.end(), s.id) != m.hull.end()) throw mc::Skip();
            what = mc::fmt("hull entry %d added", (int) s.id);
            m.hull.push_back(s.id);
        }
        }
        check(c, m, what, sub, cross);
    }
};

static const std::vector<IP<2>> &U2() { static auto u = universe<2>(9, 0, 60, 7); return u; }
static const std::vector<IP<3>> &U3() { static auto u = universe<3>(8, 0, 60, 11); return u; }

template<uint D, typename P>
void general(mc::Choice &c, const std::vector<IP<D>> &u, int n, int k) {
    std::vector<IP<D>> in;
    for (int i : pickSubset(c, n, k)) in.push_back(u[i]);
    bool aux = c.flag();
    static std::map<std::tuple<std::vector<IP<D>>, bool, int>, World<D, P> *> cache;   // the same for every execution with these points
    auto &w = cache[{in, aux, idStride}];
    if (!w) w = new World<D, P>(in, aux);
    World<D, P> x = *w;
    x.run(c);
}

template<uint D, typename P>
void lattice(mc::Choice &c, int n, int k) {
    std::vector<IP<D>> u;
    int total = 1;
    for (uint d = 0; d < D; ++d) total *= n;
    for (int i = 0; i < total; ++i) {
        IP<D> p;
        int r = i;
        for (uint d = 0; d < D; ++d) { p[d] = r % n; r /= n; }
        u.push_back(p);
    }
    general<D, P>(c, u, total, k);
}

MC_SCENARIO("2d", 0, 0, 3) { general<2, double>(c, U2(), mc::thorough() ? 9 : 7, 6); }
MC_SCENARIO("2d small", 0, 0, 3) { general<2, double>(c, U2(), mc::thorough() ? 6 : 5, 3 + c.pick(2)); }
MC_SCENARIO("3d", 0, 0, 3) { general<3, double>(c, U3(), mc::thorough() ? 7 : 5, 5); }
MC_SCENARIO("2d float", 0, 0, 3) { general<2, float>(c, U2(), 6, 5); }
MC_SCENARIO("3d float", 0, 0, 3) { general<3, float>(c, U3(), mc::thorough() ? 6 : 5, mc::thorough() ? 5 : 4); }
MC_SCENARIO("2d lattice", 0, 0, 3) { lattice<2, double>(c, 3, mc::thorough() ? 6 : 9); }
MC_SCENARIO("3d lattice", 0, 0, 3) { lattice<3, double>(c, 2, mc::thorough() ? 7 : 8); }
// ids whose exclusive or vanishes: different simplices and facets have the same fingerprint
MC_SCENARIO("2d colliding", 0, 0, 3) { Stride st(64); general<2, double>(c, U2(), mc::thorough() ? 8 : 6, 6); }
MC_SCENARIO("3d colliding", 0, 0, 3) { Stride st(64); general<3, double>(c, U3(), mc::thorough() ? 7 : 5, 5); }
MC_SCENARIO("2d orders", 1, 1, 3) { general<2, double>(c, U2(), 5, 5); }
MC_MAIN
