// U07: what is stored is read back bit by bit; every truncation of an archive and every failing write is reported.
#include "mc.hpp"
#include "Geometry.h"
#include "Partitioner.h"
#include "datastructures/VectorAdapter.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Bit_Set.hxx"
#include "utils/Serialization.hxx"
#include "utils/Random.h"
#include <sys/stat.h>
#include "reseed.hpp"

static std::string scratch() {
    static std::string s;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        s = mc::fmt("/dev/shm/pdt-store-%d", (int) owner);
        atexit([] { unlink(s.c_str()); });
    }
    return s;
}
struct Gone { ~Gone() { unlink(scratch().c_str()); } };

static std::string slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), {});
}
static void spit(const std::string &f, const char *d, size_t n) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(d, n);
}

// writes beyond the limit fail, as on a full disk
struct Limit {
    rlimit old;
    Limit(size_t n) {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit l = old;
        l.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};

template<typename T, size_t N>
static bool same(const std::array<T, N> &a, const std::array<T, N> &b) { return memcmp(a.data(), b.data(), sizeof(T) * N) == 0; }
template<uint D, typename P>
static bool same(const dPoint<D, P> &a, const dPoint<D, P> &b) { return same(a.coords, b.coords); }
template<typename P>
static bool sameBits(P a, P b) { return memcmp(&a, &b, sizeof a) == 0; }

// through the archive in memory, and every truncation of it
template<typename T, typename Make, typename Eq>
static void archive(const T &o, const Make &make, const Eq &eq, const char *what) {
    std::string bytes;
    {
        std::ostringstream s;
        { boost::archive::binary_oarchive a(s); a << o; }
        bytes = s.str();
    }
    auto load = [&](size_t n, T &t) {
        std::istringstream s(bytes.substr(0, n));
        boost::archive::binary_iarchive a(s);
        a >> t;
    };
    {
        T t(make());
        load(bytes.size(), t);
        mc::requireF(eq(o, t), [&] { return mc::fmt("%s read back from the archive differ", what); });
    }
    for (size_t n = 0; n < bytes.size(); ++n) {
        bool thrown = false;
        try { T t(make()); load(n, t); } catch (std::exception &) { thrown = true; }
        mc::requireF(thrown, [&] { return mc::fmt("%s: no error although only %zu of %zu bytes are there", what, n, bytes.size()); });
        mc::transition();
    }
}

// through a file: every truncation, every size limit of the medium
template<typename T, typename Eq>
static void file(T &o, const Eq &eq, const char *what, bool faults) {
    Gone gone;
    std::string f = scratch();
    storeObject(o, f);
    std::string bytes = slurp(f);
    {
        T t(loadObject<T>(f));
        mc::requireF(eq(o, t), [&] { return mc::fmt("%s read back from the file differ", what); });
    }
    for (size_t n = 0; n < bytes.size(); ++n) {
        spit(f, bytes.data(), n);
        bool thrown = false;
        try { T t(loadObject<T>(f)); } catch (std::exception &) { thrown = true; }
        mc::requireF(thrown, [&] { return mc::fmt("%s: no error although the file has only %zu of %zu bytes", what, n, bytes.size()); });
        mc::transition();
    }
    // a longer file that was there before does not shine through
    std::string longer(bytes.size() + 100, 'x');
    spit(f, longer.data(), longer.size());
    storeObject(o, f);
    mc::requireF(slurp(f) == bytes, [&] { return mc::fmt("%s: a file that existed was not replaced", what); });
    if (faults) for (size_t n = 0; n <= bytes.size(); ++n) {
        bool thrown = false;
        {
            Limit l(n);
            try { storeObject(o, f); } catch (std::exception &) { thrown = true; }
        }
        mc::requireF(thrown == (n < bytes.size()), [&] {
            return mc::fmt(thrown ? "%s: storing fails although there is space for %zu of %zu bytes" : "%s: no error when storing although only %zu of %zu bytes could be written", what, n, bytes.size());
        });
        if (!thrown) mc::requireF(slurp(f) == bytes, [&] { return mc::fmt("%s: stored incompletely without an error", what); });
        mc::transition();
    }
    unlink(f.c_str());
    bool thrown = false;
    try { T t(loadObject<T>(f)); } catch (std::exception &) { thrown = true; }
    mc::requireF(thrown, [&] { return mc::fmt("%s: no error although the file does not exist", what); });
    thrown = false;
    try { storeObject(o, f + "-no/such/directory"); } catch (std::exception &) { thrown = true; }
    mc::requireF(thrown, [&] { return mc::fmt("%s: no error although the file cannot be created", what); });
}

template<typename P>
static const std::vector<P> &values() {
    typedef std::numeric_limits<P> L;
    static const std::vector<P> v = {0, (P) -0.0, (P) 1.5, (P) -0.1, L::min(), L::denorm_min(), L::max(), L::lowest(), (P) 1 + L::epsilon(), (P) 123456.789, L::infinity()};
    return v;
}

template<uint D, typename P>
static void points(mc::Choice &c) {
    size_t n = c.pick(mc::thorough() ? 4 : 3);
    size_t off = c.of(std::vector<size_t>{0, 1, 1000});
    const auto &V = values<P>();
    size_t v = c.pick(V.size()), step = c.pick((size_t) 3);
    c.shard();
    mc::describe(mc::fmt("%uD points of %zu bytes, %zu of them, offset %zu, value %zu step %zu", D, sizeof(P), n, off, v, step));
    dPoints<D, P> p;
    for (size_t i = 0; i < n; ++i) {
        dPoint<D, P> q;
        for (uint d = 0; d < D; ++d) q.coords[d] = V[(v + step * (i * D + d)) % V.size()];
        p.emplace_back(q);
    }
    p.offset(off);
    for (uint i = 0; i < dPoint<D, P>::nINF; ++i)
        for (uint d = 0; d < D; ++d) p[dPoint<D, P>::cINF + i].coords[d] = V[(v + i + 3 * d) % V.size()];
    auto eq = [&](const dPoints<D, P> &a, const dPoints<D, P> &b) {
        if (a.finite_size() != b.finite_size() || a.offset() != b.offset() || a.size() != b.size()) return false;
        for (size_t i = 0; i < a.finite_size(); ++i) if (!same(a[off + i], b[off + i])) return false;
        for (uint i = 0; i < dPoint<D, P>::nINF; ++i) if (!same(a[dPoint<D, P>::cINF + i], b[dPoint<D, P>::cINF + i])) return false;
        return true;
    };
    archive(p, [] { return dPoints<D, P>(); }, eq, "points");
    file(p, eq, "points", n < 2);
    mc::state(mc::hashStr(mc::fmt("%u %zu %zu %zu %zu %zu", D, sizeof(P), n, off, v, step)));
}
MC_SCENARIO("points 2D double", 0, 0, 3) { points<2, double>(c); }
MC_SCENARIO("points 3D double", 0, 0, 3) { points<3, double>(c); }
MC_SCENARIO("points 2D float", 0, 0, 3) { points<2, float>(c); }
MC_SCENARIO("points 3D float", 0, 0, 3) { points<3, float>(c); }

// more than a stream buffer of points: failures amidst the archive
MC_SCENARIO("many points", 0, 0, 3) {
    size_t n = c.of(mc::thorough() ? std::vector<size_t>{500, 511, 512, 600, 5000} : std::vector<size_t>{520, 2000});
    size_t k = c.pick(mc::thorough() ? 120 : 30);
    c.shard();
    Gone gone;
    dPoints<2, double> p;
    for (size_t i = 0; i < n; ++i) p.emplace_back(dPoint<2, double>({(double) i, -(double) i}));
    std::string f = scratch();
    storeObject(p, f);
    std::string bytes = slurp(f);
    size_t cut = k * (bytes.size() - 1) / ((mc::thorough() ? 120 : 30) - 1);
    mc::describe(mc::fmt("%zu points, %zu of %zu bytes", n, cut, bytes.size()));
    bool thrown = false;
    spit(f, bytes.data(), cut);
    try { loadObject<dPoints<2, double>>(f); } catch (std::exception &) { thrown = true; }
    mc::requireF(thrown, [] { return std::string("a truncated file is loaded without an error"); });
    thrown = false;
    {
        Limit l(cut);
        try { storeObject(p, f); } catch (std::exception &) { thrown = true; }
    }
    mc::requireF(thrown, [] { return std::string("no error although the file could not be written completely"); });
    mc::state(mc::mix(n, k));
}

// ---- geometric objects -----------------------------------------------------------------------------------
template<uint D, typename P>
static void objects(mc::Choice &c) {
    const auto &V = values<P>();
    size_t v = c.pick(V.size()), step = 1 + c.pick((size_t) 3);
    c.shard();
    mc::describe(mc::fmt("%uD objects of %zu bytes, value %zu step %zu", D, sizeof(P), v, step));
    size_t k = 0;
    auto next = [&] { return V[(v + step * k++) % V.size()]; };
    auto vec = [&] { dVector<D, P> x; for (auto &y : x) y = next(); return x; };
    auto eqBox = [](const dBox<D, P> &a, const dBox<D, P> &b) { return same(a.low, b.low) && same(a.high, b.high); };
    dBox<D, P> box(vec(), vec());
    archive(box, [] { return dBox<D, P>(); }, eqBox, "boxes");
    dSphere<D, P> sp;
    sp.center = vec();
    sp.radius = next();
    archive(sp, [] { return dSphere<D, P>(); }, [](const dSphere<D, P> &a, const dSphere<D, P> &b) { return same(a.center, b.center) && sameBits(a.radius, b.radius); }, "spheres");
    dPoint<D, P> pt(vec());
    archive(pt, [] { return dPoint<D, P>(); }, [](const dPoint<D, P> &a, const dPoint<D, P> &b) { return same(a, b); }, "points");
    dPointStats<D, P> st;
    st.min = vec(); st.mid = vec(); st.max = vec();
    archive(st, [] { return dPointStats<D, P>(); }, [](const dPointStats<D, P> &a, const dPointStats<D, P> &b) { return same(a.min, b.min) && same(a.mid, b.mid) && same(a.max, b.max); }, "statistics");
    for (size_t n = 0; n < 4; ++n) {
        Point_Ids ids;
        for (size_t i = 0; i < n; ++i) ids.insert(1 + i * (v + 1));
        Partition<D, P> part(ids, box, v);
        archive(part, [] { return Partition<D, P>((std::size_t) 1); }, [&](const Partition<D, P> &a, const Partition<D, P> &b) {
            return a.id == b.id && eqBox(a.bounds, b.bounds) && a.points == b.points && b.points == a.points;
        }, "partitions");
    }
    mc::state(mc::mix(mc::mix(D * 8 + sizeof(P), v), step));
}
MC_SCENARIO("objects", 0, 0, 3) {
    switch (c.pick(4)) {
        case 0: objects<2, double>(c); break;
        case 1: objects<3, double>(c); break;
        case 2: objects<2, float>(c); break;
        case 3: objects<3, float>(c); break;
    }
}

// ---- simplices: blocks, used and unused entries, hull -------------------------------------------------------
template<uint D>
static void simplices(mc::Choice &c) {
    typedef dSimplices<D, double> S;
    typedef dSimplex<D, double> X;
    typedef std::pair<size_t, size_t> Iv;
    static const std::vector<std::vector<Iv>> L = {{{0, 1}}, {{1, 4}}, {{0, 2}, {2, 3}}, {{3, 4}, {7, 9}}, {{1, 2}, {4, 5}, {6, 7}}};
    const auto &l = c.of(L);
    size_t n = 0;
    for (auto &b : l) n += b.second - b.first;
    size_t used = c.pick((size_t) 1 << n), hull = c.pick((size_t) 1 << n), mark = c.pick((size_t) 2) * 7;
    c.shard();
    S s(l[0].first, l[0].second, 1);
    for (size_t i = 1; i < l.size(); ++i) s.addBlock(l[i].first, l[i].second);
    std::vector<tIdType> ids;
    size_t k = 0;
    for (auto &b : l) for (size_t i = b.first; i < b.second; ++i, ++k) {
        X &x = s.unsafe_at(i);
        for (uint d = 0; d < D + 1; ++d) {
            x.vertices[d] = d == 0 ? X::cINF + i % 3 : i * 10 + d;
            x.neighbors[d] = d == 1 ? X::cINF : i * 100 + d;
        }
        x.genFingerprint();
        x.mark = k;
        x.id = used >> k & 1 ? i : X::cINF;
        if (used >> k & 1) ids.push_back(i);
        if (hull >> k & 1) s.convexHull.push_back(i);
    }
    s.mark = mark;
    mc::describe(mc::fmt("%uD, layout %zu, used %zx, hull %zx, mark %zu", D, (size_t) (&l - &L[0]), used, hull, mark));
    auto eq = [&](const S &a, const S &b) {
        if (a.lowerBound() != b.lowerBound() || a.upperBound() != b.upperBound() || a.exact_size() != b.exact_size()) return false;
        if (a.convexHull != b.convexHull) return false;
        if (a.mark != b.mark) return false;
        std::vector<tIdType> got;
        for (auto &x : b) got.push_back(x.id);
        if (got != ids) return false;
        for (auto &bl : l) for (size_t i = bl.first; i < bl.second; ++i) {
            const X &x = a.unsafe_at(i), &y = b.unsafe_at(i);
            if (x.id != y.id || x.vertices != y.vertices || x.neighbors != y.neighbors || x.vFingerprint != y.vFingerprint || x.mark != y.mark) return false;
        }
        return true;
    };
    archive(s, [] { return S(); }, eq, "simplices");
    if (used == hull) file(s, eq, "simplices", mark == 0 && D == 2);
    mc::state(mc::hashStr(mc::fmt("%u %zu %zx %zx %zu", D, (size_t) (&l - &L[0]), used, hull, mark)));
}
MC_SCENARIO("simplices 2D", 0, 0, 3) { simplices<2>(c); }
MC_SCENARIO("simplices 3D", 0, 0, 3) { simplices<3>(c); }

// ---- tables and bit sets: contents, and use after loading -----------------------------------------------------
MC_SCENARIO("containers", 0, 0, 3) {
    size_t cap = c.of(std::vector<size_t>{1, 2, 8}), lo = c.of(std::vector<size_t>{0, 64});
    size_t m = c.pick((size_t) 64);
    c.shard();
    static const std::vector<size_t> K = {1, 2, 9, 17, 63, 64};
    std::vector<size_t> in;
    for (size_t i = 0; i < K.size(); ++i) if (m >> i & 1) in.push_back(K[i]);
    mc::describe(mc::fmt("capacity %zu, elements %zx, from %zu", cap, m, lo));
    Hasher<uint64_t> h;
    h.a = 5;
    typedef LP_Set<uint64_t, true> Set;
    Set s(cap, h);
    LP_Map<uint64_t, uint64_t> p(cap, h);
    LP_MultiMap<uint64_t, uint64_t> q(cap, h);
    Bit_Set b(lo, lo + 100);
    VectorAdapter<dPoint<2, double>> va;
    for (auto k : in) { s.insert(k); p.insert(k, k + 7); q.insert(k, k + 1); q.insert(k, k + 2); b.insert(lo + k); va.emplace_back(dPoint<2, double>({(double) k, 1})); }
    for (size_t i = 0; i < 4; ++i) va.emplace_back(dPoint<2, double>({-1., (double) i}));    // the auxiliary points are at the end
    va.offset(m);
    archive(s, [] { return Set(); }, [&](const Set &, const Set &x) {
        if (x.size() != in.size()) return false;
        Set y(x);
        for (size_t k = 1; k < 70; ++k) if (x.contains(k) != (std::count(in.begin(), in.end(), k) > 0)) return false;
        size_t n = 0;
        for (auto it = x.begin(); it != x.end(); ++it) ++n;
        for (size_t k = 1; k < 70; ++k) if (y.insert(k) == (std::count(in.begin(), in.end(), k) > 0)) return false;
        return n == in.size() && y.size() == 69;
    }, "sets");
    typedef LP_Map<uint64_t, uint64_t> Map;
    archive(p, [] { return Map(1); }, [&](const Map &, const Map &x) {
        if (x.size() != in.size()) return false;
        for (size_t k = 1; k < 70; ++k) {
            bool has = std::count(in.begin(), in.end(), k) > 0;
            if (x.contains(k) != has || (has && x.get(k) != k + 7)) return false;
        }
        return true;
    }, "maps");
    typedef LP_MultiMap<uint64_t, uint64_t> MMap;
    archive(q, [] { return MMap(1); }, [&](const MMap &, const MMap &x) {
        if (x.size() != 2 * in.size()) return false;
        for (size_t k = 1; k < 70; ++k) {
            std::multiset<uint64_t> got, want;
            auto r = x.get(k);
            for (auto it = r.first; it != r.second; ++it) got.insert((*it).second);
            if (std::count(in.begin(), in.end(), k)) want = {k + 1, k + 2};
            if (got != want) return false;
        }
        return true;
    }, "multimaps");
    archive(b, [] { return Bit_Set(0, 1); }, [&](const Bit_Set &, const Bit_Set &x) {
        for (size_t k = lo; k < lo + 100; ++k) if (x.isSet(k) != (std::count(in.begin(), in.end(), k - lo) > 0)) return false;
        return x.ones() == in.size() && x.lowerBound() == b.lowerBound() && x.upperBound() == b.upperBound();
    }, "bit sets");
    archive(va, [] { return VectorAdapter<dPoint<2, double>>(); }, [&](const VectorAdapter<dPoint<2, double>> &u, const VectorAdapter<dPoint<2, double>> &x) {
        if (x.finite_size() != in.size() || x.offset() != m) return false;
        for (size_t i = 0; i < in.size(); ++i) if (!same(u[m + i], x[m + i])) return false;
        for (size_t i = 0; i < 4; ++i) if (!same(u[dPoint<2, double>::cINF + i], x[dPoint<2, double>::cINF + i])) return false;
        return true;
    }, "adapted vectors");
    mc::state(mc::mix(mc::mix(cap, m), lo));
}

MC_MAIN
