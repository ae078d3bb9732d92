// U07: text files of points, as users build it (without assertions).
#include "mc.hpp"
#include "Geometry.h"
#include <sys/stat.h>

static std::string scratch() {
    static std::string s;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        s = mc::fmt("/dev/shm/pdt-store-%d", (int) owner);
        atexit([] { unlink(s.c_str()); });
    }
    return s;
}
struct Gone { ~Gone() { unlink(scratch().c_str()); } };

static std::string slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), {});
}
static void spit(const std::string &f, const char *d, size_t n) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(d, n);
}

template<typename T, size_t N>
static bool same(const std::array<T, N> &a, const std::array<T, N> &b) { return memcmp(a.data(), b.data(), sizeof(T) * N) == 0; }

// ---- text ----------------------------------------------------------------------------------------------
template<uint D, typename P>
static void text(mc::Choice &c) {
    typedef std::numeric_limits<P> L;
    static const std::vector<P> V = {0, (P) -0.0, (P) 1.5, (P) -0.1, L::min(), L::max(), L::lowest(), (P) 1 + L::epsilon(), (P) -123456.789};
    size_t n = c.pick(mc::thorough() ? 4 : 3);
    char sep = c.of(std::vector<char>{' ', ',', ';'});
    bool last = c.flag(), before = c.flag();
    size_t k = n ? c.pick(V.size()) : 0, step = n ? c.pick((size_t) 3) : 0;
    int junk = n ? c.pick(3) : 0;               // lines that are no points
    size_t at = junk ? c.pick(n) : n;
    c.shard();
    Gone gone;
    std::string t, d = mc::fmt("%uD points of %zu bytes, separator '%c', junk %d in line %zu: ", D, sizeof(P), sep, junk, at);
    std::vector<dVector<D, P>> want;
    for (size_t i = 0; i < n; ++i) {
        dVector<D, P> x;
        for (uint e = 0; e < D; ++e) {
            x[e] = V[(k + step * (i * D + e)) % V.size()];
            t += (e ? std::string(1, sep) : "") + mc::fmt("%.*g", L::max_digits10, (double) x[e]);
            if (i == at && junk == 1 && e + 2 == D) break;
            if (i == at && junk == 2 && e == 0) t += sep + std::string("word");
        }
        if (i + 1 < n || last) t += "\n";
        want.push_back(x);
    }
    mc::describe(d + t);
    std::string f = scratch();
    spit(f, t.data(), t.size());
    dPoints<D, P> p;
    if (before) p.emplace_back(dPoint<D, P>({(P) 7, (P) 8}));
    size_t first = before ? 2 : 1;
    dBox<D, P> b;
    bool thrown = false;
    try { b = p.loadFromFile(f, sep); } catch (std::exception &) { thrown = true; }
    mc::requireF(thrown == (junk != 0), [&] { return std::string(thrown ? "an error is reported for a correct file" : "no error is reported for a line that is no point"); });
    if (!thrown) {
        mc::requireF(p.finite_size() == n + first, [&] { return mc::fmt("%zu points instead of %zu", (size_t) p.finite_size() - first, n); });
        for (size_t i = 0; i < n; ++i) mc::requireF(same(p[first + i].coords, want[i]), [&] { return mc::fmt("point %zu differs", i); });
        for (uint e = 0; e < D && n; ++e) {
            P lo = want[0][e], hi = lo;
            for (auto &x : want) { lo = std::min(lo, x[e]); hi = std::max(hi, x[e]); }
            mc::requireF(b.low[e] == lo && b.high[e] == hi, [&] { return mc::fmt("bounds in dimension %u are [%g,%g], not [%g,%g]", e, (double) b.low[e], (double) b.high[e], (double) lo, (double) hi); });
        }
    }
    mc::state(mc::hashStr(d + t + (before ? "b" : "")));
}
MC_SCENARIO("text 2D", 0, 0, 3) { if (c.flag()) text<2, double>(c); else text<2, float>(c); }
MC_SCENARIO("text 3D", 0, 0, 3) { if (c.flag()) text<3, double>(c); else text<3, float>(c); }
MC_MAIN
