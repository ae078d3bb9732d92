// G05: sign of the robust predicates against exact integer arithmetic, for every configuration of bounded families that are
// dominated by degenerate and nearly degenerate ones.
#include "mc.hpp"
#include <gmpxx.h>
#include <cmath>
#include <cfloat>
#include <sys/types.h>
#include "src/utils/Predicates.cpp"      // the templates themselves, for the exact variants

// ---- exact evaluation --------------------------------------------------------------------------------
// all coordinates times 2^SHIFT are integers
static const int SHIFT = 160;

static mpz_class toInt(double x) {
    int e;
    double m = std::frexp(x, &e);                     // x = m 2^e
    long long i = (long long) std::ldexp(m, 53);
    mpz_class z((long) i);
    int s = e - 53 + SHIFT;
    if (s >= 0) z <<= s;
    else {
        mpz_class q = z >> (-s);
        if ((q << (-s)) != z) { fprintf(stderr, "predicates: coordinate out of range\n"); abort(); }
        z = q;
    }
    return z;
}

typedef std::vector<std::vector<mpz_class>> Mat;

static mpz_class det(const Mat &m) {
    size_t n = m.size();
    if (n == 1) return m[0][0];
    if (n == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0];
    mpz_class d = 0;
    for (size_t i = 0; i < n; ++i) {
        if (m[i][0] == 0) continue;
        Mat s;
        for (size_t j = 0; j < n; ++j) if (j != i) s.push_back(std::vector<mpz_class>(m[j].begin() + 1, m[j].end()));
        if (i % 2) d -= m[i][0] * det(s); else d += m[i][0] * det(s);
    }
    return d;
}

// orientation: det of the differences to the last point; in-sphere: lifted
template<uint D, typename T>
static int exact(const std::vector<std::array<T, D>> &p, bool sphere) {
    size_t n = p.size();
    std::vector<std::array<mpz_class, D>> z(n);
    for (size_t i = 0; i < n; ++i) for (uint d = 0; d < D; ++d) z[i][d] = toInt(p[i][d]);
    Mat m(n - 1);
    for (size_t i = 0; i + 1 < n; ++i) {
        mpz_class lift = 0;
        for (uint d = 0; d < D; ++d) {
            m[i].push_back(z[i][d] - z[n - 1][d]);
            lift += m[i].back() * m[i].back();
        }
        if (sphere) m[i].push_back(lift);
    }
    return sgn(det(m));
}

template<typename T>
static T call(const std::vector<std::array<T, 2>> &p, bool sphere) {
    return sphere ? Predicates<2, T>::insphere(p[0].data(), p[1].data(), p[2].data(), p[3].data()) : Predicates<2, T>::orient(p[0].data(), p[1].data(), p[2].data());
}
template<typename T>
static T call(const std::vector<std::array<T, 3>> &p, bool sphere) {
    return sphere ? Predicates<3, T>::insphere(p[0].data(), p[1].data(), p[2].data(), p[3].data(), p[4].data()) : Predicates<3, T>::orient(p[0].data(), p[1].data(), p[2].data(), p[3].data());
}

// the non-adaptive exact variants, as far as the class offers them
template<uint V> struct Rank : Rank<V - 1> {};
template<> struct Rank<0> {};
#define VARIANT(NAME, CALL2, CALL3)                                                                        \
    template<typename T, typename P = Predicates<2, T>>                                                     \
    static auto NAME(const std::vector<std::array<T, 2>> &p, Rank<1>, T &r) -> decltype(P::CALL2, true) { r = P::CALL2; return true; } \
    template<typename T, typename P = Predicates<3, T>>                                                     \
    static auto NAME(const std::vector<std::array<T, 3>> &p, Rank<1>, T &r) -> decltype(P::CALL3, true) { r = P::CALL3; return true; } \
    template<typename X, typename T>                                                                        \
    static bool NAME(const X &, Rank<0>, T &) { return false; }
#define A(i) p[i].data()
VARIANT(orientExact, orient_exact(A(0), A(1), A(2)), orient_exact(A(0), A(1), A(2), A(3)))
VARIANT(orientSlow, orient_slow(A(0), A(1), A(2)), orient_slow(A(0), A(1), A(2), A(3)))
VARIANT(sphereExact, insphere_exact(A(0), A(1), A(2), A(3)), insphere_exact(A(0), A(1), A(2), A(3), A(4)))
VARIANT(sphereSlow, insphere_slow(A(0), A(1), A(2), A(3)), insphere_slow(A(0), A(1), A(2), A(3), A(4)))
#undef A

template<uint D, typename T>
static std::string str(const std::vector<std::array<T, D>> &p) {
    std::string s;
    for (auto &x : p) {
        s += "(";
        for (uint d = 0; d < D; ++d) s += mc::fmt("%s%a", d ? "," : "", (double) x[d]);
        s += ") ";
    }
    return s;
}

static uint64_t exactZero, negative, positive;

template<uint D, typename T>
static void verify(const std::vector<std::array<T, D>> &p, bool sphere, bool variants = false) {
    int want = exact<D, T>(p, sphere);
    T got = call(p, sphere);
    mc::requireF((got > 0) - (got < 0) == want, [&] {
        mc::describe(str<D, T>(p));
        return mc::fmt("%s in %uD, %s, of %s: returns %g, the exact sign is %d", sphere ? "insphere" : "orient", D, sizeof(T) == 4 ? "float" : "double", str<D, T>(p).c_str(), (double) got, want);
    });
    if (variants) {
        T e = 0, s = 0;
        bool hasE = sphere ? sphereExact(p, Rank<1>(), e) : orientExact(p, Rank<1>(), e);
        bool hasS = sphere ? sphereSlow(p, Rank<1>(), s) : orientSlow(p, Rank<1>(), s);
        mc::requireF(!hasE || (e > 0) - (e < 0) == want, [&] { return mc::fmt("exact variant in %uD of %s: returns %g, the exact sign is %d", D, str<D, T>(p).c_str(), (double) e, want); });
        mc::requireF(!hasS || (s > 0) - (s < 0) == want, [&] { return mc::fmt("slow variant in %uD of %s: returns %g, the exact sign is %d", D, str<D, T>(p).c_str(), (double) s, want); });
        static bool told = false;
        if (!told) mc::count(hasE && hasS ? "exact variants present" : "exact variants absent"), told = true;
    }
    ++(want == 0 ? exactZero : want < 0 ? negative : positive);
    mc::transition();
    if (!variants) return;                              // a state is a configuration, not each of its orders
    uint64_t h = sphere * 8 + D * 2 + (sizeof(T) == 4);
    for (auto &x : p) for (auto y : x) { double v = y; uint64_t u; memcpy(&u, &v, 8); h = mc::mix(h, u); }
    mc::state(h);
    mc::outcome(want + 1);
}

// every order of the arguments
template<uint D, typename T>
static void permuted(mc::Choice &c, const std::vector<std::array<T, D>> &p, bool sphere, bool all) {
    std::vector<int> q;
    for (size_t i = 0; i < p.size(); ++i) q.push_back(i);
    do {
        std::vector<std::array<T, D>> r;
        for (int i : q) r.push_back(p[i]);
        verify<D, T>(r, sphere, r == p);
    } while (all && std::next_permutation(q.begin(), q.end()));
}

template<typename T>
static T ulps(T x, int k) {
    if (std::fabs(x) < T(1e-4)) return x + k * std::numeric_limits<T>::epsilon() * T(0.125);   // stay clear of underflow
    for (; k > 0; --k) x = std::nextafter(x, std::numeric_limits<T>::max());
    for (; k < 0; ++k) x = std::nextafter(x, std::numeric_limits<T>::lowest());
    return x;
}

// ---- family 1: every combination of coordinates of an alphabet ---------------------------------------
// numbers of different magnitude and length, so that differences and products are not representable
template<typename T>
static std::vector<T> alphabet(size_t n) {
    if (sizeof(T) == 8) {
        std::vector<T> a{0, 1, T(1 + ldexp(1, -52)), T(0.1), -3, T(ldexp(1, 27) + 1), T(ldexp(1, -30)), T(1e-10), T(-1.0 / 3), T(1 - ldexp(1, -53)), 7, T(ldexp(1, 53) - 1)};
        a.resize(n);
        return a;
    }
    std::vector<T> a{0, 16, T(16 + ldexp(1, -19)), T(1.1f), -48, T(ldexp(1, 13) + 1), T(ldexp(1, -8)), T(0.37f), T(-5.3333333f), T(16 - ldexp(1, -20)), 7, T(ldexp(1, 24) - 1)};
    a.resize(n);
    return a;
}

template<uint D, typename T>
static void words(mc::Choice &c, bool sphere, size_t letters) {
    auto a = alphabet<T>(letters);
    std::vector<std::array<T, D>> p(D + 1 + sphere);
    size_t k = 0;
    for (auto &x : p) for (auto &y : x) { y = c.of(a); if (++k == 4) c.shard(); }
    verify<D, T>(p, sphere, true);
}

// ---- family 2: exactly degenerate configurations, scaled, translated (which rounds) and moved by few units in the last place
template<uint D>
static std::vector<std::vector<std::array<int, D>>> &degenerate(bool sphere) {
    static std::vector<std::vector<std::array<int, D>>> r[2];
    auto &v = r[sphere];
    if (!v.empty()) return v;
    std::vector<std::array<int, D>> pts;
    if (sphere) {
        // integer points of a circle x^2 + y^2 = 25 or a sphere x^2 + y^2 + z^2 = 9
        int R = D == 2 ? 25 : 9;
        for (int x = -5; x <= 5; ++x)
            for (int y = -5; y <= 5; ++y)
                for (int z = D == 2 ? 0 : -5; z <= (D == 2 ? 0 : 5); ++z)
                    if (x * x + y * y + z * z == R) { std::array<int, D> q; q[0] = x; q[1] = y; if (D == 3) q[D - 1] = z; pts.push_back(q); }
        if (D == 3) {                                   // a part of the thirty points
            std::vector<std::array<int, D>> s;
            for (size_t i = 0; i < pts.size(); i += mc::thorough() ? 3 : 4) s.push_back(pts[i]);
            pts = s;
        }
    } else if (D == 2) {
        for (int i = -3; i <= 5; ++i) pts.push_back({2 * i + 1, 3 * i - 1});   // a line
    } else {
        for (int i = -1; i <= 2; ++i)
            for (int j = -1; j <= 1; ++j) { std::array<int, D> q; q[0] = i + 2 * j; q[1] = 3 * i - j; q[D - 1] = 1 + i - 2 * j; pts.push_back(q); }   // a plane
    }
    size_t n = D + 1 + sphere;
    std::vector<int> sel(pts.size());
    std::fill(sel.begin(), sel.begin() + n, 1);
    do {
        std::vector<std::array<int, D>> q;
        for (size_t i = 0; i < pts.size(); ++i) if (sel[i]) q.push_back(pts[i]);
        v.push_back(q);
    } while (std::prev_permutation(sel.begin(), sel.end()));
    return v;
}

template<uint D, typename T>
static void near(mc::Choice &c, bool sphere) {
    auto &cfg = degenerate<D>(sphere);
    auto &q = cfg[c.pick(cfg.size())];
    c.shard();
    std::vector<double> scales{1, 0.1, 1.0 / 3}, shifts{0, 100.3};
    if (mc::thorough()) { scales.push_back(1e3 / 7); shifts.push_back(0.7); shifts.push_back(-1234.56); shifts.push_back(1e-3); }
    T s = c.of(scales), t = c.of(shifts);
    if (sizeof(T) == 4) { s *= 16; t *= 16; }
    std::vector<std::array<T, D>> p(q.size());
    for (size_t i = 0; i < q.size(); ++i)
        for (uint d = 0; d < D; ++d) p[i][d] = T(T(q[i][d] * s) + T(t * (d + 1)));
    // move one point by units in the last place, others not; every point takes this part
    size_t i = c.pick(q.size());
    int far = mc::thorough() ? 2 : 1;
    for (uint d = 0; d < D; ++d) p[i][d] = ulps(p[i][d], c.pick(2 * far + 1) - far);
    permuted<D, T>(c, p, sphere, mc::thorough() || D == 2 || !sphere);
    if (D == 3 && sphere && !mc::thorough()) {          // two orders instead of all
        std::swap(p[0], p[1]);
        verify<D, T>(p, sphere);
        std::rotate(p.begin(), p.begin() + 2, p.end());
        verify<D, T>(p, sphere);
    }
}

// ---- family 3: the classical picture of points in a grid of units in the last place next to a line
template<typename T>
static void classic(mc::Choice &c) {
    int n = mc::thorough() ? 96 : 40;
    T base = c.of(std::vector<T>{T(0.5), T(1), T(11.9)}), u = std::ldexp(T(1), sizeof(T) == 4 ? -23 : -52);
    int i = c.pick(n);
    c.shard();
    int j = c.pick(n);
    int k = c.pick(3);
    T a = k == 0 ? T(12) : k == 1 ? T(17.3) : T(2.1), b = T(2) * a;
    permuted<2, T>(c, {{T(base + i * u), T(base + j * u)}, {a, a}, {b, b}}, false, true);
}

// ---- family 4: every small lattice configuration (many exactly degenerate ones)
template<uint D, typename T>
static void lattice(mc::Choice &c, bool sphere, int side) {
    std::vector<std::array<T, D>> p(D + 1 + sphere);
    T s = T(sizeof(T) == 4 ? 1.6f : 0.1);
    size_t k = 0;
    for (auto &x : p) for (auto &y : x) { y = T(c.pick(side)) * s; if (++k == 4) c.shard(); }
    verify<D, T>(p, sphere, true);
}

MC_SCENARIO("2D double alphabet", 0, 0, 3) { words<2, double>(c, false, mc::thorough() ? 12 : 8); }
MC_SCENARIO("2D float alphabet", 0, 0, 3) { words<2, float>(c, false, mc::thorough() ? 12 : 8); }
MC_SCENARIO("2D double classic", 0, 0, 3) { classic<double>(c); }
MC_SCENARIO("2D float classic", 0, 0, 3) { classic<float>(c); }
MC_SCENARIO("2D double near line", 0, 0, 3) { near<2, double>(c, false); }
MC_SCENARIO("2D float near line", 0, 0, 3) { near<2, float>(c, false); }
MC_SCENARIO("2D double near circle", 0, 0, 3) { near<2, double>(c, true); }
MC_SCENARIO("2D float near circle", 0, 0, 3) { near<2, float>(c, true); }
MC_SCENARIO("2D double circle alphabet", 0, 0, 3) { words<2, double>(c, true, mc::thorough() ? 7 : 5); }
MC_SCENARIO("2D float circle alphabet", 0, 0, 3) { words<2, float>(c, true, mc::thorough() ? 7 : 5); }
MC_SCENARIO("2D double circle lattice", 0, 0, 3) { lattice<2, double>(c, true, mc::thorough() ? 5 : 4); }
MC_SCENARIO("3D double alphabet", 0, 0, 3) { words<3, double>(c, false, mc::thorough() ? 4 : 3); }
MC_SCENARIO("3D float alphabet", 0, 0, 3) { words<3, float>(c, false, mc::thorough() ? 4 : 3); }
MC_SCENARIO("3D double near plane", 0, 0, 3) { near<3, double>(c, false); }
MC_SCENARIO("3D float near plane", 0, 0, 3) { near<3, float>(c, false); }
MC_SCENARIO("3D double near sphere", 0, 0, 3) { near<3, double>(c, true); }
MC_SCENARIO("3D float near sphere", 0, 0, 3) { near<3, float>(c, true); }
MC_SCENARIO("3D double sphere lattice", 0, 0, 3) { lattice<3, double>(c, true, 2); }
MC_SCENARIO("3D double sphere alphabet", 0, 0, 2) { words<3, double>(c, true, 3); }

MC_MAIN
