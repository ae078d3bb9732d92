// Families of large point sets: enough points for the recursion, the ranges and the tables as they are shipped.
#pragma once
#include "geo.hpp"
static const char *familyName[] = {"uniform", "clusters", "jittered lattice", "lattice", "curve", "shell", "diagonal", "two far clusters", "sorted", "one outlier"};
enum { FAMILIES = 10 };
template<uint D>
static std::vector<IP<D>> family(int kind, size_t n, int variant) {
    uint64_t s = (kind * 131 + n * 7 + variant) * 2654435761u + 88172645463325252ull;
    auto rnd = [&](uint64_t m) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (long) ((s >> 11) % m); };
    const long R = 4000;
    std::vector<IP<D>> r;
    std::set<IP<D>> seen;
    long side = 1;
    while ((D == 2 ? side * side : side * side * side) < (long) n) ++side;
    size_t k = 0, guard = 0;
    while (r.size() < n && ++guard < 1000000) {
        IP<D> p;
        long cell = k++ % (size_t) std::pow(side, D);
        for (uint d = 0; d < D; ++d) {
            long at = cell % side;
            cell /= side;
            switch (kind) {
                case 1: p[d] = ((k % 5) * 7919 * (d + 3)) % (R - 300) + rnd(300); break;
                case 2: p[d] = at * (R / side) + rnd(R / side / 2); break;
                case 3: p[d] = at * 2; break;
                case 4: p[d] = d == 0 ? rnd(R) : 0; break;
                case 6: p[d] = d == 0 ? rnd(R) : p[0] + rnd(20); break;
                case 7: p[d] = (k % 2) * (R - 100) + rnd(100); break;
                default: p[d] = rnd(R);
            }
        }
        if (kind == 4) for (uint d = 1; d < D; ++d) p[d] = d == 1 ? p[0] * p[0] / R + rnd(3) : p[1] * p[0] / R + rnd(3);
        if (kind == 5) {
            double l = 0;
            for (uint d = 0; d < D; ++d) l += (p[d] - R / 2.) * (p[d] - R / 2.);
            if (l == 0) continue;
            for (uint d = 0; d < D; ++d) p[d] = R / 2 + std::lround((p[d] - R / 2.) / std::sqrt(l) * (R / 2));
        }
        if (kind == 9 && r.size() + 1 == n) for (uint d = 0; d < D; ++d) p[d] = 3 * R;
        if (seen.insert(p).second) r.push_back(p);
    }
    if (kind == 8) std::sort(r.begin(), r.end());
    return r;
}

// a complete lattice of a x b (x e) points, corner at off
template<uint D>
static std::vector<IP<D>> latticeBox(int a, int b, int e, long off) {
    std::vector<IP<D>> r;
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < (D == 3 ? e : 1); ++k) {
        IP<D> p;
        p[0] = 2 * i + off;
        p[1] = 2 * j - off;
        if (D == 3) p[D - 1] = 2 * k + off;
        r.push_back(p);
    }
    setName = mc::fmt("%zu, lattice of %d x %d x %d at %ld", r.size(), a, b, D == 3 ? e : 1, off);
    return r;
}
// points that agree in one dimension or all but one, or a single point
template<uint D>
static std::vector<IP<D>> flatSet(mc::Choice &c, int n, int k) {
    uint only = c.pick(2 * D);                           // the dimension in which they agree / in which alone they differ
    auto u = universe<D>(n, 0, 60, D == 2 ? 7 : 11);
    std::vector<IP<D>> r;
    for (int i : pickSubset(c, n, k)) {
        auto p = u[i];
        for (uint d = 0; d < D; ++d) { p[d] *= 2; if (only < D ? d == only : d != only - D) p[d] = 14 + 2 * d; }
        r.push_back(p);
    }
    return r;
}

// points of which up to three are there twice, and one perhaps three times
template<uint D>
static std::vector<IP<D>> repeated(mc::Choice &c, int n, int k) {
    auto u = universe<D>(n, 0, 60, D == 2 ? 7 : 11);
    std::vector<IP<D>> r;
    for (int i : pickSubset(c, n, k)) { auto p = u[i]; for (uint d = 0; d < D; ++d) p[d] *= 2; r.push_back(p); }
    auto twice = pickSubset(c, k, 1 + c.pick(3));
    if (c.flag()) twice.push_back(twice[0]);
    bool front = c.flag();
    for (int i : twice) { auto p = r[front ? i + (r.size() - k) : i]; if (front) r.insert(r.begin(), p); else r.push_back(p); }
    return r;
}
