// S01: insertion sort of fixed length, with and without attached data, on every key sequence.
#include "mc.hpp"
#include "utils/StaticSort.h"

template<size_t N, typename T>
static void sortAll(mc::Choice &c, int values, long long lo, bool zeroOne = false) {
    std::array<T, N> a, b;
    std::array<int, N> d;
    std::string s = "keys";
    for (size_t i = 0; i < N; ++i) {
        long long v = lo + c.pick(zeroOne ? 2 : values);
        a[i] = b[i] = (T) v;
        d[i] = 100 + (int) i;
        if (i == std::min<size_t>(2, N - 1)) c.shard();
    }
    for (auto &x : a) s += " " + std::to_string(x);
    mc::describe(s);
    auto in = a;
    static_insertion_sort(a);
    static_insertion_sort_with_data(b, d);
    mc::requireF(std::is_sorted(a.begin(), a.end()), [&] { return std::string("the result is not ascending"); });
    mc::requireF(std::is_permutation(a.begin(), a.end(), in.begin()), [&] { return std::string("the result is no permutation of the keys"); });
    mc::requireF(a == b, [&] { return std::string("sorting with data orders the keys differently"); });
    std::vector<int> seen(N);
    for (size_t i = 0; i < N; ++i) {
        int j = d[i] - 100;
        mc::requireF(j >= 0 && j < (int) N && !seen[j]++, [&] { return std::string("an attached datum is lost or duplicated"); });
        mc::requireF(in[j] == b[i], [&] { return mc::fmt("the datum of key %zu is attached to another key", (size_t) j); });
    }
    uint64_t h = N;
    for (auto &x : in) h = mc::mix(h, (uint64_t) x);
    mc::state(h);
    h = N;
    for (auto &x : d) h = mc::mix(h, x);
    mc::outcome(h);
}

MC_SCENARIO("1 key", 0, 0, 3) { sortAll<1, int>(c, 3, -1); }
MC_SCENARIO("2 keys", 0, 0, 3) { sortAll<2, long long>(c, 5, -2); }
MC_SCENARIO("3 keys", 0, 0, 3) { sortAll<3, uint64_t>(c, 5, -2); }     // wraps to huge unsigned values
MC_SCENARIO("4 keys", 0, 0, 3) { sortAll<4, uint32_t>(c, 6, -2); }
MC_SCENARIO("5 keys", 0, 0, 3) { sortAll<5, int>(c, 6, -3); }
MC_SCENARIO("6 keys", 0, 0, 3) { sortAll<6, uint64_t>(c, 6, 0); }
MC_SCENARIO("7 keys", 0, 0, 3) { sortAll<7, int>(c, mc::thorough() ? 7 : 5, 0); }
MC_SCENARIO("8 keys", 0, 0, 2) { sortAll<8, int>(c, 6, 0); }
// sorting networks and comparison sorts are right if they are on zeros and ones - for long arrays
MC_SCENARIO("12 keys of 0 and 1", 0, 0, 3) { sortAll<12, int>(c, 2, 0, true); }
MC_SCENARIO("17 keys of 0 and 1", 0, 0, 3) { sortAll<17, uint64_t>(c, 2, 0, true); }

MC_MAIN
