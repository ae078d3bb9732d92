// U10: integer helpers on all values of the narrow types and around the powers of two of the wide ones; field splitting.
#include "mc.hpp"
#include <cmath>
#include "utils/Misc.h"

typedef unsigned __int128 W;

template<typename T>
static void value(T x, const char *type) {
    const int bits = sizeof(T) * CHAR_BIT;
    mc::describe(mc::fmt("%s %llu", type, (unsigned long long) x));
    int pop = 0, top = -1;
    for (int i = 0; i < bits; ++i) if (x >> i & 1) { ++pop; top = i; }
    mc::requireF((bool) isPow2<T>(x) == (pop == 1), [&] { return std::string("isPow2 is wrong"); });
    mc::requireF(popcount<T>(x) == pop, [&] { return mc::fmt("popcount is %llu, %d bits are set", (unsigned long long) popcount<T>(x), pop); });
    if (x) mc::requireF(log2<T>(x) == top, [&] { return mc::fmt("log2 is %llu, expected %d", (unsigned long long) log2<T>(x), top); });
    W p = 1;
    while (p < x) p *= 2;
    if (p <= (W) (T) ~(T) 0) mc::requireF(nextPow2<T>(x) == (T) p, [&] { return mc::fmt("nextPow2 is %llu, expected %llu", (unsigned long long) nextPow2<T>(x), (unsigned long long) p); });
    if (x) for (int n = 2; n <= 17; ++n) {
        int e = 0;
        W q = n;
        while (q <= x) { q *= n; ++e; }
        mc::requireF(logN<T>(x, (T) n) == e, [&] { return mc::fmt("logN(.., %d) is %llu, expected %d", n, (unsigned long long) logN<T>(x, (T) n), e); });
        // every power is recognised, and what is no multiple is not
        W r = 1;
        while (r < x) r *= n;   // 1 is the zeroth power
        bool power = r == x, multiple = x % n == 0 || x == 1;
        bool got = isPowN<T>(x, (T) n);
        if (power || !multiple) mc::requireF(got == power, [&] { return mc::fmt("isPowN(.., %d) is %d", n, got); });
        else {
            ++mc::R().st.evaluations;
            if (got) { mc::R().addFail("isPowN:multiple", mc::fmt("isPowN(%llu, %d) is true but it is no power of %d", (unsigned long long) x, n, n)); if (!mc::R().known.count("isPowN:multiple")) throw mc::Known(); }
        }
    }
    mc::transition();
}

MC_SCENARIO("8 bit", 0, 0, 3) { c.shard(); int x = c.pick(256); value<uint8_t>(x, "uint8"); mc::state(x); }
MC_SCENARIO("16 bit", 0, 0, 3) { int x = c.pick(256); c.shard(); for (int i = 0; i < 256; ++i) value<uint16_t>(x * 256 + i, "uint16"); mc::state(1000 + x); }

template<typename T>
static void wide(mc::Choice &c, const char *type) {
    const int bits = sizeof(T) * CHAR_BIT;
    int i = c.pick(bits), j = c.pick(bits);
    c.shard();
    for (int d = -3; d <= 3; ++d) {
        value<T>(((T) 1 << i) + d, type);
        value<T>(((T) 1 << i) + ((T) 1 << j) + d, type);
        value<T>(((T) 1 << i) - ((T) 1 << j) + d, type);
        value<T>(~(((T) 1 << i) + ((T) 1 << j)) + d, type);
        // around the powers of the bases
        W p = 1;
        for (int e = 0; e < j % 48; ++e) p *= 2 + i % 16;
        if (p && p <= (W) (T) ~(T) 0) value<T>((T) p + d, type);
    }
    mc::state(mc::mix(i, j));
}

MC_SCENARIO("32 bit", 0, 0, 3) { wide<uint32_t>(c, "uint32"); }
MC_SCENARIO("64 bit", 0, 0, 3) { wide<uint64_t>(c, "uint64"); }
MC_SCENARIO("size_t", 0, 0, 3) { wide<unsigned long>(c, "unsigned long"); }

// all texts over separators and letters
MC_SCENARIO("split", 0, 0, 3) {
    int len = c.pick(mc::thorough() ? 9 : 8);
    static const std::string AB = "a,; ";
    std::string s;
    for (int i = 0; i < len; ++i) { s += AB[c.pick(AB.size())]; if (i == 1) c.shard(); }
    char sep = c.of(std::vector<char>{',', ';', ' '});
    bool drop = c.flag();
    mc::describe("split(\"" + s + "\", '" + sep + "')" + (drop ? " without empty fields" : ""));
    std::vector<std::string> want{""};
    for (char x : s) if (x == sep) want.emplace_back(); else want.back() += x;
    if (drop) want.erase(std::remove(want.begin(), want.end(), std::string()), want.end());
    std::vector<std::string> got{"old"};
    auto &r = drop ? split(got, s, sep, split::no_empties) : split(got, s, sep);
    mc::requireF(&r == &got, [&] { return std::string("the result is not the container given"); });
    mc::requireF(got == want, [&] { return mc::fmt("%zu fields, expected %zu", got.size(), want.size()); });
    mc::state(mc::hashStr(s) + sep);
}

MC_MAIN
