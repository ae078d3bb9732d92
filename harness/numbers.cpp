// U02: every string up to a length over the characters that matter, against a hand-written recogniser.
#include "mc.hpp"
#include "utils/StringUtils.h"

static bool dig(char ch) { return ch >= '0' && ch <= '9'; }

static bool wantInt(const std::string &s) {
    size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
    if (i == s.size()) return false;
    for (; i < s.size(); ++i) if (!dig(s[i])) return false;
    return true;
}

static bool wantFloat(const std::string &s) {
    size_t i = !s.empty() && (s[0] == '+' || s[0] == '-'), a = 0, b = 0;
    for (; i < s.size() && dig(s[i]); ++i) ++a;
    if (i < s.size() && s[i] == '.') for (++i; i < s.size() && dig(s[i]); ++i) ++b;
    if (a + b == 0) return false;
    if (i == s.size()) return true;
    if (s[i] != 'e' && s[i] != 'E') return false;
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i == s.size()) return false;
    for (; i < s.size(); ++i) if (!dig(s[i])) return false;
    return true;
}

static void check(const std::string &s) {
    std::string show;
    for (unsigned char ch : s) show += ch > 31 && ch < 127 ? std::string(1, ch) : mc::fmt("\\x%02x", ch);
    mc::describe(show);
    bool i = is_int(s), f = is_float(s);
    mc::requireF(i == wantInt(s), [&] { return mc::fmt("is_int(\"%s\") is %d", show.c_str(), i); });
    mc::requireF(f == wantFloat(s), [&] { return mc::fmt("is_float(\"%s\") is %d", show.c_str(), f); });
    mc::state(mc::hashStr(s));
    mc::outcome(i * 2 + f);
}

MC_SCENARIO("strings", 0, 0, 3) {
    static const std::string A = "07+-.eEa(|";
    int n = c.pick(mc::thorough() ? 7 : 6);
    std::string s;
    for (int i = 0; i < n; ++i) {
        s += A[c.pick(i < 5 ? (int) A.size() : 6)];
        if (i == 1) c.shard();
    }
    if (n < 2) c.shard();
    check(s);
}

MC_SCENARIO("digits", 0, 0, 3) {
    // numerals made of all digits, in every place of the grammar
    static const std::vector<std::string> SG = {"", "+", "-"}, IN = {"", "0", "9", "10", "209", "1834567890", "00"}, FR = {"", ".", ".0", ".05", ".123456789", ".90"},
        EX = {"", "e0", "E9", "e+10", "E-308", "e", "e-", "e1.5", "f"};
    std::string s = c.of(SG) + c.of(IN);
    c.shard();
    s += c.of(FR) + c.of(EX);
    check(s);
}

MC_SCENARIO("bytes", 0, 0, 3) {
    // every byte alone, before, after and between digits
    unsigned b = c.pick(256);
    c.shard();
    int where = c.pick(6);
    char ch = (char) b;
    std::string x(1, ch);
    static const std::string P[] = {"", "", "5", "1", "-", "."}, Q[] = {"", "5", "", "2", "3", "4"};
    check(P[where] + x + Q[where]);
}

MC_SCENARIO("byte pairs", 0, 0, 2) {
    std::string s;
    s += (char) c.pick(256);
    c.shard();
    s += (char) c.pick(256);
    check(s);
}

MC_MAIN
