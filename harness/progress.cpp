// U05: the progress bar over all expected counts and partitions of the work.
#include "sched.hpp"
#include "utils/ProgressDisplay.h"

struct Bar {
    std::string scale, stars;
    bool newline = false;
    bool ok = true;
};

static Bar parse(const std::string &s, const std::string &s1, const std::string &s2, const std::string &s3) {
    Bar b;
    std::string head = s1 + "0%   10   20   30   40   50   60   70   80   90   100%\n" + s2 + "|----|----|----|----|----|----|----|----|----|----|\n" + s3;
    if (s.compare(0, head.size(), head) != 0) { b.ok = false; return b; }
    size_t i = head.size();
    while (i < s.size() && s[i] == '*') b.stars += s[i++];
    if (i < s.size() && s[i] == '\n') { b.newline = true; ++i; }
    b.ok = i == s.size();
    return b;
}

// what the bar must show after n of e
static void checkBar(const std::string &out, const std::string &s1, const std::string &s2, const std::string &s3, unsigned long n, unsigned long e) {
    Bar b = parse(out, s1, s2, s3);
    auto info = [&] { return mc::fmt(" after %lu of %lu: %zu tics%s", n, e, b.stars.size(), b.newline ? ", completed" : ""); };
    mc::requireF(b.ok, [&] { return "unexpected output" + info() + ": " + out; });
    mc::requireF(b.stars.size() <= 51, [&] { return "more tics than the bar is long" + info(); });
    mc::requireF(b.newline == (n == e), [&] { return "the bar is not completed exactly at the expected count" + info(); });
    if (n == e) mc::requireF(b.stars.size() == 51, [&] { return "the completed bar is not full" + info(); });
    // a tic per completed fraction: floor(50 n / e), at most two ahead (the
    // next tic is due at a rounded count; exactly on the fraction the
    // floating point quotient may fall short by one)
    unsigned long f = (unsigned long) ((unsigned __int128) n * 50 / e), slack = f > 0 && (unsigned __int128) n * 50 % e == 0;
    mc::requireF(b.stars.size() + slack >= f && b.stars.size() <= f + 2, [&] { return mc::fmt("expected %lu tics or up to two more", f) + info(); });
}

MC_SCENARIO("nothing expected", 0, 0, 3) {
    // is taken for one step
    bool again = c.flag();
    c.shard();
    std::ostringstream os;
    ProgressDisplay p(again ? 7 : 0, os);
    if (again) { p += c.pick(4); os.str(""); p.restart(0); }
    mc::requireF(p.count() == 0 && p.expected_count() <= 1, [] { return std::string("the counts are wrong"); });
    mc::describe("nothing expected");
    Bar b = parse(os.str(), "\n", "", "");
    mc::requireF(b.ok && !b.newline && b.stars.size() <= 1, [&] { return "unexpected output: " + os.str(); });
    ++p;
    checkBar(os.str(), "\n", "", "", 1, 1);
    mc::state(again);
}
MC_SCENARIO("steps", 0, 0, 3) {
    // every expected count up to a bound, in equal steps of every size, the last one taking the rest
    unsigned long e = 1 + c.pick(mc::thorough() ? 400 : 160);
    c.shard();
    unsigned long st = 1 + c.pick((int) std::min(e, 60ul));
    int how = c.pick(2);
    mc::describe(mc::fmt("expected %lu step %lu", e, st));
    std::ostringstream os;
    ProgressDisplay p(e, os);
    mc::requireF(p.count() == 0 && p.expected_count() == e, [] { return std::string("the counts after construction are wrong"); });
    if (how) {
        // a used display starts over
        p += std::min(e, 3ul);
        os.str("");
        p.restart(e);
        mc::requireF(p.count() == 0 && p.expected_count() == e, [] { return std::string("the counts after restart are wrong"); });
    }
    unsigned long n = 0;
    while (n < e) {
        unsigned long i = std::min(st, e - n), r;
        if (i == 1 && st == 1) r = ++p; else r = p += i;
        n += i;
        mc::requireF(r == n && p.count() == n, [&] { return mc::fmt("the count is %lu after %lu", r, n); });
        checkBar(os.str(), "\n", "", "", n, e);
        mc::transition();
    }
    mc::state(mc::mix(e, mc::hashStr(os.str())));
}

MC_SCENARIO("partitions", 0, 0, 3) {
    // every sequence of increments that adds up to the expected count
    static const std::vector<unsigned long> ES = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
    unsigned long e = mc::thorough() ? 1 + c.pick(16) : 1 + c.pick(12);
    bool lead = c.flag();
    std::string s1 = lead ? "A " : "\n", s2 = lead ? "B " : "", s3 = lead ? "C " : "";
    std::ostringstream os;
    ProgressDisplay p(e, os, s1, s2, s3);
    std::string d = mc::fmt("expected %lu:", e);
    unsigned long n = 0;
    int k = 0;
    while (n < e) {
        unsigned long i = 1 + c.pick((int) (e - n));
        if (k++ == 1) c.shard();
        d += mc::fmt(" +%lu", i);
        mc::describe(d);
        n += i;
        unsigned long r = p += i;
        mc::requireF(r == n && p.count() == n, [&] { return mc::fmt("the count is %lu after %lu", r, n); });
        checkBar(os.str(), s1, s2, s3, n, e);
    }
    if (k < 2) c.shard();
    mc::state(mc::hashStr(d));
}

MC_SCENARIO("large", 0, 0, 3) {
    // large counts, where a tic spans many increments
    static const std::vector<unsigned long> ES = {1000, 4999, 5000, 5001, 65537, 1000000, 123456789, 1ul << 32, (1ul << 40) + 3};
    unsigned long e = c.of(ES);
    int parts = c.of(std::vector<int>{1, 2, 3, 7, 49, 50, 51, 100, 997});
    c.shard();
    mc::describe(mc::fmt("expected %lu in %d parts", e, parts));
    std::ostringstream os;
    ProgressDisplay p(e, os);
    unsigned long n = 0;
    for (int i = 1; i <= parts; ++i) {
        unsigned long to = (unsigned long) ((unsigned __int128) e * i / parts);
        unsigned long r = p += to - n;
        n = to;
        mc::requireF(r == n && p.count() == n, [&] { return mc::fmt("the count is %lu after %lu", r, n); });
        checkBar(os.str(), "\n", "", "", n, e);
    }
    mc::state(mc::mix(e, parts));
}

static void conc(mc::Choice &c, int threads, int ops, const std::vector<unsigned long> &inc) {
    std::vector<std::vector<unsigned long>> p(threads);
    unsigned long e = 0;
    std::string d;
    int last = -1;
    for (auto &t : p) {
        int code = 0;
        d += "{";
        for (int i = 0; i < ops; ++i) { int k = c.pick((int) inc.size()); code = code * 10 + k; t.push_back(inc[k]); e += inc[k]; d += mc::fmt("+%lu ", inc[k]); }
        d += "}";
        if (code < last) throw mc::Skip();
        last = code;
    }
    c.shard();
    mc::describe(d);
    std::ostringstream os;
    ProgressDisplay b(e, os);
    std::vector<std::vector<unsigned long>> res(threads, std::vector<unsigned long>(ops));
    std::vector<std::function<void()>> f;
    for (int t = 0; t < threads; ++t)
        f.push_back([&, t] { for (int i = 0; i < ops; ++i) res[t][i] = p[t][i] == 1 ? ++b : b += p[t][i]; });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, f, opt);
    mc::requireF(b.count() == e, [&] { return mc::fmt("%lu counted, expected %lu", b.count(), e); });
    checkBar(os.str(), "\n", "", "", e, e);
    // the returned counts are those of one order of the increments
    std::vector<std::pair<unsigned long, unsigned long>> steps;
    for (int t = 0; t < threads; ++t) for (int i = 0; i < ops; ++i) steps.push_back({res[t][i], p[t][i]});
    std::sort(steps.begin(), steps.end());
    unsigned long n = 0;
    uint64_t h = mc::hashStr(d);
    for (auto &s : steps) {
        n += s.second;
        mc::requireF(s.first == n, [&] { return mc::fmt("an increment returned count %lu, which no order of the increments explains", s.first); });
    }
    for (auto &t : res) for (auto x : t) h = mc::mix(h, x);
    mc::state(mc::mix(h, sched::switches()));
    mc::outcome(h);
}

MC_SCENARIO("2 threads x 2", 3, 8, 3) { conc(c, 2, 2, {1, 30}); }
MC_SCENARIO("3 threads x 1", 3, 6, 3) { conc(c, 3, 1, {1, 30, 7}); }
MC_SCENARIO("2 threads x 3", 2, 4, 3) { conc(c, 2, 3, {1, 30}); }

MC_MAIN
