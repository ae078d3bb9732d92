// U01: experiment records over all short sequences of operations, against a plain map.
#include "mc.hpp"
#include "utils/Timings.h"
#include <climits>

typedef std::map<std::string, std::string> M;
static const std::set<std::string> IGN = {"git-rev", "start-time", "end-time", "run-number", "host"};

static M relevant(const M &m) {
    M r;
    for (auto &x : m) if (!IGN.count(x.first)) r.insert(x);
    return r;
}

static M relevantOf(const ExperimentRun &r) {
    M m;
    for (auto &t : r.traits()) if (!IGN.count(t.first)) m.emplace(t.first, t.second);
    return m;
}

struct Sep { std::string t, i; };
static const std::vector<Sep> SEPS = {{"   ", ": "}, {";", "="}, {"\n", "\t"}, {", ", " -> "}, {"||", "|="}};

static const std::vector<std::string> NAMES = {"alg", "a", "ab", "z z", "run-number", "start-time", "host", "10"};
static const std::vector<std::string> VALUES = {"", "c", "500", "a b", ": ", "x: y", "2026-01-01 10:00:00", "-", "  v", "=", ":"};

static void base(M &m) {
    ExperimentRun r;
    for (auto &t : r.traits()) m.emplace(t.first, t.second);
}

// one operation on record and model
static std::string step(mc::Choice &c, ExperimentRun &r, M &m, const std::vector<std::string> &names, const std::vector<std::string> &values) {
    std::string n = c.of(names);
    int v = c.pick((int) values.size() + 3);
    bool upd = c.flag();
    std::string val;
    if (v < (int) values.size()) {
        val = values[v];
        if (upd) r.updateTrait(n, val); else r.addTrait(n, val);
    } else if (v == (int) values.size()) {
        val = "-17";
        if (upd) r.updateTrait(n, -17); else r.addTrait(n, -17);
    } else if (v == (int) values.size() + 1) {
        val = "k";
        if (upd) r.updateTrait(n, 'k'); else r.addTrait(n, 'k');
    } else {
        val = "0.25";
        if (upd) r.updateTrait(n, 0.25); else r.addTrait(n, 0.25);
    }
    if (upd) m[n] = val; else m.emplace(n, val);
    return (upd ? "update(" : "add(") + n + "," + val + ") ";
}

static uint64_t hashM(const M &m) {
    uint64_t h = 3;
    for (auto &x : m) { h = mc::mix(h, mc::hashStr(x.first)); h = mc::mix(h, mc::hashStr(x.second)); }
    return h;
}

MC_SCENARIO("roundtrip", 0, 0, 3) {
    ExperimentRun r;
    M m;
    base(m);
    M hostOnly = m;
    int n = c.pick(mc::thorough() ? 4 : 3);
    const Sep &sep = c.of(SEPS);
    std::string d = "separators '" + sep.t + "' '" + sep.i + "' ";
    // values that cannot be told from a separator have no textual form
    std::vector<std::string> names, values;
    auto fine = [&](const std::string &s) { return (s + sep.t).find(sep.t) == s.size(); };
    for (auto &x : NAMES) if (fine(x) && (x + sep.i).find(sep.i) == x.size() && (n < 3 || x != "10")) names.push_back(x);
    for (auto &x : VALUES) if (fine(x) && (n < 3 || x != "=")) values.push_back(x);
    for (int i = 0; i < n; ++i) {
        d += step(c, r, m, names, values);
        if (i == 0) c.shard();
    }
    if (n == 0) c.shard();
    mc::describe(d);
    M got;
    for (auto &t : r.traits()) got.emplace(t.first, t.second);
    mc::requireF(got == m, [&] { return "the record does not hold the traits that were added: " + r.str(); });
    for (auto &x : NAMES) {
        mc::requireF(r.hasTrait(x) == (m.count(x) > 0), [&] { return "hasTrait(" + x + ") is wrong"; });
        if (m.count(x)) mc::requireF(r.getTrait(x) == m[x], [&] { return "getTrait(" + x + ") is wrong"; });
    }
    std::string want, s;
    for (auto &x : m) { want += s + x.first + sep.i + x.second; s = sep.t; }
    std::string text = r.str(sep.t, sep.i);
    mc::requireF(text == want, [&] { return "textual form is '" + text + "', expected '" + want + "'"; });
    if (&sep == &SEPS[0]) {
        std::stringstream o;
        o << r;
        mc::requireF(o.str() == want, [&] { return "printed form is '" + o.str() + "', expected '" + want + "'"; });
    }
    ExperimentRun q(text, sep.t, sep.i);
    mc::requireF(relevantOf(q) == relevant(m), [&] { return "reading '" + text + "' back yields '" + q.str(sep.t, sep.i) + "'"; });
    mc::requireF(q == r && r == q, [&] { return "the record read back from '" + text + "' does not compare equal"; });
    for (auto &x : hostOnly) mc::requireF(q.hasTrait(x.first) && q.getTrait(x.first) == x.second, [&] { return "trait " + x.first + " of the reader is missing"; });
    mc::state(mc::mix(hashM(m), &sep - &SEPS[0]));
    mc::outcome(mc::hashStr(text));
}

MC_SCENARIO("equality", 0, 0, 3) {
    std::vector<std::string> names = {"alg", "n", "run-number", "end-time", "git-rev"}, values = {"1", ""};
    ExperimentRun a, b;
    M ma, mb;
    base(ma);
    base(mb);
    std::string d = "A: ";
    int na = c.pick(3), nb = c.pick(mc::thorough() ? 3 : 2);
    for (int i = 0; i < na; ++i) d += step(c, a, ma, names, values);
    c.shard();
    d += "B: ";
    for (int i = 0; i < nb; ++i) d += step(c, b, mb, names, values);
    mc::describe(d);
    bool want = relevant(ma) == relevant(mb);
    mc::requireF((a == b) == want, [&] { return mc::fmt("A == B is %d, expected %d", a == b, want); });
    mc::requireF((b == a) == want, [&] { return mc::fmt("B == A is %d, expected %d", b == a, want); });
    ExperimentRun cp(a);
    mc::requireF(cp == a && a == cp, [&] { return std::string("a copy does not compare equal"); });
    mc::state(mc::mix(hashM(ma), hashM(mb)));
}

// every pair of records over a few names, each absent or with one of two values
MC_SCENARIO("all pairs", 0, 0, 3) {
    std::vector<std::string> names = {"alg", "n", "zeta", "host"}, values = {"1", ""};
    if (mc::thorough()) { names.push_back("start-time"); names.push_back("points"); }
    ExperimentRun r[2];
    M m[2];
    std::string d;
    for (auto &x : m) base(x);
    for (auto &n : names) {
        for (int k = 0; k < 2; ++k) {
            int v = c.pick(3);
            if (!v) continue;
            r[k].updateTrait(n, values[v - 1]);
            m[k][n] = values[v - 1];
            d += mc::fmt("%c.%s=%s ", 'A' + k, n.c_str(), values[v - 1].c_str());
        }
        if (&n == &names[1]) c.shard();
    }
    mc::describe(d);
    bool want = relevant(m[0]) == relevant(m[1]);
    mc::requireF((r[0] == r[1]) == want && (r[1] == r[0]) == want, [&] { return mc::fmt("A == B is %d, B == A is %d, expected %d", r[0] == r[1], r[1] == r[0], want); });
    mc::state(mc::mix(hashM(m[0]), hashM(m[1])));
}

MC_SCENARIO("numbers", 0, 0, 3) {
    // counters and measurements: every sequence of operations over two names
    std::vector<ExperimentRun::tMeasurement> vals = {1, 0, 3, 8, 1ul << 62};
    ExperimentRun r;
    std::map<std::string, unsigned long> cnt;
    std::map<std::string, std::vector<unsigned long>> ms;
    int n = c.pick(mc::thorough() ? 6 : 5);
    std::string d;
    for (int i = 0; i < n; ++i) {
        std::string nm = c.flag() ? "x" : "y";
        int k = c.pick(3);
        if (k == 0) { r.incCounter(nm); cnt[nm] += 1; d += "++" + nm + " "; }
        else {
            auto v = c.of(vals);
            if (k == 1) { r.incCounter(nm, v); cnt[nm] += v; }
            else { r.addMeasurement(nm, v); ms[nm].push_back(v); }
            d += mc::fmt("%s(%s,%lu) ", k == 1 ? "count" : "measure", nm.c_str(), v);
        }
        if (i == 1) c.shard();
    }
    if (n < 2) c.shard();
    mc::describe(d);
    std::map<std::string, unsigned long> gc;
    for (auto &x : r.counters()) gc[x.first] = x.second;
    mc::requireF(gc == cnt, [&] { return std::string("the counters differ from the increments"); });
    for (auto &x : cnt) mc::requireF(r.counter(x.first) == x.second, [&] { return "counter(" + x.first + ") is wrong"; });
    size_t k = 0;
    for (auto &x : r.measurements()) {
        ++k;
        std::vector<unsigned long> g(x.second.begin(), x.second.end());
        mc::requireF(ms.count(x.first) && g == ms[x.first], [&] { return "the measurements of " + x.first + " differ from those added"; });
    }
    mc::requireF(k == ms.size(), [&] { return std::string("a measurement is missing"); });
    std::set<std::string> avgs;
    for (auto &x : ms) {
        std::vector<unsigned long> g(r.measurements(x.first).begin(), r.measurements(x.first).end());
        mc::requireF(g == x.second, [&] { return "measurements(" + x.first + ") are wrong"; });
        unsigned __int128 s = 0;
        for (auto v : x.second) s += v;
        if (s >> 64) continue;
        unsigned long a = (unsigned long) (s / x.second.size());
        mc::requireF(r.avgMeasurement(x.first) == a, [&] { return mc::fmt("the average of %s is %lu, expected %lu", x.first.c_str(), r.avgMeasurement(x.first), a); });
        avgs.insert(x.first + "=" + std::to_string(a));
    }
    if (avgs.size() == ms.size()) {
        // with measurements the text additionally names each average
        std::string t = r.str(";", "=", true), p = r.str(";", "=");
        mc::requireF(t.substr(0, p.size()) == p, [&] { return "measurements disturb the traits: " + t; });
        std::multiset<std::string> f;
        std::stringstream ss(t.substr(p.size()));
        std::string x;
        while (std::getline(ss, x, ';')) if (!x.empty()) f.insert(x);
        mc::requireF(f == std::multiset<std::string>(avgs.begin(), avgs.end()), [&] { return "the averages are not printed: " + t; });
    }
    mc::state(mc::hashStr(d));
}

template<typename T>
static void typed(mc::Choice &c, const std::vector<T> &v, const char *name) {
    T x = v[c.pick((int) v.size())];
    int how = c.pick(2);
    ExperimentRun r;
    if (how) { r.addTrait("t", T(v[0])); r.updateTrait("t", x); } else r.addTrait("t", x);
    std::stringstream ss;
    ss << x;
    mc::describe(std::string(name) + " " + ss.str());
    mc::requireF(r.getTrait<T>("t") == x, [&] { return "a typed trait comes back changed: " + ss.str(); });
    ExperimentRun q(r.str());
    mc::requireF(q.hasTrait("t") && q.getTrait<T>("t") == x, [&] { return "a typed trait comes back changed from text: " + ss.str(); });
    mc::state(mc::hashStr(name + ss.str()));
}

MC_SCENARIO("typed", 0, 0, 3) {
    int k = c.pick(7);
    c.shard();
    if (k == 0) typed<int>(c, {0, 1, -1, INT_MAX, INT_MIN}, "int");
    if (k == 1) typed<unsigned>(c, {0u, 7u, UINT_MAX}, "unsigned");
    if (k == 2) typed<unsigned long>(c, {0ul, ULONG_MAX}, "unsigned long");
    if (k == 3) typed<unsigned char>(c, {'c', 'Z', '0', ':'}, "unsigned char");
    if (k == 4) typed<bool>(c, {false, true}, "bool");
    if (k == 5) typed<double>(c, {0.0, 0.5, -123.25, 1e10, 2.5e-7}, "double");
    if (k == 6) typed<std::string>(c, {"word", "x=y"}, "string");
}

MC_MAIN
