// E04: the benchmark program, from its command line to the experiments it generates and runs.
#include "mc.hpp"
#include <cmath>
#include <fstream>
int main(int, char **) __asm__("program_main");
#include "src/exe/Benchmark.cpp"
#include "program.hpp"
#include "CGALTriangulator.h"
#include <set>
#include <sys/stat.h>
using program::File; using program::Ran; using program::line;
typedef std::map<std::string, std::string> Traits;
typedef std::vector<std::string> Args;

// a folder to run in: the program leaves a file in the current one when an experiment fails
struct Folder {
    std::string dir;
    Folder() { char n[] = "/tmp/mcbenchXXXXXX"; mc::requireF(mkdtemp(n) && !chdir(n), [] { return std::string("harness: no scratch folder"); }); dir = n; }
    ~Folder() { unlink((dir + "/failedExperiments").c_str()); if (chdir("/")) {} rmdir(dir.c_str()); }
};
static Ran go(const Args &a) {
    splitters = {'c'};
    triangulators = {'c', 'm'};
    distributions = {'u'};
    occupancies = {10, 50, 100, 1000};
    startGen.seed(START_SEED);
    dSimplices<3, double>::simplexID = 1;
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    PROFILER.setRun(nullptr);
    program::litter(3);
    auto r = program::run(program::entry, a);
    PROFILER.setRun(nullptr);
    return r;
}
static std::vector<std::string> lines(const std::string &s) {
    std::vector<std::string> v;
    std::stringstream ss(s);
    for (std::string l; std::getline(ss, l);) v.push_back(l);
    return v;
}
static Traits own(const Traits &t) { Traits r; for (auto &x : t) if (x.first != "host" && x.first != "git-rev") r.insert(x); return r; }
// the traits in a printed experiment
static Traits traitsOf(const std::string &l) {
    Traits t;
    size_t p = 0;
    while (p <= l.size()) {
        size_t e = l.find("   ", p);
        if (e == std::string::npos) e = l.size();
        size_t m = l.find(": ", p);
        mc::requireF(m != std::string::npos && m < e, [&] { return "not an experiment: " + l; });
        mc::requireF(t.emplace(l.substr(p, m - p), l.substr(m + 2, e - m - 2)).second, [&] { return "a trait appears twice: " + l; });
        p = e + 3;
    }
    return t;
}
static std::string str(const Traits &t) { std::string s; for (auto &x : t) s += x.first + "=" + x.second + " "; return s; }

struct Grid { uint maxN = 0, minN = 0; int maxT = 0, minT = 0; char alg = 0, dist = 0; uint occ = 0; bool noBase = false; int edge = 0; };
static Args args(const Grid &g) {
    Args a{"--maxN", std::to_string(g.maxN)};
    auto add = [&](const char *n, const std::string &v) { a.push_back(n); a.push_back(v); };
    if (g.minN) add("--minN", std::to_string(g.minN));
    if (g.maxT) add("--maxThreads", std::to_string(g.maxT));
    if (g.minT) add("--minThreads", std::to_string(g.minT));
    if (g.alg) add("--algorithm", std::string(1, g.alg));
    if (g.dist) add("--dist", std::string(1, g.dist));
    if (g.occ) add("--occupancy", std::to_string(g.occ));
    if (g.noBase) a.push_back("--no-parallel-base");
    if (g.edge == 1) a.push_back("--no-parallel-edge");
    if (g.edge == 2) a.push_back("--parallel-edge-study");
    return a;
}
// the experiments these options describe
static std::multiset<Traits> grid(const Grid &g) {
    std::multiset<Traits> r;
    uint64_t minN = g.minN ? g.minN : 10;
    std::vector<std::string> ns, ts, os;
    for (uint64_t n = minN, step = 1; n <= g.maxN; n += step) {
        ns.push_back(std::to_string(n));
        while (step * 10 <= n) step *= 10;       // in steps of the leading digit
    }
    int maxT = g.maxT ? g.maxT : tbb::task_scheduler_init::default_num_threads();
    if (maxT == -1) maxT = tbb::task_scheduler_init::default_num_threads();
    int minT = g.minT == -1 ? maxT : g.minT ? g.minT : 1;
    for (int64_t t = minT; t <= maxT; t *= 2) ts.push_back(std::to_string(t));
    if (g.occ) os = {std::to_string(g.occ)}; else os = {"10", "50", "100", "1000"};
    std::vector<char> algs = g.alg ? std::vector<char>{g.alg} : std::vector<char>{'c', 'm'};
    for (auto &n : ns) for (char alg : algs) {
        Traits t{{"dist", std::string(1, g.dist ? g.dist : 'u')}, {"nP", n}, {"alg", std::string(1, alg)}};
        if (alg == 'c') { t["threads"] = "1"; r.insert(t); continue; }
        for (auto &th : ts) {
            t["threads"] = th;
            if (alg == 'm') { for (auto &o : os) { t["occupancy"] = o; r.insert(t); } continue; }
            t["splitter"] = "c";
            for (const char *e : {"0", "1"}) if (g.edge == 2 || *e == (g.edge == 1 ? '0' : '1')) {
                auto q = t;
                q["parallel-edge"] = e;
                q["parallel-base"] = "0";
                q["occupancy"] = "1";
                r.insert(q);
                q["parallel-base"] = "1";
                if (!g.noBase) for (auto &o : os) { q["occupancy"] = o; r.insert(q); }
            }
        }
    }
    return r;
}
static void sameGrid(const Ran &r, const Grid &g) {
    mc::requireF(!r.failed(), [&] { return mc::fmt("ends with %d ", r.code) + r.what + r.err; });
    auto want = grid(g);
    std::multiset<Traits> got;
    for (auto &l : lines(r.out)) {
        auto t = own(traitsOf(l));
        got.insert(t);
        ExperimentRun back(l);
        mc::requireF(own(back.traits()) == t, [&] { return "does not read back: " + l; });
    }
    for (auto &t : want) mc::requireF(got.count(t) == want.count(t), [&] { return mc::fmt("generated %zu times instead of %zu: ", got.count(t), want.count(t)) + str(t); });
    for (auto &t : got) mc::requireF(want.count(t), [&] { return "not asked for: " + str(t); });
}
MC_SCENARIO("benchmark-grid", 0, 0, 3) {
    bool th = mc::thorough();
    Grid g;
    g.maxN = c.of(th ? std::vector<uint>{1, 5, 9, 10, 11, 35, 99, 100, 101, 250, 1000, 10000, 1234567} : std::vector<uint>{5, 10, 35, 100, 250, 10000});
    g.minN = c.of(th ? std::vector<uint>{0, 1, 3, 9, 10, 15, 95, 100, 999, 12000} : std::vector<uint>{0, 1, 7, 15, 100});
    g.alg = c.of(std::vector<char>{0, 'c', 'm', 'd'});
    c.shard();
    g.maxT = c.of(th ? std::vector<int>{0, -1, 1, 2, 3, 4, 16, 100} : std::vector<int>{0, 1, 5, 8});
    g.minT = c.of(th ? std::vector<int>{0, -1, 1, 2, 3, 8} : std::vector<int>{0, -1, 3});
    g.dist = c.of(std::vector<char>{0, 'n'});
    g.occ = c.of(std::vector<uint>{0, 1, 77});
    if (g.alg == 'd') { g.noBase = c.flag(); g.edge = c.pick(3); }
    auto a = args(g);
    a.push_back("--gen-only");
    mc::describe(line(a));
    auto r = go(a);
    sameGrid(r, g);
    mc::state(mc::hashStr(line(a)));
    mc::outcome(mc::hashStr(std::to_string(lines(r.out).size())));
}
// very many points: only where the series of numbers of points ends matters
MC_SCENARIO("benchmark-grid-of-many-points", 0, 0, 3) {
    Grid g;
    g.maxN = c.of(std::vector<uint>{900000000u, 2000000000u, 2147483647u, 2147483648u, 3999999999u, 4000000000u, 4294967295u});
    g.minN = c.of(std::vector<uint>{100000000u, 1000000000u, 1500000000u, 4000000000u, 4294967295u});
    g.alg = c.of(std::vector<char>{'c', 'd'});
    c.shard();
    auto a = args(g);
    a.push_back("--gen-only");
    mc::describe(line(a));
    sameGrid(go(a), g);
    mc::state(mc::hashStr(line(a)));
    mc::outcome(g.minN <= g.maxN);
}

// The experiments run, as the program reports them.
struct Result { Traits traits; std::string raw; };
static const char *measured[] = {"memory", "peakMem", "times"};
static std::vector<Result> results(const Ran &r) {
    std::vector<Result> v;
    std::vector<Traits> announced;
    for (auto &l : lines(r.out)) {
        if (l.compare(0, 7, "RESULT ") == 0) {
            Result q;
            q.raw = l;
            std::stringstream ss(l.substr(7));
            for (std::string w; ss >> w;) {
                auto e = w.find('=');
                if (e == std::string::npos) continue;      // the second part of a date
                mc::requireF(q.traits.emplace(w.substr(0, e), w.substr(e + 1)).second, [&] { return "given twice: " + w; });
            }
            v.push_back(q);
        } else {
            size_t m = l.find(": ");
            mc::requireF(m != std::string::npos, [&] { return "neither an experiment nor a result: " + l; });
            announced.push_back(own(traitsOf(l.substr(m + 2))));
        }
    }
    mc::requireF(announced.size() == v.size(), [&] { return mc::fmt("%zu experiments announced, %zu results", announced.size(), v.size()); });
    for (size_t i = 0; i < v.size(); ++i) for (auto &t : announced[i]) {
        auto f = v[i].traits.find(t.first);
        mc::requireF(f != v[i].traits.end() && f->second == t.second, [&] { return "the result lacks the " + t.first + " of its experiment: " + v[i].raw; });
    }
    return v;
}
static size_t expectedSize(char dist, uint n) {
    static std::map<std::pair<char, uint>, size_t> memo;
    auto &s = memo[{dist, n}];
    if (!s) {
        tGenerator gen(START_SEED);
        dBox<3, double> b;
        b.low.fill(0);
        b.high.fill(100);
        auto pts = GeneratorFactory<3, double>::make(dist)->generate(n, b, gen);
        DCTriangulator<3, double> places(b, pts, 1, Partitioner<3, double>::make('c'), 1, false, false);   // the points at infinity
        CGALTriangulator<3, double, false> direct(b, pts, 1);
        s = static_cast<Triangulator<3, double> &>(direct).triangulate().exact_size();
    }
    return s;
}
static void wellDone(const Result &q, uint reps) {
    auto at = [&](const char *n) { auto f = q.traits.find(n); mc::requireF(f != q.traits.end(), [&] { return std::string("no ") + n + " in " + q.raw; }); return f->second; };
    at("start-time");
    at("end-time");
    for (auto m : measured) if (reps) mc::requireF(std::strtoull(at(m).c_str(), nullptr, 10) > 0, [&] { return std::string("no ") + m + " in " + q.raw; });
    else mc::requireF(!q.traits.count(m), [&] { return std::string(m) + " although nothing ran: " + q.raw; });
    if (!reps) return;
    if (at("alg") != "d") { at("nS"); return; }      // CGAL alone is measured, its result is not converted
    auto want = expectedSize(at("dist")[0], std::stoul(at("nP")));
    mc::requireF(at("nS") == std::to_string(want), [&] { return mc::fmt("%zu simplices expected: ", want) + q.raw; });
}
static Traits experiment(char alg, char dist, uint n, uint threads, int v) {
    Traits t{{"dist", std::string(1, dist)}, {"nP", std::to_string(n)}, {"alg", std::string(1, alg)}, {"threads", std::to_string(threads)}};
    if (alg != 'c') t["occupancy"] = "10";
    if (alg == 'd') { t["splitter"] = v & 1 ? "d" : "c"; t["parallel-base"] = v & 2 ? "1" : "0"; t["parallel-edge"] = v & 4 ? "1" : "0"; }
    return t;
}
static std::string text(const Traits &t, bool noise) {
    std::string s = noise ? "git-rev: 123   host: elsewhere" : "";
    for (auto &x : t) s += (s.empty() ? "" : "   ") + x.first + ": " + x.second;
    return s;
}
// one experiment given as a string
MC_SCENARIO("benchmark-of-one", 0, 0, 3) {
    bool th = mc::thorough();
    Folder dir;
    char alg = c.of(std::vector<char>{'c', 'm', 'd'});
    char dist = c.of(th ? std::vector<char>{'u', 'n', 'e', 'l', 'b'} : std::vector<char>{'u', 'e'});
    uint n = c.of(th ? std::vector<uint>{8, 12, 20, 40, 80} : std::vector<uint>{12, 20});
    c.shard();
    int v = alg == 'd' ? c.pick(8) : 0;
    uint threads = c.pick(2) ? v & 1 ? 8 : 4 : 1;     // the d-way splitter needs a power of eight
    bool noise = c.flag();
    int reps = c.of(std::vector<int>{1, 2, 3, 0, 10});
    auto t = experiment(alg, dist, n, threads, v);
    Args a{"--run-string", text(t, noise)};
    if (reps != 10) { a.push_back("--reps"); a.push_back(std::to_string(reps)); }       // ten unless told otherwise
    mc::describe(line(a));
    auto r = go(a);
    auto used = dSimplices<3, double>::simplexID.load() - 1;
    mc::requireF(!r.failed(), [&] { return mc::fmt("ends with %d ", r.code) + r.what + r.err; });
    auto q = results(r);
    mc::requireF(q.size() == 1, [&] { return mc::fmt("%zu results", q.size()); });
    for (auto &x : t) mc::requireF(q[0].traits[x.first] == x.second, [&] { return x.first + " is another in " + q[0].raw; });
    wellDone(q[0], reps);
    mc::requireF(access("failedExperiments", F_OK) != 0, [] { return std::string("a good experiment is recorded as failed"); });
    // the same triangulation as often as asked
    go({"--run-string", text(t, noise), "--reps", "1"});
    auto once = dSimplices<3, double>::simplexID.load() - 1;
    // (the ids of earlier simplices have a slight influence)
    mc::requireF(once == 0 || (used + once / 2) / once == (size_t) reps, [&] { return mc::fmt("%zu simplices made in %d repetitions, %zu in one", (size_t) used, reps, (size_t) once); });
    mc::state(mc::hashStr(line(a)));
    mc::outcome(mc::hashStr(q[0].traits["nS"]));
}
// several from a file, in order or in reverse
MC_SCENARIO("benchmark-of-a-file", 0, 0, 3) {
    Folder dir;
    int n = c.pick(4);
    std::vector<Traits> ts;
    uint kinds = mc::thorough() ? 5 : 3;
    for (int i = 0; i < n; ++i) { int k = c.pick(kinds); ts.push_back(experiment("cdmcd"[k], "unueu"[k], 10 + k, k == 1 ? 8 : k == 4 ? 2 : 1 + k, k)); }
    c.shard();
    bool reverse = c.flag(), noise = c.flag();
    std::string all;
    for (auto &t : ts) all += text(t, noise) + "\n";
    File f(all);
    Args a{"--runs", f.name, "--reps", "1"};
    if (reverse) a.push_back("--reverse");
    mc::describe(all + line({a.begin() + 2, a.end()}));
    auto r = go(a);
    mc::requireF(!r.failed(), [&] { return mc::fmt("ends with %d ", r.code) + r.what + r.err; });
    auto q = results(r);
    mc::requireF(q.size() == ts.size(), [&] { return mc::fmt("%zu results of %zu experiments", q.size(), ts.size()); });
    if (reverse) std::reverse(ts.begin(), ts.end());
    for (size_t i = 0; i < q.size(); ++i) {
        for (auto &x : ts[i]) mc::requireF(q[i].traits[x.first] == x.second, [&] { return mc::fmt("result %zu is of another experiment: ", i) + q[i].raw; });
        wellDone(q[i], 1);
    }
    // listed, not run
    auto b = a;
    b.push_back("--gen-only");
    auto l = lines(go(b).out);
    if (reverse) std::reverse(ts.begin(), ts.end());
    mc::requireF(l.size() == ts.size(), [&] { return mc::fmt("lists %zu experiments", l.size()); });
    for (size_t i = 0; i < l.size(); ++i) mc::requireF(own(traitsOf(l[i])) == ts[i], [&] { return "lists another experiment: " + l[i]; });
    mc::state(mc::hashStr(all) + reverse * 2 + noise);
    mc::outcome(n);
}
// a generated grid: listed, run at once, run from the listing
MC_SCENARIO("benchmark-round-trip", 0, 0, 3) {
    Folder dir;
    Grid g;
    g.alg = c.of(std::vector<char>{0, 'c', 'm', 'd'});
    g.minN = 8;
    g.maxN = 8 + c.pick(mc::thorough() ? 8 : 4);
    c.shard();
    g.occ = 10;
    g.maxT = 1 + c.pick(2);
    g.dist = c.of(std::vector<char>{0, 'e'});
    if (g.alg == 'd') { g.noBase = c.flag(); g.edge = c.pick(3); }
    auto a = args(g);
    a.push_back("--reps");
    a.push_back("1");
    bool reverse = c.flag();
    mc::describe(line(a));
    auto b = a;
    b.push_back("--gen-only");
    auto listed = go(b);
    sameGrid(listed, g);
    if (reverse) a.push_back("--reverse");
    auto q = results(go(a));
    File f(listed.out);
    Args fa{"--runs", f.name, "--reps", "1"};
    if (reverse) fa.push_back("--reverse");
    auto q2 = results(go(fa));
    auto l = lines(listed.out);
    if (reverse) std::reverse(l.begin(), l.end());
    mc::requireF(q.size() == l.size() && q2.size() == l.size(), [&] { return mc::fmt("%zu experiments, %zu and %zu results", l.size(), q.size(), q2.size()); });
    for (size_t i = 0; i < l.size(); ++i) {
        auto t = own(traitsOf(l[i]));
        for (auto &x : t) mc::requireF(q[i].traits[x.first] == x.second && q2[i].traits[x.first] == x.second, [&] { return "another experiment than listed: " + q[i].raw + " / " + q2[i].raw; });
        wellDone(q[i], 1);
        wellDone(q2[i], 1);
    }
    mc::state(mc::hashStr(line(a)));
    mc::outcome(l.size());
}
// command lines that describe nothing that could be run
MC_SCENARIO("benchmark-refused", 0, 0, 3) {
    Folder dir;
    int k = c.pick(9);
    c.shard();
    bool gen = c.flag(), alg = c.flag();
    Args a;
    switch (k) {
    case 0: break;                                                  // how many points?
    case 1: a = {"--minN", "5"}; break;
    case 2: a = {"--maxN", "many"}; break;
    case 3: a = {"--maxN", "20", "--strange"}; break;
    case 4: a = {"--maxN", "20", "--minN", "0"}; break;
    case 5: a = {"--maxN", "20", "--minThreads", "0"}; break;
    case 6: a = {"--maxN", "20", "--maxThreads", "-5"}; break;
    case 7: a = {"--runs", dir.dir + "/no-such-file"}; break;
    case 8: a = {"--help"}; break;
    }
    if (alg) { a.push_back("--algorithm"); a.push_back("m"); }
    if (gen) a.push_back("--gen-only");
    a.push_back("--reps");
    a.push_back("1");
    mc::describe(line(a));
    auto r = go(a);
    mc::state(k * 4 + gen * 2 + alg);
    mc::outcome(k == 8);
    mc::requireF(r.out.find("RESULT") == std::string::npos, [&] { return "prints results: " + r.out; });
    if (k == 8) mc::requireF(!r.failed() && r.out.find("--maxN") != std::string::npos, [] { return std::string("no help"); });
    else mc::requireF(r.failed(), [&] { return "succeeds and prints " + r.out; });
}
int harness_main(int argc, char **argv) { return mc::R().main(argc, argv); }
