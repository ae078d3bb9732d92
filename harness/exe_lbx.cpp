// E03: the program of the experiments, from its command line to what it prints.
#include "lbsample.hpp"
int main(int, char **) __asm__("program_main");
#include "src/exe/LB_Experiments.cpp"
#include "program.hpp"
#include "json.hpp"
using program::File; using program::Ran; using program::line;

static std::string graphs() {
    uint64_t h = 7;
    for (auto &k : kaffpaCalls) { h = mc::mix(h, k.n); for (auto x : k.adj) h = mc::mix(h, x); for (auto x : k.w) h = mc::mix(h, x); }
    return std::to_string(h);
}
static Ran go(const std::vector<std::string> &a, uint32_t litter = 0) {
    startGen.seed(START_SEED);
    dSimplices<2, double>::simplexID = 1;
    dSimplices<3, double>::simplexID = 1;
    kaffpaCalls.clear();
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    program::litter(litter);
    return program::run(program::entry, a);
}
// the output without what depends on the clock
static std::string timeless(const Json &j) {
    std::string s;
    switch (j.kind) {
    case Json::OBJ: for (auto &x : j.o) if (x.first != "date" && x.first != "args" && x.first.find("time") == std::string::npos) s += x.first + ":" + timeless(x.second) + ";"; return s;
    case Json::ARR: { std::vector<std::string> v; for (auto &x : j.a) v.push_back(timeless(x)); std::sort(v.begin(), v.end()); for (auto &x : v) s += x + ","; return s; }
    default: return j.s;
    }
}
struct Gist { std::string all, graph; size_t simplices; };
static Gist judge(const Ran &r, const std::vector<std::string> &a, size_t n, const std::string &dist, uint threads, uint seed, const std::string &part, bool validate) {
    mc::requireF(!r.failed(), [&] { return mc::fmt("ends with %d ", r.code) + r.what + r.err; });
    JsonReader rd{r.out};
    auto j = rd.all();
    auto eq = [&](const std::string &got, const std::string &want, const char *what) { mc::requireF(got == want, [&] { return std::string(what) + " is given as " + got + " instead of " + want; }); };
    eq(j.at("args").str(), line(a), "the command line");
    eq(j.at("distribution").str(), dist, "the distribution");
    eq(j.at("numpoints").num(), std::to_string(n), "the number of points");
    eq(j.at("threads").num(), std::to_string(threads), "the number of threads");
    eq(j.at("seed").num(), std::to_string(seed), "the seed");
    eq(j.at("partitioner").str(), part, "the partitioner");
    auto &res = j.at("results").arr();
    mc::requireF(res.size() == 1, [&] { return mc::fmt("%zu results", res.size()); });
    mc::requireF(res[0].has("valid") == validate, [] { return std::string("validated although not asked for, or not validated"); });
    if (validate) mc::requireF(res[0].at("valid").flag(), [] { return std::string("an invalid triangulation"); });
    Gist g;
    g.all = timeless(j);
    g.graph = graphs();
    g.simplices = std::stoull(res[0].at("simplices").num());
    return g;
}
static std::string nameOf(const std::string &p, uint D, uint threads) {
    std::vector<std::string> a{"x", "--partitioner", p, "--cell-width", "20"};
    std::vector<const char *> v;
    for (auto &x : a) v.push_back(x.c_str());
    po::variables_map vm;
    po::store(po::parse_command_line((int) v.size(), v.data(), defaultOptions<double>()), vm);
    std::mt19937 g(1);
    return D == 2 ? createPartitioner<2, double, lb::ComprehensiveMonitor>(vm, threads, g)->info() : createPartitioner<3, double, lb::ComprehensiveMonitor>(vm, threads, g)->info();
}

// a generated point set
MC_SCENARIO("experiments-generated", 0, 0, 3) {
    bool th = mc::thorough();
    uint D = 2 + c.pick(2);
    auto part = c.of(std::vector<std::string>{"nearest-sample-pasp", "center-distance-pasp", "kway-cycle", "binary-besp", "cycle"});
    auto dist = c.of(th ? std::vector<std::string>{"uniform", "normal", "bubble", "unbound-bubble"} : std::vector<std::string>{"uniform", "unbound-bubble"});
    size_t n = c.of(th ? std::vector<size_t>{8, 13, 20, 30} : std::vector<size_t>{8, 13});
    int sd = c.pick(th ? 6 : 3);                   // 0: none given
    c.shard();
    int threads = c.pick(3);                       // 0: none given
    bool validate = c.flag();
    int verb = c.pick(3);
    std::vector<std::string> a{"--dim", std::to_string(D), "--n", std::to_string(n), "--distribution", dist, "--partitioner", part, "--cell-width", "20", "--sample-size", "7"};
    if (sd) { a.push_back("--seed"); a.push_back(std::to_string(sd * 17)); }
    if (threads) { a.push_back("--threads"); a.push_back(std::to_string(threads * 2)); }
    if (validate) { a.push_back("--validate"); a.push_back("1"); }
    if (verb) { a.push_back("--verbosity"); a.push_back(verb == 1 ? "0" : "2"); }
    mc::describe(line(a));
    uint t = threads ? threads * 2 : tbb::task_scheduler_init::default_num_threads(), seed = sd ? sd * 17 : START_SEED;
    auto name = nameOf(part, D, t);
    auto r = go(a);
    auto level = LOGGER.getLogLevel();
    auto g = judge(r, a, n, dist, t, seed, name, validate);
    if (verb) mc::requireF((int) level == (verb == 1 ? 0 : 2), [&] { return mc::fmt("the verbosity is %d", (int) level); });
    // the same again, and with the seed spelt out
    auto r2 = go(a);
    auto g2 = judge(r2, a, n, dist, t, seed, name, validate);
    mc::requireF(g.all == g2.all && g.graph == g2.graph, [] { return std::string("the same command line yields another result"); });
    auto with = [&](uint s) { auto b = a; if (sd) b[std::find(b.begin(), b.end(), "--seed") - b.begin() + 1] = std::to_string(s); else { b.push_back("--seed"); b.push_back(std::to_string(s)); } return b; };
    if (!sd) {
        auto b = with(START_SEED);
        auto g3 = judge(go(b), b, n, dist, t, seed, name, validate);
        mc::requireF(g.all == g3.all && g.graph == g3.graph, [] { return std::string("the seed in the record is not the one that yields the result"); });
    }
    // some other seed yields another result where it can be seen
    if (part == "nearest-sample-pasp" || part == "center-distance-pasp") {
        bool other = false;
        for (uint s = 1000; s < 1012 && !other; ++s) { auto b = with(s); go(b); other = graphs() != g.graph; }
        mc::requireF(other, [] { return std::string("twelve other seeds yield the same sample graph"); });
    }
    mc::state(mc::hashStr(line(a)));
    mc::outcome(mc::hashStr(g.all + g.graph));
}

// points from a file
MC_SCENARIO("experiments-from-a-file", 0, 0, 3) {
    uint D = 2 + c.pick(2);
    auto part = c.of(std::vector<std::string>{"nearest-sample-pasp", "binary-besp", "cycle"});
    int set = c.pick(mc::thorough() ? 20 : 4);
    size_t n = 6 + c.pick(mc::thorough() ? 6 : 2);
    c.shard();
    bool validate = c.flag(), named = c.flag(), counted = c.flag();
    std::string text;
    uint32_t x = 77 + set * 1000 + n;
    auto rnd = [&] { x = x * 1664525u + 1013904223u; return (x >> 8) % 100000 / 1024.0 + 100; };
    for (size_t i = 0; i < n; ++i) { for (uint d = 0; d < D; ++d) text += mc::fmt(d ? " %.10f" : "%.10f", rnd()); text += "\n"; }
    File f(text);
    std::vector<std::string> a{"--dim", std::to_string(D), "--points", f.name, "--partitioner", part, "--threads", "2", "--seed", "5", "--cell-width", "20"};
    if (validate) { a.push_back("--validate"); a.push_back("1"); }
    if (named) { a.push_back("--distribution"); a.push_back("uniform"); }
    if (counted) { a.push_back("--n"); a.push_back("9"); }
    mc::describe(mc::fmt("set %d of %zu points ", set, n) + line(a));
    auto r = go(a);
    auto g = judge(r, a, n, f.name, 2, 5, nameOf(part, D, 2), validate);
    mc::state(mc::hashStr(text + part) + validate + named * 2 + counted * 4);
    mc::outcome(mc::hashStr(g.graph) + g.simplices);
}

// command lines that name no experiment
MC_SCENARIO("experiments-refused", 0, 0, 3) {
    int dim = c.pick(6);                           // none, 0, 1, 2, 3, 4
    bool n = c.flag();
    int part = c.pick(3), dist = c.pick(3);        // none, a good one, a bad one
    uint32_t lit = c.of(std::vector<uint32_t>{0, 2, 3});
    bool help = c.flag(), strange = c.flag();
    c.shard();
    std::vector<std::string> a;
    if (dim) { a.push_back("--dim"); a.push_back(std::to_string(dim - 1)); }
    if (n) { a.push_back("--n"); a.push_back("9"); }
    if (part) { a.push_back("--partitioner"); a.push_back(part == 1 ? "kway-cycle" : "no-such-thing"); }
    if (dist) { a.push_back("--distribution"); a.push_back(dist == 1 ? "uniform" : "no-such-thing"); }
    if (help) a.push_back("--help");
    if (strange) a.push_back("--no-such-option");
    a.push_back("--threads"); a.push_back("2");
    mc::describe(mc::fmt("stack of %u: ", lit) + line(a));
    bool good = (dim == 3 || dim == 4) && n && part == 1 && dist == 1 && !strange;
    auto r = go(a, lit);
    mc::state(mc::hashStr(line(a)) + lit);
    if (help && !strange) {
        mc::requireF(!r.failed() && r.out.find("--partitioner") != std::string::npos && r.out.find("--dim") != std::string::npos, [] { return std::string("no help"); });
        mc::outcome(1);
        return;
    }
    mc::requireF(r.failed() == !good, [&] { return mc::fmt("ends with %d and prints ", r.code) + r.out + r.err; });
    if (!good) mc::requireF(!(r.out + r.err + r.what).empty(), [] { return std::string("fails without a word"); });
    if (!good) mc::requireF(r.out.find("\"valid\"") == std::string::npos && r.out.find("\"simplices\"") == std::string::npos, [&] { return "a result is printed: " + r.out; });
    mc::outcome(2 + good);
}
int harness_main(int argc, char **argv) { return mc::R().main(argc, argv); }
