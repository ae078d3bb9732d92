// E03: the program that prints the points of a distribution.
#include "lbsample.hpp"
#include <cstdarg>
static std::string printed;
static int captured(const char *f, ...) {
    char b[400];
    va_list l;
    va_start(l, f);
    int r = vsnprintf(b, sizeof b, f, l);
    va_end(l);
    printed += b;
    return r;
}
#include <cstdio>
#include "load_balancing/CommandLineInterface.h"
int main(int, char **) __asm__("program_main");
#define printf captured
#include "src/exe/LB_PointDump.cpp"
#undef printf
#include "program.hpp"
using program::line;

MC_SCENARIO("dumps", 0, 0, 3) {
    auto dist = c.of(std::vector<std::string>{"ellipsoid", "skew-line", "normal", "uniform", "bubble", "unbound-bubble", "patch-bubble", "malicious-bubble", "no-such-thing", ""});
    int n = c.of(mc::thorough() ? std::vector<int>{-1, 1, 2, 3, 7, 20, 50, 200} : std::vector<int>{-1, 1, 2, 7, 50});
    int sd = c.pick(mc::thorough() ? 30 : 4);
    c.shard();
    int help = c.pick(2);
    std::vector<std::string> a;
    if (!dist.empty()) { a.push_back("--distribution"); a.push_back(dist); }
    if (n > 0) { a.push_back("--n"); a.push_back(std::to_string(n)); }
    if (sd) { a.push_back("--seed"); a.push_back(std::to_string(sd)); }
    if (help) a.push_back("--help");
    mc::describe(line(a));
    printed.clear();
    startGen.seed(START_SEED);
    auto r = program::run(program::entry, a);
    r.out += printed;
    mc::state(mc::hashStr(line(a)));
    if (help) { mc::requireF(!r.failed() && r.out.find("--distribution") != std::string::npos, [] { return std::string("no help"); }); mc::outcome(1); return; }
    if (dist.empty() || dist == "no-such-thing" || n < 0) { mc::requireF(r.failed(), [&] { return "succeeds and prints " + r.out; }); mc::outcome(2); return; }
    mc::requireF(!r.failed(), [&] { return mc::fmt("ends with %d ", r.code) + r.what; });
    po::variables_map vm;
    std::vector<const char *> v{"x"};
    for (auto &x : a) v.push_back(x.c_str());
    po::store(po::parse_command_line((int) v.size(), v.data(), defaultOptions<double>()), vm);
    dBox<3, double> b;
    b.low.fill(0);
    b.high.fill(100);
    tGenerator g(sd ? sd : START_SEED);
    auto pts = createGenerator<3, double>(vm)->generate(n, b, g);
    std::stringstream s(r.out);
    std::string l;
    int k = 0;
    while (std::getline(s, l)) {
        ++k;
        double q[3];
        char rest;
        mc::requireF(sscanf(l.c_str(), "%lf %lf %lf %c", &q[0], &q[1], &q[2], &rest) == 3, [&] { return "not a point: " + l; });
        mc::requireF(k <= n, [&] { return mc::fmt("more than the %d points asked for; the first line is ", n) + r.out.substr(0, r.out.find('\n')); });
        for (int d = 0; d < 3; ++d) mc::requireF(std::abs(q[d] - pts[k].coords[d]) < 1e-6, [&] { return mc::fmt("point %d is printed as ", k) + l; });
    }
    mc::requireF(k == n, [&] { return mc::fmt("%d points instead of %d", k, n); });
    mc::outcome(mc::hashStr(r.out));
}
int harness_main(int argc, char **argv) { return mc::R().main(argc, argv); }
