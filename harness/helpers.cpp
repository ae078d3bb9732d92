// U11: task timers, stack traces, host and time queries.
#include "mc.hpp"
#include "TaskTimer.h"
#include "System.h"
#include <time.h>
#include <unistd.h>

struct Entry { int rank; std::string name; long s, e, d; };

// what the log gained since the last call
static std::vector<std::string> fresh(std::string &seen) {
    std::stringstream o;
    LOGGER.printLog(o, Logger::Verbosity::PROLIX);
    std::string all = o.str();
    mc::requireF(all.compare(0, seen.size(), seen) == 0, [] { return std::string("earlier log entries changed"); });
    std::vector<std::string> r;
    std::stringstream n(all.substr(seen.size()));
    std::string l;
    while (std::getline(n, l)) r.push_back(l);
    seen = all;
    return r;
}

static std::string seen;

MC_SCENARIO("task timer", 0, 0, 3) {
    static int serial = 0;
    bool autostart = c.flag(), silent = c.pick(4) == 3;
    int rank = c.of(std::vector<int>{0, 3, -1}), len = mc::thorough() ? 5 : 4;
    c.shard();
    std::string name = mc::fmt("task%d", ++serial);
    std::string d = mc::fmt("%s%s", autostart ? "auto " : "", silent ? "silent " : "");
    LOGGER.setLogLevel(silent ? Logger::Verbosity::SILENT : Logger::Verbosity::NORMAL);
    std::vector<std::pair<long, long>> lo, hi;        // brackets of begin and end of each period
    bool running = false;
    std::pair<long, long> begin;
    auto now = [] { return (long) Clock::now().time_since_epoch().count(); };
    size_t periods = 0;
    std::vector<std::string> lines;
    auto stamp = [&](auto f) { long a = now(); f(); return std::make_pair(a, now()); };
    auto ended = [&](std::pair<long, long> at) {
        auto l = fresh(seen);
        mc::requireF(l.size() == (running && !silent ? 1 : 0), [&] { return mc::fmt("%zu lines logged for one end", l.size()); });
        if (running && !silent) {
            std::string w, n;
            long s, e, du;
            int r;
            std::stringstream ss(l[0]);
            ss >> w >> r >> n >> s >> e >> du;
            mc::requireF(bool(ss) && w == "TIMING" && r == rank && n == name, [&] { return "the entry is '" + l[0] + "'"; });
            mc::requireF(s >= begin.first && s <= begin.second, [&] { return std::string("the begin of the period is wrong: ") + l[0]; });
            mc::requireF(e >= at.first && e <= at.second, [&] { return std::string("the end of the period is wrong: ") + l[0]; });
            mc::requireF(du == std::chrono::duration_cast<tDuration>(Clock::duration(e - s)).count(), [&] { return std::string("the duration is wrong: ") + l[0]; });
            ++periods;
        }
        running = false;
    };
    {
        std::unique_ptr<TaskTimer> t;
        begin = stamp([&] { t = std::make_unique<TaskTimer>(name, rank, autostart); });
        running = autostart;
        for (int i = 0; i < len; ++i) {
            int op = c.pick(3);
            if (op == 0) { d += "start "; begin = stamp([&] { t->start(); }); running = true; }
            else if (op == 1) { d += "end "; mc::describe(d); auto at = stamp([&] { t->end(); }); ended(at); }
            else { d += "destroy "; mc::describe(d); auto at = stamp([&] { t.reset(); }); ended(at); break; }
            mc::transition();
        }
        mc::describe(d);
        if (t) { auto at = stamp([&] { t.reset(); }); ended(at); }
    }
    LOGGER.setLogLevel(Logger::Verbosity::NORMAL);
    mc::outcome(periods);
    mc::state(mc::hashStr(d));
}

static std::string deep(int n, const std::string &file, int line, uint frames) {
    volatile int keep = n;
    if (!n) return print_stacktrace(file, line, frames);
    std::string s = deep(n - 1, file, line, frames);
    keep = keep + 1;
    return s;
}

MC_SCENARIO("stack trace", 0, 0, 3) {
    int depth = c.pick(mc::thorough() ? 80 : 12);
    uint frames = c.of(std::vector<uint>{0, 1, 2, 3, 7, 40, 63, 100});
    std::string file = c.of(std::vector<std::string>{"f.cpp", "", "a b"});
    c.shard();
    int line = c.of(std::vector<int>{0, 77, -3});
    mc::describe(mc::fmt("depth %d, %u frames", depth, frames));
    std::string s = deep(depth, file, line, frames);
    std::vector<std::string> l;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x)) l.push_back(x);
    mc::requireF(!l.empty() && l[0].find(file) != std::string::npos && l[0].find(std::to_string(line)) != std::string::npos, [&] { return "the heading is '" + s.substr(0, 80) + "'"; });
    mc::requireF(l.size() <= 1 + (size_t) frames, [&] { return mc::fmt("%zu lines for %u frames", l.size() - 1, frames); });
    mc::requireF(l.size() >= 1 + std::min<size_t>(frames, depth), [&] { return mc::fmt("only %zu lines for %u frames at depth %d", l.size() - 1, frames, depth); });
    for (size_t i = 1; i < l.size(); ++i) mc::requireF(l[i].size() > 2 && l[i][0] == '\t', [&] { return std::string("a frame without text"); });
    mc::state(mc::mix(mc::mix(depth, frames), mc::hashStr(file)));
}

MC_SCENARIO("queries", 0, 0, 3) {
    int op = c.pick(3);
    c.shard();
    if (op == 0) {
        char h[512];
        gethostname(h, sizeof h);
        mc::requireF(getHostname() == h, [] { return std::string("getHostname() is wrong: ") + getHostname(); });
    } else if (op == 1) {
        auto f = [] { char b[64]; time_t t = time(nullptr); strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", localtime(&t)); return std::string(b); };
        std::string a = f(), x = getDatetime(), b = f();
        mc::requireF(a <= x && x <= b, [&] { return "getDatetime() is '" + x + "', expected between " + a + " and " + b; });
    } else {
        std::vector<char> big(1 << (10 + c.pick(15)), 'x');
        size_t p = getPeakRSS(), q = getCurrentRSS();
        mc::requireF(q > 0 && p > 0, [] { return std::string("no memory in use"); });
        struct { long size = 0; } m;
        FILE *fp = fopen("/proc/self/statm", "r");
        long pages = 0;
        if (fp) { if (fscanf(fp, "%*s%ld", &pages) != 1) pages = 0; fclose(fp); }
        if (pages) mc::requireF(q <= 2 * (size_t) pages * sysconf(_SC_PAGESIZE) && 2 * q >= (size_t) pages * sysconf(_SC_PAGESIZE), [&] { return mc::fmt("memory in use is reported as %zu, it is %ld pages", q, pages); });
    }
    mc::state(op);
}

// ---- logged containers -------------------------------------------------------------------------------
MC_SCENARIO("logged containers", 0, 0, 3) {
    std::vector<std::string> v(c.pick(5));
    std::string pre = c.of(std::vector<std::string>{"", "pre"}), sep = c.of(std::vector<std::string>{" ", ", ", ""});
    c.shard();
    for (auto &x : v) x = c.of(std::vector<std::string>{"a", "bc", ""});
    int lv = 1 + c.pick(3), at = c.pick(4);
    bool whole = c.flag();
    LOGGER.setLogLevel((Logger::Verbosity) at);
    std::string want;
    if (!pre.empty()) want = pre + sep;
    for (size_t i = 0; i < v.size(); ++i) want += (i ? sep : "") + v[i];
    mc::describe(mc::fmt("%zu elements at level %d of %d: ", v.size(), lv, at) + want);
    if (whole) LOGGER.logContainer(v, (Logger::Verbosity) lv, pre, sep);
    else LOGGER.logContainer(v.begin(), v.end(), (Logger::Verbosity) lv, pre, sep);
    auto l = fresh(seen);
    if (lv <= at) mc::requireF(l.size() == 1 && l[0] == want, [&] { return "the log shows '" + (l.empty() ? std::string() : l[0]) + "', expected '" + want + "'"; });
    else mc::requireF(l.empty(), [] { return std::string("an entry of a deeper level was logged"); });
    LOGGER.setLogLevel(Logger::Verbosity::NORMAL);
    mc::state(mc::hashStr(want + std::to_string(lv * 4 + at)));
}

MC_MAIN
