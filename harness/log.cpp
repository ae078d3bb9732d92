// U04: every sequence of operations on the log, against a plain list; every interleaving of two writers.
#include "sched.hpp"
#include <iostream>
#include <memory>
#include <boost/noncopyable.hpp>
#include "utils/TBB_Containers.h"
#include "utils/ASSERT.h"
#define private public
#define protected public
#include "Logger.h"
#undef private
#undef protected

typedef Logger::Verbosity V;

static const V LEVELS[] = {V::NORMAL, V::VERBOSE, V::PROLIX};
static const V SETTABLE[] = {V::SILENT, V::NORMAL, V::VERBOSE, V::PROLIX, V::LIVE, V::LIVEVERBOSE, V::LIVEPROLIX};
static const char *LN[] = {"LIVEPROLIX", "LIVEVERBOSE", "LIVE", "SILENT", "NORMAL", "VERBOSE", "PROLIX"};

static const char *ln(V v) { return LN[(int) v + 3]; }

// the log object of the program is never emptied: remember how long its output was
struct Capture {
    std::streambuf *old;
    std::ostringstream ss;
    Capture() { old = std::cout.rdbuf(ss.rdbuf()); }
    ~Capture() { std::cout.rdbuf(old); }
};

struct Entry { V level; std::string text; };

static std::string printed(const std::vector<Entry> &e, V level) {
    std::string s;
    if (level == V::SILENT) return s;
    for (auto &x : e) if ((int) x.level <= (int) level) s += x.text;
    return s;
}

MC_SCENARIO("sequences", 0, 0, 3) {
    int n = c.pick(mc::thorough() ? 6 : 5);
    Logger log;
    log.setIndent(0);
    std::vector<Entry> ref;
    std::string live, d;
    V level = V::NORMAL;
    unsigned ind = 0;
    mc::requireF(log.getLogLevel() == V::NORMAL, [] { return std::string("a new log is not at level NORMAL"); });
    Capture cap;
    for (int i = 0; i < n; ++i) {
        int k = c.pick(8);
        if (k < 3) {
            d += mc::fmt("add(%s) ", ln(LEVELS[k]));
            std::string t = mc::fmt("entry %d", i);
            log.addLogEntry(LEVELS[k]) << t << std::endl;
            (int) level < 0 ? (void) (live += std::string(ind, '\t') + t + "\n") : ref.push_back(Entry{LEVELS[k], std::string(ind, '\t') + t + "\n"});
        } else if (k == 3) { d += "indent "; log.incIndent(); ++ind; }
        else if (k == 4) {
            if (ind == 0) {
                d += "setIndent(2) ";
                log.setIndent(2);
                ind = 2;
            } else { d += "dedent "; log.decIndent(); --ind; }
        } else if (k == 5) {
            V v = SETTABLE[c.pick(7)];
            d += mc::fmt("level(%s) ", ln(v));
            log.setLogLevel(v);
            level = v;
        } else {
            bool own = k == 6;
            V v = own ? level : SETTABLE[c.pick(7)];
            d += own ? "print " : mc::fmt("print(%s) ", ln(v));
            std::ostringstream o;
            if (own) { if (i % 2) log.printLog(o); else o << log; } else log.printLog(o, v);
            mc::describe(d);
            std::string w = printed(ref, v);
            mc::requireF(o.str() == w, [&] { return "printed '" + o.str() + "', expected '" + w + "'"; });
        }
        mc::describe(d);
        if (i == 1) c.shard();
        mc::requireF(log.getIndent() == ind && log.indent() == std::string(ind, '\t'), [] { return std::string("the indentation is wrong"); });
        mc::requireF(log.getLogLevel() == level, [] { return std::string("the level is wrong"); });
        mc::requireF(cap.ss.str() == live, [&] { return "the live output is '" + cap.ss.str() + "', expected '" + live + "'"; });
    }
    if (n < 2) c.shard();
    for (V v : SETTABLE) {
        std::ostringstream o;
        log.printLog(o, v);
        std::string w = printed(ref, v);
        mc::requireF(o.str() == w, [&] { return std::string("printed at level ") + ln(v) + " '" + o.str() + "', expected '" + w + "'"; });
    }
    log.setIndent(0);
    mc::state(mc::hashStr(d));
    mc::outcome(mc::hashStr(printed(ref, V::PROLIX)));
}

static std::string all(V v) {
    std::ostringstream o;
    LOGGER.printLog(o, v);
    return o.str();
}

struct Restore {
    V v = LOGGER.getLogLevel();
    ~Restore() { LOGGER.setLogLevel(v); LOGGER.setIndent(0); }
};

MC_SCENARIO("macros", 0, 0, 3) {
    // the macros of the one log of the program, at every level, including containers
    V level = SETTABLE[c.pick(7)];
    int n = c.pick(mc::thorough() ? 4 : 3);
    Restore rs;
    LOGGER.setIndent(0);
    LOGGER.setLogLevel(level);
    int a = std::abs((int) level);
    std::map<V, std::string> before;
    for (V v : {V::NORMAL, V::VERBOSE, V::PROLIX}) before[v] = all(v);
    std::vector<Entry> ref;
    std::string live, d = std::string("level ") + ln(level) + ": ";
    unsigned ind = 0;
    {
        Capture cap;
        auto put = [&](V l, const std::string &t) {
            if (a < (int) l) return;
            std::string x = std::string(ind, '\t') + t;
            if ((int) level < 0) live += x; else ref.push_back(Entry{l, x});
        };
        for (int i = 0; i < n; ++i) {
            int k = c.pick(10);
            if (i == 0) c.shard();
            d += mc::fmt("op%d ", k);
            mc::describe(d);
            static const std::vector<std::vector<int>> CONT = {{}, {1}, {1, 2, 3}};
            switch (k) {
                case 0: LOG("n" << i << std::endl); put(V::NORMAL, mc::fmt("n%d\n", i)); break;
                case 1: VLOG("v" << i << std::endl); put(V::VERBOSE, mc::fmt("v%d\n", i)); break;
                case 2: PLOG("p" << i << std::endl); put(V::PROLIX, mc::fmt("p%d\n", i)); break;
                case 3: INDENT; if (a >= 1) ++ind; break;
                case 4: if (ind > 0) { DEDENT; --ind; } break;
                default: {
                    const auto &v = CONT[c.pick(3)];
                    V l = LEVELS[c.pick(3)];
                    std::string p = c.flag() ? "pre" : "", s = k >= 8 ? ", " : " ", w = p.empty() ? "" : p + s;
                    for (size_t j = 0; j < v.size(); ++j) w += (j ? s : "") + std::to_string(v[j]);
                    if (k == 5) LOGGER.logContainer(v, l, p);
                    else if (k == 6) LOGGER.logContainer(v.begin(), v.end(), l, p);
                    else if (k == 7) LOGGER.logContainer(v, l, p, s);
                    else LOGGER.logContainer(v.begin(), v.end(), l, p, s);
                    put(l, w + "\n");
                }
            }
        }
        if (n == 0) c.shard();
        mc::requireF(cap.ss.str() == live, [&] { return "the live output is '" + cap.ss.str() + "', expected '" + live + "'"; });
    }
    for (V v : {V::NORMAL, V::VERBOSE, V::PROLIX}) {
        std::string w = before[v] + printed(ref, v), g = all(v);
        mc::requireF(g == w, [&] { return std::string("printed at level ") + ln(v) + " '" + g.substr(std::min(g.size(), before[v].size())) + "', expected '" + printed(ref, v) + "'"; });
    }
    mc::requireF(all(V::SILENT).empty(), [] { return std::string("printing at level SILENT prints something"); });
    // keep the log short
    LOGGER.logEntries.clear();
    mc::state(mc::hashStr(d));
}

static void writers(mc::Choice &c, int threads, int ops) {
    std::vector<std::vector<int>> p(threads);
    std::string d;
    int last = -1;
    for (auto &t : p) {
        int code = 0;
        d += "{";
        for (int i = 0; i < ops; ++i) { t.push_back(c.pick(4)); code = code * 4 + t.back(); d += mc::fmt("op%d ", t.back()); }
        if (code < last) throw mc::Skip();
        last = code;
        d += "}";
    }
    c.shard();
    mc::describe(d);
    Logger log;
    log.setIndent(0);
    log.setLogLevel(V::PROLIX);
    std::vector<std::vector<Entry>> mine(threads);
    std::vector<std::function<void()>> b;
    for (int t = 0; t < threads; ++t)
        b.push_back([&, t] {
            unsigned ind = 0;
            log.setIndent(0);
            for (int i = 0; i < ops; ++i) {
                if (p[t][i] == 3) { log.incIndent(); ++ind; }
                else {
                    V v = LEVELS[p[t][i]];
                    std::ostream *o;
                    {
                        std::ostream &s = log.addLogEntry(v);
                        o = &s;
                    }
                    sched::Quiet q;       // formatting is not the log's business
                    *o << "thread " << t << " entry " << i << "\n";
                    mine[t].push_back(Entry{v, std::string(ind, '\t') + mc::fmt("thread %d entry %d\n", t, i)});
                }
            }
        });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, b, opt);
    for (V v : LEVELS) {
        std::ostringstream o;
        log.printLog(o, v);
        // the output is a merge of what the threads wrote, whole entries only
        std::vector<std::string> lines;
        std::stringstream ss(o.str());
        std::string l;
        while (std::getline(ss, l)) lines.push_back(l + "\n");
        std::vector<size_t> at(threads, 0);
        std::vector<std::vector<std::string>> w(threads);
        for (int t = 0; t < threads; ++t) for (auto &e : mine[t]) if ((int) e.level <= (int) v) w[t].push_back(e.text);
        bool ok = true;
        for (auto &x : lines) {
            bool f = false;
            for (int t = 0; t < threads && !f; ++t) if (at[t] < w[t].size() && w[t][at[t]] == x) { ++at[t]; f = true; }
            ok &= f;
        }
        for (int t = 0; t < threads; ++t) ok &= at[t] == w[t].size();
        mc::requireF(ok, [&] { return std::string("the log printed at level ") + ln(v) + " is no merge of what the threads wrote: '" + o.str() + "'"; });
        if (v == V::PROLIX) { mc::outcome(mc::hashStr(o.str())); mc::state(mc::mix(mc::hashStr(d + o.str()), sched::switches())); }
    }
    log.setIndent(0);
}

MC_SCENARIO("2 writers x 2", 2, 4, 3) { writers(c, 2, 2); }
MC_SCENARIO("3 writers x 1", 2, 4, 3) { writers(c, 3, 1); }
MC_SCENARIO("2 writers x 3", 1, 3, 3) { writers(c, 2, 3); }

MC_MAIN
