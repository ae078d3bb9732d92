// mc.hpp - exhaustive exploration of choice sequences (stateless model checking of real code).
//
// A scenario is a function of a Choice object. Everything that is not fixed - inputs, operation
// sequences, task orders, thread schedules, faults - is drawn from it:
//     c.pick(n)   an input choice in [0,n); every value is explored
//     c.dev(n)    a deviation choice: 0 is the default, any other value costs one deviation
// The explorer enumerates ALL sequences with at most `bound` deviations, depth first, by re-execution.
// A violation is identified by the scenario name and its choice sequence, and is replayed from that.
#pragma once
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <sys/resource.h>
#include <execinfo.h>
#include <unistd.h>
#include <fcntl.h>

#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace mc {

struct Skip {};                                  // this execution is not part of the space (or of this shard)
struct Fail {                                    // the property does not hold on this execution
    std::string key, msg;
};

struct Known {};                                 // a listed finding was recorded, the execution is over

struct Hooks {                                   // of the controlled scheduler
    std::function<bool()> grew;                  // new scheduling points were learned: explore again
    std::function<void()> reset;
    std::function<std::string()> save;
    std::function<void(const std::string &)> load;
    std::function<void()> begin;                 // of the harness: called before every execution
};

inline Hooks &hooks() {
    static Hooks h;
    return h;
}

inline std::string fmt(const char *f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
    return mix(h, s.size());
}

class Choice {
public:
    struct P {
        int c, n;
        bool dev;
    };
    std::vector<P> trace;      // choices made in this execution
    std::vector<int> prefix;   // choices to repeat
    int bound = 0;
    int used = 0;
    bool replay = false;
    int shardNo = 0, shards = 1;
    bool spread = false;

    void start() {
        trace.clear();
        used = 0;
    }

    int pick(int n) { return choose(n, false); }

    int dev(int n) { return choose(n, true); }

    template<typename T>
    const T &of(const std::vector<T> &v) { return v[pick((int) v.size())]; }

    bool flag() { return pick(2) == 1; }

    // distribute the space over the worker processes by the choices made so far
    void shard() {
        if (replay || shards <= 1) return;
        uint64_t h = 12345;
        for (auto &p : trace) h = mix(h, p.c);
        if ((int) (h % shards) != shardNo) throw Skip();
    }

    // distribute the deviations over the worker processes instead: the first deviation of an execution
    // belongs to one of them (all explore the execution without any)
    void shardDeviations() { spread = shards > 1 && !replay; }

    // next choice sequence in depth-first order; false: space exhausted
    bool next() {
        int u = 0;                                       // deviations before the last choice of the trace
        for (auto &q : trace) u += q.dev && q.c > 0;
        while (!trace.empty()) {
            P p = trace.back();
            trace.pop_back();
            u -= p.dev && p.c > 0;
            int alt = p.c + 1;
            if (p.dev && u + 1 > bound) continue;
            if (p.dev && u == 0 && spread)
                while (alt < p.n && (int) (mix(trace.size(), alt) % shards) != shardNo) ++alt;
            if (alt < p.n) {
                prefix.clear();
                for (auto &q : trace) prefix.push_back(q.c);
                prefix.push_back(alt);
                return true;
            }
        }
        return false;
    }


    std::string str() const {
        // trailing defaults need not be written down
        size_t n = trace.size();
        while (n > 0 && trace[n - 1].c == 0) --n;
        std::string s;
        for (size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(trace[i].c);
        return s.empty() ? "-" : s;
    }

private:
    int choose(int n, bool dev) {
        if (n <= 0) throw std::logic_error("mc: empty choice");
        size_t i = trace.size();
        int c = 0;
        if (i < prefix.size()) {
            c = prefix[i];
            if (c >= n) {
                fprintf(stderr, "mc: REPLAY DIVERGENCE at choice %zu (%d of %d)\n", i, c, n);
                _exit(3);
            }
        }
        trace.push_back(P{c, n, dev});
        if (dev && c > 0) ++used;
        return c;
    }
};

struct Stats {
    uint64_t executions = 0, skipped = 0, transitions = 0, evaluations = 0, points = 0;
    uint64_t maxDepth = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> counters;
    std::set<std::string> notes;
};

class Runner;
Runner &R();

struct Scenario {
    std::string name;
    std::function<void(Choice &)> fn;
    int quickBound, thoroughBound;
    int tiers;   // 1 quick only, 2 thorough only, 3 both
    std::string rule;
};

class Runner {
public:
    std::vector<Scenario> scenarios;
    Stats st;
    std::string property, tier = "quick", outFile;
    bool thorough = false;
    std::set<std::string> known;
    Choice *cur = nullptr;
    const Scenario *curSc = nullptr;
    volatile uint64_t progress = 0;
    std::vector<std::string> fails;
    std::string desc;            // description of the running execution, for crash reports
    double budget = 0;           // wall clock budget in seconds, 0 = none
    bool capped = false;
    int hangLimit = 20;          // CPU seconds for one execution
    struct Done { std::string name; int bound; uint64_t executions; bool complete; std::string points; };
    std::vector<Done> done;
    std::map<std::string, std::string> pointsOf;

    static double now() {
        timeval tv;
        gettimeofday(&tv, nullptr);
        return tv.tv_sec + tv.tv_usec * 1e-6;
    }

    static std::string esc(const std::string &s) {
        std::string r;
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
            else if (ch == '\n') r += "\\n";
            else if (ch < 32 || ch > 126) r += fmt("\\u%04x", ch);
            else r += ch;
        }
        return r;
    }

    void writeOut(bool fromSignal = false) {
        if (outFile.empty()) return;
        std::string tmp = outFile + ".tmp";
        FILE *f = fopen(tmp.c_str(), "w");
        if (!f) return;
        fprintf(f, "{\"executions\": %llu, \"skipped\": %llu, \"transitions\": %llu, \"evaluations\": %llu, \"choice_points\": %llu, \"max_depth\": %llu, \"states\": %zu, \"outcomes\": %zu, \"capped\": %s,\n",
                (unsigned long long) st.executions, (unsigned long long) st.skipped, (unsigned long long) st.transitions,
                (unsigned long long) st.evaluations, (unsigned long long) st.points, (unsigned long long) st.maxDepth,
                st.states.size(), st.outcomes.size(), capped ? "true" : "false");
        fprintf(f, "\"scenarios\": [");
        for (size_t i = 0; i < done.size(); ++i)
            fprintf(f, "%s{\"name\": \"%s\", \"bound\": %d, \"executions\": %llu, \"complete\": %s, \"points\": \"%s\"}", i ? ", " : "", esc(done[i].name).c_str(), done[i].bound, (unsigned long long) done[i].executions, done[i].complete ? "true" : "false", done[i].points.c_str());
        fprintf(f, "],\n\"counters\": {");
        bool first = true;
        for (auto &c : st.counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(c.first).c_str(), (unsigned long long) c.second); first = false; }
        fprintf(f, "},\n\"samples\": [");
        for (size_t i = 0; i < st.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(st.samples[i]).c_str());
        fprintf(f, "],\n\"fails\": [");
        for (size_t i = 0; i < fails.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", fails[i].c_str());
        fprintf(f, "],\n\"complete\": %s}\n", fromSignal ? "false" : "true");
        fclose(f);
        rename(tmp.c_str(), outFile.c_str());
        if (!fromSignal) {
            std::string hf = outFile + ".hashes";
            FILE *h = fopen(hf.c_str(), "wb");
            if (h) {
                size_t n = 0;
                for (auto x : st.states) { if (n++ > 400000) break; fwrite(&x, 8, 1, h); }
                fclose(h);
            }
        }
    }

    void addFail(const std::string &key, const std::string &msg) {
        std::string cs = cur ? cur->str() : "-";
        std::string sc = curSc ? curSc->name : "-";
        bool kn = known.count(key) > 0;
        if (kn) {
            // one record per known key
            static std::set<std::string> seen;
            if (!seen.insert(key).second) return;
        }
        fails.push_back("{\"scenario\": \"" + esc(sc) + "\", \"choices\": \"" + cs + "\", \"aux\": \"" + (hooks().save ? hooks().save() : std::string()) + "\", \"bound\": " + std::to_string(cur ? cur->bound : 0) + ", \"known\": " + (kn ? "true" : "false") + ", " +
                        "\"key\": \"" + esc(key) + "\", \"msg\": \"" + esc(msg) + "\", \"desc\": \"" + esc(desc) + "\"}");
    }

    // the violation cannot be unwound: write the result and leave. Returns for listed findings.
    void failNow(const std::string &key, const std::string &msg) {
        addFail(key, msg);
        if (known.count(key)) return;
        if (cur && cur->replay) for (auto &f : fails) printf("REPLAYED %s\n", f.c_str());
        fflush(stdout);
        writeOut(true);
        _exit(1);
    }

    static void onSignal(int sig) {
        static volatile sig_atomic_t in = 0;
        if (in) _exit(4);
        in = 1;
        Runner &r = R();
        const char *what = sig == SIGSEGV ? "SIGSEGV (invalid memory access)" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal";
        r.addFail(std::string("crash:") + (r.curSc ? r.curSc->name : "-") + ":" + r.desc, std::string("the code under test crashed: ") + what);
        r.writeOut(true);
        _exit(1);
    }

    static void onTick(int) {
        Runner &r = R();
        static uint64_t last = 0;
        static int same = 0;
        if (r.progress == last) {
            if (++same >= r.hangLimit) {
                r.addFail(std::string("hang:") + (r.curSc ? r.curSc->name : "-") + ":" + r.desc, fmt("the execution did not terminate within %d CPU seconds", r.hangLimit));
                r.writeOut(true);
                _exit(1);
            }
        } else {
            last = r.progress;
            same = 0;
        }
    }

    static void onSanitizer() { onSignal(SIGABRT); }

    void install() {
        static char alt[1 << 18];
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = onSignal;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
#ifdef __SANITIZE_ADDRESS__
        __sanitizer_set_death_callback(onSanitizer);
#endif
        sa.sa_handler = onTick;
        sa.sa_flags = SA_ONSTACK | SA_RESTART;
        sigaction(SIGPROF, &sa, nullptr);
        itimerval it{{1, 0}, {1, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
    }

    // one execution; returns true if it counts
    bool runOne(const Scenario &s, Choice &c) {
        cur = &c;
        curSc = &s;
        c.start();
        desc.clear();
        ++progress;
        bool counted = true;
        if (hooks().begin) hooks().begin();
        try {
            s.fn(c);
        } catch (Skip &) {
            counted = false;
        } catch (Known &) {
        } catch (Fail &f) {
            addFail(f.key, f.msg);
        } catch (std::exception &e) {
            addFail(std::string("exception:") + s.name + ":" + desc, std::string("unexpected exception: ") + std::string(e.what()).substr(0, 600));
        } catch (...) {
            addFail(std::string("exception:") + s.name + ":" + desc, "unexpected exception of unknown type");
        }
        if (c.trace.size() < c.prefix.size() && counted) {
            bool f = false;
            for (auto &x : fails) (void) x, f = true;
            if (!f) {
                fprintf(stderr, "mc: REPLAY DIVERGENCE: execution used %zu of %zu prefix choices in %s: %s\n", c.trace.size(), c.prefix.size(), s.name.c_str(), desc.c_str());
                for (auto x : c.prefix) fprintf(stderr, " %d", x);
                fprintf(stderr, " expected,");
                for (auto &x : c.trace) fprintf(stderr, " %d/%d", x.c, x.n);
                fprintf(stderr, " made\n");
                _exit(3);
            }
        }
        st.points += c.trace.size();
        if (c.trace.size() > st.maxDepth) st.maxDepth = c.trace.size();
        if (counted) {
            ++st.executions;
            if ((st.executions & (st.executions - 1)) == 0 && st.samples.size() < 24)
                st.samples.push_back(s.name + " [" + c.str().substr(0, 120) + "] " + desc.substr(0, 200));
        } else ++st.skipped;
        return counted;
    }

    bool hasNewFail() const {
        for (auto &f : fails) if (f.find("\"known\": false") != std::string::npos) return true;
        return false;
    }

    void explore(const Scenario &s, int bound, int shardNo, int shards, double deadline) {
        Stats keep = st;
        if (hooks().reset) hooks().reset();
        if (hooks().load && pointsOf.count(s.name)) hooks().load(pointsOf[s.name]);
        bool learning = hooks().grew && bound > 1;  // close the set of scheduling points cheaply first
        int restarts = 0;
    again:
        Choice c;
        c.bound = learning ? 1 : bound;
        c.shardNo = shardNo;
        c.shards = shards;
        uint64_t n0 = st.executions;
        bool complete = true;
        while (true) {
            runOne(s, c);
            if (hooks().grew && !hasNewFail() && hooks().grew()) {
                st = keep;
                if (++restarts > 300) { fprintf(stderr, "mc: scheduling points do not converge\n"); _exit(3); }
                goto again;
            }
            if (hasNewFail()) { complete = false; break; }
            if (deadline > 0 && (st.executions & 15) == 0 && now() > deadline) { complete = false; capped = true; break; }
            if (!c.next()) break;
        }
        if (learning && complete) {
            learning = false;
            st = keep;
            goto again;
        }
        // workers that share an exploration have to agree on its scheduling points: the driver sees to it
        done.push_back(Done{s.name, bound, st.executions - n0, complete, c.spread && hooks().save ? hooks().save() : std::string()});
    }

    int main(int argc, char **argv) {
        int shardNo = 0, shards = 1;
        std::string only, replaySc, replayCh, aux;
        int replayBound = 1 << 30;
        bool list = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--tier") tier = val();
            else if (a == "--property") property = val();
            else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &shardNo, &shards); }
            else if (a == "--out") outFile = val();
            else if (a == "--only") only = val();
            else if (a == "--budget") budget = atof(val().c_str());
            else if (a == "--hang") hangLimit = atoi(val().c_str());
            else if (a == "--replay") { replaySc = val(); replayCh = val(); }
            else if (a == "--list") list = true;
            else if (a == "--aux") aux = val();
            else if (a == "--points") {
                std::ifstream f(val());
                std::string n, p;
                while (std::getline(f, n) && std::getline(f, p)) pointsOf[n] = p;
            }
            else if (a == "--bound") replayBound = atoi(val().c_str());
            else if (a == "--known") {
                FILE *f = fopen(val().c_str(), "r");
                if (f) {
                    char b[8192];
                    while (fgets(b, sizeof b, f)) { std::string l = b; while (!l.empty() && (l.back() == '\n')) l.pop_back(); if (!l.empty()) known.insert(l); }
                    fclose(f);
                }
            }
        }
        thorough = tier == "thorough";
        if (list) {
            for (auto &s : scenarios) printf("%s\n", s.name.c_str());
            return 0;
        }
        install();
        if (!replaySc.empty()) {
            for (auto &s : scenarios)
                if (s.name == replaySc) {
                    Choice c;
                    c.replay = true;
                    c.bound = replayBound;
                    if (hooks().load && !aux.empty()) hooks().load(aux);
                    if (replayCh != "-") {
                        std::stringstream ss(replayCh);
                        std::string t;
                        while (std::getline(ss, t, ',')) c.prefix.push_back(atoi(t.c_str()));
                    }
                    runOne(s, c);
                    for (auto &f : fails) printf("REPLAYED %s\n", f.c_str());
                    if (fails.empty()) printf("REPLAY: the property held; %s\n", desc.c_str());
                    writeOut();
                    return fails.empty() ? 0 : 1;
                }
            fprintf(stderr, "no scenario %s\n", replaySc.c_str());
            return 2;
        }
        double deadline = budget > 0 ? now() + budget : 0;
        for (auto &s : scenarios) {
            if (!only.empty() && s.name != only) continue;
            if (!(s.tiers & (thorough ? 2 : 1))) continue;
            int top = thorough ? s.thoroughBound : s.quickBound;
            explore(s, top, shardNo, shards, deadline);
            if (hasNewFail()) break;
        }
        writeOut();
        return hasNewFail() ? 1 : 0;
    }
};

inline Runner &R() {
    static Runner r;
    return r;
}

inline bool thorough() { return R().thorough; }

inline void describe(const std::string &s) { R().desc = s; }

[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }

inline void require(bool ok, const std::string &key, const std::string &msg) {
    ++R().st.evaluations;
    if (!ok) throw Fail{key, msg};
}

// cheap variant: the message is only built on failure
template<typename F>
inline void requireF(bool ok, F f) {
    ++R().st.evaluations;
    if (!ok) {
        std::string m = f();
        throw Fail{R().curSc->name + ":" + R().desc, m};
    }
}

// returns true if the state is new
// (the sets stop growing at a few million per worker: states are then counted from below)
inline bool state(uint64_t h) {
    auto &s = R().st.states;
    if (s.size() >= 4000000) return !s.count(h);
    return s.insert(h).second;
}

inline void outcome(uint64_t h) {
    if (R().st.outcomes.size() < 2000000) R().st.outcomes.insert(h);
}

inline void transition(uint64_t n = 1) { R().st.transitions += n; }

inline void count(const std::string &k, uint64_t n = 1) { R().st.counters[k] += n; }

struct Reg {
    Reg(const char *name, std::function<void(Choice &)> fn, int quickBound = 0, int thoroughBound = 0, int tiers = 3) {
        R().scenarios.push_back(Scenario{name, std::move(fn), quickBound, thoroughBound, tiers, ""});
    }
};

} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// MC_SCENARIO(name, quickBound, thoroughBound, tiers) { body using c }
#define MC_SCENARIO(name, qb, tb, tiers)                                              \
    static void MC_CAT(mc_sc_, __LINE__)(mc::Choice &c);                               \
    static mc::Reg MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_sc_, __LINE__), qb, tb, tiers); \
    static void MC_CAT(mc_sc_, __LINE__)(mc::Choice &c)

#define MC_MAIN int main(int argc, char **argv) { return mc::R().main(argc, argv); }
