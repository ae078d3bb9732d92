// lin.hpp - histories of concurrent executions and an exhaustive linearizability check.
#pragma once
#include "sched.hpp"
#include <deque>
#include <set>

namespace lin {

struct Op {
    int thread;
    std::string text;              // what was called and what it returned
    uint64_t b, e;                 // logical time of the call and of the return
    int kind, key, arg, res;
};

struct History {
    std::deque<Op> ops;

    // run one operation and record it
    template<typename F>
    void op(int kind, int key, int arg, std::string text, F f) {
        size_t i;
        {
            sched::Quiet q;
            sched::boundary();
            i = ops.size();
            ops.push_back(Op{sched::self(), text, 0, UINT64_MAX, kind, key, arg, 0});
            sched::opBegin(&ops[i].b);
        }
        int r = f();
        {
            sched::Quiet q;
            sched::opEnd();
            ops[i].res = r;
            ops[i].e = sched::now();
            sched::boundary();
        }
    }

    std::string str() const {
        std::string s;
        for (auto &o : ops) s += mc::fmt("[T%d %s=%d @%llu-%llu] ", o.thread, o.text.c_str(), o.res, (unsigned long long) o.b, (unsigned long long) o.e);
        return s;
    }

    uint64_t hash() const {
        uint64_t h = 1;
        for (auto &o : ops) { h = mc::mix(h, o.thread); h = mc::mix(h, mc::hashStr(o.text)); h = mc::mix(h, o.res + 7); h = mc::mix(h, o.b); h = mc::mix(h, o.e); }
        return h;
    }
};

// Spec: copyable state with bool step(const Op&) that says whether the recorded result is the one the
// sequential object gives, and changes the state; ordered by operator<. final(state) filters end states.
template<typename Spec>
bool linearizable(const History &h, const Spec &init, std::function<bool(const Spec &)> fin) {
    size_t n = h.ops.size();
    if (n > 20) throw std::logic_error("history too long");
    std::set<std::pair<uint32_t, Spec>> seen;
    std::function<bool(uint32_t, const Spec &)> rec = [&](uint32_t done, const Spec &s) -> bool {
        if (done == (1u << n) - 1) return fin(s);
        if (!seen.insert({done, s}).second) return false;
        uint64_t minEnd = UINT64_MAX;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1)) minEnd = std::min(minEnd, h.ops[i].e);
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1 || h.ops[i].b > minEnd) continue;
            Spec t = s;
            if (t.step(h.ops[i]) && rec(done | 1u << i, t)) return true;
        }
        return false;
    };
    return rec(0, init);
}

} // namespace lin
