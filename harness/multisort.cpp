// S02: the multi-scale sort applies the sort to consecutive pieces that cover the range exactly once, for
// every size, threshold, ratio and order of its asynchronous tasks.
#include "mc.hpp"
#include <CGAL/basic.h>
#include <future>
#include <memory>
#include <tuple>

// Stand-in for std::async: the explorer decides whether a task runs when it is started or later, and
// in which order the deferred ones run.
namespace mcasync {
    struct Task { std::function<void()> f; bool done = false; };
    static std::vector<std::shared_ptr<Task>> pending;
    static mc::Choice *ch;
    static uint64_t started = 0;

    static void runUntil(Task *t) {
        while (!t->done) {
            std::vector<std::shared_ptr<Task>> open;
            size_t self = 0;
            for (auto &p : pending) { if (p.get() == t) self = open.size(); open.push_back(p); }
            if (open.empty()) throw std::logic_error("mc: awaited task is neither pending nor done (it is running)");
            // default: the awaited one
            size_t k = ch->dev((int) open.size());
            size_t i = k == 0 ? self : k <= self ? k - 1 : k;
            auto x = open[i];
            pending.erase(std::find(pending.begin(), pending.end(), x));
            x->f();
            x->done = true;
        }
    }

    template<typename T>
    struct Future {
        std::shared_ptr<Task> t;
        Future() = default;
        explicit Future(std::shared_ptr<Task> x) : t(std::move(x)) {}
        Future(Future &&) = default;
        Future &operator=(Future &&o) { if (t) runUntil(t.get()); t = std::move(o.t); return *this; }
        ~Future() { if (t && !t->done) runUntil(t.get()); }
        void wait() const { runUntil(t.get()); }
        void get() { runUntil(t.get()); t.reset(); }
        bool valid() const { return (bool) t; }
    };
}
namespace std {
    struct mc_launch { enum E { mc_async = 1, deferred = 2 }; };
    template<typename F, typename... A>
    mcasync::Future<void> mc_async(mc_launch::E, F &&f, A &&... a) {
        auto t = std::make_shared<mcasync::Task>();
        auto args = std::make_shared<std::tuple<std::decay_t<A>...>>(std::forward<A>(a)...);
        t->f = [f, args] { std::apply(f, *args); };
        ++mcasync::started;
        if (mcasync::started > 4000) throw mc::Fail{"no end", "the recursion does not end"};
        if (mcasync::ch->dev(2)) { t->f(); t->done = true; } else mcasync::pending.push_back(t);
        return mcasync::Future<void>(t);
    }
    template<typename F, typename... A>
    mcasync::Future<void> mc_async(F &&f, A &&... a) { return mc_async(mc_launch::mc_async, std::forward<F>(f), std::forward<A>(a)...); }
}
#define launch mc_launch
#define async mc_async
#include "mods/Multiscale_sort.h"
#undef launch
#undef async

typedef std::vector<int>::iterator It;

struct Rec {
    std::vector<std::pair<long, long>> *pieces;
    std::vector<int> *base;
    void operator()(It b, It e) const {
        pieces->push_back({b - base->begin(), e - base->begin()});
        std::sort(b, e);
        for (It i = b; i != e; ++i) *i += 1000;      // every element is handed to the sort once
    }
};

static void multi(mc::Choice &c, int maxN) {
    int n = c.pick(maxN + 1);
    long thr = c.of(std::vector<long>{0, 1, 2, 3, 4, 6, 100});
    double ratio = c.of(std::vector<double>{0.5, 0., 0.25, 1. / 3, 0.75, 1.});
    c.shard();
    mc::describe(mc::fmt("%d elements, threshold %ld, ratio %g", n, thr, ratio));
    std::vector<int> v(n + 2), o;
    for (int i = 0; i < n + 2; ++i) v[i] = i * 7 % 11 * 100 + i;
    o = v;
    std::vector<std::pair<long, long>> pieces;
    mcasync::pending.clear();
    mcasync::ch = &c;
    mcasync::started = 0;
    CGAL::Multiscale_sort<Rec> s(Rec{&pieces, &v}, thr, ratio);
    s(v.begin() + 1, v.end() - 1);
    mc::requireF(mcasync::pending.empty(), [] { return std::string("work is left when the sort returns"); });
    mc::requireF(v.front() == o.front() && v.back() == o.back(), [] { return std::string("elements outside of the range were touched"); });
    auto order = pieces;
    std::sort(pieces.begin(), pieces.end());
    long at = 1;
    for (auto &p : pieces) {
        if (p.first == p.second) continue;
        mc::requireF(p.first == at && p.second > p.first, [&] { return mc::fmt("the pieces do not follow each other at %ld", at); });
        at = p.second;
        long len = p.second - p.first, mid = (long) (len * ratio);
        mc::requireF(len < thr || mid == 0 || mid == len, [&] { return mc::fmt("a piece of %ld elements could have been divided", len); });
    }
    mc::requireF(at == n + 1, [&] { return mc::fmt("the pieces end at %ld of %d", at - 1, n); });
    for (auto &p : pieces)
        for (long i = p.first; i < p.second; ++i) {
            mc::requireF(v[i] >= 1000 * 1 && v[i] - 1000 <= 2000, [&] { return mc::fmt("element %ld was sorted more than once or not at all", i); });
            if (i > p.first) mc::requireF(v[i - 1] <= v[i], [&] { return mc::fmt("the piece is not sorted at %ld", i); });
        }
    std::vector<int> x;
    for (int i = 1; i <= n; ++i) x.push_back(v[i] - 1000);
    mc::requireF(std::is_permutation(x.begin(), x.end(), o.begin() + 1), [] { return std::string("the result is no permutation"); });
    mc::transition(mcasync::started);
    uint64_t h = mc::mix(mc::mix(n, thr), (uint64_t) (ratio * 1000));
    mc::outcome(h);
    for (auto &p : order) h = mc::mix(mc::mix(h, p.first), p.second);
    mc::state(h);
}

MC_SCENARIO("all orders", 2, 4, 3) { multi(c, mc::thorough() ? 7 : 7); }
MC_SCENARIO("small, all orders", 4, 8, 3) { multi(c, 4); }
MC_SCENARIO("default order", 0, 0, 3) { multi(c, 40); }

MC_MAIN
