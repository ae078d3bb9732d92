// H07: id allocators: sequences and interleavings of allocation and release.
#include "lin.hpp"
#include "Geometry.h"
#include "utils/IndexHandler.h"

typedef _detail::IndexHandler Seq;
typedef _detail::Concurrent_IndexHandler Conc;

// every sequence of allocations and releases of any live id
template<typename H>
static void sequences(mc::Choice &c, const char *name, int len) {
    tIdType start = c.of(std::vector<tIdType>{0, 5, (tIdType) 1 << 33});
    int dis = c.pick(len + 1);      // disable() before this operation; len: never
    std::string d = mc::fmt("%s, start %llu, disabled at %d: ", name, (unsigned long long) start, dis);
    H *h = start || c.flag() ? new H(start) : new H();
    std::unique_ptr<H> own(h);
    std::vector<tIdType> live;
    std::set<tIdType> ever, freed;
    bool enabled = true;
    mc::require(h->maxId() == start, "max", "the maximum of a fresh allocator is not its start");
    for (int i = 0; i < len; ++i) {
        if (i == dis) { h->disable(); enabled = false; }
        int k = c.pick(live.size() + 1);
        if (i == 4) c.shard();
        if (k == 0) {
            d += "get ";
            mc::describe(d);
            tIdType before = h->maxId();
            tIdType id = h->getId();
            mc::requireF(std::find(live.begin(), live.end(), id) == live.end(), [&] { return mc::fmt("id %llu was handed out although it is in use", (unsigned long long) id); });
            mc::requireF(id >= start, [&] { return mc::fmt("id %llu lies below the start", (unsigned long long) id); });
            mc::requireF(h->maxId() > id && h->maxId() >= before, [&] { return mc::fmt("the maximum %llu is not above the id %llu", (unsigned long long) h->maxId(), (unsigned long long) id); });
            if (!freed.empty()) {
                mc::requireF(freed.count(id) && h->maxId() == before, [&] { return std::string("a released id is not reused"); });
                freed.erase(id);
            } else mc::requireF(!ever.count(id) && id == before && h->maxId() == before + 1, [&] { return mc::fmt("id %llu is not the next fresh one", (unsigned long long) id); });
            ever.insert(id);
            live.push_back(id);
        } else {
            tIdType id = live[k - 1];
            d += mc::fmt("release(%llu) ", (unsigned long long) id);
            mc::describe(d);
            live.erase(live.begin() + k - 1);
            h->releaseId(id);
            if (enabled) freed.insert(id);
        }
        mc::transition();
    }
    mc::describe(d);
    mc::state(mc::hashStr(d));
}

MC_SCENARIO("sequences", 0, 0, 3) { sequences<Seq>(c, "sequential", mc::thorough() ? 9 : 7); }
MC_SCENARIO("sequences, concurrent allocator", 0, 0, 3) { sequences<Conc>(c, "concurrent", mc::thorough() ? 9 : 7); }

// threads that allocate (g) and release their oldest (r) id
static void interleave(mc::Choice &c, int threads, int len, int pre) {
    std::vector<std::vector<int>> prog;
    std::string d = mc::fmt("%d ids released before ", pre);
    for (int t = 0; t < threads; ++t) {
        prog.emplace_back();
        d += "{";
        int own = 0;
        for (int i = 0; i < len; ++i) {
            int k = own ? c.pick(2) : 0;
            prog.back().push_back(k);
            own += k ? -1 : 1;
            d += k ? "release " : "get ";
        }
        d += "}";
    }
    c.shard();
    mc::describe(d);
    Conc h;
    for (int i = 0; i < pre; ++i) h.getId();
    for (int i = 0; i < pre; ++i) h.releaseId(i);
    std::vector<std::pair<int, tIdType>> owner;      // bookkeeping of the harness
    std::string err;
    uint64_t trace = 1;
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < threads; ++t)
        bodies.push_back([&, t] {
            std::vector<tIdType> mine;
            for (int k : prog[t]) {
                if (k == 0) {
                    tIdType id = h.getId();
                    tIdType mx = h.maxId();
                    sched::Quiet q;
                    for (auto &o : owner) if (o.second == id && err.empty()) err = mc::fmt("id %llu was handed to thread %d while thread %d uses it", (unsigned long long) id, t, o.first);
                    if (mx <= id && err.empty()) err = mc::fmt("maximum %llu is not above id %llu", (unsigned long long) mx, (unsigned long long) id);
                    owner.push_back({t, id});
                    mine.push_back(id);
                    trace = mc::mix(trace, t * 1000 + id);
                } else {
                    tIdType id;
                    {
                        sched::Quiet q;
                        id = mine.front();
                        mine.erase(mine.begin());
                        for (size_t i = 0; i < owner.size(); ++i) if (owner[i].second == id) { owner.erase(owner.begin() + i); break; }
                    }
                    h.releaseId(id);
                }
            }
        });
    sched::Options opt;
    opt.reportRaces = true;
    sched::run(c, bodies, opt);
    mc::requireF(err.empty(), [&] { return err; });
    // afterwards: everything below the maximum is live or handed out again, each once
    std::set<tIdType> all;
    for (auto &o : owner) all.insert(o.second);
    tIdType mx = h.maxId();
    mc::requireF(all.size() == owner.size() && mx <= (tIdType) (pre + threads * len), [&] { return mc::fmt("maximum %llu", (unsigned long long) mx); });
    size_t freeIds = mx - all.size();
    for (size_t i = 0; i < freeIds; ++i) {
        tIdType id = h.getId();
        mc::requireF(id < mx && all.insert(id).second, [&] { return mc::fmt("released id lost or duplicated: got %llu, maximum %llu", (unsigned long long) id, (unsigned long long) mx); });
    }
    mc::requireF(h.getId() == mx, [&] { return std::string("the next id after the free ones is not a fresh one"); });
    mc::state(trace);
    mc::outcome(trace);
}

MC_SCENARIO("2 threads", 4, 6, 3) { interleave(c, 2, 3, c.pick(2)); }
MC_SCENARIO("3 threads", 3, 4, 3) { interleave(c, 3, 2, c.pick(2)); }
MC_SCENARIO("2 threads, long", 2, 3, 2) { interleave(c, 2, 4, c.pick(3)); }

MC_MAIN
