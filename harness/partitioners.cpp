// G10, G12: all partitioners of the load balanced triangulation, for chosen points, samples and partitions of the sample.
#include "lbsample.hpp"
#include "reseed.hpp"

template<uint D, typename P>
struct T {
    typedef lb::UnpluggedMonitor Mon;
    typedef lb::Partitioner<D, P, Mon> Part;
    typedef lb::PartitionTree<D, P> Tree;
    typedef typename Tree::ChildContainer Kids;
    static constexpr tIdType INF = dPoint<D, P>::cINF;

    enum Maker { BOUNDS, GRID, ACCURATE };
    static const char *makerName(int m) { static const char *n[] = {"bounds", "grid", "accurate grid"}; return n[m]; }

    static lb::IntersectionPartitionMakerFunction<D, P> maker(int m, P width) {
        if (m == BOUNDS) return lb::BoundsIntersectionPartitionMaker<D, P>();
        if (m == GRID) return lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(width));
        return lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(width));
    }

    // what a node looks like from outside
    struct Plain {
        bool leaf, checked;
        std::vector<tIdType> ids;         // sorted, with the auxiliary ones; of a leaf
        std::vector<P> box;
        std::vector<Plain> kids;
        bool operator==(const Plain &o) const { return leaf == o.leaf && checked == o.checked && ids == o.ids && box == o.box && kids == o.kids; }
        void all(std::vector<tIdType> &r) const { r.insert(r.end(), ids.begin(), ids.end()); for (auto &k : kids) k.all(r); }
        void leaves(std::vector<const Plain *> &r) const { if (leaf) r.push_back(this); for (auto &k : kids) k.leaves(r); }
        std::string str() const {
            std::string s = leaf ? "{" : "[";
            for (auto i : ids) if (i < INF) s += std::to_string(i) + " ";
            for (auto &k : kids) s += k.str();
            return s + (leaf ? "}" : "]");
        }
        bool boxes(bool own) const { if (own && !checked) return false; for (auto &k : kids) if (!k.boxes(true)) return false; return true; }
    };
    static Plain plain(const Tree &t) {
        Plain p;
        p.leaf = t.isLeaf();
        p.checked = (bool) t.intersectionChecker;
        if (p.leaf) { auto &i = std::get<Point_Ids>(t.attachment); p.ids.assign(i.begin(), i.end()); std::sort(p.ids.begin(), p.ids.end()); }
        else for (auto &k : std::get<Kids>(t.attachment)) p.kids.push_back(plain(k));
        std::vector<tIdType> f;
        p.all(f);
        bool any = false;
        for (auto i : f) any |= i < INF;
        // the box of a node without points says nothing
        if (p.checked && any) for (uint d = 0; d < D; ++d) { p.box.push_back(t.intersectionChecker->bounds().low[d]); p.box.push_back(t.intersectionChecker->bounds().high[d]); }
        return p;
    }

    struct Input {
        std::vector<IP<D>> in;
        dPoints<D, P> pts;
        Point_Ids ids;
        dBox<D, P> bounds;
        std::set<tIdType> want;
        bool aux;
    };
    static void make(Input &x, const std::vector<IP<D>> &in, bool aux, int pad) {
        startGen.seed(START_SEED);         // the hash functions of the id sets are drawn from it
        x.ids = Point_Ids();
        x.in = in;
        x.aux = aux;
        ::fill<D, P>(x.pts, in);
        for (tIdType k = INF; k != 0; ++k) for (uint d = 0; d < D; ++d) x.pts[k].coords[d] = (k - INF) >> d & 1 ? 4000 : -4000;
        for (size_t i = 0; i < in.size(); ++i) { x.ids.insert(i + 1); x.want.insert(i + 1); }
        if (aux) for (tIdType k = INF; k != 0; ++k) x.ids.insert(k);
        x.bounds = boundsOf<D, P>(in);
        for (uint d = 0; d < D; ++d) { x.bounds.low[d] -= pad; x.bounds.high[d] += pad; }
    }

    static bool misses(const Tree &t, const Plain &p, Input &x, bool accurate, std::string &why, uint64_t &asked) {
        std::vector<tIdType> all;
        p.all(all);
        std::vector<tIdType> mine, other;
        for (auto i : all) if (i < INF) mine.push_back(i);
        if (mine.empty()) return false;
        for (auto i : x.want) if (!std::count(mine.begin(), mine.end(), i)) other.push_back(i);
        auto &b = t.intersectionChecker->bounds();
        for (auto i : mine) for (uint d = 0; d < D; ++d)
            if (!(b.low[d] <= x.pts[i].coords[d] && x.pts[i].coords[d] <= b.high[d])) { why = mc::fmt("point %llu lies outside the bounds of its subtree ", (unsigned long long) i) + p.str(); return true; }
        if (!accurate) {
            dSimplex<D, P> dummy{};
            for (auto i : mine) {
                for (size_t j = 0; j < x.in.size(); ++j) for (int corner = 0; corner < 2; ++corner) {
                    dSphere<D, P> s;
                    P dist = 0;
                    for (uint d = 0; d < D; ++d) {
                        s.center[d] = x.in[j][d] + (corner ? (d & 1 ? -7 : 5) : 0);
                        dist += (s.center[d] - x.pts[i].coords[d]) * (s.center[d] - x.pts[i].coords[d]);
                    }
                    s.radius = std::sqrt(dist) + (P) 0.125;
                    ++asked;
                    if (!t.intersectionChecker->intersects(s, dummy)) { why = mc::fmt("a sphere around (%g,%g..) of radius %g holds point %llu, the test of its subtree ", (double) s.center[0], (double) s.center[1], (double) s.radius, (unsigned long long) i) + p.str() + " says no"; return true; }
                }
            }
        }
        // circumspheres of the simplices over the other points
        std::vector<size_t> pick;
        bool bad = false;
        std::function<void(size_t)> rec = [&](size_t from) {
            if (bad) return;
            if (pick.size() == D + 1) {
                std::vector<IP<D>> v;
                dSimplex<D, P> s;
                for (uint i = 0; i < D + 1; ++i) { s.vertices[i] = other[pick[i]]; v.push_back(x.in[other[pick[i]] - 1]); }
                if (volume<D>(v) == 0) return;
                bool must = false;
                for (auto i : mine) must |= inSphereExact<D>(v, x.in[i - 1]) > 0;
                if (!must) return;
                auto cs = s.circumsphere(x.pts);
                ++asked;
                if (!t.intersectionChecker->intersects(cs, s)) { bad = true; why = "the test of subtree " + p.str() + " misses a circumsphere of other points that holds one of its points"; }
                return;
            }
            for (size_t i = from; i < other.size(); ++i) { pick.push_back(i); rec(i + 1); pick.pop_back(); }
        };
        rec(0);
        if (bad) return true;
        if (!t.isLeaf()) {
            auto &k = std::get<Kids>(t.attachment);
            for (size_t i = 0; i < k.size(); ++i) if (misses(k[i], p.kids[i], x, accurate, why, asked)) return true;
        }
        return false;
    }

    static std::string lines(const Plain &p, int indent) {
        std::string s = std::string(indent, '-') + (p.leaf ? mc::fmt(" %zu\n", p.ids.size()) : mc::fmt(" (%zu)\n", p.kids.size()));
        for (auto &k : p.kids) s += lines(k, indent + 1);
        return s;
    }

    // the id lists of the dump, in the order of the leaves
    static std::vector<std::pair<size_t, std::vector<tIdType>>> parseDump(const std::string &s) {
        std::vector<std::pair<size_t, std::vector<tIdType>>> r;
        size_t at = 0;
        while ((at = s.find('(', at)) != std::string::npos) {
            size_t n = strtoull(s.c_str() + at + 1, nullptr, 10);
            size_t o = s.find('{', at), e = s.find('}', at);
            if (o == std::string::npos || e == std::string::npos) break;
            std::vector<tIdType> ids;
            std::istringstream is(s.substr(o + 1, e - o - 1));
            tIdType i;
            while (is >> i) ids.push_back(i);
            std::sort(ids.begin(), ids.end());
            r.emplace_back(n, ids);
            at = e;
        }
        return r;
    }

    // copying, collapsing and dumping keep the partition
    static void helpers(const Tree &t, const Plain &p) {
        {
            Tree c(t);
            mc::requireF(plain(c) == p && plain(t) == p, [&] { return "the copy differs: " + plain(c).str() + " of " + p.str(); });
            Tree d;
            d = static_cast<const Tree &>(t);
            mc::requireF(plain(d) == p && plain(t) == p, [&] { return "the assigned copy differs: " + plain(d).str() + " of " + p.str(); });
            d = static_cast<const Tree &>(c);
            mc::requireF(plain(d) == p, [&] { return "the tree assigned again differs: " + plain(d).str() + " of " + p.str(); });
            Tree m(std::move(c));
            mc::requireF(plain(m) == p, [&] { return "the moved tree differs: " + plain(m).str() + " of " + p.str(); });
            // changing the copy leaves the original alone
            m.collect();
            auto q = plain(m);
            std::vector<tIdType> want;
            p.all(want);
            std::sort(want.begin(), want.end());
            want.erase(std::unique(want.begin(), want.end()), want.end());
            mc::requireF(q.leaf && q.ids == want, [&] { return "collapsed to " + q.str() + " from " + p.str(); });
            mc::requireF(plain(t) == p, [&] { return std::string("collapsing a copy changed the original"); });
        }
        {
            Tree c(t);
            c.flatten();
            auto q = plain(c);
            std::vector<const Plain *> l;
            p.leaves(l);
            bool ok = p.leaf ? q == p : !q.leaf && q.kids.size() == l.size();
            if (ok && !p.leaf) for (size_t i = 0; i < l.size(); ++i) ok &= q.kids[i] == *l[i];
            if (ok && !p.leaf) ok = q.checked == p.checked && q.box == p.box;
            mc::requireF(ok, [&] { return "flattened to " + q.str() + " from " + p.str(); });
        }
        std::ostringstream o, sink;
        auto *old = std::cout.rdbuf(sink.rdbuf());
        lb::printPartitionTree(t, o);
        sink.str("");
        lb::dumpPartition(t);
        std::cout.rdbuf(old);
        mc::requireF(o.str() == lines(p, 0), [&] { return "printed as '" + o.str() + "' for " + p.str(); });
        auto dump = parseDump(sink.str());
        std::vector<const Plain *> l;
        p.leaves(l);
        bool ok = dump.size() == l.size();
        for (size_t i = 0; ok && i < l.size(); ++i) {
            std::vector<tIdType> f;
            for (auto x : l[i]->ids) if (x < INF) f.push_back(x);
            ok = dump[i].first == l[i]->ids.size() && dump[i].second == f;
        }
        mc::requireF(ok, [&] { return "dumped as '" + sink.str() + "' for " + p.str(); });
        if (!p.leaf && p.boxes(false)) {
            Tree c(t);
            auto old2 = lb::toOldPartitioning<D, P>(std::move(std::get<Kids>(c.attachment)));
            bool good = old2.first.size() == p.kids.size() && old2.second.size() == p.kids.size();
            for (size_t i = 0; good && i < p.kids.size(); ++i) {
                std::vector<tIdType> w, g(old2.first[i].points.begin(), old2.first[i].points.end());
                p.kids[i].all(w);
                std::sort(w.begin(), w.end());
                w.erase(std::unique(w.begin(), w.end()), w.end());
                std::sort(g.begin(), g.end());
                good = w == g && old2.first[i].id == i && old2.second[i];
            }
            mc::requireF(good, [&] { return "the partitioning made of the children differs from " + p.str(); });
        }
    }

    static Plain check(const Tree &t, Input &x, bool accurate, uint64_t &asked) {
        auto p = plain(t);
        std::vector<const Plain *> l;
        p.leaves(l);
        std::map<tIdType, int> seen;
        for (auto *q : l) {
            size_t aux = 0;
            for (auto i : q->ids) if (i < INF) ++seen[i]; else ++aux;
            size_t want = size_t(1) << D;
            mc::requireF(aux == want || (!x.aux && aux == 0), [&] { return mc::fmt("%zu auxiliary points in a leaf of ", aux) + p.str(); });
        }
        for (auto i : x.want) mc::requireF(seen[i] == 1, [&] { return mc::fmt("point %llu is in %d leaves: ", (unsigned long long) i, seen[i]) + p.str(); });
        mc::requireF(seen.size() == x.want.size(), [&] { return "the leaves hold points that are none: " + p.str(); });
        mc::requireF(p.checked && p.boxes(true), [&] { return "a subtree has no intersection test: " + p.str(); });
        std::string why;
        mc::requireF(!misses(t, p, x, accurate, why, asked), [&] { return why; });
        helpers(t, p);
        return p;
    }

    // ---- the graph of the sample ------------------------------------------------------------------
    struct Weight { const char *name; std::function<P(P)> f; };
    static const std::vector<Weight> &weights() {
        static const std::vector<Weight> w = {
            {"uniform", nullptr},
            {"squared-inverted", [](P d) -> P { return 1 / (d + (P) 0.0000001); }},
            {"inverted", [](P d) -> P { return 1 / std::sqrt(d + (P) 0.0000001); }},
            {"linear", [](P d) -> P { return (P) 1.0 - d; }},
            {"log", [](P d) -> P { return -std::log(d + (P) 0.0000001); }},
            {"increasing", [](P d) -> P { return 3 * d; }},
        };
        return w;
    }

    // returns the ids of the sample points
    static std::vector<tIdType> checkGraph(const lb::Sampling<D, P> &s, Input &x, size_t asked, int parts, int weight, const dBox<D, P> &bounds, bool general, bool topmost) {
        std::vector<tIdType> ids;
        for (auto &v : s.points) {
            tIdType id = 0;
            for (auto i : x.want) if (x.pts[i].coords == v && !std::count(ids.begin(), ids.end(), i)) { id = i; break; }
            mc::requireF(id, [&] { return std::string("a point of the sample is none of the input points, or occurs twice"); });
            ids.push_back(id);
        }
        if (topmost) mc::requireF(ids.size() <= asked, [&] { return mc::fmt("%zu sample points, at most %zu asked for", ids.size(), asked); });
        size_t n = ids.size();
        mc::requireF(s.graph.nodeRecords.size() == n + 1 && s.partition.size() == n && s.size() == n, [&] { return mc::fmt("%zu sample points, %zu vertices, %zu partition entries", n, s.graph.nodeRecords.size() - 1, s.partition.size()); });
        for (auto q : s.partition) mc::requireF(q >= 0 && q < parts, [&] { return mc::fmt("a sample point is in partition %d of %d", q, parts); });
        std::map<std::pair<size_t, size_t>, int> e;
        for (size_t i = 0; i < n; ++i) {
            mc::requireF(s.graph.nodeRecords[i] <= s.graph.nodeRecords[i + 1] && s.graph.nodeRecords[i + 1] <= (int) s.graph.adjacency.size(), [&] { return std::string("the adjacency records are not sorted or too large"); });
            for (int k = s.graph.nodeRecords[i]; k < s.graph.nodeRecords[i + 1]; ++k) {
                int j = s.graph.adjacency[k];
                mc::requireF(j >= 0 && j < (int) n && j != (int) i, [&] { return mc::fmt("vertex %zu is linked to %d", i, j); });
                mc::requireF(e.insert({{i, j}, s.graph.edgeWeights[k]}).second, [&] { return mc::fmt("edge %zu-%d occurs twice", i, j); });
            }
        }
        mc::requireF(e.size() == s.graph.adjacency.size(), [&] { return std::string("the graph has entries that belong to no vertex"); });
        if (general && n >= D + 1) {
            // the Delaunay edges from the definition
            std::set<std::pair<size_t, size_t>> want;
            std::vector<size_t> pick;
            std::function<void(size_t)> rec = [&](size_t from) {
                if (pick.size() == D + 1) {
                    std::vector<IP<D>> v;
                    for (auto i : pick) v.push_back(x.in[ids[i] - 1]);
                    for (size_t i = 0; i < n; ++i) if (!std::count(pick.begin(), pick.end(), i) && inSphereExact<D>(v, x.in[ids[i] - 1]) > 0) return;
                    for (auto a : pick) for (auto b : pick) if (a != b) want.insert({a, b});
                    return;
                }
                for (size_t i = from; i < n; ++i) { pick.push_back(i); rec(i + 1); pick.pop_back(); }
            };
            rec(0);
            for (auto &w : want) mc::requireF(e.count(w), [&] { return mc::fmt("no edge between sample points %llu and %llu, which are Delaunay neighbours", (unsigned long long) ids[w.first], (unsigned long long) ids[w.second]); });
            mc::requireF(e.size() == want.size(), [&] { return mc::fmt("%zu edges instead of %zu", e.size(), want.size()); });
        }
        P diag = 0;
        for (uint d = 0; d < D; ++d) diag += (bounds.high[d] - bounds.low[d]) * (bounds.high[d] - bounds.low[d]);
        for (auto &w : e) {
            auto o = e.find({w.first.second, w.first.first});
            mc::requireF(o != e.end() && o->second == w.second, [&] { return mc::fmt("edge %zu-%zu has no counterpart of the same weight", w.first.first, w.first.second); });
            if (!weight) { mc::requireF(w.second == 1, [&] { return mc::fmt("weight %d in a graph without weights", w.second); }); continue; }
            // the weights of the shortest and the longest possible edge are spread over 1 to 99
            auto &f = weights()[weight].f;
            double lo = f(0), hi = f(1), v;
            P d2 = 0;
            for (uint d = 0; d < D; ++d) { P y = s.points[w.first.first][d] - s.points[w.first.second][d]; d2 += y * y; }
            v = f(d2 / diag);
            if (lo > hi) std::swap(lo, hi);
            v = std::clamp(v, lo, hi);
            double want = 1 + 98 * (v - lo) / (hi - lo);
            double tol = sizeof(P) == 8 ? 1e-6 : 1e-2;
            mc::requireF(w.second >= 1 && w.second <= 99, [&] { return mc::fmt("weight %d", w.second); });
            mc::requireF(w.second <= want + tol && w.second > want - 1 - tol, [&] { return mc::fmt("edge of relative squared length %g weighs %d, expected about %g", (double) (d2 / diag), w.second, want); });
        }
        return ids;
    }

    static void calls(int parts, int weight, int mode, double imbalance) {
        for (auto &k : kaffpaCalls) {
            mc::requireF(k.nparts == parts, [&] { return mc::fmt("%d partitions asked of the graph partitioner instead of %d", k.nparts, parts); });
            mc::requireF(k.mode == mode && k.imbalance == imbalance, [] { return std::string("mode or imbalance do not reach the graph partitioner"); });
            mc::requireF(k.weighted == (weight != 0), [] { return std::string("edge weights of the graph partitioner"); });
        }
    }

    // ---- where points go ---------------------------------------------------------------------------
    enum Rule { NEAREST, CENTER, BOX };
    static void checkAssigned(const Plain &p, const lb::Sampling<D, P> &s, const std::vector<tIdType> &ids, Input &x, Rule rule, int parts) {
        mc::requireF((int) p.kids.size() == parts, [&] { return mc::fmt("%zu children instead of %d", p.kids.size(), parts); });
        std::vector<int> where(x.in.size() + 1, -1);
        for (int q = 0; q < parts; ++q) for (auto i : p.kids[q].ids) if (i < INF) where[i] = q;
        std::vector<std::vector<IP<D>>> mine(parts);
        for (size_t i = 0; i < ids.size(); ++i) mine[s.partition[i]].push_back(x.in[ids[i] - 1]);
        for (auto i : x.want) {
            std::vector<double> dist(parts, -1);
            for (int q = 0; q < parts; ++q) {
                if (mine[q].empty()) continue;
                double best = -1;
                if (rule == NEAREST) {
                    for (auto &m : mine[q]) { double y = 0; for (uint d = 0; d < D; ++d) y += double(m[d] - x.in[i - 1][d]) * (m[d] - x.in[i - 1][d]); if (best < 0 || y < best) best = y; }
                } else if (rule == CENTER) {
                    best = 0;
                    for (uint d = 0; d < D; ++d) { double c = 0; for (auto &m : mine[q]) c += m[d]; c = c / mine[q].size() - x.in[i - 1][d]; best += c * c; }
                } else {
                    best = 0;
                    for (uint d = 0; d < D; ++d) {
                        long lo = mine[q][0][d], hi = lo, v = x.in[i - 1][d];
                        for (auto &m : mine[q]) { lo = std::min<long>(lo, m[d]); hi = std::max<long>(hi, m[d]); }
                        double y = std::max({lo - v, v - hi, 0l});
                        best += y * y;
                    }
                }
                dist[q] = best;
            }
            double least = -1;
            for (auto y : dist) if (y >= 0 && (least < 0 || y < least)) least = y;
            mc::requireF(where[i] >= 0 && dist[where[i]] >= 0, [&] { return mc::fmt("point %llu went to partition %d, which has no sample points", (unsigned long long) i, where[i]); });
            mc::requireF(dist[where[i]] <= least + (sizeof(P) == 8 ? 1e-6 : 1e-1), [&] {
                return mc::fmt("point %llu went to partition %d at squared distance %g, another is at %g", (unsigned long long) i, where[i], dist[where[i]], least);
            });
        }
    }

    // ---- running one -------------------------------------------------------------------------------
    struct Cfg {
        int kind = 0, parts = 1, sample = 0, maker = 0, weight = 0, leaves = 1, free = 1000, draws = 0, arity = 4;
        bool flat = false, general = false;
        size_t cutoff = 0, rec = 0;
        char old = 'c';
    };
    enum { SIMPLE, KWAY, OLD, BINBOX, CENTERS, BOXES, NEARESTS, NEARBI, HYPER };
    static const char *name(int k) { static const char *n[] = {"simple", "k-way", "old", "box estimating", "centers", "boxes", "nearest sample", "nearest sample bipartitioner", "hyperplane"}; return n[k]; }

    static void run(mc::Choice &c, Input &x, const Cfg &g, bool assignment) {
        kaffpaCalls.clear();
        kaffpaChoice = &c;
        kaffpaFree = g.free;
        mcrand::Engine::choice = &c;
        mcrand::Engine::left = g.draws;
        mcrand::Engine::arity = g.arity;
        dSimplices<D, P>::simplexID = 1;
        startGen.seed(START_SEED);
        const double imb = 0.25;
        auto size = [&](size_t n) -> size_t {
            mc::requireF(n >= x.in.size() && n <= x.in.size() + 1, [&] { return mc::fmt("the sample size is asked for %zu points instead of %zu", n, x.in.size()); });
            return g.sample;
        };
        auto sampler = g.weight ? lb::Sampler<D, P>(1, size, ECO, imb, weights()[g.weight].f) : lb::Sampler<D, P>(1, size, ECO, imb);
        std::unique_ptr<Part> part;
        lb::SamplePartitioner<D, P, Mon> *sp = nullptr;
        auto sampling = [&](auto q) { sp = q.get(); part = std::move(q); };
        auto mk = maker(g.maker, 8);
        switch (g.kind) {
            case SIMPLE: part = std::make_unique<lb::SimplePartitioner<D, P, Mon>>(); break;
            case KWAY: part = std::make_unique<lb::KWaySplitter<D, P, Mon>>(g.parts); break;
            case OLD: part = std::make_unique<lb::OldPartitionerPartitioner<D, P, Mon>>(::Partitioner<D, P>::make(g.old), g.rec, g.cutoff); break;
            case BINBOX: sampling(std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, P, Mon>>(g.cutoff, std::move(sampler))); break;
            case CENTERS: sampling(std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, P, Mon>>(g.parts, std::move(sampler), mk)); break;
            case BOXES: sampling(std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, P, Mon>>(g.parts, std::move(sampler), mk)); break;
            case NEARESTS: sampling(std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, P, Mon>>(g.parts, std::move(sampler), mk)); break;
            case NEARBI: sampling(std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, P, Mon>>(g.parts, std::move(sampler), g.cutoff, mk)); break;
            case HYPER: sampling(std::make_unique<lb::HyperplaneSamplingBipartitioner<D, P, Mon>>(g.parts, std::move(sampler))); break;
        }
        if (g.flat) part = std::make_unique<lb::FlatPartitioner<D, P, Mon>>(std::move(part));
        McPolicy pol(&c, g.leaves);
        Mon mon;
        uint64_t asked = 0;
        uint64_t h;
        {
            mtbb::ScopedPolicy sc(&pol);
            Tree t = part->partition(x.bounds, x.pts, x.ids, mon);
            mcrand::Engine::choice = nullptr;
            auto p = check(t, x, g.maker == ACCURATE && g.kind >= CENTERS && g.kind <= NEARBI, asked);
            h = mc::hashStr(p.str());
            size_t leaves = 0, kids = p.kids.size();
            { std::vector<const Plain *> l; p.leaves(l); leaves = l.size(); }
            if (g.flat) for (auto &k : p.kids) mc::requireF(k.leaf, [&] { return "not flat: " + p.str(); });
            if (g.kind == KWAY) mc::requireF((int) leaves == g.parts, [&] { return mc::fmt("%zu leaves instead of %d: ", leaves, g.parts) + p.str(); });
            if (g.kind == HYPER) mc::requireF((int) leaves == g.parts, [&] { return mc::fmt("%zu leaves instead of %d: ", leaves, g.parts) + p.str(); });
            if (g.kind == NEARBI) mc::requireF((int) leaves <= g.parts, [&] { return mc::fmt("%zu leaves, at most %d asked for: ", leaves, g.parts) + p.str(); });
            if (g.kind >= CENTERS && g.kind <= NEARESTS) mc::requireF((int) kids == g.parts && leaves == kids, [&] { return mc::fmt("%zu leaves instead of %d: ", leaves, g.parts) + p.str(); });
            if (assignment && sp) {
                bool top = g.kind >= CENTERS && g.kind <= NEARESTS;
                int parts = top ? g.parts : 2;
                calls(parts, g.weight, ECO, imb);
                if (top || !kaffpaCalls.empty()) {
                    bool single = top || kaffpaCalls.size() == 1;
                    auto ids = checkGraph(sp->sampling(), x, g.sample, parts, g.weight, x.bounds, g.general, single);
                    if (single) mc::requireF(ids.size() == std::min<size_t>(g.sample, x.in.size()), [&] { return mc::fmt("%zu sample points instead of %d of %zu", ids.size(), g.sample, x.in.size()); });
                    if (top) checkAssigned(p, sp->sampling(), ids, x, g.kind == CENTERS ? CENTER : g.kind == BOXES ? BOX : NEAREST, g.parts);
                    for (auto i : ids) h = mc::mix(h, i);
                }
            }
        }
        kaffpaChoice = nullptr;
        mc::transition(1 + asked + pol.picks);
        mc::state(mc::mix(h, g.kind * 1000 + g.parts));
        mc::outcome(h);
    }

    static std::string cfg(const Cfg &g) {
        return mc::fmt("D=%u %s, %s, %d partitions, sample of %d, %s tests, weights %s, cutoff %zu, recursions %zu, splitter %c%s, points ", D, sizeof(P) == 8 ? "double" : "float", name(g.kind), g.parts, g.sample, makerName(g.maker), weights()[g.weight].name, g.cutoff, g.rec, g.old, g.flat ? ", flattened" : "");
    }
};

template<uint D> static const std::vector<IP<D>> &uni() {
    static auto u = universe<D>(D == 2 ? 14 : 12, 0, 60, D == 2 ? 7 : 11);
    return u;
}
template<uint D> static std::vector<IP<D>> sub(mc::Choice &c, int n, int k) {
    std::vector<IP<D>> r;
    for (int i : pickSubset(c, n, k)) r.push_back(uni<D>()[i]);
    return r;
}
// points of a lattice, coinciding ones allowed if asked for
template<uint D> static std::vector<IP<D>> lattice(mc::Choice &c, int side, int k, bool dup) {
    int total = 1;
    for (uint d = 0; d < D; ++d) total *= side;
    std::vector<IP<D>> r;
    int from = 0;
    for (int i = 0; i < k; ++i) {
        int left = dup ? 0 : k - i - 1;
        int v = from + c.pick(total - left - from);
        from = dup ? v : v + 1;
        IP<D> p;
        for (uint d = 0; d < D; ++d) { p[d] = (v % side) * (d ? 9 : 4) - 6; v /= side; }
        r.push_back(p);
    }
    return r;
}

template<uint D, typename P>
static void direct(mc::Choice &c, int side, int k, bool dup) {
    typedef T<D, P> X;
    auto in = lattice<D>(c, side, k, dup);
    c.shard();
    typename X::Cfg g;
    g.kind = c.pick(3);
    bool aux = c.pick(4) != 0;
    int pad = c.flag() ? 3 : 0;
    g.flat = c.flag();
    if (g.kind == X::KWAY) g.parts = 1 << c.pick(5);
    if (g.kind == X::OLD) {
        g.old = c.of(D == 2 ? std::vector<char>{'d', 'c', 'e', '0', '1'} : std::vector<char>{'d', 'c', 'e', '0', '1', '2'});
        g.rec = c.pick(3);
        g.cutoff = c.pick(2) ? 6 : 0;
    }
    mc::describe(X::cfg(g) + ptsStr<D>(in) + (aux ? "" : " without auxiliary points"));
    typename X::Input x;
    X::make(x, in, aux, pad);
    X::run(c, x, g, false);
}

template<uint D, typename P>
static void sampled(mc::Choice &c, const std::vector<IP<D>> &in, int kind, int parts, int sample, bool general, int draws, int arity, int leaves, bool assignment) {
    typedef T<D, P> X;
    typename X::Cfg g;
    g.kind = kind;
    g.parts = parts;
    g.sample = sample;
    g.general = general;
    g.draws = draws;
    g.arity = arity;
    g.leaves = leaves;
    if (kind != X::BINBOX && kind != X::HYPER) g.maker = c.pick(3);
    if (kind == X::BINBOX) g.cutoff = (1 << D) + 3;
    if (kind == X::NEARBI) g.cutoff = (1 << D) + (c.pick(2) ? 2 : 0);   // the auxiliary points count
    mc::describe(X::cfg(g) + ptsStr<D>(in));
    typename X::Input x;
    X::make(x, in, true, 0);
    X::run(c, x, g, assignment);
}

#ifdef PART_G10
MC_SCENARIO("direct-2d", 0, 0, 3) { int k = 1 + c.pick(mc::thorough() ? 5 : 4); direct<2, double>(c, 3, k, k < 4); }
MC_SCENARIO("direct-2d-float", 0, 0, 3) { int k = 1 + c.pick(mc::thorough() ? 4 : 3); direct<2, float>(c, 3, k, false); }
MC_SCENARIO("direct-3d", 0, 0, 3) { int k = 1 + c.pick(mc::thorough() ? 5 : 4); direct<3, double>(c, 2, k, k < 4); }
MC_SCENARIO("assigning-2d", 0, 0, 3) {
    int k = mc::thorough() ? 6 : 5;
    bool l = c.flag();
    auto in = l ? lattice<2>(c, 3, k, false) : sub<2>(c, mc::thorough() ? 9 : 8, k);
    c.shard();
    int kind = T<2, double>::CENTERS + c.pick(3);
    int parts = 1 + c.pick(3);
    sampled<2, double>(c, in, kind, parts, 1 + c.pick(4), !l, 2, 2, 1, false);
}
MC_SCENARIO("assigning-3d", 0, 0, 3) {
    int k = mc::thorough() ? 6 : 5;
    auto in = sub<3>(c, mc::thorough() ? 8 : 7, k);
    c.shard();
    int kind = T<3, double>::CENTERS + c.pick(3);
    int parts = 1 + c.pick(3);
    sampled<3, double>(c, in, kind, parts, 2 + c.pick(3), true, 2, 2, 1, false);
}
MC_SCENARIO("coinciding", 0, 0, 3) {
    auto in = lattice<2>(c, 2, 4, true);
    c.shard();
    int kind = T<2, double>::BINBOX + c.pick(6);
    int parts = kind >= T<2, double>::NEARBI ? 1 << c.pick(3) : 1 + c.pick(3);
    sampled<2, double>(c, in, kind, parts, 1 + c.pick(3), false, 1, 3, 1, false);
}
MC_SCENARIO("bipartition-2d", 0, 0, 3) {
    int k = mc::thorough() ? 6 : 5;
    auto in = c.flag() ? lattice<2>(c, 3, k, false) : sub<2>(c, mc::thorough() ? 9 : 8, k);
    c.shard();
    int kind = T<2, double>::NEARBI + c.pick(2);
    sampled<2, double>(c, in, kind, 1 << c.pick(3), 1 + c.pick(4), false, 1, 3, 1, false);
}
MC_SCENARIO("bipartition-3d", 0, 0, 3) {
    auto in = sub<3>(c, mc::thorough() ? 8 : 7, 5);
    c.shard();
    int kind = T<3, double>::NEARBI + c.pick(2);
    sampled<3, double>(c, in, kind, 1 << c.pick(3), 1 + c.pick(4), false, 1, 2, 1, false);
}
MC_SCENARIO("box-estimating", 0, 0, 3) {
    if (c.flag()) { auto in = c.flag() ? lattice<2>(c, 3, 5, false) : sub<2>(c, 8, 5); c.shard(); sampled<2, double>(c, in, T<2, double>::BINBOX, 1, 2 + c.pick(3), false, 0, 2, 1, false); }
    else { auto in = sub<3>(c, 7, 5); c.shard(); sampled<3, double>(c, in, T<3, double>::BINBOX, 1, 3 + c.pick(3), false, 0, 2, 1, false); }
}
MC_SCENARIO("orders", 1, 2, 3) {
    auto in = sub<2>(c, 6, 5);
    c.shard();
    int kind = T<2, double>::KWAY + c.pick(8);
    if (kind == T<2, double>::OLD) throw mc::Skip();
    if (kind == T<2, double>::KWAY) {
        typedef T<2, double> X;
        X::Cfg g;
        g.kind = kind; g.parts = 4; g.leaves = 3;
        mc::describe(X::cfg(g) + ptsStr<2>(in));
        X::Input x;
        X::make(x, in, true, 0);
        X::run(c, x, g, false);
        return;
    }
    sampled<2, double>(c, in, kind, 2, 3, false, 0, 2, 3, false);
}
// trees of any shape: copying, collapsing, dumping
template<uint D>
static typename T<D, double>::Tree shape(mc::Choice &c, std::vector<tIdType> ids, int depth, std::vector<tIdType> &order) {
    typedef T<D, double> X;
    typename X::Tree t;
    dBox<D, double> b;
    b.low.fill(ids.empty() ? 0 : ids.front());
    b.high.fill(ids.empty() ? 0 : ids.back());
    t.intersectionChecker = std::make_unique<lb::BoundsIntersectionChecker<D, double>>(b);
    int k = depth ? c.pick(4) : 0;
    if (k == 0) {
        Point_Ids p;
        for (auto i : ids) p.insert(i);
        if (c.flag()) for (tIdType i = X::INF; i != 0; ++i) p.insert(i);
        t.attachment = std::move(p);
        return t;
    }
    typename X::Kids kids;
    int n = k - 1;
    for (int i = 0; i < n; ++i) {
        std::vector<tIdType> part;
        for (size_t j = 0; j < ids.size(); ++j) if (n == 1 || (i == 0 ? j < ids.size() / 2 : j >= ids.size() / 2)) part.push_back(ids[j]);
        kids.push_back(shape<D>(c, part, depth - 1, order));
    }
    t.attachment = std::move(kids);
    return t;
}
MC_SCENARIO("trees", 0, 0, 3) {
    std::vector<tIdType> none, ids;
    int n = c.pick(4);
    for (int i = 1; i <= n; ++i) ids.push_back(i);
    c.shard();
    startGen.seed(START_SEED);
    auto t = shape<2>(c, ids, mc::thorough() ? 3 : 2, none);
    auto p = T<2, double>::plain(t);
    mc::describe("tree " + p.str());
    T<2, double>::helpers(t, p);
    mc::transition(1);
    mc::state(mc::hashStr(p.str()));
    mc::outcome(mc::hashStr(p.str()));
}
#endif
#ifdef PART_G12
MC_SCENARIO("graph-2d", 0, 0, 3) {
    int k = mc::thorough() ? 7 : 6;
    auto in = sub<2>(c, mc::thorough() ? 9 : 8, k);
    c.shard();
    typedef T<2, double> X;
    X::Cfg g;
    g.kind = X::NEARESTS; g.parts = 1 + c.pick(2); g.sample = 1 + c.pick(k); g.general = true; g.weight = c.pick(6); g.draws = 3; g.arity = 3; g.free = 2;
    mc::describe(X::cfg(g) + ptsStr<2>(in));
    X::Input x;
    X::make(x, in, c.flag(), 0);
    X::run(c, x, g, true);
}
MC_SCENARIO("graph-3d", 0, 0, 3) {
    int k = mc::thorough() ? 7 : 6;
    auto in = sub<3>(c, mc::thorough() ? 9 : 8, k);
    c.shard();
    typedef T<3, double> X;
    X::Cfg g;
    g.kind = X::NEARESTS; g.parts = 1 + c.pick(2); g.sample = 3 + c.pick(k - 2); g.general = true; g.weight = c.pick(6); g.draws = 2; g.arity = 3; g.free = 2;
    mc::describe(X::cfg(g) + ptsStr<3>(in));
    X::Input x;
    X::make(x, in, c.flag(), 0);
    X::run(c, x, g, true);
}
MC_SCENARIO("graph-float", 0, 0, 3) {
    auto in = sub<2>(c, 7, 6);
    c.shard();
    typedef T<2, float> X;
    X::Cfg g;
    g.kind = X::CENTERS; g.parts = 2; g.sample = 6; g.general = true; g.weight = c.pick(6); g.free = 2;
    mc::describe(X::cfg(g) + ptsStr<2>(in));
    X::Input x;
    X::make(x, in, true, 0);
    X::run(c, x, g, true);
}
MC_SCENARIO("assignment-2d", 0, 0, 3) {
    int k = mc::thorough() ? 6 : 5;
    bool l = c.flag();
    auto in = l ? lattice<2>(c, 3, k, false) : sub<2>(c, 8, k);
    c.shard();
    sampled<2, double>(c, in, T<2, double>::CENTERS + c.pick(3), 1 + c.pick(3), 1 + c.pick(4), !l, 1, 3, 1, true);
}
MC_SCENARIO("assignment-3d", 0, 0, 3) {
    auto in = sub<3>(c, mc::thorough() ? 8 : 7, mc::thorough() ? 6 : 5);
    c.shard();
    sampled<3, double>(c, in, T<3, double>::CENTERS + c.pick(3), 1 + c.pick(3), 2 + c.pick(3), true, 1, 3, 1, true);
}
MC_SCENARIO("recursive", 0, 0, 3) {
    auto in = sub<2>(c, 7, 6);
    c.shard();
    int kind = c.pick(3);
    typedef T<2, double> X;
    sampled<2, double>(c, in, kind == 0 ? X::BINBOX : kind == 1 ? X::NEARBI : X::HYPER, 2, 2 + c.pick(3), true, 1, 3, 1, true);
}
MC_SCENARIO("orders", 1, 2, 3) {
    auto in = sub<2>(c, 6, 5);
    c.shard();
    sampled<2, double>(c, in, T<2, double>::CENTERS + c.pick(3), 2, 5, true, 0, 2, 3, true);
}
#endif
MC_MAIN
