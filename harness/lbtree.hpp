// Partition trees over a point set chosen by the explorer, and the tests attached to them.
#pragma once
#include "geo.hpp"
namespace LoadBalancing { template<uint D, typename Precision> struct Sampling; }   // named by the monitors
#include "LoadBalancedDCTriangulator.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"

namespace lb = LoadBalancing;

// the sharpest test that never misses: yes iff a point of the partition lies strictly within the sphere
template<uint D, typename P>
struct Sharp : lb::IntersectionChecker<D, P> {
    const dPoints<D, P> *pts;
    std::vector<IP<D>> mine;
    bool closed;                                         // also if it touches
    Sharp(dBox<D, P> b, const dPoints<D, P> &p, std::vector<IP<D>> m, bool closed_ = false) : lb::IntersectionChecker<D, P>(b), pts(&p), mine(std::move(m)), closed(closed_) {}
    bool intersects(const dSphere<D, P> &, const dSimplex<D, P> &s) const override {
        std::vector<IP<D>> v;
        for (auto x : s.vertices) v.push_back(exactOf<D, P>(*pts, x));
        for (auto &q : mine) if (inSphereExact<D>(v, q) > (closed ? -1 : 0)) return true;
        return false;
    }
    std::unique_ptr<lb::IntersectionChecker<D, P>> copy() const override { return std::make_unique<Sharp>(*this); }
};

// the bluntest: always yes
template<uint D, typename P>
struct Blunt : lb::IntersectionChecker<D, P> {
    using lb::IntersectionChecker<D, P>::IntersectionChecker;
    bool intersects(const dSphere<D, P> &, const dSimplex<D, P> &) const override { return true; }
    std::unique_ptr<lb::IntersectionChecker<D, P>> copy() const override { return std::make_unique<Blunt>(*this); }
};

enum Test { BOUNDS, GRID, BLUNT, SHARP, CLOSED };

struct Shape {               // leaf: ids; inner: children
    std::vector<int> ids;
    std::vector<Shape> kids;
    bool leaf = true;
    std::string str() const {
        std::string s = leaf ? "{" : "[";
        if (leaf) for (int i : ids) s += std::to_string(idOf(i)) + " ";
        else for (auto &k : kids) s += k.str();
        return s + (leaf ? "}" : "]");
    }
};

template<uint D, typename P>
struct Tree : lb::Partitioner<D, P, lb::UnpluggedMonitor> {
    typedef lb::PartitionTree<D, P> PT;
    const Shape &shape;
    const std::vector<IP<D>> &in;
    Test test;
    int calls = 0;
    Tree(const Shape &s, const std::vector<IP<D>> &i, Test t) : shape(s), in(i), test(t) {}

    PT build(const Shape &s, dPoints<D, P> &pts) {
        PT t;
        dBox<D, P> b;
        bool first = true;
        std::vector<dIndex<D, int64_t>> cells;
        std::vector<IP<D>> mine;
        lb::Grid<D, P> g(scaled<P>(8));
        for (int i : s.ids) {
            auto &x = pts[idOf(i)].coords;
            if (first) { b.low = x; b.high = x; first = false; }
            else lb::enlargeBoxAroundVector<D, P>(b, x);
            auto ix = g.indexAt(x);
            if (std::find(cells.begin(), cells.end(), ix) == cells.end()) cells.push_back(ix);
            mine.push_back(exactOf<D, P>(pts, idOf(i)));
        }
        if (first) { b.low.fill(scaled<P>(in[0][0])); b.high = b.low; }
        switch (test) {
            case BOUNDS: t.intersectionChecker = std::make_unique<lb::BoundsIntersectionChecker<D, P>>(b); break;
            case GRID: t.intersectionChecker = std::make_unique<lb::GridIntersectionChecker<D, P>>(b, g, cells.begin(), cells.end()); break;
            case BLUNT: t.intersectionChecker = std::make_unique<Blunt<D, P>>(b); break;
            case CLOSED: t.intersectionChecker = std::make_unique<Sharp<D, P>>(b, pts, mine, true); break;
            case SHARP: t.intersectionChecker = std::make_unique<Sharp<D, P>>(b, pts, mine); break;
        }
        if (s.leaf) {
            Point_Ids ids;
            for (int i : s.ids) ids.insert(idOf(i));
            for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
            t.attachment = std::move(ids);
        } else {
            typename PT::ChildContainer ch;
            for (auto &k : s.kids) ch.push_back(build(k, pts));
            t.attachment = std::move(ch);
        }
        return t;
    }
    PT partition(const dBox<D, P> &, dPoints<D, P> &pts, const Point_Ids &, lb::UnpluggedMonitor &) override { ++calls; return build(shape, pts); }
    std::string info() const override { return "explorer"; }
};
