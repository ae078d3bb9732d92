// One execution of the load balanced triangulation with a partitioner of the library, and its judgement.
#pragma once
#include "lbsample.hpp"
#include "LoadBalancedDCTriangulator.h"
#include "lbjudge.hpp"
#include "reseed.hpp"

enum Kind { SIMPLE, KWAY, OLD, BINBOX, CENTERS, BOXES, NEARESTS, NEARBI, HYPER };
static const char *kindName[] = {"simple", "k-way", "old", "box estimating", "centers", "boxes", "nearest sample", "nearest sample bipartitioner", "hyperplane"};

struct Cfg {
    int kind = 0, parts = 1, sample = 3, maker = 0, draws = 0, arity = 3, free = 1000;
    size_t cutoff = 0, rec = 0, leaves = 1;
    int cell = 8;
    uint base = 2;
    bool flat = false, parBase = false, parEdge = true;
    char old = 'c';
};

template<uint D, typename P>
static void run(mc::Choice &c, const std::vector<IP<D>> &in, const Cfg &g) {
    typedef lb::UnpluggedMonitor Mon;
    static const char *mn[] = {"bounds", "grid", "accurate grid"};
    mc::describe(mc::fmt("D=%u units of 2^%d, %s, %s, %d partitions, sample of %d, %s tests, cutoff %zu, recursions %zu, splitter %c%s%s%s, points ", D, scaleExp, sizeof(P) == 8 ? "double" : "float", kindName[g.kind], g.parts, g.sample,
                         mn[g.maker], g.cutoff, g.rec, g.old, g.flat ? ", flattened" : "", g.parBase ? ", parallel base" : "", g.parEdge ? "" : ", sequential edge") + ptsStr<D>(in));
    kaffpaCalls.clear();
    kaffpaChoice = &c;
    kaffpaFree = g.free;
    mcrand::Engine::choice = &c;
    mcrand::Engine::left = g.draws;
    mcrand::Engine::arity = g.arity;
    dPoints<D, P> pts;
    fill<D, P>(pts, in);
    auto b = boundsOf<D, P>(in);
    startGen.seed(START_SEED);
    dSimplices<D, P>::simplexID = 1;
    auto size = [&](size_t) -> size_t { return g.sample; };
    lb::Sampler<D, P> sampler(1, size, ECO, 0.25);
    lb::IntersectionPartitionMakerFunction<D, P> mk;
    if (g.maker == 0) mk = lb::BoundsIntersectionPartitionMaker<D, P>();
    else if (g.maker == 1) mk = lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(scaled<P>(g.cell)));
    else mk = lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(scaled<P>(g.cell)));
    std::unique_ptr<lb::Partitioner<D, P, Mon>> part;
    switch (g.kind) {
        case SIMPLE: part = std::make_unique<lb::SimplePartitioner<D, P, Mon>>(); break;
        case KWAY: part = std::make_unique<lb::KWaySplitter<D, P, Mon>>(g.parts); break;
        case OLD: part = std::make_unique<lb::OldPartitionerPartitioner<D, P, Mon>>(::Partitioner<D, P>::make(g.old), g.rec, g.cutoff); break;
        case BINBOX: part = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, P, Mon>>(g.cutoff, std::move(sampler)); break;
        case CENTERS: part = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, P, Mon>>(g.parts, std::move(sampler), mk); break;
        case BOXES: part = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, P, Mon>>(g.parts, std::move(sampler), mk); break;
        case NEARESTS: part = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, P, Mon>>(g.parts, std::move(sampler), mk); break;
        case NEARBI: part = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, P, Mon>>(g.parts, std::move(sampler), g.cutoff, mk); break;
        case HYPER: part = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, P, Mon>>(g.parts, std::move(sampler)); break;
    }
    if (g.flat) part = std::make_unique<lb::FlatPartitioner<D, P, Mon>>(std::move(part));
    McPolicy pol(&c, g.leaves);
    Plain<D> p;
    std::string err;
    {
        mtbb::ScopedPolicy sp(&pol);
        lb::DCTriangulator<D, P> t(b, pts, 2, std::move(part), 1, g.parBase, g.parEdge);
        auto dt = static_cast<Triangulator<D, P> &>(t).triangulate();
        p = plain<D>(dt);
        err = checkConsistent<D, P>(dt, p);
        mc::transition(p.s.size() + pol.picks + kaffpaCalls.size());
    }
    mcrand::Engine::choice = nullptr;
    kaffpaChoice = nullptr;
    judge<D, P>(pts, in, b, p, err);
    mc::count("executions_with_the_library's_partitioners");
}
