// One execution of the divide and conquer triangulation and its judgement.
#pragma once
#include "geo.hpp"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "utils/Random.h"
#include "reseed.hpp"

// direct (non recursive) triangulation of all points in pts, including auxiliary ones
template<uint D, typename P>
Plain<D> direct(dPoints<D, P> &pts, const dBox<D, P> &b, size_t n) {
    CGALTriangulator<D, P, false> t(b, pts, 1);
    auto dt = idStride == 1 ? static_cast<Triangulator<D, P> &>(t).triangulate() : static_cast<Triangulator<D, P> &>(t).triangulate(idsOf<D, P>(n));
    return plain<D>(dt);
}

template<uint D, typename Prec = double>
void run(mc::Choice &c, const std::vector<IP<D>> &in, char type, uint threads, bool parEdge, std::size_t leaves, bool pbase) {
    mc::describe(mc::fmt("D=%u units of 2^%d ids multiples of %d splitter=%c threads=%u parEdge=%d leaves=%zu pbase=%d points=", D, scaleExp, idStride, type, threads, parEdge, leaves, pbase) + ptsStr<D>(in));
    dPoints<D, Prec> pts;
    fill<D, Prec>(pts, in);
    auto b = boundsOf<D, Prec>(in);
    startGen.seed(START_SEED);                 // state that outlives an execution
    dSimplices<D, Prec>::simplexID = 1;
    McPolicy pol(&c, leaves);
    std::set<Simp<D>> got;
    Plain<D> p;
    std::string err;
    {
        mtbb::ScopedPolicy sp(&pol);
        DCTriangulator<D, Prec> dc(b, pts, threads, Partitioner<D, Prec>::make(type), 1, pbase, parEdge);
        auto dt = idStride == 1 ? static_cast<Triangulator<D, Prec> &>(dc).triangulate() : static_cast<Triangulator<D, Prec> &>(dc).triangulate(idsOf<D, Prec>(in.size()));
        p = plain<D>(dt);
        err = checkConsistent<D, Prec>(dt, p);
        mc::transition(p.s.size() + pol.picks);
    }
    got = p.verts();
    mc::requireF(got.size() == p.s.size(), [&] { return std::string("the same simplex occurs twice"); });
    auto ex = exactInput<D>(in, got);
    I vol = 1;
    for (uint d = 0; d < D; ++d) vol *= D == 2 ? (d == 0 ? 1 : 2) : (d == 0 ? 1 : d + 1);
    for (uint i = 0; i < (1u << D); ++i) ex[dPoint<D, Prec>::cINF | i] = exactOf<D, Prec>(pts, dPoint<D, Prec>::cINF | i);
    for (uint d = 0; d < D; ++d) {
        long lo = ex[dPoint<D, Prec>::cINF][d], hi = ex[dPoint<D, Prec>::cINF | ((1 << D) - 1)][d];
        vol *= hi - lo;
        mc::requireF(lo < SC * std::ldexp(b.low[d], -scaleExp) && SC * std::ldexp(b.high[d], -scaleExp) < hi, [&] { return std::string("the auxiliary points do not enclose the input"); });
    }
    bool tie;
    std::string e2 = checkDelaunay<D>(got, ex, vol, tie);
    mc::requireF(e2.empty(), [&] { return e2; });
    auto ref = direct<D, Prec>(pts, b, in.size()).verts();
    bool twice = ex.size() < in.size() + (1u << D);           // which of them is a matter of the order
    if (!tie && !twice) mc::requireF(got == ref, [&] {
        std::string m = "differs from the direct triangulation:";
        for (auto &x : got) if (!ref.count(x)) { m += " extra ["; for (auto v : x) m += std::to_string((long) v) + " "; m += "]"; }
        for (auto &x : ref) if (!got.count(x)) { m += " missing ["; for (auto v : x) m += std::to_string((long) v) + " "; m += "]"; }
        return m;
    });
    mc::requireF(err.empty(), [&] { return err; });
    uint64_t h = D;
    for (auto &s : got) for (auto v : s) h = mc::mix(h, v);
    mc::outcome(h);
    uint64_t hs = h;
    for (auto &s : p.s) { hs = mc::mix(hs, s.id); for (auto n : s.n) hs = mc::mix(hs, n); }
    mc::state(hs);
    mc::count(tie ? "executions_with_cospherical_ties" : "executions_in_general_position");
}
