// What the load balanced triangulation returned, against the definition of the Delaunay triangulation.
#pragma once
#include "geo.hpp"

template<uint D, typename P>
static void judge(const dPoints<D, P> &pts, const std::vector<IP<D>> &in, const dBox<D, P> &b, const Plain<D> &p, const std::string &err) {
    auto got = p.verts();
    mc::requireF(got.size() == p.s.size(), [&] { return std::string("the same simplex occurs twice"); });
    auto ex = exactInput<D>(in, got);
    I vol = 1;
    for (uint d = 0; d < D; ++d) vol *= d + 1;
    for (uint i = 0; i < (1u << D); ++i) ex[dPoint<D, P>::cINF | i] = exactOf<D, P>(pts, dPoint<D, P>::cINF | i);
    for (uint d = 0; d < D; ++d) {
        long lo = ex[dPoint<D, P>::cINF][d], hi = ex[dPoint<D, P>::cINF | ((1 << D) - 1)][d];
        vol *= hi - lo;
        mc::requireF(lo < SC * std::ldexp(b.low[d], -scaleExp) && SC * std::ldexp(b.high[d], -scaleExp) < hi, [&] { return std::string("the auxiliary points do not enclose the input"); });
    }
    bool tie;
    auto e2 = checkDelaunay<D>(got, ex, vol, tie);
    mc::requireF(e2.empty(), [&] { return e2; });
    mc::requireF(err.empty(), [&] { return err; });
    uint64_t h = D;
    for (auto &s : got) for (auto v : s) h = mc::mix(h, v);
    mc::outcome(h);
    for (auto &s : p.s) { h = mc::mix(h, s.id); for (auto n : s.n) h = mc::mix(h, n); }
    mc::state(h);
    mc::count(tie ? "executions_with_cospherical_ties" : "executions_in_general_position");
}
