// The sampling partitioners with their random choices and the graph partitioner's answer left to the explorer.
#pragma once
#include "geo.hpp"
#include "utils/Random.h"
#include <Eigen/Eigen>
#include "DCTriangulator.h"
#include "CGALTriangulator.h"

namespace mcrand {
// outputs of the random engine: chosen while a choice is set, a fixed sequence afterwards
struct Engine {
    typedef std::uint_fast32_t result_type;
    static mc::Choice *choice;
    static int arity, left;
    std::mt19937 rest;
    explicit Engine(size_t seed = 0) : rest(seed) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() {
        if (choice && left > 0) {
            --left;
            return (result_type) ((((uint64_t) choice->pick(arity)) << 32) / arity + 12345);
        }
        return rest();
    }
};
inline mc::Choice *Engine::choice = nullptr;
inline int Engine::arity = 4;
inline int Engine::left = 0;
}
namespace std { typedef mcrand::Engine mcEngine; }
#define mt19937 mcEngine
#include "load_balancing/sample_partitioner/Sampler.h"
#include "load_balancing/monitors/UnpluggedMonitor.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/SimplePartitioner.h"
#include "load_balancing/kWaySplitter.h"
#include "load_balancing/FlatPartitioner.h"
#include "load_balancing/OldPartitionerPartitioner.h"
#include "load_balancing/PartitionTreeDump.h"
#include "load_balancing/sample_partitioner/BinaryBoxEstimatingSamplePartitioner.h"
#include "load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/NearestSamplePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h"
#include "load_balancing/sample_partitioner/HyperplaneBipartitioner.h"
#undef mt19937

namespace lb = LoadBalancing;

// one call of the graph partitioner
struct Kaffpa {
    int n, nparts, mode;
    double imbalance;
    std::vector<int> xadj, adj, w, part;
    bool weighted;
};
inline std::vector<Kaffpa> kaffpaCalls;
inline mc::Choice *kaffpaChoice = nullptr;
inline bool kaffpaConnected = false;                             // the fixed answer for large graphs
inline int kaffpaFree = 1000, kaffpaFreeCalls = 2;            // beyond so many vertices and calls the answer is fixed

inline void kaffpa(int *n, int *vwgt, int *xadj, int *adjcwgt, int *adjncy, int *nparts, double *imbalance, bool, int,
                   int mode, int, int *edgecut, int *part) {
    Kaffpa k;
    k.n = *n; k.nparts = *nparts; k.mode = mode; k.imbalance = *imbalance;
    mc::requireF(vwgt == nullptr, [] { return std::string("vertex weights handed to the graph partitioner"); });
    k.xadj.assign(xadj, xadj + *n + 1);
    mc::requireF(k.xadj[0] == 0, [] { return std::string("the adjacency of the first vertex does not begin at 0"); });
    for (int i = 0; i < *n; ++i) mc::requireF(k.xadj[i] <= k.xadj[i + 1], [] { return std::string("the adjacency records are not sorted"); });
    k.adj.assign(adjncy, adjncy + k.xadj.back());
    k.weighted = adjcwgt;
    if (adjcwgt) k.w.assign(adjcwgt, adjcwgt + k.xadj.back());
    for (int i = 0; i < *n; ++i) part[i] = !kaffpaChoice ? i % *nparts : i < kaffpaFree && (int) kaffpaCalls.size() < kaffpaFreeCalls ? kaffpaChoice->pick(*nparts) : i % *nparts;
    if (kaffpaConnected) {                              // runs of equal length of a breadth first order
        std::vector<int> o;
        std::vector<bool> seen(*n);
        for (int v = 0; v < *n; ++v) {
            if (!seen[v]) { seen[v] = true; o.push_back(v); }
            else continue;
            for (size_t i = o.size() - 1; i < o.size(); ++i)
                for (int e = k.xadj[o[i]]; e < k.xadj[o[i] + 1]; ++e) if (!seen[k.adj[e]]) { seen[k.adj[e]] = true; o.push_back(k.adj[e]); }
        }
        for (int i = 0; i < *n; ++i) part[o[i]] = (long) i * *nparts / *n;
    }
    k.part.assign(part, part + *n);
    *edgecut = 0;
    kaffpaCalls.push_back(k);
}
