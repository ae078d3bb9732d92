// Stands in for the graph partitioner library, which is not installed: the harness decides the partition.
#pragma once
const int FAST = 0;
const int ECO = 1;
const int STRONG = 2;
const int FASTSOCIAL = 3;
const int ECOSOCIAL = 4;
const int STRONGSOCIAL = 5;
const int FASTSOCIALMULTITRY_PARALLEL = 6;
void kaffpa(int *n, int *vwgt, int *xadj, int *adjcwgt, int *adjncy, int *nparts, double *imbalance, bool suppress_output,
            int seed, int mode, int threads, int *edgecut, int *part);
