#pragma once
#include "plan.h"
#include "geom.h"
// Result of one simulated execution; lives in memory shared with the parent process.
const int NCOUNT = 64;
enum Counter { K_OPS = 0, K_FAILED_OPS, K_RETRIED, K_ENTRIES, K_FULLCELLS, K_SEGMENTS, K_SEARCH_OK, K_SEARCH_FAIL, K_PAUSES, K_NODES_IN, K_NODES_OUT, K_POLYS, K_OVERLAPS,
               K_QUADS, K_FRESH, K_SOLVES, K_LINES, K_FLOWS, K_APPLIES, K_CURSTEPS, K_INPUTS, K_GUARDS, K_REPS, K_SOLVER_HIT_OPS, K_SKIPPED, K_OUTS, K_CELLPAIRS, K_ABANDONED, K_SAMEBUF, K_PRISTINE, K_PRELUDES, K_END };
static const char* const counterNames[] = {"calls", "calls_failed_by_a_fault", "calls_retried_after_a_fault", "weight_entries_checked", "fully_covered_cells", "segments_checked", "searches_converged", "searches_not_converged", "pause_points_checked",
    "nodes_inside_checked", "nodes_outside_checked", "polygons_checked", "overlapping_cells_checked", "quad_pairs_checked", "comparisons_with_fresh_handle", "linear_systems_checked", "line_intersections_checked", "line_flows_checked",
    "applications_checked", "cursor_steps", "input_arrays_watched", "output_guards_checked", "repetitions", "calls_hit_by_solver_fault", "operations_skipped", "outputs_compared", "cell_pairs_modelled", "handles_abandoned", "arrays_rewritten_in_place", "results_compared_with_a_new_process", "executions_in_a_process_with_a_past"};
struct Viol { char prop[8]; char kind[40]; int op; char text[600]; };
struct OutRec { int op; int seq; uint64_t bits; };
const int MAXOUT = 1 << 17;
struct Shm {
    int status; // 0 running, 1 done, 2 violation, 3 crash
    int nviol; Viol viol; int curOp[8];
    uint64_t count[NCOUNT]; rt::Stats stats; uint64_t opHash; int nthreads;
    int effSeen, effOp, effN, effIds[1024]; // one result of the run, drawn at random (it is in out), and the calls that are in effect for it
    int nout; int outOverflow; OutRec out[MAXOUT];
    int ntrace; rt::Preempt trace[20000];
    uint8_t cov[1 << 17]; uint32_t covSize;
    uint64_t live[16][2]; int nlive;
};
struct ExecOpts { int onlyThread; bool record; bool secondHeap; uint64_t stackSalt; bool oracles; const Plan* prelude; ExecOpts() : onlyThread(-1), record(false), secondHeap(false), stackSalt(0), oracles(true), prelude(0) {} };
void execute(const Plan& plan, const ExecOpts& opts, Shm* shm); // in a process of its own
