// A plan is one simulated run written out: the calls of every caller thread, the faults, the
// behaviour of the heap and the schedule. Replaying a plan is a pure function of it and the code.
#pragma once
#include "rt.h"
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <sstream>
#include <fstream>

enum OpCode {
    O_NONE = 0,
    C_NEW, C_SRC, C_DST, C_COMP, C_APPLY, C_CUR, C_DEL,          // conservative interpolation
    F_NEW, F_SRC, F_DST, F_COMP, F_APPLY, F_DEL,                 // flow interpolation
    N_NEW, N_SRC, N_DST, N_COMP, N_APPLY, N_DEL,                 // node interpolation
    P_NEW, P_GRID, P_RESET, P_NEXT, P_LOOK, P_DEL,               // point search
    V_NEW, V_GRID, V_POLY, V_FIND, V_GET, V_DEL,                 // overlapping cells
    Q_NEW, Q_SET, Q_GET, Q_DEL,                                  // quad/quad intersection and hull area
    I_NEW, I_QUAD, I_LINE, I_GET, I_DEL,                         // quad/line intersection
    L_NEW, L_QUAD, L_LINE, L_COMP, L_DEL,                        // quad/line flows
    S_NEW, S_MAT, S_RHS, S_SOLVE, S_GET, S_DEL,                  // linear solver
    M_NEW, M_GET, M_DEL,                                         // simple objects: kind in a[0]
    O_END
};
static const char* const opNames[] = {
    "none",
    "C_NEW", "C_SRC", "C_DST", "C_COMP", "C_APPLY", "C_CUR", "C_DEL",
    "F_NEW", "F_SRC", "F_DST", "F_COMP", "F_APPLY", "F_DEL",
    "N_NEW", "N_SRC", "N_DST", "N_COMP", "N_APPLY", "N_DEL",
    "P_NEW", "P_GRID", "P_RESET", "P_NEXT", "P_LOOK", "P_DEL",
    "V_NEW", "V_GRID", "V_POLY", "V_FIND", "V_GET", "V_DEL",
    "Q_NEW", "Q_SET", "Q_GET", "Q_DEL",
    "I_NEW", "I_QUAD", "I_LINE", "I_GET", "I_DEL",
    "L_NEW", "L_QUAD", "L_LINE", "L_COMP", "L_DEL",
    "S_NEW", "S_MAT", "S_RHS", "S_SOLVE", "S_GET", "S_DEL",
    "M_NEW", "M_GET", "M_DEL" };
const int NARGS = 12; // a[10], a[11]: how the input differs from one given before
struct Op {
    int id, thread, slot, code; int a[NARGS]; uint64_t seed;
    std::vector<rt::Fault> faults;
    Op() : id(0), thread(0), slot(0), code(0), seed(0) { memset(a, 0, sizeof a); }
};
struct Plan {
    std::string prop; uint64_t seed; int nthreads; int scale, frame; // frame: seed of the affine frame; scale: exponent code
    uint64_t frameSeed; int bufMode; // 0 buffers on the heap, freed after the call; 1 page protected
    rt::HeapCfg heap, heap2; rt::SchedCfg sched; std::vector<Op> ops; int repeat;
    Plan() : seed(0), nthreads(1), scale(2), frame(0), frameSeed(1), bufMode(0), repeat(1) {}
    std::string text() const {
        std::ostringstream o;
        o << "sigrid-sim-plan 2\nprop " << prop << "\nseed " << seed << "\nthreads " << nthreads << "\nscale " << scale << "\nframe " << frame << ' ' << frameSeed
          << "\nbuf " << bufMode << "\nrepeat " << repeat << "\nheap " << heap.fill << ' ' << heap.reuse << ' ' << heap.gap << ' ' << heap.seed
          << "\nheap2 " << heap2.fill << ' ' << heap2.reuse << ' ' << heap2.gap << ' ' << heap2.seed << '\n';
        if (sched.explicitSched) { o << "sched explicit\n"; for (size_t i = 0; i < sched.list.size(); ++i) o << "preempt " << sched.list[i].task << ' ' << sched.list[i].step << ' ' << sched.list[i].next << '\n'; }
        else o << "sched random " << sched.seed << ' ' << sched.meanRun << ' ' << sched.biasPct << '\n';
        for (size_t i = 0; i < ops.size(); ++i) {
            const Op& p = ops[i];
            o << "op " << p.id << ' ' << p.thread << ' ' << p.slot << ' ' << opNames[p.code];
            for (int k = 0; k < NARGS; ++k) o << ' ' << p.a[k];
            o << ' ' << p.seed << '\n';
            for (size_t f = 0; f < p.faults.size(); ++f)
                o << "fault " << p.id << ' ' << p.faults[f].kind << ' ' << p.faults[f].n << ' ' << p.faults[f].mode << ' ' << p.faults[f].count << '\n';
        }
        return o.str();
    }
    bool parse(std::istream& in) {
        std::string line; if (!std::getline(in, line) || line.compare(0, 15, "sigrid-sim-plan")) return false;
        sched.explicitSched = true;
        while (std::getline(in, line)) {
            std::istringstream s(line); std::string k; s >> k;
            if (k == "prop") s >> prop; else if (k == "seed") s >> seed; else if (k == "threads") s >> nthreads; else if (k == "scale") s >> scale;
            else if (k == "frame") s >> frame >> frameSeed; else if (k == "buf") s >> bufMode; else if (k == "repeat") s >> repeat;
            else if (k == "heap") s >> heap.fill >> heap.reuse >> heap.gap >> heap.seed;
            else if (k == "heap2") s >> heap2.fill >> heap2.reuse >> heap2.gap >> heap2.seed;
            else if (k == "sched") { std::string m; s >> m; sched.explicitSched = m == "explicit"; if (!sched.explicitSched) s >> sched.seed >> sched.meanRun >> sched.biasPct; }
            else if (k == "preempt") { rt::Preempt p; s >> p.task >> p.step >> p.next; sched.list.push_back(p); }
            else if (k == "op") {
                Op p; std::string n; s >> p.id >> p.thread >> p.slot >> n; for (int i = 0; i < NARGS; ++i) s >> p.a[i]; s >> p.seed;
                for (int c = 1; c < O_END; ++c) if (n == opNames[c]) p.code = c;
                if (!p.code) return false;
                ops.push_back(p);
            } else if (k == "fault") { int id; rt::Fault f; s >> id >> f.kind >> f.n >> f.mode >> f.count; for (size_t i = 0; i < ops.size(); ++i) if (ops[i].id == id) ops[i].faults.push_back(f); }
        }
        return true;
    }
};
