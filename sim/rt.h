// Simulator runtime: everything the code under test gets from the outside goes through here
// (memory, threads' turns, the LAPACK solver, the standard streams, clocks and random numbers).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <functional>

namespace rt {

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27))*0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t)(b - a + 1)); }
    double u() { return (double)(next() >> 11)*0x1p-53; }
    double uni(double a, double b) { return a + (b - a)*u(); }
    bool p(double q) { return u() < q; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b*0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull)); r.next(); return r.next(); }

// ---- heap ----
struct HeapCfg { int fill; int reuse; int gap; uint64_t seed; HeapCfg() : fill(0), reuse(0), gap(0), seed(1) {} };
// fill: 0 zero, 1 0xff, 2 random bytes, 3 plausible doubles/indices, 4 dirty (previous contents)
// reuse: 0 never, 1 last freed first, 2 first freed first, 3 random
// gap: 0 none, 1 random gaps between blocks
void heapInit(size_t bytes);
void heapConfigure(const HeapCfg&);
size_t heapLiveBlocks();
size_t heapLiveBytes();
bool heapCheck(std::string& what); // redzones of live blocks, double frees ...
bool heapOwns(const void*);

// ---- faults ----
enum FaultKind { F_ALLOC = 0, F_SOLVER = 1, F_STREAM = 2, F_NKINDS = 3 };
// alloc modes: 0 one allocation fails, 1 all from there on fail (until the call ends)
// solver modes: 0 info>0 and garbage, 1 info>0 and NaN, 2 info>0 and huge, 3 info<0 and untouched, 4 rounding jitter (legal), 5 info>0, result intact
struct Fault { int kind; int64_t n; int mode; int count; };
const int NFAULTSTATS = 16;
struct Stats {
    uint64_t allocs, solves, streamWrites, steps, switches, fired[NFAULTSTATS], schedHash, maxLive;
};
extern Stats stats;

// ---- calls into the code under test ----
void enter(const std::vector<Fault>& faults, uint64_t stackSeed, uint64_t faultSeed); // begin of a call
void leave();                                                     // end of a call
int firedInCall();          // faults that fired during the last call
int firedInCallKind(int k);
const int SOLVER_STATS = 4; // index of first solver fault counter in Stats::fired

// ---- tasks ----
struct Preempt { int task; int64_t step; int next; };
struct SchedCfg {
    bool explicitSched; std::vector<Preempt> list;
    uint64_t seed; int meanRun; int biasPct; // mean number of steps between decisions, percent chance of switching at shared accesses
    SchedCfg() : explicitSched(false), seed(1), meanRun(1000), biasPct(0) {}
};
void runTasks(const std::vector<std::function<void()> >& bodies, const SchedCfg& cfg, std::vector<Preempt>& trace);
void opBoundary(); // a place where the scheduler may switch
void setStepBudget(uint64_t n);
int currentTask();

// ---- coverage ----
extern uint8_t* covMap; extern uint32_t covSize; // one byte per edge of the code under test

// ---- caller's buffers ----
const char* inputRegionBase(); size_t inputRegionSize();

// called when something is fatally wrong inside the code under test; does not return
extern void (*fatal)(const char* kind, const char* text);
void installStreams();
} // namespace rt
