#include "exec.h"
#include <cstdarg>
#include <set>
#include <memory>
#include <new>
#include <exception>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
using namespace geom; using model::Real;

// The C interface under test, declared here by hand so that nothing of the library is compiled into the simulator.
extern "C" {
int SgConserveInterp2D_new(void**); int SgConserveInterp2D_del(void**);
int SgConserveInterp2D_setDstGrid(void**, const int[], const double**); int SgConserveInterp2D_setSrcGrid(void**, const int[], const int[], const double**);
int SgConserveInterp2D_computeWeights(void**); int SgConserveInterp2D_apply(void**, const double[], double[]);
int SgConserveInterp2D_reset(void**); int SgConserveInterp2D_next(void**); int SgConserveInterp2D_get(void**, int*, int*, double*);
int SgFlowInterp2D_new(void**); int SgFlowInterp2D_del(void**);
int SgFlowInterp2D_setDstGrid(void**, const int[], const double**); int SgFlowInterp2D_setSrcGrid(void**, const int[], const double**);
int SgFlowInterp2D_computeWeights(void**); int SgFlowInterp2D_apply(void**, const double*[], double[]);
int SgNodeInterp2D_new(void**, int, double); int SgNodeInterp2D_del(void**);
int SgNodeInterp2D_setDstGrid(void**, const int[], const double**); int SgNodeInterp2D_setSrcGrid(void**, const int[], const int[], const double**);
int SgNodeInterp2D_computeWeights(void**); int SgNodeInterp2D_apply(void**, const double[], double[]);
int SgFindPointInCell_new(void**, int, double); int SgFindPointInCell_del(void**);
int SgFindPointInCell_setGrid(void**, int, const int[], const int[], const double**); int SgFindPointInCell_getPosition(void**, double[]);
int SgFindPointInCell_getError(void**, double*); int SgFindPointInCell_reset(void**, const double[], const double[]);
int SgFindPointInCell_next(void**); int SgFindPointInCell_getIndices(void**, double[]); int SgFindPointInCell_getErrorHistory(void**, int*, double**);
int SgFindOverlappingCells2D_new(void**); int SgFindOverlappingCells2D_del(void**);
int SgFindOverlappingCells2D_setSrcGrid(void**, const int[], const int[], const double**); int SgFindOverlappingCells2D_setPolygonPoints(void**, int, const double[]);
int SgFindOverlappingCells2D_findSrcCellIndices(void**); int SgFindOverlappingCells2D_getNumberOfSrcCellIndices(void**, int*); int SgFindOverlappingCells2D_getSrcCellIndices(void**, int**);
int SgQuadIntersect_new(void**); int SgQuadIntersect_del(void**); int SgQuadIntersect_setQuadPoints(void**, const double*, const double*); int SgQuadIntersect_getIntersectPoints(void**, int*, double**);
int SgQuadLineIntersect_new(void**); int SgQuadLineIntersect_del(void**); int SgQuadLineIntersect_setQuadPoints(void**, const double*); int SgQuadLineIntersect_setLinePoints(void**, const double*);
int SgQuadLineIntersect_collectIntersectPoints(void**, int*, double**);
int SgQuadLineFlows_new(void**); int SgQuadLineFlows_del(void**); int SgQuadLineFlows_setQuadPoints(void**, const double*); int SgQuadLineFlows_setLinePoints(void**, const double*);
int SgQuadLineFlows_computeProjections(void**); int SgQuadLineFlows_getProjection(void**, int, double*);
int SgLinearSolve_new(void**, int, int); int SgLinearSolve_del(void**); int SgLinearSolve_setMatrix(void**, const double[]); int SgLinearSolve_setRightHandSide(void**, const double[]);
int SgLinearSolve_solve(void**); int SgLinearSolve_getSolution(void**, double**); int SgLinearSolve_getResidual(void**, double*);
int SgTriangulate_new(void**, int, const double[]); int SgTriangulate_del(void**); int SgTriangulate_getConvexHullArea(void**, double*);
int SgBoxIterator_new(void**, int, const int*, const int*); int SgBoxIterator_del(void**); int SgBoxIterator_getNumberOfElements(void**, int*); int SgBoxIterator_getElement(void**, int, int[]); int SgBoxIterator_getIndex(void**, const int[], int*);
int SgLine_new(void**, const double*, const double*); int SgLine_del(void**); int SgLine_getNumberOfPoints(void**, int*); int SgLine_getPoint(void**, int, double**);
int SgTriangle_new(void**, const double*, const double*, const double*); int SgTriangle_del(void**); int SgTriangle_getNumberOfPoints(void**, int*); int SgTriangle_getNumberOfEdges(void**, int*); int SgTriangle_getPoint(void**, int, double**);
int SgTetrahedron_new(void**, const double*, const double*, const double*, const double*); int SgTetrahedron_del(void**); int SgTetrahedron_getNumberOfPoints(void**, int*); int SgTetrahedron_getNumberOfFaces(void**, int*); int SgTetrahedron_getPoint(void**, int, double**);
int SgTripolarGrid_new(void**, const int[], int); int SgTripolarGrid_del(void**); int SgTripolarGrid_getGrid(void**, int[], double***);
int SgOctreePoints_new(void**, int, int, int, const double*); int SgOctreePoints_del(void**);
int SgTriangle_getEdge(void**, int, int**); int SgTetrahedron_getNumberOfEdges(void**, int*); int SgTetrahedron_getEdge(void**, int, int**); int SgTetrahedron_getFace(void**, int, int**);
int simSideIterator_new(void**, int); int simSideIterator_del(void**); int simSideIterator_reset(void**); int simSideIterator_next(void**); int simSideIterator_num(void**, int*); int simSideIterator_get(void**, int[], int);
int simOctree_key(void**, const double*, int, int[], int); int simOctree_box(void**, const int[], int, double[], double[], int);
int simParser_new(void**); int simParser_del(void**); int simParser_set(void**, int, const char*, double, int, const char*, const char*); int simParser_parse(void**, int, const char**);
int simParser_text(void**, int, const char*); int simParser_number(void**, int, const char*, double*); int simParser_string(void**, int, const char*, char*, int); int simParser_list(void**, int, const char*, double*, int);
void createRectangularGrid(const int[], const double[], const double[], double**); void createPolarGrid(const int[], const double[], double, double**); void createRotatedPoleGrid(const int[], double, double, double**);
void matrixDotMatrix(const double[], const double[], double[]); void matrixDotVector(const double[], const double[], double[]);
void simSeedRand(uint64_t);
}

namespace {
Shm* S = 0;
std::vector<rt::Preempt>* g_trace = 0;
void saveTrace() { S->ntrace = 0; if (g_trace) for (size_t i = 0; i < g_trace->size() && i < 20000; ++i) S->trace[S->ntrace++] = (*g_trace)[i]; }
const uint64_t SENTINEL = 0x7ff4dead0bad0bedull; // a NaN nobody computes
double sentinel() { double d; uint64_t s = SENTINEL; memcpy(&d, &s, 8); return d; }
uint64_t bitsOf(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

// ------------------------------------------------------------------ caller's arrays
struct Region { char* base; char* top; size_t size; };
Region g_in = {0, 0, 0};
const size_t PAGE = 4096;
void inInit() {
    if (g_in.base) return;
    g_in.size = 1ull << 30;
    void* p = mmap((void*) 0x680000000000ull, g_in.size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) p = mmap(0, g_in.size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_in.base = g_in.top = (char*) p;
}
// arrays of the caller that are not page protected: blocks of an arena of their own, so that what lies around them is part of the simulation too
struct CallerHeap {
    char *base, *top; size_t size; std::map<size_t, std::vector<char*> > idle; bool reuse; rt::Rng r;
    static const size_t AROUND = 64;
    CallerHeap() : base(0), top(0), size(1ull << 30), reuse(true), r(1) {}
    void init(uint64_t seed) {
        void* p = mmap((void*) 0x690000000000ull, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) p = mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
        base = top = (char*) p; r = rt::Rng(rt::mix(seed, 77)); reuse = r.p(.7);
    }
    void noise(char* p, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) { double d = r.p(.5) ? r.uni(-4, 4) : r.uni(-1e3, 1e3); memcpy(p + i, &d, 8); } }
    char* get(size_t n) {
        n = (n + 15)/16*16; char* p = 0; std::vector<char*>& f = idle[n];
        if (reuse && !f.empty()) { p = f.back(); f.pop_back(); }
        else { if (top + n + 2*AROUND > base + size) { fprintf(stderr, "caller's arena is full\n"); _exit(97); } p = top + AROUND; top += n + 2*AROUND; }
        noise(p - AROUND, n + 2*AROUND); return p;
    }
    void put(char* p, size_t n) { idle[(n + 15)/16*16].push_back(p); }
};
CallerHeap g_callers;
struct InBuf { // one array handed to the library
    int mode; char* p; size_t n; uint64_t sum; char* page; size_t npages;
    InBuf() : mode(0), p(0), n(0), sum(0), page(0), npages(0) {}
    static uint64_t hash(const char* q, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= (unsigned char) q[i]; h *= 1099511628211ull; } return h; }
    void make(int m, const void* data, size_t bytes) {
        mode = m; n = bytes;
        if (mode == 1) {
            npages = (n + PAGE - 1)/PAGE; if (!npages) npages = 1;
            if (g_in.top + (npages + 1)*PAGE > g_in.base + g_in.size) mode = 0;
        }
        if (mode == 1) {
            page = g_in.top; g_in.top += (npages + 1)*PAGE; // the page behind stays inaccessible
            mprotect(page, npages*PAGE, PROT_READ | PROT_WRITE);
            p = page + npages*PAGE - ((n + 7)/8*8);
            memcpy(p, data, n);
            mprotect(page, npages*PAGE, PROT_READ);
        } else {
#ifdef SIM_ASAN
            p = (char*) malloc(n ? n : 1);
#else
            p = g_callers.get(n);
#endif
            memcpy(p, data, n); sum = hash(p, n);
        }
        S->count[K_INPUTS]++;
    }
    void rewrite(const void* data) { // the caller puts something else into it
        if (mode == 1) mprotect(page, npages*PAGE, PROT_READ | PROT_WRITE);
        memcpy(p, data, n); sum = hash(p, n);
        if (mode == 1) mprotect(page, npages*PAGE, PROT_READ);
    }
    bool intact() const { return mode == 1 || hash(p, n) == sum; }
    void drop() { // the caller takes its array back
        if (!p) return;
        if (mode == 1) mprotect(page, npages*PAGE, PROT_NONE);
        else { for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t s = SENTINEL; memcpy(p + i, &s, 8); } for (size_t i = n/8*8; i < n; ++i) p[i] = 0x7f;
#ifdef SIM_ASAN
            free(p);
#else
            g_callers.put(p, n);
#endif
        }
        p = 0;
    }
};
struct Inputs { // the arrays of one call
    std::vector<InBuf*> v; int mode;
    explicit Inputs(int m) : mode(m) {}
    const double* d(const std::vector<double>& x) { InBuf* b = new InBuf(); b->make(mode, x.empty() ? (const void*) "" : (const void*) &x[0], x.size()*8); v.push_back(b); return (const double*) b->p; }
    const char* s(const std::string& x) { InBuf* b = new InBuf(); b->make(mode, x.c_str(), x.size() + 1); v.push_back(b); return (const char*) b->p; }
    const int* i(const std::vector<int>& x) { InBuf* b = new InBuf(); b->make(mode, &x[0], x.size()*4); v.push_back(b); return (const int*) b->p; }
    const double** pp(const std::vector<const double*>& x) { InBuf* b = new InBuf(); b->make(mode, &x[0], x.size()*sizeof(double*)); v.push_back(b); return (const double**) b->p; }
    bool intact() const { for (size_t k = 0; k < v.size(); ++k) if (!v[k]->intact()) return false; return true; }
    void drop() { for (size_t k = 0; k < v.size(); ++k) { v[k]->drop(); delete v[k]; } v.clear(); }
    void moveTo(std::vector<InBuf*>& keep) { keep.insert(keep.end(), v.begin(), v.end()); v.clear(); }
    ~Inputs() { drop(); }
};
struct OutBuf { // an array the library writes to, with guards
    std::vector<uint64_t> v; size_t n; static const size_t G = 24;
    explicit OutBuf(size_t n_) : v(n_ + 2*G, SENTINEL), n(n_) { for (size_t i = 0; i < G; ++i) { v[i] = 0xC0FFEE00C0FFEE00ull + i; v[G + n + i] = 0xBEEF0000BEEF0000ull + i; } }
    double* d() { return (double*) &v[G]; }
    double operator[](size_t i) const { double x; memcpy(&x, &v[G + i], 8); return x; }
    uint64_t bits(size_t i) const { return v[G + i]; }
    bool intact() const { for (size_t i = 0; i < G; ++i) if (v[i] != 0xC0FFEE00C0FFEE00ull + i || v[G + n + i] != 0xBEEF0000BEEF0000ull + i) return false; return true; }
};

// ------------------------------------------------------------------ state of a handle, as the caller knows it
struct Entry { int src, dst; double w; };
struct Options { // what was declared and parsed: by type (number, whole number, text, switch) and name; sure: no call failed since
    struct Opt { double n; std::string s; bool sure; };
    std::map<std::string, Opt> of[4];
};
struct Slot {
    Options opts; std::vector<const double*> handedG; std::vector<double> gridVals; int cap;
    int type; void* h; std::vector<Op> eff; bool hasSrc, hasDst, comp, tainted; int reuse;
    Grid src, dst; int srcFam, dstFam; std::vector<int> period;
    std::vector<Entry> entries; bool haveEntries; size_t cur;
    std::vector<double> lineX, lineY;
    int nitermax; double tol;
    MGrid mg; bool hasReset, done; std::vector<double> start, target; int ncalls, niter; std::vector<double> hist; bool faultySearch, targetInside, targetOdd, startOut;
    std::vector<double> poly; bool found; bool insidePoly;
    std::vector<double> q1, q2, line; bool hasQuad, hasLine;
    int nrow, ncol; std::vector<double> mat, rhs; bool matOk, rhsOk, solved; int solveRet;
    std::vector<InBuf*> kept, keptQuad, keptLine;
    int kind; std::vector<int> lo, ext; std::vector<const double*> handedD; std::vector<const int*> handedI;
    Slot() : cap(0), type(0), h(0), hasSrc(false), hasDst(false), comp(false), tainted(false), reuse(0), srcFam(0), dstFam(0), haveEntries(false), cur(0), nitermax(0), tol(0), hasReset(false), done(true), ncalls(0), niter(0),
        faultySearch(false), targetInside(false), targetOdd(false), startOut(false), found(false), insidePoly(false), hasQuad(false), hasLine(false), nrow(0), ncol(0), matOk(false), rhsOk(false), solved(false), solveRet(0), kind(0) {}
    void dropKept(std::vector<InBuf*>& k) { for (size_t i = 0; i < k.size(); ++i) if (k[i]) { k[i]->drop(); delete k[i]; } k.clear(); }
    ~Slot() { dropKept(kept); dropKept(keptQuad); dropKept(keptLine); }
};
typedef std::map<std::pair<int, int>, std::unique_ptr<Slot> > Slots;

struct Exec {
    const Plan& plan; const ExecOpts& opts; Frame fr; Slots slots; bool quiet; // quiet: reference execution on a fresh handle
    std::vector<double> outv; // outputs of the current operation
    int curOpId; bool opHit; // the solver failed in the current operation
    rt::Rng draw;
    Exec(const Plan& p, const ExecOpts& o) : plan(p), opts(o), fr(makeFrame(p)), quiet(false), curOpId(0), opHit(false), draw(rt::mix(p.seed, 4242)) {}
    bool is(const char* p) const { return !quiet && opts.oracles && plan.prop == p; }
    void fail(const char* prop, const char* kind, const char* fmt, ...) {
        if (plan.prop != prop) return;
        va_list ap; va_start(ap, fmt); vsnprintf(S->viol.text, sizeof S->viol.text, fmt, ap); va_end(ap);
        snprintf(S->viol.prop, sizeof S->viol.prop, "%s", prop); snprintf(S->viol.kind, sizeof S->viol.kind, "%s", kind);
        S->viol.op = curOpId; S->nviol = 1; S->status = 2;
        finish();
        _exit(0);
    }
    static void finish() { saveTrace(); S->stats = rt::stats; }
    void out(double v) { outv.push_back(v); }

    // ---------------------------------------------------------------- one call into the library
    // f returns normally, or throws std::bad_alloc when an injected allocation failure reaches the caller
    template<class F> bool call(const Op& op, bool faults, F f) {
        static const std::vector<rt::Fault> none;
        bool ok = true; std::string what;
        uint64_t ss = rt::mix(op.seed, opts.stackSalt*7919 + 13);
        rt::enter(faults ? op.faults : none, ss, op.seed);
        try { f(); }
        catch (const std::bad_alloc&) { ok = false; what = "bad_alloc"; }
        catch (const std::exception& e) { ok = false; what = "exception"; }
        catch (...) { ok = false; what = "unknown exception"; }
        rt::leave();
        S->count[K_OPS]++;
        if (!ok && rt::firedInCallKind(rt::F_ALLOC) == 0) {
            // nothing was wrong and the call failed all the same
            fail(plan.prop.c_str(), "spurious-exception", "operation %d (%s) threw %s although no fault was injected", op.id, opNames[op.code], what.c_str());
        }
        if (!ok) S->count[K_FAILED_OPS]++;
        if (rt::firedInCallKind(rt::F_SOLVER)) { S->count[K_SOLVER_HIT_OPS]++; if (!quiet) opHit = true; }
        return ok;
    }
    bool allocFired() const { return rt::firedInCallKind(rt::F_ALLOC) > 0; }
    bool solverFired() const { return rt::firedInCallKind(rt::F_SOLVER) > 0; }
    void checkInputs(const Inputs& in, const Op& op) { if (is("C12") && !in.intact()) fail("C12", "input-modified", "operation %d (%s) modified an array of its caller", op.id, opNames[op.code]); }
    void checkOut(const OutBuf& o, const Op& op) { if (quiet) return; S->count[K_GUARDS]++; if (!o.intact() && (plan.prop == "C12" || plan.prop == "C16" || plan.prop == "C14" || plan.prop == "C17")) fail(plan.prop.c_str(), "write-outside-output", "operation %d (%s) wrote outside of the output array of its caller", op.id, opNames[op.code]); }

    #include "exec_ops.inc"
};
Exec* g_exec = 0;

void runOnce(const Plan& plan, const ExecOpts& opts, bool clean, std::vector<std::unique_ptr<Exec> >& ex) {
    std::vector<std::function<void()> > bodies;
    for (int t = 0; t < plan.nthreads; ++t) {
        if (opts.onlyThread >= 0 && t != opts.onlyThread) continue;
        Exec* e = ex[(size_t) t].get();
        bodies.push_back([e, t, clean]() { e->runThread(t); if (clean) { rt::opBoundary(); e->cleanup(t); } });
    }
    static std::vector<rt::Preempt> trace; trace.clear(); trace.reserve(4096); g_trace = &trace;
    rt::runTasks(bodies, plan.sched, trace);
}
void runAll(const Plan& plan, const ExecOpts& opts) {
    std::vector<std::unique_ptr<Exec> > ex;
    for (int t = 0; t < plan.nthreads; ++t) ex.push_back(std::unique_ptr<Exec>(new Exec(plan, opts)));
    if (plan.prop != "C13") { runOnce(plan, opts, true, ex); return; }
    // the same history again and again: the library must not keep more and more
    int lifecycles = 3, reps = plan.repeat; size_t live[3][2], grow[16][2];
    for (int l = 0; l < lifecycles; ++l) {
        for (int r = 0; r < reps; ++r) {
            runOnce(plan, opts, r == reps - 1 ? false : false, ex); S->count[K_REPS]++;
            grow[r & 15][0] = rt::heapLiveBlocks(); grow[r & 15][1] = rt::heapLiveBytes();
        }
        if (reps >= 5 && l == 0) {
            bool up = true; for (int r = reps - 3; r < reps; ++r) up &= grow[r][0] > grow[r - 1][0] && grow[r][1] > grow[r - 1][1];
            if (up) ex[0]->fail("C13", "grows-with-use", "the same calls on the same handles keep more memory every time: %zu, %zu, %zu, %zu blocks", grow[reps - 4][0], grow[reps - 3][0], grow[reps - 2][0], grow[reps - 1][0]);
        }
        for (int t = 0; t < plan.nthreads; ++t) ex[(size_t) t]->cleanup(t);
        live[l][0] = rt::heapLiveBlocks(); live[l][1] = rt::heapLiveBytes();
    }
    if (live[2][0] > live[1][0] || live[2][1] > live[1][1])
        ex[0]->fail("C13", "memory-not-returned", "after all handles were deleted %zu blocks (%zu bytes) were live, after the same history again %zu blocks (%zu bytes)", live[1][0], live[1][1], live[2][0], live[2][1]);
}

// ------------------------------------------------------------------ crashes
char g_altstack[1 << 16];
void onSignal(int sig, siginfo_t* si, void*) {
    const char* a = (const char*) si->si_addr; int t = rt::currentTask(); if (t < 0) t = 0;
    int op = S->curOp[t & 7];
    const char* kind = sig == SIGSEGV ? "segmentation-fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic-fault" : sig == SIGALRM || sig == SIGPROF ? "hang" : "crash";
    if (sig == SIGSEGV && g_in.base && a >= g_in.base && a < g_in.base + g_in.size) kind = "access-to-callers-array";
    snprintf(S->viol.kind, sizeof S->viol.kind, "%s", kind);
    snprintf(S->viol.prop, sizeof S->viol.prop, "%s", g_exec ? g_exec->plan.prop.c_str() : "?");
    snprintf(S->viol.text, sizeof S->viol.text, "signal %d in operation %d (address %s)", sig, op, kind[0] == 'a' && kind[1] == 'c' ? "in an array the caller had taken back, made read-only, or behind its end" : "of no array of the caller");
    S->viol.op = op; S->nviol = 1; S->status = 3; Exec::finish();
    _exit(99);
}
void onFatal(const char* kind, const char* text) {
    int t = rt::currentTask(); if (t < 0) t = 0;
    snprintf(S->viol.kind, sizeof S->viol.kind, "%s", kind); snprintf(S->viol.text, sizeof S->viol.text, "%s (operation %d)", text, S->curOp[t & 7]);
    snprintf(S->viol.prop, sizeof S->viol.prop, "%s", g_exec ? g_exec->plan.prop.c_str() : "?");
    S->viol.op = S->curOp[t & 7]; S->nviol = 1; S->status = 3; Exec::finish();
    _exit(99);
}
} // namespace

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
namespace { void asanDeath() {
    int t = rt::currentTask(); if (t < 0) t = 0;
    const char* d = __asan_report_present() ? __asan_get_report_description() : "";
    snprintf(S->viol.kind, sizeof S->viol.kind, "asan-%s", d && *d ? d : "report"); snprintf(S->viol.text, sizeof S->viol.text, "AddressSanitizer: %s in operation %d", d, S->curOp[t & 7]);
    snprintf(S->viol.prop, sizeof S->viol.prop, "%s", g_exec ? g_exec->plan.prop.c_str() : "?");
    S->viol.op = S->curOp[t & 7]; S->nviol = 1; S->status = 3; Exec::finish();
    _exit(99);
} }
#define HAVE_ASAN 1
#endif

void execute(const Plan& plan, const ExecOpts& opts, Shm* shm) {
    S = shm; S->status = 0; S->nviol = 0; S->nthreads = plan.nthreads;
    rt::fatal = onFatal;
    stack_t st; memset(&st, 0, sizeof st); st.ss_sp = g_altstack; st.ss_size = sizeof g_altstack; sigaltstack(&st, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF};
    for (size_t i = 0; i < sizeof sigs/sizeof *sigs; ++i) sigaction(sigs[i], &sa, 0);
    alarm(600); struct itimerval tv = {{0, 0}, {150, 0}}; setitimer(ITIMER_PROF, &tv, 0); // the load of the machine must not decide
#ifdef HAVE_ASAN
    __sanitizer_set_death_callback(asanDeath);
#endif
    rt::heapInit(1ull << 32); inInit();
    rt::HeapCfg hc = opts.secondHeap ? plan.heap2 : plan.heap;
    rt::heapConfigure(hc); simSeedRand(hc.seed); g_callers.init(hc.seed);
    rt::covMap = shm->cov; rt::installStreams();
    memset(&rt::stats, 0, sizeof rt::stats);
    rt::setStepBudget(1000000000ull);
    if (opts.prelude) { // the process has a past: another history, of which nothing may be left
        ExecOpts o; o.oracles = false; std::vector<std::unique_ptr<Exec> > ex; g_exec = new Exec(*opts.prelude, o); S->count[K_PRELUDES]++;
        for (int t = 0; t < opts.prelude->nthreads; ++t) ex.push_back(std::unique_ptr<Exec>(new Exec(*opts.prelude, o)));
        runOnce(*opts.prelude, o, true, ex); S->opHash = 0;
    }
    g_exec = new Exec(plan, opts);
    runAll(plan, opts);
    shm->covSize = rt::covSize;
    Exec::finish();
    S->status = 1;
}
