// Command line of the simulator.
//   sim batch PROP SEED FROM TO OUTFILE   simulated runs FROM..TO-1 of this seed; a summary goes to OUTFILE
//   sim gen PROP SEED INDEX               prints the plan of one run
//   sim replay FILE [TRACEFILE]           runs a plan; exit 1 if it violates its property
#include "exec.h"
#include "gen.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <errno.h>
extern "C" void simPrepareSolver();

static Shm* g_shm = 0;
static void* g_shmBase = 0;
struct Outcome { int status; Viol v; uint64_t hash; bool infra; Outcome() : status(0), hash(0), infra(false) { memset(&v, 0, sizeof v); } };

static void runChild(const Plan& p, const ExecOpts& o) { // one execution in a process of its own
    size_t head = offsetof(Shm, out); memset((void*) g_shm, 0, head);
    for (int tries = 0; ; ++tries) {
        pid_t pid = fork();
        if (pid < 0) { if (tries < 50) { usleep(20000); continue; } perror("fork"); _exit(97); }
        if (pid == 0) { execute(p, o, g_shm); _exit(0); }
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (g_shm->status == 0) {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && tries < 2) { memset((void*) g_shm, 0, head); continue; } // the memory guard; try again
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(stderr, "simulator error\n"); _exit(97); }
            g_shm->status = 3; g_shm->nviol = 1; g_shm->viol.op = g_shm->curOp[0]; snprintf(g_shm->viol.prop, sizeof g_shm->viol.prop, "%s", p.prop.c_str()); snprintf(g_shm->viol.kind, sizeof g_shm->viol.kind, "died");
            snprintf(g_shm->viol.text, sizeof g_shm->viol.text, "the process ended in operation %d (wait status %d)", g_shm->curOp[0], st);
        }
        return;
    }
}
struct Acc { uint64_t count[NCOUNT]; rt::Stats st; std::vector<uint8_t> cov; uint32_t covSize; uint64_t runs, execs, traces, maxSteps; std::vector<uint64_t> hashes; Acc() : cov(1 << 17, 0), covSize(0), runs(0), execs(0), traces(0), maxSteps(0) { memset(count, 0, sizeof count); memset(&st, 0, sizeof st); } };
static void accumulate(Acc* a) {
    if (!a) return;
    a->execs++; a->maxSteps = std::max(a->maxSteps, (uint64_t) g_shm->stats.steps);
    for (int i = 0; i < NCOUNT; ++i) a->count[i] += g_shm->count[i];
    a->st.allocs += g_shm->stats.allocs; a->st.solves += g_shm->stats.solves; a->st.streamWrites += g_shm->stats.streamWrites; a->st.steps += g_shm->stats.steps; a->st.switches += g_shm->stats.switches;
    if (g_shm->stats.maxLive > a->st.maxLive) a->st.maxLive = g_shm->stats.maxLive;
    for (int i = 0; i < rt::NFAULTSTATS; ++i) a->st.fired[i] += g_shm->stats.fired[i];
    if (g_shm->covSize > a->covSize) a->covSize = g_shm->covSize;
    uint64_t* c = (uint64_t*) g_shm->cov; uint64_t* d = (uint64_t*) &a->cov[0]; size_t n = (g_shm->covSize + 8)/8; for (size_t i = 0; i < n; ++i) d[i] |= c[i];
}
typedef std::map<int, std::vector<std::pair<int, uint64_t> > > Outs;
static Outs collect() { Outs m; for (int i = 0; i < g_shm->nout; ++i) m[g_shm->out[i].op].push_back(std::make_pair(g_shm->out[i].seq, g_shm->out[i].bits)); return m; }
static uint64_t stateHash() { uint64_t h = rt::mix(g_shm->opHash, g_shm->stats.schedHash); return rt::mix(h, g_shm->stats.steps); }
static bool same(const Outs& a, const Outs& b, bool subset, std::string& what) {
    for (Outs::const_iterator it = b.begin(); it != b.end(); ++it) {
        Outs::const_iterator o = a.find(it->first); char t[300];
        if (o == a.end()) { snprintf(t, sizeof t, "operation %d delivered no result", it->first); what = t; return false; }
        if (o->second.size() != it->second.size()) { snprintf(t, sizeof t, "operation %d delivered %zu values instead of %zu", it->first, o->second.size(), it->second.size()); what = t; return false; }
        for (size_t i = 0; i < it->second.size(); ++i) if (o->second[i].second != it->second[i].second) {
            double x, y; memcpy(&x, &o->second[i].second, 8); memcpy(&y, &it->second[i].second, 8);
            snprintf(t, sizeof t, "operation %d: value %zu is %.17g instead of %.17g", it->first, i, x, y); what = t; return false;
        }
    }
    if (!subset && a.size() != b.size()) { what = "different numbers of results"; return false; }
    return true;
}
static Outcome runPlan(const Plan& p, Acc* acc, std::vector<rt::Preempt>* trace) {
    Outcome r; ExecOpts o; o.record = p.prop == "C11" || p.prop == "C15";
    runChild(p, o); accumulate(acc);
    r.hash = stateHash();
    if (trace) { trace->clear(); for (int i = 0; i < g_shm->ntrace; ++i) trace->push_back(g_shm->trace[i]); }
    if (g_shm->nviol) { r.status = 1; r.v = g_shm->viol; return r; }
    if (p.prop == "C11" && p.nthreads > 1) {
        Outs all = collect(); bool over = g_shm->outOverflow;
        for (int t = 0; t < p.nthreads; ++t) {
            ExecOpts s = o; s.onlyThread = t; runChild(p, s); accumulate(acc); r.hash = rt::mix(r.hash, g_shm->opHash);
            if (g_shm->nviol) { r.status = 1; r.v = g_shm->viol; return r; }
            std::string what;
            if (!over && !g_shm->outOverflow && !same(all, collect(), true, what)) { r.status = 1; snprintf(r.v.prop, sizeof r.v.prop, "C11"); snprintf(r.v.kind, sizeof r.v.kind, "depends-on-other-threads"); snprintf(r.v.text, sizeof r.v.text, "together with the other threads, compared to thread %d alone: %s", t, what.c_str()); return r; }
        }
    }
    if (g_shm->effOp) { // one of the results again, in a process in which nothing else ever happened
        int target = g_shm->effOp; std::vector<double> a, b; for (int i = 0; i < g_shm->nout; ++i) { double d; memcpy(&d, &g_shm->out[i].bits, 8); a.push_back(d); }
        Plan q = p; q.ops.clear();
        for (int i = 0; i < g_shm->effN; ++i) for (size_t k = 0; k < p.ops.size(); ++k) if (p.ops[k].id == g_shm->effIds[i]) { q.ops.push_back(p.ops[k]); q.ops.back().faults.clear(); break; }
        ExecOpts s = o; s.record = true; s.oracles = false; runChild(q, s); g_shm->count[K_PRISTINE]++; accumulate(acc); r.hash = rt::mix(r.hash, g_shm->opHash);
        if (g_shm->nviol) { r.status = 1; r.v = g_shm->viol; return r; }
        double big = 0; for (int i = 0; i < g_shm->nout; ++i) if (g_shm->out[i].op == target) { double d; memcpy(&d, &g_shm->out[i].bits, 8); b.push_back(d); if (std::isfinite(d)) big = std::max(big, fabs(d)); }
        size_t at = 0; while (at < a.size() && at < b.size() && (a[at] == b[at] || (std::isnan(a[at]) && std::isnan(b[at])) || fabs(a[at] - b[at]) <= 1e-10*big)) ++at;
        if (!g_shm->outOverflow && (a.size() != b.size() || at < a.size())) {
            r.status = 1; r.v.op = target; snprintf(r.v.prop, sizeof r.v.prop, "%s", p.prop.c_str()); snprintf(r.v.kind, sizeof r.v.kind, "differs-from-new-process");
            snprintf(r.v.text, sizeof r.v.text, "operation %d delivered %zu values, the calls in effect for it deliver %zu in a process that made no other calls; value %zu is %.15g there instead of %.15g", target, a.size(), b.size(), at, at < b.size() ? b[at] : NAN, at < a.size() ? a[at] : NAN);
            return r;
        }
    }
    if (p.prop == "C15") {
        Outs a = collect(); bool over = g_shm->outOverflow; ExecOpts s = o; s.secondHeap = true; s.stackSalt = 1;
        Plan past; if (p.seed % 3 == 0) { past = generate(p.prop, rt::mix(p.seed, 31) >> 8); past.scale = p.scale; past.frame = p.frame; past.frameSeed = p.frameSeed; s.prelude = &past; } // in a process that has done something else before
        else if (p.seed % 3 == 1) s.prelude = &p;
        runChild(p, s); accumulate(acc); r.hash = rt::mix(r.hash, g_shm->opHash);
        if (g_shm->nviol) { r.status = 1; r.v = g_shm->viol; return r; }
        std::string what;
        if (!over && !g_shm->outOverflow && !same(collect(), a, false, what)) { r.status = 1; snprintf(r.v.prop, sizeof r.v.prop, "C15"); snprintf(r.v.kind, sizeof r.v.kind, "depends-on-environment"); snprintf(r.v.text, sizeof r.v.text, "same calls, other contents and layout of fresh memory: %s", what.c_str()); return r; }
    }
    return r;
}
static std::string clean(const char* s) { std::string r; for (; *s; ++s) r += *s == '\n' || *s == '\t' ? ' ' : *s; return r; }
int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) { // same addresses in every run where the system lets us
        setenv("SIM_NOASLR", "1", 1);
        int old = personality(0xffffffff);
        if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality((unsigned long) old | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "gen" && argc >= 5) { printf("%s", generate(argv[2], rt::mix(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)) >> 8).text().c_str()); return 0; }
    g_shmBase = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (g_shmBase == MAP_FAILED) { perror("mmap"); return 97; }
    g_shm = (Shm*) g_shmBase;
    simPrepareSolver();
    if (mode == "replay" && argc >= 3) {
        std::ifstream f(argv[2]); Plan p; if (!f || !p.parse(f)) { fprintf(stderr, "cannot read plan %s\n", argv[2]); return 2; }
        std::vector<rt::Preempt> tr; Outcome r = runPlan(p, 0, argc > 3 ? &tr : 0);
        if (argc > 3) { Plan q = p; q.sched.explicitSched = true; q.sched.list = tr; std::ofstream o(argv[3]); o << q.text(); }
        printf("RESULT\t%d\t%s\t%d\t%s\t%016llx\n", r.status, r.v.kind, r.v.op, clean(r.v.text).c_str(), (unsigned long long) r.hash);
        return r.status ? 1 : 0;
    }
    if (mode == "batch" && argc >= 7) {
        std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); long from = atol(argv[4]), to = atol(argv[5]); FILE* out = fopen(argv[6], "w"); if (!out) { perror(argv[6]); return 2; }
        Acc acc; int nv = 0; uint64_t nOps = 0, nFaults = 0, nThreads = 0; int repeatEvery = getenv("SIM_REPEAT") ? atoi(getenv("SIM_REPEAT")) : 97; uint64_t repeated = 0; int maxViol = getenv("SIM_MAXVIOL") ? atoi(getenv("SIM_MAXVIOL")) : 3;
        long i = from;
        for (; i < to && nv < maxViol; ++i) {
            Plan p = generate(prop, rt::mix(seed, (uint64_t) i) >> 8);
            Outcome r = runPlan(p, &acc, 0); acc.runs++; nOps += p.ops.size(); nThreads += (uint64_t) p.nthreads; for (size_t k = 0; k < p.ops.size(); ++k) nFaults += p.ops[k].faults.size();
            acc.hashes.push_back(r.hash);
            if (r.status) { nv++; fprintf(out, "VIOL\t%ld\t%s\t%d\t%s\n", i, r.v.kind, r.v.op, clean(r.v.text).c_str()); fflush(out); }
            if (repeatEvery && i % repeatEvery == 0) { Outcome q = runPlan(p, 0, 0); repeated++; if (q.hash != r.hash || q.status != r.status || strcmp(q.v.text, r.v.text)) { fprintf(out, "NONDET\t%ld\t%016llx\t%016llx\n", i, (unsigned long long) r.hash, (unsigned long long) q.hash); } }
        }
        fprintf(out, "RUNS\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\n", (unsigned long long) acc.runs, (unsigned long long) acc.execs, (unsigned long long) nOps, (unsigned long long) nFaults, (unsigned long long) nThreads, (unsigned long long) repeated);
        fprintf(out, "STATS\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\n", (unsigned long long) acc.st.allocs, (unsigned long long) acc.st.solves, (unsigned long long) acc.st.streamWrites, (unsigned long long) acc.st.steps, (unsigned long long) acc.st.switches, (unsigned long long) acc.st.maxLive);
        fprintf(out, "MAXSTEPS\t%llu\n", (unsigned long long) acc.maxSteps); fprintf(out, "FIRED"); for (int k = 0; k < rt::NFAULTSTATS; ++k) fprintf(out, "\t%llu", (unsigned long long) acc.st.fired[k]);
        fprintf(out, "\n");
        for (int k = 0; k < K_END - 1; ++k) fprintf(out, "COUNT\t%s\t%llu\n", counterNames[k], (unsigned long long) acc.count[k]);
        fprintf(out, "COV\t%u\t", acc.covSize); for (uint32_t k = 0; k < acc.covSize; ++k) fputc(acc.cov[k] ? '1' : '0', out);
        fprintf(out, "\nHASHES"); for (size_t k = 0; k < acc.hashes.size(); ++k) fprintf(out, "\t%016llx", (unsigned long long) acc.hashes[k]);
        fprintf(out, "\nEND\n"); fclose(out);
        return 0;
    }
    fprintf(stderr, "usage: sim batch PROP SEED FROM TO OUT | sim gen PROP SEED INDEX | sim replay FILE [TRACE]\n");
    return 2;
}
