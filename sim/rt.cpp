#include "rt.h"
#include <new>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <iostream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <link.h>
#include <time.h>
#include <errno.h>
#include <signal.h>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
// the macros of that header do nothing in a file that is not instrumented itself, as this one must not be
#undef ASAN_POISON_MEMORY_REGION
#undef ASAN_UNPOISON_MEMORY_REGION
#define ASAN_POISON_MEMORY_REGION(a, n) __asan_poison_memory_region((a), (n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) __asan_unpoison_memory_region((a), (n))
#endif

namespace rt {
Stats stats;
void (*fatal)(const char*, const char*) = 0;
static void die(const char* kind, const char* text) { if (fatal) fatal(kind, text); fprintf(stderr, "fatal %s %s\n", kind, text); _exit(98); }

// ------------------------------------------------------------------ per task state
struct TaskState {
    int fut; int id; int64_t steps; bool done; bool started;
    int inSut;
    std::vector<Fault> faults; int64_t nAlloc, nSolve, nStream; bool allocSticky; int fired[F_NKINDS];
    uint64_t callSeed; int locksHeld;
    TaskState() : fut(0), id(-1), steps(0), done(false), started(false), inSut(0), nAlloc(0), nSolve(0), nStream(0), allocSticky(false), callSeed(0), locksHeld(0) { memset(fired, 0, sizeof fired); }
};
static TaskState g_main;
static TaskState* g_cur = &g_main; // the one that has the baton
static uint64_t g_budget = ~0ull, g_used = 0;
static int64_t g_countdown = INT64_MAX;
static bool g_sched = false;

int currentTask() { return g_cur->id; }
void setStepBudget(uint64_t n) { g_budget = n; g_used = 0; }
static inline bool inSut() { return g_cur->inSut > 0; }
struct NoSut { TaskState* t; int s; NoSut() : t(g_cur), s(g_cur->inSut) { t->inSut = 0; } ~NoSut() { t->inSut = s; } }; // the simulator's own memory

// ------------------------------------------------------------------ heap
struct Hdr { uint64_t magic; uint64_t size; Hdr* prev; Hdr* next; uint64_t task; uint64_t pad; }; // 48 bytes
static const uint64_t MAGIC_LIVE = 0x51C71D5A11A110C8ull, MAGIC_FREE = 0xF4EEF4EEF4EEF4EEull;
static const size_t RED = 32, FRESH = 200u << 20;
static char* h_base = 0; static size_t h_size = 0; static char* h_top = 0;
static HeapCfg h_cfg; static Rng h_rng(1);
static Hdr h_live; static size_t h_nlive = 0, h_bytes = 0;
static const int NCLASS = 64;
static std::vector<char*>* h_free[NCLASS];
static bool h_inited = false;
static int classOf(size_t n) { if (n <= 512) return (int)((n + 15)/16); int c = 33; size_t s = 1024; while (s < n && c < NCLASS - 1) { s *= 2; ++c; } return c; }
static size_t classSize(int c) { if (c <= 32) return (size_t) std::max(c, 1)*16; size_t s = 1024; for (int k = 33; k < c; ++k) s *= 2; return s; }
void heapInit(size_t bytes) {
    if (h_inited) return;
    void* want = (void*) 0x600000000000ull;
#ifdef SIM_ASAN
    want = (void*) 0x640000000000ull;
#endif
    void* p = mmap(want, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
    h_base = (char*) p; h_size = bytes; h_top = h_base + 4096;
    h_live.prev = h_live.next = &h_live;
    for (int i = 0; i < NCLASS; ++i) h_free[i] = new std::vector<char*>();
    h_inited = true;
}
void heapConfigure(const HeapCfg& c) { h_cfg = c; h_rng = Rng(c.seed); }
bool heapOwns(const void* p) { return h_base && (const char*) p >= h_base && (const char*) p < h_base + h_size; }
size_t heapLiveBlocks() { return h_nlive; }
size_t heapLiveBytes() { return h_bytes; }
static void fillNew(char* p, size_t n) {
    switch (h_cfg.fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = h_rng.next(); memcpy(p + i, &v, 8); } for (; i < n; ++i) p[i] = (char) h_rng.next(); break; }
    case 3: { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t r = h_rng.next(); double d = (r & 1) ? (double)(r >> 40)/65536. - 100. : 0; uint64_t v; memcpy(&v, &d, 8); if ((r & 6) == 6) v = (r >> 8) & 7; memcpy(p + i, &v, 8); } for (; i < n; ++i) p[i] = 1; break; }
    default: break; // dirty
    }
}
static void* heapAlloc(size_t n) {
    if (n > h_size/4) return 0;
    int c = classOf(n + RED);
    size_t body = classSize(c);
    char* blk = 0;
    std::vector<char*>& fl = *h_free[c];
    bool full = (size_t) (h_top - h_base) > FRESH; // the machine's own memory is not without end
    if ((h_cfg.reuse || full) && !fl.empty()) {
        size_t k = h_cfg.reuse == 1 || !h_cfg.reuse ? fl.size() - 1 : h_cfg.reuse == 2 ? 0 : (size_t) h_rng.below(fl.size());
        blk = fl[k]; fl.erase(fl.begin() + (long) k);
    } else {
        if (h_cfg.gap) h_top += 16*h_rng.below(20);
        if (h_top + sizeof(Hdr) + body + 64 > h_base + h_size) return 0;
#ifdef SIM_ASAN
        static char* poisoned = h_base; // what lies ahead is out of bounds
        while (poisoned < h_base + h_size && h_top + sizeof(Hdr) + body + (1 << 20) > poisoned) { ASAN_POISON_MEMORY_REGION(poisoned, 4 << 20); poisoned += 4 << 20; }
#endif
        blk = h_top; h_top += sizeof(Hdr) + body;
    }
    Hdr* h = (Hdr*) blk; char* p = blk + sizeof(Hdr);
#ifdef SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(blk, sizeof(Hdr) + body);
#endif
    h->magic = MAGIC_LIVE; h->size = n; h->task = (uint64_t) g_cur->id;
    h->next = h_live.next; h->prev = &h_live; 
#ifdef SIM_ASAN
    if (h->next != &h_live) ASAN_UNPOISON_MEMORY_REGION(h->next, sizeof(Hdr));
#endif
    h_live.next->prev = h; h_live.next = h;
    fillNew(p, n);
    memset(p + n, 0xA5, body - n);
#ifdef SIM_ASAN
    if (h->next != &h_live) ASAN_POISON_MEMORY_REGION(h->next, sizeof(Hdr));
    ASAN_POISON_MEMORY_REGION(p + n, body - n);
    ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
    h_nlive++; h_bytes += n; if (h_bytes > stats.maxLive) stats.maxLive = h_bytes;
    return p;
}
static bool redOk(Hdr* h) {
    char* p = (char*) h + sizeof(Hdr); size_t body = classSize(classOf(h->size + RED));
    for (size_t i = h->size; i < body; ++i) if ((unsigned char) p[i] != 0xA5) return false;
    return true;
}
static void heapFree(void* q) {
    char* p = (char*) q; Hdr* h = (Hdr*)(p - sizeof(Hdr));
#ifdef SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
    if (h->magic != MAGIC_LIVE) die("heap", h->magic == MAGIC_FREE ? "double free" : "free of a corrupted or foreign block");
    size_t body = classSize(classOf(h->size + RED));
#ifdef SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(p, body);
    if (h->next != &h_live) ASAN_UNPOISON_MEMORY_REGION(h->next, sizeof(Hdr));
    if (h->prev != &h_live) ASAN_UNPOISON_MEMORY_REGION(h->prev, sizeof(Hdr));
#endif
    if (!redOk(h)) die("heap", "write beyond the end of a block");
    Hdr *nx = h->next, *pv = h->prev;
    nx->prev = pv; pv->next = nx;
    h->magic = MAGIC_FREE; h_nlive--; h_bytes -= h->size;
    if (h_cfg.fill != 4) {
        if (h_cfg.fill == 3) fillNew(p, h->size);
        else memset(p, h_cfg.fill == 1 ? 0xff : 0xDD, h->size);
    }
    { NoSut ns; h_free[classOf(h->size + RED)]->push_back((char*) h); }
#ifdef SIM_ASAN
    if (nx != &h_live) ASAN_POISON_MEMORY_REGION(nx, sizeof(Hdr));
    if (pv != &h_live) ASAN_POISON_MEMORY_REGION(pv, sizeof(Hdr));
    ASAN_POISON_MEMORY_REGION(p, body);
    ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
}
bool heapCheck(std::string& what) {
#ifdef SIM_ASAN
    (void) what; return true;
#else
    size_t n = 0;
    for (Hdr* h = h_live.next; h != &h_live; h = h->next) {
        if (h->magic != MAGIC_LIVE) { what = "corrupted block header"; return false; }
        if (!redOk(h)) { what = "write beyond the end of a live block"; return false; }
        if (++n > h_nlive) { what = "corrupted list of blocks"; return false; }
    }
    return true;
#endif
}

// ------------------------------------------------------------------ scheduling
static std::vector<TaskState*> g_tasks;
static SchedCfg g_cfg; static Rng g_srng(1);
static std::vector<Preempt>* g_trace = 0; static size_t g_listPos = 0;
static int g_mainFut = 0;
static void futexWait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void futexWake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void armCountdown() {
    if (!g_sched) { g_countdown = INT64_MAX; return; }
    if (g_cfg.explicitSched) {
        g_countdown = INT64_MAX;
        // entries of other tasks do not concern this one now
        if (g_listPos < g_cfg.list.size()) {
            const Preempt& p = g_cfg.list[g_listPos];
            if (p.task == g_cur->id && p.step > g_cur->steps) g_countdown = p.step - g_cur->steps;
        }
        return;
    }
    double u = g_srng.u(); if (u < 1e-12) u = 1e-12;
    int64_t k = (int64_t)(-log(u)*g_cfg.meanRun) + 1;
    g_countdown = k;
}
static void switchTo(TaskState* t, bool wait) {
    TaskState* me = g_cur;
    if (t == me) return;
    stats.switches++;
    stats.schedHash = mix(stats.schedHash, (uint64_t) me->steps*64 + (uint64_t) t->id);
    g_cur = t;
    futexWake(&t->fut);
    if (wait) futexWait(&me->fut);
}
static TaskState* pickOther(bool other) {
    TaskState* c[64]; int n = 0;
    for (size_t i = 0; i < g_tasks.size(); ++i) if (!g_tasks[i]->done && (!other || g_tasks[i] != g_cur)) c[n++] = g_tasks[i];
    if (!n) return 0;
    return c[g_srng.below((uint64_t) n)];
}
static void preempt(TaskState* t) {
    if (!t || t == g_cur || t->done) return;
    if (g_trace && g_trace->size() < 200000) { NoSut ns; Preempt p; p.task = g_cur->id; p.step = g_cur->steps; p.next = t->id; g_trace->push_back(p); }
    switchTo(t, true);
}
static void decide() { // the countdown of the current task reached zero
    if (g_cfg.explicitSched) {
        if (g_listPos < g_cfg.list.size()) {
            Preempt p = g_cfg.list[g_listPos];
            if (p.task == g_cur->id && p.step == g_cur->steps) {
                g_listPos++;
                if (p.next >= 0 && p.next < (int) g_tasks.size() && !g_tasks[(size_t) p.next]->done) preempt(g_tasks[(size_t) p.next]);
            }
        }
    } else preempt(pickOther(false));
    armCountdown();
}
static inline void step(int64_t k = 1) {
    TaskState* t = g_cur;
    t->steps += k; stats.steps += (uint64_t) k;
    g_used += (uint64_t) k;
    if (__builtin_expect(g_used > g_budget, 0)) { g_used = 0; g_budget = ~0ull; die("hang", "a call did not return within the step budget"); }
    if (__builtin_expect((g_countdown -= k) <= 0, 0)) { if (g_sched) decide(); else g_countdown = INT64_MAX; }
}
void opBoundary() {
    if (!g_sched) return;
    TaskState* t = g_cur; t->steps++;
    if (g_cfg.explicitSched) { if (--g_countdown <= 0) decide(); return; }
    if (g_srng.p(0.5)) { preempt(pickOther(false)); armCountdown(); }
}
// a shared location is about to be touched
static inline void sharedAccess() {
    if (!g_sched) return;
    TaskState* t = g_cur; t->steps++; g_used++;
    if (g_cfg.explicitSched) { if (--g_countdown <= 0) decide(); return; }
    if (g_cfg.biasPct && (int) g_srng.below(100) < g_cfg.biasPct) { preempt(pickOther(true)); armCountdown(); }
}
// must let somebody else run (a lock is taken)
static void blockYield() {
    if (!g_sched) die("deadlock", "blocked on a lock that nobody can release");
    g_used += 50;
    if (g_used > g_budget) { g_used = 0; g_budget = ~0ull; die("hang", "blocked on a lock for ever"); }
    size_t n = g_tasks.size();
    for (size_t k = 1; k <= n; ++k) { TaskState* t = g_tasks[((size_t) g_cur->id + k) % n]; if (!t->done && t != g_cur) { switchTo(t, true); armCountdown(); return; } }
    die("deadlock", "blocked on a lock that nobody can release");
}
// every task has a stack of its own, at the same place in every execution
static void ownStack(pthread_attr_t* at, int k) {
    static char* st[64]; size_t size = 1 << 20;
    if (!st[k]) {
        void* want = (void*)(0x6a0000000000ull + (uint64_t) k*(1ull << 28));
        void* p = mmap(want, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) { pthread_attr_setstacksize(at, size); return; }
        st[k] = (char*) p;
    }
    pthread_attr_setstack(at, st[k], size);
}
#ifdef SIM_ASAN
static void threadSignals() {} // the sanitizer sets up its own
#else
static void threadSignals() { static __thread char alt[1 << 15]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, 0); }
#endif
static void* soloMain(void* b) { threadSignals(); (*(const std::function<void()>*) b)(); return 0; }
struct ThreadArg { TaskState* t; const std::function<void()>* body; };
static void* threadMain(void* a) {
    ThreadArg* ta = (ThreadArg*) a; TaskState* t = ta->t;
    threadSignals();
    futexWait(&t->fut);
    armCountdown();
    (*ta->body)();
    t->done = true;
    // hand over
    TaskState* n = 0;
    if (g_cfg.explicitSched) {
        if (g_listPos < g_cfg.list.size() && g_cfg.list[g_listPos].task == t->id && g_cfg.list[g_listPos].step == -1) {
            int k = g_cfg.list[g_listPos++].next; if (k >= 0 && k < (int) g_tasks.size() && !g_tasks[(size_t) k]->done) n = g_tasks[(size_t) k];
        }
        if (!n) for (size_t i = 0; i < g_tasks.size() && !n; ++i) if (!g_tasks[i]->done) n = g_tasks[i];
    } else n = pickOther(true);
    if (n) {
        if (g_trace) { Preempt p; p.task = t->id; p.step = -1; p.next = n->id; g_trace->push_back(p); }
        switchTo(n, false);
    } else { g_cur = &g_main; g_sched = false; futexWake(&g_mainFut); }
    return 0;
}
void runTasks(const std::vector<std::function<void()> >& bodies, const SchedCfg& cfg, std::vector<Preempt>& trace) {
    g_cfg = cfg; g_srng = Rng(cfg.seed); g_trace = &trace; g_listPos = 0; g_tasks.clear();
    if (bodies.size() == 1) { // no turns to take
        g_sched = false; g_countdown = INT64_MAX;
        g_main.id = 0;
        pthread_t t; pthread_attr_t at; pthread_attr_init(&at); ownStack(&at, 0);
        if (pthread_create(&t, &at, soloMain, (void*) &bodies[0])) { perror("pthread_create"); _exit(97); }
        pthread_join(t, 0); pthread_attr_destroy(&at);
        g_main.id = -1;
        return;
    }
    std::vector<ThreadArg> args(bodies.size()); std::vector<pthread_t> th(bodies.size());
    for (size_t i = 0; i < bodies.size(); ++i) { TaskState* t = new TaskState(); t->id = (int) i; g_tasks.push_back(t); }
    cpu_set_t old, one; bool pinned = false;
    if (sched_getaffinity(0, sizeof old, &old) == 0) {
        CPU_ZERO(&one); int c = sched_getcpu(); if (c >= 0) { CPU_SET(c, &one); pinned = sched_setaffinity(0, sizeof one, &one) == 0; }
    }
    pthread_attr_t at; pthread_attr_init(&at);
    for (size_t i = 0; i < bodies.size(); ++i) {
        args[i].t = g_tasks[i]; args[i].body = &bodies[i]; ownStack(&at, (int) i);
        if (pthread_create(&th[i], &at, threadMain, &args[i])) { perror("pthread_create"); _exit(97); }
    }
    pthread_attr_destroy(&at);
    g_sched = true;
    TaskState* first = g_tasks[0];
    if (!cfg.explicitSched) first = g_tasks[g_srng.below(g_tasks.size())];
    else if (!cfg.list.empty() && cfg.list[0].task >= 0 && cfg.list[0].task < (int) g_tasks.size()) first = g_tasks[(size_t) cfg.list[0].task];
    g_cur = first;
    futexWake(&first->fut);
    futexWait(&g_mainFut);
    for (size_t i = 0; i < th.size(); ++i) pthread_join(th[i], 0);
    g_countdown = INT64_MAX;
    if (pinned) sched_setaffinity(0, sizeof old, &old);
}

// ------------------------------------------------------------------ calls
static __attribute__((noinline)) void dirtyStack(uint64_t seed) {
    volatile uint64_t buf[3000];
    Rng r(seed); unsigned m = (unsigned)(seed & 3);
    for (int i = 0; i < 3000; ++i) {
        uint64_t v = 0;
        if (m == 1) v = ~0ull; else if (m == 2) v = r.next(); else if (m == 3) { double d = r.uni(-10, 10); memcpy(&v, &d, 8); }
        buf[i] = v;
    }
    __asm__ volatile("" ::: "memory");
}
void enter(const std::vector<Fault>& f, uint64_t stackSeed, uint64_t faultSeed) {
    TaskState* t = g_cur;
    t->faults = f; t->nAlloc = t->nSolve = t->nStream = 0; t->allocSticky = false; memset(t->fired, 0, sizeof t->fired);
    t->callSeed = faultSeed;
    g_used = 0;
    dirtyStack(stackSeed);
    t->inSut = 1;
}
void leave() { TaskState* t = g_cur; t->inSut = 0; t->faults.clear(); t->allocSticky = false; std::cerr.clear(); std::cout.clear(); }
int firedInCall() { int s = 0; for (int k = 0; k < F_NKINDS; ++k) s += g_cur->fired[k]; return s; }
int firedInCallKind(int k) { return g_cur->fired[k]; }

static bool allocFails() {
    TaskState* t = g_cur; t->nAlloc++; stats.allocs++;
    if (t->allocSticky) { t->fired[F_ALLOC]++; return true; }
    for (size_t i = 0; i < t->faults.size(); ++i) if (t->faults[i].kind == F_ALLOC && t->faults[i].n == t->nAlloc) {
        stats.fired[t->faults[i].mode ? 1 : 0]++; t->fired[F_ALLOC]++;
        if (t->faults[i].mode) t->allocSticky = true;
        return true;
    }
    return false;
}
static void* simAlloc(size_t n) {
    step();
    if (allocFails()) return 0;
    return heapAlloc(n ? n : 1);
}

// ------------------------------------------------------------------ streams
struct SinkBuf : std::streambuf {
    int put(std::streamsize n) {
        if (g_cur->inSut) {
            stats.streamWrites++; step();
            TaskState* t = g_cur; t->nStream++;
            for (size_t i = 0; i < t->faults.size(); ++i) if (t->faults[i].kind == F_STREAM && t->nStream >= t->faults[i].n) { t->fired[F_STREAM]++; stats.fired[2]++; return 0; }
        }
        return (int) n;
    }
    int overflow(int c) { return put(1) ? (c == EOF ? 0 : c) : EOF; }
    std::streamsize xsputn(const char*, std::streamsize n) { return put(n) ? n : 0; }
};
void installStreams() { static SinkBuf* b = new SinkBuf(); std::cerr.rdbuf(b); std::cout.rdbuf(b); std::clog.rdbuf(b); }

// ------------------------------------------------------------------ coverage and shared data
uint8_t* covMap = 0; uint32_t covSize = 0;
static char *d_lo = 0, *d_hi = 0; // writable data of the code under test
static int findData(struct dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libsut")) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
        char* a = (char*) i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; char* b = a + i->dlpi_phdr[k].p_memsz;
        if (!d_lo || a < d_lo) d_lo = a;
        if (b > d_hi) d_hi = b;
    }
    return 0;
}
} // namespace rt

using namespace rt;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; ++x) *x = ++n;
    rt::covSize = n + 1;
    static uint8_t early[1 << 17];
    if (!rt::covMap) rt::covMap = early;
    dl_iterate_phdr(rt::findData, 0);
}
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
    if (!rt::g_cur->inSut) return;
    rt::covMap[*guard & 0x1ffff] = 1;
    rt::step();
}
#define COVACC(n) \
void __sanitizer_cov_load##n(void* a) { if ((char*) a >= rt::d_lo && (char*) a < rt::d_hi && rt::g_cur->inSut) rt::sharedAccess(); } \
void __sanitizer_cov_store##n(void* a) { if ((char*) a >= rt::d_lo && (char*) a < rt::d_hi && rt::g_cur->inSut) rt::sharedAccess(); }
COVACC(1) COVACC(2) COVACC(4) COVACC(8) COVACC(16)

// ---- the solver
typedef void (*dgels_t)(char*, int*, int*, int*, double*, int*, double*, int*, double*, int*, int*, size_t);
static dgels_t realDgels() {
    static dgels_t f = 0;
    if (!f) {
        void* h = dlopen("liblapack.so.3", RTLD_NOW | RTLD_GLOBAL);
        if (!h) h = dlopen("liblapack.so", RTLD_NOW | RTLD_GLOBAL);
        if (h) f = (dgels_t) dlsym(h, "dgels_");
        if (!f) { fprintf(stderr, "no dgels_: %s\n", dlerror()); _exit(97); }
    }
    return f;
}
void simPrepareSolver() { realDgels(); }
// one call that goes on and on with a solver that fails and fails does not come to its end
static void solverHang(TaskState* t) { if (t->fired[F_SOLVER] > 1000000) { t->fired[F_SOLVER] = 0; die("hang", "a call goes on for ever while the linear solver fails"); } }
void dgels_(char* trans, int* m, int* n, int* nrhs, double* a, int* lda, double* b, int* ldb, double* work, int* lwork, int* info) {
    TaskState* t = g_cur;
    if (!t->inSut) { realDgels()(trans, m, n, nrhs, a, lda, b, ldb, work, lwork, info, 1); return; }
    step();
    t->nSolve++; stats.solves++;
    const Fault* f = 0;
    for (size_t i = 0; i < t->faults.size(); ++i)
        if (t->faults[i].kind == F_SOLVER && t->nSolve >= t->faults[i].n && t->nSolve < t->faults[i].n + t->faults[i].count) f = &t->faults[i];
    int nb = *ldb;
    if (f && f->mode == 3) { // an error before anything was done
        *info = -4; t->fired[F_SOLVER]++; stats.fired[SOLVER_STATS + 3]++; solverHang(t); step(); return;
    }
    t->inSut = 0;
    realDgels()(trans, m, n, nrhs, a, lda, b, ldb, work, lwork, info, 1);
    t->inSut = 1;
    if (f) {
        uint64_t s = t->callSeed ^ (uint64_t) t->nSolve*77; Rng r(s);
        stats.fired[SOLVER_STATS + f->mode]++;
        switch (f->mode) {
        case 0: for (int i = 0; i < nb; ++i) b[i] = r.uni(-3, 3); *info = 1; break;
        case 1: for (int i = 0; i < nb; ++i) b[i] = std::numeric_limits<double>::quiet_NaN(); *info = 1; break;
        case 2: for (int i = 0; i < nb; ++i) b[i] = r.p(.5) ? 1e300 : -1e300; *info = 1; break;
        case 4: for (int i = 0; i < nb; ++i) b[i] *= 1 + r.range(-2, 2)*2.2204460492503131e-16; break;
        case 5: *info = 1; break;
        }
        if (f->mode != 4) { t->fired[F_SOLVER]++; solverHang(t); }
    }
    step();
}

// ---- malloc and friends, only as referred to by the code under test (ld --wrap)
void* __wrap_malloc(size_t n) { if (inSut()) return simAlloc(n); return malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!inSut()) return calloc(a, b); void* p = simAlloc(a*b); if (p) memset(p, 0, a*b); return p; }
void __wrap_free(void* p) { if (heapOwns(p)) { if (inSut()) step(); heapFree(p); } else free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!heapOwns(p)) return realloc(p, n);
    Hdr* h = (Hdr*)((char*) p - sizeof(Hdr));
#ifdef SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
    size_t old = h->size;
#ifdef SIM_ASAN
    ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
    void* q = simAlloc(n); if (!q) return 0; memcpy(q, p, old < n ? old : n); heapFree(p); return q;
}
// ---- locks: a blocked task gives its turn to another one
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) { if (inSut()) step(); return r; } blockYield(); } }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); if (inSut()) step(); return r; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) { if (inSut()) step(); return r; } blockYield(); } }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) { if (inSut()) step(); return r; } blockYield(); } }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { // 0 new, 1 running, 2 done
    volatile int* s = (volatile int*) o;
    while (*s == 1) blockYield();
    if (*s == 0) { *s = 1; f(); *s = 2; }
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
    volatile uint8_t* b = (volatile uint8_t*) g;
    while (b[1]) blockYield();
    if (b[0]) return 0;
    b[1] = 1; return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*) g; b[0] = 1; b[1] = 0; }
void __wrap___cxa_guard_abort(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*) g; b[1] = 0; }
// ---- clocks and random numbers: simulated time is the step counter
static uint64_t simNow() { return 1000000000ull*1700000000ull + stats.steps*100 + mix(h_cfg.seed, 5) % 1000000000ull; }
time_t __wrap_time(time_t* t) { time_t v = (time_t)(simNow()/1000000000ull + (h_cfg.seed % 1000)*86400); if (t) *t = v; return v; }
clock_t __wrap_clock(void) { return (clock_t)(simNow()/1000 % 100000000ull); }
int __wrap_clock_gettime(clockid_t, struct timespec* ts) { uint64_t n = simNow(); ts->tv_sec = (time_t)(n/1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { uint64_t n = simNow(); tv->tv_sec = (time_t)(n/1000000000ull); tv->tv_usec = (long)(n % 1000000000ull/1000); return 0; }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return (int64_t) simNow(); }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return (int64_t) simNow(); }
static Rng g_rand(7);
void simSeedRand(uint64_t s) { g_rand = Rng(s); }
int __wrap_rand(void) { return (int)(g_rand.next() & 0x7fffffff); }
long __wrap_random(void) { return (long)(g_rand.next() & 0x7fffffff); }
double __wrap_drand48(void) { return g_rand.u(); }
void __wrap_srand(unsigned s) { (void) s; }
void __wrap_srandom(unsigned s) { (void) s; }
} // extern "C"

// ---- operator new and delete
void* operator new(size_t n) {
    if (inSut()) { void* p = simAlloc(n); if (!p) throw std::bad_alloc(); return p; }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (inSut()) return simAlloc(n); return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { if (!p) return; if (heapOwns(p)) { if (inSut()) step(); heapFree(p); } else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
