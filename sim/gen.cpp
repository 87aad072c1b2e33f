// Generator of plans: one seed and one property give one plan.
#include "gen.h"
#include "geom.h"
#include <map>
using rt::Rng; using namespace geom;
namespace {
// what the generator knows about a handle it has let a thread create
struct H { int type, slot, thread; bool src, dst, comp, reset, found, quad, line, mat, rhs, solved; int kind, nrow, ncol; Op srcOp; int uses; std::map<int, Op> last;
    H() : type(0), slot(0), thread(0), src(0), dst(0), comp(0), reset(0), found(0), quad(0), line(0), mat(0), rhs(0), solved(0), kind(0), nrow(0), ncol(0), uses(0) {} };
struct Profile {
    int w[11];        // weights of the kinds of handles, 1..10
    int opsLo, opsHi, handlesLo, handlesHi, threadsLo, threadsHi;
    double faultRate; // chance that a plan has faults at all
    double pAlloc, pSolver, pStream; // chances per call in such a plan
    int maxNodes; bool tiny; double pDel, pSticky;
    bool solverFailures; // otherwise only legal rounding jitter
    Profile() : opsLo(6), opsHi(30), handlesLo(1), handlesHi(4), threadsLo(1), threadsHi(1), faultRate(.5), pAlloc(.1), pSolver(.1), pStream(.05), maxNodes(8), tiny(false), pDel(.05), pSticky(.3), solverFailures(false) { memset(w, 0, sizeof w); }
};
void only(Profile& p, int a, int b = 0, int c = 0, int d = 0) { memset(p.w, 0, sizeof p.w); p.w[a] = 10; if (b) p.w[b] = 6; if (c) p.w[c] = 4; if (d) p.w[d] = 3; }
Profile profileOf(const std::string& q, Rng& r) {
    Profile p; int all[] = {0, 8, 8, 8, 8, 6, 6, 6, 6, 5, 4};
    if (q == "C01" || q == "C02" || q == "C03") { only(p, 1); p.opsLo = 8; p.opsHi = 22; p.handlesHi = 2; p.pAlloc = .12; p.maxNodes = 9; p.pSolver = .2; }
    else if (q == "C04") { only(p, 2); p.opsLo = 8; p.opsHi = 26; p.handlesHi = 2; p.maxNodes = 10; }
    else if (q == "C05") { only(p, 3); p.opsLo = 6; p.opsHi = 20; p.handlesHi = 2; p.maxNodes = 9; }
    else if (q == "C06") { only(p, 4); p.opsLo = 10; p.opsHi = 50; p.handlesHi = 3; p.solverFailures = true; p.pSolver = .15; p.maxNodes = 10; }
    else if (q == "C07") { only(p, 4, 3); p.opsLo = 10; p.opsHi = 40; p.handlesHi = 3; p.solverFailures = true; p.pSolver = .08; p.maxNodes = 10; }
    else if (q == "C08") { only(p, 5); p.opsLo = 10; p.opsHi = 50; p.handlesHi = 3; p.maxNodes = 12; }
    else if (q == "C09") { only(p, 6); p.opsLo = 10; p.opsHi = 60; p.handlesHi = 3; }
    else if (q == "C19") { only(p, 9); p.opsLo = 10; p.opsHi = 60; p.handlesHi = 3; p.solverFailures = true; p.pSolver = .2; }
    else if (q == "C21" || q == "C25" || q == "C26" || q == "C22" || q == "C23" || q == "C24" || q == "C27") { only(p, 10); p.opsLo = 6; p.opsHi = 40; p.handlesHi = 6; p.pDel = .08; }
    else if (q == "C20") { only(p, 7, 8); p.opsLo = 10; p.opsHi = 60; p.handlesHi = 3; }
    else {
        for (int i = 1; i <= 10; ++i) p.w[i] = all[i];
        if (r.p(.5)) for (int i = 1; i <= 10; ++i) if (r.p(.6)) p.w[i] = 0; // swarm: leave some out
        bool any = false; for (int i = 1; i <= 10; ++i) any |= p.w[i] > 0;
        if (!any) p.w[r.range(1, 10)] = 5;
        p.opsLo = 8; p.opsHi = 45; p.maxNodes = 7; p.handlesHi = 5; p.solverFailures = true;
        if (q == "C10") { p.opsHi = 60; p.pDel = .03; p.pSolver = .05; p.pAlloc = .05; }
        if (q == "C11") { p.threadsLo = 2; p.threadsHi = 4; p.opsLo = 10; p.opsHi = 40; p.faultRate = .4; p.tiny = r.p(.4); p.maxNodes = 6; p.handlesLo = 2; p.handlesHi = 6; }
        if (q == "C12") { p.faultRate = .5; }
        if (q == "C13") { p.opsHi = 40; p.faultRate = .5; p.pAlloc = .15; p.maxNodes = 5; p.pDel = r.p(.5) ? .1 : 0; }
        if (q == "C14") { p.faultRate = 1; p.pAlloc = .35; p.pSolver = .03; p.pStream = .03; p.maxNodes = 5; p.threadsHi = r.p(.25) ? 2 : 1; }
        if (q == "C15") { p.faultRate = .4; }
        if (q == "C16") { p.faultRate = .6; p.maxNodes = 6; p.threadsHi = r.p(.2) ? 2 : 1; }
        if (q == "C17") { p.faultRate = 1; p.pSolver = .4; p.pAlloc = .02; p.maxNodes = 6; for (int i = 1; i <= 9; ++i) if (i != 9) p.w[i] = std::max(p.w[i], 2); p.w[10] = 0; }
    }
    return p;
}
struct Gen {
    const std::string prop; Rng r; Plan p; Profile pf; std::vector<H> hs; int nextId, nextSlot; bool faulty; int box[4]; int famMask; double pRelated; int stretch; bool hugeSrc;
    Gen(const std::string& q, uint64_t seed) : prop(q), r(rt::mix(seed, 0xABCDEF ^ q[1]*131 ^ q[2]*17)), nextId(1), nextSlot(0), faulty(false), famMask(0), pRelated(0), stretch(0), hugeSrc(false) { p.prop = q; p.seed = seed; }
    bool geomExact() const { return prop == "C01" || prop == "C02" || prop == "C08" || prop == "C09"; }
    bool comparesWithFresh() const { return prop == "C10" || prop == "C14" || prop == "C17"; } // jitter may legally change which ties are found
    void boxAround(int* a) { // x0 x1 y0 y1 in quarters of a lattice unit, related to the common box
        int k = r.range(0, 9);
        for (int d = 0; d < 2; ++d) {
            int lo = box[2*d], hi = box[2*d + 1];
            if (k < 3) { a[2*d] = lo; a[2*d + 1] = hi; }                                     // the same
            else if (k < 5) { int l = r.range(lo, hi - 1), h = r.range(l + 1, hi); a[2*d] = l; a[2*d + 1] = h; } // inside
            else if (k < 8) { int l = r.range(lo - 3, hi - 1), h = r.range(std::max(l + 1, lo + 1), hi + 3); a[2*d] = l; a[2*d + 1] = h; } // overlapping
            else if (k == 8) { a[2*d] = lo - r.range(0, 2); a[2*d + 1] = hi + r.range(0, 2); } // around
            else { int l = d == 0 ? hi + r.range(-1, 4) : lo + r.range(-2, 2); a[2*d] = l; a[2*d + 1] = l + r.range(1, 6); } // mostly elsewhere
        }
    }
    int family(bool wild) {
        for (int t = 0; t < 20; ++t) { int f = r.range(0, G_NFAM - 1); if (!(famMask & (1 << f))) continue; if (!wild && !isTame(f)) continue; return f; }
        return G_UNIFORM;
    }
    int nodes() { int m = pf.tiny ? 3 : pf.maxNodes; int n = r.range(2, m); if (r.p(.4)) n = r.range(2, std::min(4, m)); if (!pf.tiny && r.p(.02)) n = m*2; if (stretch == 1 && r.p(.6)) n = r.p(.3) ? r.range(20, 70) : r.range(8, 24); return n; }
    void gridArgs(Op& o, bool wild, const H* h) {
        o.a[0] = family(wild); o.a[1] = nodes(); o.a[2] = nodes(); boxAround(o.a + 3);
        int k = r.range(0, 9);
        if (k == 0 && isTame(o.a[0])) { static const int e[] = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}; o.a[7] = e[r.range(0, 11)]; }
        if (h && h->src && stretch != 4 && r.p(.35)) { // close to, or a refinement or coarsening of, the other grid of the handle
            memcpy(o.a, h->srcOp.a, sizeof o.a); o.a[8] = o.a[9] = 0; o.seed = h->srcOp.seed; o.a[7] = 0;
            int w = r.range(0, 3);
            if (w == 1 && (o.a[0] == G_UNIFORM || o.a[0] == G_NONUNIFORM || o.a[0] == G_ROTATED || o.a[0] == G_TRANSPOSED || o.a[0] == G_REVERSED)) o.a[7] = r.range(4, 15);
            if (w == 2 && isTame(o.a[0]) && o.a[0] != G_NONUNIFORM && o.a[0] != G_PERTURBED && o.a[0] != G_ROTPERT) { int m = r.range(2, 3); if (o.a[1] <= 5) o.a[1] = (o.a[1] - 1)*m + 1; if (o.a[2] <= 5) o.a[2] = (o.a[2] - 1)*m + 1; }
            if (w == 3 && o.a[0] == G_UNIFORM) { int s = r.range(-2, 2); o.a[3] += s; o.a[4] += s; }
        }
        if (!isTame(o.a[0])) { o.a[7] = 0; o.a[1] = std::max(o.a[1], 2); o.a[2] = std::max(o.a[2], 7); int w = std::max(o.a[4] - o.a[3], o.a[6] - o.a[5]); if (w < 2) w = 2; o.a[4] = o.a[3] + w; o.a[6] = o.a[5] + w; }
        if (stretch == 1) { // large, but not both
            int lim = h && h->src ? std::max(12, 15000/(h->srcOp.a[1]*h->srcOp.a[2])) : 700;
            while (o.a[1]*o.a[2] > lim) { int& m = o.a[1] > o.a[2] ? o.a[1] : o.a[2]; m = std::max(2, m*3/4); if (m == 2 && o.a[1]*o.a[2] > lim) break; }
            if (!isTame(o.a[0])) o.a[2] = std::max(o.a[2], 7);
        }
        if (stretch == 4) { // huge: more nodes than small integer types count, next to a grid of a few cells
            bool costly = o.code == C_SRC || o.code == C_DST || o.code == N_DST, isDst = o.code == C_DST || o.code == N_DST, big = isDst ? !hugeSrc : hugeSrc || !(o.code == C_SRC || o.code == N_SRC);
            o.a[7] = 0;
            if (big) {
                int total = r.p(.4) ? r.range(4200, 9000) : r.p(.6) ? r.range(17000, 20000) : r.range(33000, 36000); if (!costly && r.p(.4)) total = r.range(66000, 72000);
                if (o.code == F_SRC && total > 36000) total /= 2;
                int n0 = (int) sqrt((double) total), w = costly && total > 9000 ? 0 : r.range(0, 3); if (w == 1) n0 = r.range(2, 9); if (w == 2) n0 = total/r.range(2, 9); if (w == 3) n0 = (int) pow((double) total, r.uni(.2, .8));
                o.a[1] = std::max(2, n0); o.a[2] = std::max(2, total/o.a[1]);
                if (costly && (o.a[0] == G_ROTATED || !isTame(o.a[0]) || o.a[0] == G_ROTPERT)) o.a[0] = r.p(.5) ? G_PERTURBED : G_NONUNIFORM;
                int k = costly ? (total > 9000 ? 20 : 10) : o.code == F_SRC ? r.range(3, 8) : r.range(1, 8), w2 = (box[1] - box[0])*k/2, h2 = (box[3] - box[2])*k/2; // wide: most cells lie far from all else
                if (k > 1) { int cx = (o.a[3] + o.a[4])/2 + r.range(-w2, w2)/2, cy = (o.a[5] + o.a[6])/2 + r.range(-h2, h2)/2; o.a[3] = cx - w2; o.a[4] = cx + w2; o.a[5] = cy - h2; o.a[6] = cy + h2; }
            } else { o.a[1] = r.range(2, 4); o.a[2] = r.range(2, 4); }
            if (!isTame(o.a[0])) o.a[0] = G_ROTPERT;
        }
    }
    void add(Op o, H& h, bool mayFail) {
        o.id = nextId++; o.thread = h.thread; o.slot = h.slot; if (!o.seed) o.seed = r.next() >> 8;
        if (o.code != Q_SET) o.a[9] = r.p(.2) ? 1 : r.p(.4) ? 2 : 0;
        if (faulty && mayFail) {
            if (r.p(pf.pAlloc)) { rt::Fault f; f.kind = rt::F_ALLOC; f.n = (int64_t) pow(2., r.uni(0, heavy(o.code) ? 11 : 4)); f.mode = r.p(pf.pSticky) ? 1 : 0; f.count = 1; o.faults.push_back(f); }
            if (usesSolver(o.code) && r.p(pf.pSolver)) {
                rt::Fault f; f.kind = rt::F_SOLVER; f.n = (int64_t) pow(2., r.uni(0, o.code == P_NEXT || o.code == S_SOLVE || o.code == L_COMP ? 1.5 : 9)); f.count = r.p(.5) ? 1 : r.p(.5) ? r.range(1, 20) : 100000000;
                static const int m[] = {0, 1, 2, 3, 4, 5}; f.mode = pf.solverFailures ? m[r.range(0, 5)] : 4; if (f.mode == 4 && comparesWithFresh()) f.mode = r.range(0, 3); if (f.mode == 4) f.count = 100000000; o.faults.push_back(f);
            }
            if (r.p(pf.pStream)) { rt::Fault f; f.kind = rt::F_STREAM; f.n = 1 + (int64_t) r.below(3); f.mode = 0; f.count = 1; o.faults.push_back(f); }
        }
        p.ops.push_back(o); h.uses++;
    }
    static bool heavy(int c) { return c == C_COMP || c == F_COMP || c == N_COMP || c == V_FIND || c == C_SRC || c == F_SRC || c == N_SRC; }
    static bool usesSolver(int c) { return c == C_COMP || c == F_COMP || c == N_COMP || c == V_FIND || c == P_NEXT || c == Q_GET || c == I_GET || c == L_COMP || c == S_SOLVE; }
    Op op(int code) { Op o; o.code = code; return o; }
    // an input close to the last one of that kind given to the handle: what a stale result or a wrong shortcut would not notice
    void relate(H& h, Op& o) {
        int c = o.code; bool grid = c == C_SRC || c == C_DST || c == F_SRC || c == N_SRC || c == N_DST || c == P_GRID || c == V_GRID;
        bool other = c == F_DST || c == V_POLY || c == Q_SET || c == I_QUAD || c == I_LINE || c == L_QUAD || c == S_MAT || c == S_RHS;
        if (!grid && !other) return;
        if (!o.seed) o.seed = r.next() >> 8;
        std::map<int, Op>::iterator it = h.last.find(c);
        if (it != h.last.end() && r.p(pRelated)) {
            Op was = it->second; int a9 = o.a[9]; int w = r.range(0, 9);
            if (grid && w == 9 && !isTame(was.a[0])) w = 0;
            if (w <= 1 || w >= 4) { memcpy(o.a, was.a, sizeof o.a); o.seed = was.seed; }   // the same again
            else if (w <= 3) { memcpy(o.a, was.a, sizeof o.a); }                           // the same but for what is drawn
            if (c != Q_SET) o.a[9] = a9;
            if (w >= 4) {
                o.a[11] = r.range(1, 1000000);
                if (grid) {
                    bool affine = c == V_GRID && prop == "C08";
                    o.a[10] = affine ? r.range(4, 5) : r.range(1, 6); if (o.a[7]) o.a[7] = 0;
                    if (w == 9) { o.a[10] = 0; std::swap(o.a[1], o.a[2]); }            // other shape, as many nodes
                    if (w == 8) { o.a[10] = 0; o.a[r.range(1, 2)] += r.p(.5) ? 1 : -1; o.a[1] = std::max(o.a[1], 2); o.a[2] = std::max(o.a[2], isTame(o.a[0]) ? 2 : 7); }
                } else if (c == Q_SET) o.a[10] = r.range(1, 3);
                else if (c == I_QUAD || c == L_QUAD || c == I_LINE) o.a[10] = c == I_LINE ? (r.p(.5) ? 1 : 3) : 1;
                else if (c == F_DST) { if (w < 7) o.a[1] = std::max(2, o.a[1] + r.range(-1, 1)); else { int b = r.range(2, 5); o.a[b] += r.p(.5) ? 1 : -1; if (o.a[3] <= o.a[2]) o.a[3] = o.a[2] + 1; if (o.a[5] <= o.a[4]) o.a[5] = o.a[4] + 1; } }
                else if (c == V_POLY) { int b = r.range(2, 5); o.a[b] += r.p(.5) ? 1 : -1; if (o.a[3] <= o.a[2]) o.a[3] = o.a[2] + 1; if (o.a[5] <= o.a[4]) o.a[5] = o.a[4] + 1; }
                else o.seed = r.next() >> 8;
            }
        }
        h.last[c] = o;
    }
    void polyArgs(int* a) { // kind n box
        a[0] = r.range(0, 3) == 0 ? 0 : 1; a[1] = stretch == 2 && r.p(.5) ? r.range(8, 40) : r.range(3, 8); boxAround(a + 2);
        if (r.p(.5)) { int w = std::max(1, (box[1] - box[0])/4), x = r.range(box[0], box[1] - 1), y = r.range(box[2], box[3] - 1); a[2] = x; a[3] = x + r.range(1, w); a[4] = y; a[5] = y + r.range(1, w); }
    }
    void quadArgs(int* a) { a[0] = r.range(0, 4); if (r.p(.3)) a[0] = 0; boxAround(a + 1); }
    void create(int thread) {
        int sum = 0; for (int i = 1; i <= 10; ++i) sum += pf.w[i];
        int k = r.range(1, sum), t = 1; while (k > pf.w[t]) { k -= pf.w[t]; ++t; }
        H h; h.type = t; h.slot = nextSlot++; h.thread = thread; Op o;
        switch (t) {
        case 1: o = op(C_NEW); break; case 2: o = op(F_NEW); break;
        case 3: o = op(N_NEW); o.a[0] = r.p(.85) ? 100 : r.range(1, 20); o.a[1] = r.p(.6) ? 8 : r.range(3, 10); break;
        case 4: o = op(P_NEW); o.a[0] = r.p(.6) ? 100 : r.range(1, 40); o.a[1] = r.p(.6) ? 8 : r.range(2, 11); break;
        case 5: o = op(V_NEW); break; case 6: o = op(Q_NEW); break; case 7: o = op(I_NEW); break; case 8: o = op(L_NEW); break;
        case 9: o = op(S_NEW); { int m = stretch == 2 ? 16 : 6; h.nrow = r.range(1, m); h.ncol = r.p(.6) ? h.nrow : r.range(1, m); } o.a[0] = h.nrow; o.a[1] = h.ncol; break;
        default: o = op(M_NEW); h.kind = r.range(0, 9); if (prop == "C21") h.kind = 4; if (prop == "C25") h.kind = 8; if (prop == "C26") h.kind = 9; if (prop == "C22") h.kind = r.p(.7) ? 0 : 7; if (prop == "C23") h.kind = 5; if (prop == "C24") h.kind = r.range(1, 3); if (prop == "C27") h.kind = 6; o.a[0] = h.kind; if (prop > "C20" || stretch == 1 || stretch == 2) o.a[1] = r.range(0, 2);
        }
        if (prop == "C07") { o.a[0] = 100; if (o.a[1] < 4 || o.a[1] > 9) o.a[1] = 8; if (t == 4 && r.p(.3)) o.a[0] = r.range(1, 30); }
        if (prop == "C05") { if (r.p(.9)) o.a[0] = 100; if (o.a[1] > 9) o.a[1] = 8; }
        add(o, h, true); hs.push_back(h);
    }
    void del(H& h) { static const int d[] = {0, C_DEL, F_DEL, N_DEL, P_DEL, V_DEL, Q_DEL, I_DEL, L_DEL, S_DEL, M_DEL}; add(op(d[h.type]), h, false); h.type = 0; }
    void advance(H& h) {
        Op o; bool want = r.p(.7); // mostly the next useful call
        bool other = !h.src && !h.dst && !h.quad && !h.line && r.p(.12); // the other one of the two configuration calls first
        switch (h.type) {
        case 1:
            if (!other && (!h.src || (!want && r.p(.3)))) { o = op(C_SRC); gridArgs(o, true, 0); o.a[8] = r.p(.2) ? r.range(1, 3) : 0; if (!o.seed) o.seed = r.next() >> 8; h.src = true; h.srcOp = o; h.comp = false; }
            else if (!h.dst || (!want && r.p(.4))) { o = op(C_DST); gridArgs(o, true, &h); h.dst = true; h.comp = false; }
            else if (!h.comp || (!want && r.p(.3))) { o = op(C_COMP); h.comp = true; }
            else if (r.p(prop == "C03" ? .2 : .7)) o = op(C_APPLY);
            else { o = op(C_CUR); o.a[0] = r.range(1, r.p(.3) ? 200 : 20); }
            break;
        case 2:
            if (!other && (!h.src || (!want && r.p(.3)))) { o = op(F_SRC); gridArgs(o, true, 0); h.src = true; h.srcOp = o; h.comp = false; }
            else if (!h.dst || (!want && r.p(.4))) { o = op(F_DST); int b[4]; boxAround(b); o.a[0] = r.range(0, 4); o.a[1] = stretch == 2 && r.p(.5) ? r.range(8, 60) : r.range(2, stretch == 4 ? 5 : 8); memcpy(o.a + 2, b, sizeof b); h.dst = true; h.comp = false; }
            else if (!h.comp || (!want && r.p(.3))) { o = op(F_COMP); h.comp = true; }
            else { o = op(F_APPLY); o.a[0] = r.p(prop == "C04" ? .9 : .5); }
            break;
        case 3:
            if (!other && (!h.src || (!want && r.p(.3)))) { o = op(N_SRC); gridArgs(o, r.p(.5), 0); o.a[8] = r.p(.15) ? r.range(1, 3) : 0; if (!o.seed) o.seed = r.next() >> 8; h.src = true; h.srcOp = o; h.comp = false; }
            else if (!h.dst || (!want && r.p(.4))) { o = op(N_DST); gridArgs(o, true, &h); o.a[8] = 0; h.dst = true; h.comp = false; }
            else if (!h.comp || (!want && r.p(.3))) { o = op(N_COMP); h.comp = true; }
            else { o = op(N_APPLY); o.a[0] = r.range(0, 1); }
            break;
        case 4:
            if (!h.src || (!want && r.p(.15))) { o = op(P_GRID); gridArgs(o, r.p(.3), 0); int k = r.range(0, 9); if (k == 0) o.a[0] = 20; if (k == 1) o.a[0] = 30; o.a[8] = r.p(.2) ? r.range(1, 3) : 0; if (o.a[0] == 20) o.a[8] &= 1; h.src = true; h.reset = false; }
            else if (!h.reset || (!want && r.p(.25))) { o = op(P_RESET); o.a[0] = r.range(0, 3); o.a[1] = r.range(0, 3); if (r.p(.04)) o.a[0] = 4; if (r.p(.05)) o.a[1] = 4; h.reset = true; }
            else if (r.p(.85)) { o = op(P_NEXT); o.a[0] = r.p(.5) ? r.range(1, 4) : 200; o.a[1] = r.range(0, 5); if (o.a[0] == 200) { o.a[1] = r.range(0, 8); if (r.p(.6)) h.reset = false; } o.a[2] = r.p(.3); }
            else o = op(P_LOOK);
            break;
        case 5:
            if (!other && (!h.src || (!want && r.p(.2)))) { o = op(V_GRID); gridArgs(o, true, 0); if (prop == "C08" && !isParallel(o.a[0]) && r.p(.7)) { o.a[0] = G_UNIFORM; } if (isParallel(o.a[0])) o.a[7] = 0; h.src = true; h.found = false; }
            else if (!h.dst || (!want && r.p(.4))) { o = op(V_POLY); polyArgs(o.a); h.dst = true; h.found = false; }
            else if (!h.found) { o = op(V_FIND); h.found = true; }
            else { o = op(V_GET); if (r.p(.7)) h.dst = false; }
            break;
        case 6:
            if (!h.quad || (!want && r.p(.4))) { o = op(Q_SET); quadArgs(o.a); quadArgs(o.a + 5); h.quad = true; }
            else { o = op(Q_GET); if (r.p(.7)) h.quad = false; }
            break;
        case 7:
            if (!other && (!h.quad || (!want && r.p(.4)))) { o = op(I_QUAD); quadArgs(o.a); h.quad = true; }
            else if (!h.line || (!want && r.p(.4))) { o = op(I_LINE); o.a[0] = r.range(0, 2); boxAround(o.a + 1); h.line = true; }
            else { o = op(I_GET); if (r.p(.6)) h.line = false; if (r.p(.2)) h.quad = false; }
            break;
        case 8:
            if (!h.quad || (!want && r.p(.4))) { o = op(L_QUAD); quadArgs(o.a); h.quad = true; h.line = false; }
            else if (!h.line || (!want && r.p(.4))) { o = op(L_LINE); o.a[0] = r.p(.3); h.line = true; }
            else { o = op(L_COMP); if (r.p(.7)) h.line = false; if (r.p(.2)) h.quad = false; }
            break;
        case 9:
            if (!h.mat || (!want && r.p(.2))) { o = op(S_MAT); o.a[0] = r.p(.2) ? 1 : r.p(.3) ? 2 : r.p(.3) ? 3 : 0; o.a[1] = r.p(.3) ? r.range(-3, 3) : 0; h.mat = true; h.solved = false; }
            else if (!h.rhs || (!want && r.p(.2))) { o = op(S_RHS); o.a[0] = r.p(.1); o.a[1] = r.p(.2) ? r.range(-6, 6) : 0; h.rhs = true; h.solved = false; }
            else if (!h.solved) { o = op(S_SOLVE); h.solved = true; h.mat = h.rhs = false; Op q = o; add(q, h, true); o = op(S_GET); }
            else { o = op(S_GET); h.solved = false; }
            break;
        default:
            o = op(M_GET);
        }
        relate(h, o);
        if (o.code == C_SRC || o.code == F_SRC || o.code == N_SRC) h.srcOp = o;
        add(o, h, true);
    }
    Plan run() {
        pf = profileOf(prop, r); pRelated = r.p(.5) ? (prop == "C10" ? .5 : .3) : 0;
        p.nthreads = r.range(pf.threadsLo, pf.threadsHi);
        static const int exact[] = {2, 2, 2, 1, 0, 4, 5, 6}; p.scale = r.p(.6) ? 2 : exact[r.range(0, 7)];
        { int k = r.range(0, 39); if (k < 2) p.scale = 7; else if (k < 6) p.scale = 6 + k; }
        p.frame = r.range(0, 7); if (r.p(.2)) p.frame |= 8; if (r.p(.15)) p.frame |= 16; if (r.p(.3)) p.frame = 0;
        p.frameSeed = r.next() >> 8;
        p.bufMode = prop == "C12" ? (r.p(.8) ? 1 : 0) : prop == "C16" ? 0 : r.p(.1) ? 1 : 0;
        int bx = r.range(-6, 6), by = r.range(-6, 6); box[0] = bx; box[1] = bx + r.range(2, 10); box[2] = by; box[3] = by + r.range(2, 10);
        famMask = (1 << G_NFAM) - 1; if (r.p(.6)) { famMask = 0; for (int i = 0; i < G_NFAM; ++i) if (r.p(.4)) famMask |= 1 << i; famMask |= 1; }
        faulty = r.p(pf.faultRate);
        p.heap.fill = r.range(0, 4); p.heap.reuse = r.range(0, 3); p.heap.gap = r.range(0, 1); p.heap.seed = r.next() >> 8;
        p.heap2.fill = r.range(0, 4); p.heap2.reuse = r.range(0, 3); p.heap2.gap = r.range(0, 1); p.heap2.seed = r.next() >> 8;
        if (prop == "C16") { if (r.p(.7)) p.heap.reuse = 0; }
        if (prop == "C15") { if (p.heap2.fill == p.heap.fill) p.heap2.fill = (p.heap.fill + 1 + r.range(0, 3)) % 5; }
        p.sched.explicitSched = false; p.sched.seed = r.next() >> 8; { static const int mr[] = {20, 100, 400, 2000, 10000}; p.sched.meanRun = mr[r.range(0, 4)]; p.sched.biasPct = r.p(.7) ? (r.p(.5) ? 5 : 40) : 0; }
        { double pBig = prop < "C10" || prop == "C19" || prop == "C20" ? .04 : .01; double u = r.uni(0, 1); stretch = u < pBig ? 1 : u < pBig + .05 ? 2 : u < pBig + .08 ? 3 : 0; if (r.p(prop == "C01" || prop == "C02" || prop == "C03" || prop == "C05" || prop == "C07" ? .006 : prop == "C08" ? .003 : prop == "C13" ? 0 : .001)) stretch = 4; }
        if (stretch == 4) { hugeSrc = r.p(.5); p.frame &= ~3; pf.handlesLo = 1; pf.handlesHi = 2; pf.opsHi = std::min(pf.opsHi, pf.opsLo + 6); p.frame &= ~16; p.scale = r.p(.5) ? 2 : r.range(4, 6); if (p.nthreads > 1 || pf.tiny) stretch = 0; }
        if (stretch == 3) { pf.handlesHi = 16; pf.handlesLo = 8; pf.opsHi = pf.opsHi*2; if (prop == "C11" || prop == "C13") pf.opsHi /= 2; }
        int total = r.range(pf.opsLo, pf.opsHi)*(p.nthreads > 1 ? p.nthreads : 1), want = r.range(pf.handlesLo, pf.handlesHi)*(p.nthreads > 1 ? p.nthreads : 1);
        if (prop == "C13") { p.repeat = r.p(.5) ? 1 : 6; if (p.repeat > 1) pf.pDel = 0; }
        for (int k = 0; k < total; ++k) {
            int live = 0; for (size_t i = 0; i < hs.size(); ++i) live += hs[i].type != 0;
            if (live == 0 || (live < want && r.p(.35))) { create(p.nthreads > 1 && (int) hs.size() < p.nthreads ? (int) hs.size() : r.range(0, p.nthreads - 1)); continue; }
            size_t i; do i = (size_t) r.below(hs.size()); while (!hs[i].type);
            if (r.p(pf.pDel) && hs[i].uses > 2) { del(hs[i]); continue; }
            advance(hs[i]);
        }
        // let computations that were prepared come to their result
        for (size_t i = 0; i < hs.size(); ++i) { H& h = hs[i]; if (h.type >= 1 && h.type <= 3 && h.src && h.dst) { static const int c[] = {0, C_COMP, F_COMP, N_COMP}, a[] = {0, C_APPLY, F_APPLY, N_APPLY}; if (!h.comp) add(op(c[h.type]), h, true); Op o = op(a[h.type]); o.a[0] = 1; add(o, h, false); } }
        return p;
    }
};
}
Plan generate(const std::string& prop, uint64_t seed) { Gen g(prop, seed); return g.run(); }
