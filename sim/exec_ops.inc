// ---- helpers shared by the operations
static bool clipSeg(const std::vector<P>& q0, P a, P b, Real& t0, Real& t1, const Real* slack = 0) { // part of a-b in a convex quad, whose edges may be moved outward by a little
    const std::vector<P>& q = q0; Real sgn = model::polyArea(q) < 0 ? -1 : 1;
    t0 = 0; t1 = 1;
    for (int e = 0; e < 4; ++e) {
        P c = q[(size_t) e], d = q[(size_t)(e + 1)%4];
        if (c.x == d.x && c.y == d.y) continue;
        Real sa = sgn*model::cross(c, d, a), sb = sgn*model::cross(c, d, b);
        if (slack) { Real w = slack[e]*hypotl(d.x - c.x, d.y - c.y); sa += w; sb += w; }
        if (sa < 0 && sb < 0) return false;
        if (sa >= 0 && sb >= 0) continue;
        Real t = sa/(sa - sb);
        if (sa < 0) t0 = std::max(t0, t); else t1 = std::min(t1, t);
    }
    return t1 > t0;
}
static Real perimeter(const std::vector<P>& q) { Real s = 0; for (size_t i = 0; i < q.size(); ++i) { P a = q[i], b = q[(i + 1)%q.size()]; s += hypotl(b.x - a.x, b.y - a.y); } return s; }
static void bbox(const std::vector<P>& q, Real* b) { b[0] = b[2] = 1e300L; b[1] = b[3] = -1e300L; for (size_t i = 0; i < q.size(); ++i) { b[0] = std::min(b[0], q[i].x); b[1] = std::max(b[1], q[i].x); b[2] = std::min(b[2], q[i].y); b[3] = std::max(b[3], q[i].y); } }
static bool boxesTouch(const Real* a, const Real* b, Real m) { return a[0] <= b[1] + m && b[0] <= a[1] + m && a[2] <= b[3] + m && b[2] <= a[3] + m; }

// An array that stays with a handle: a new one, or the old one with new contents at the same address.
const double* lend(Inputs& in, std::vector<InBuf*>& kept, size_t k, const std::vector<double>& data, const Op& op) {
    if (!quiet && kept.size() > k && kept[k]->n == data.size()*8 && (op.seed & 7) < 3) { kept[k]->rewrite(&data[0]); in.v.push_back(kept[k]); kept[k] = 0; S->count[K_SAMEBUF]++; return (const double*) in.v.back()->p; }
    return in.d(data);
}
int bufMode() const { return quiet ? 0 : plan.bufMode; }

// ================================================================ conservative interpolation
bool readEntries(Slot& s, const Op& op, std::vector<Entry>& e, size_t limit, int& endState) {
    // walks the cursor from the start to the end; endState 0 fine, 1 does not end
    endState = 0; e.clear();
    return call(op, false, [&]() {
        SgConserveInterp2D_reset(&s.h);
        for (;;) {
            OutBuf i1(1), i2(1), w(1); int src = -7, dst = -7; double ww = sentinel();
            SgConserveInterp2D_get(&s.h, &src, &dst, &ww);
            int st = SgConserveInterp2D_next(&s.h);
            bool empty = e.empty() && st != 0 && (src < 0 || dst < 0);
            if (!empty) { Entry x; x.src = src; x.dst = dst; x.w = ww; e.push_back(x); }
            if (st != 0) break;
            if (e.size() > limit) { endState = 1; break; }
        }
    });
}
bool doConserve(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case C_NEW: return call(op, faults, [&]() { SgConserveInterp2D_new(&s.h); });
    case C_DEL: return call(op, false, [&]() { SgConserveInterp2D_del(&s.h); });
    case C_SRC: case C_DST: {
        Grid g = makeGrid(fr, op.a, op.seed);
        Inputs in(bufMode()); std::vector<int> dims; dims.push_back(g.n0); dims.push_back(g.n1);
        std::vector<int> per; per.push_back(op.a[8] & 1); per.push_back((op.a[8] >> 1) & 1);
        std::vector<const double*> cp; cp.push_back(in.d(g.x)); cp.push_back(in.d(g.y));
        const int* d = in.i(dims); const int* pp = in.i(per); const double** c = in.pp(cp);
        bool ok = call(op, faults, [&]() { if (op.code == C_SRC) SgConserveInterp2D_setSrcGrid(&s.h, d, pp, c); else SgConserveInterp2D_setDstGrid(&s.h, d, c); });
        checkInputs(in, op);
        if (op.code == C_SRC) { s.src = g; s.hasSrc = ok; s.srcFam = famOf(op.a); } else { s.dst = g; s.hasDst = ok; s.dstFam = famOf(op.a); }
        s.comp = false; s.haveEntries = false;
        return ok;
    }
    case C_COMP: {
        bool ok = call(op, faults, [&]() { SgConserveInterp2D_computeWeights(&s.h); });
        s.comp = ok; s.tainted = solverFired(); s.haveEntries = false; s.cur = 0;
        if (!ok) return false;
        std::vector<Entry> e; int end; size_t limit = s.src.cells()*s.dst.cells() + 4;
        readEntries(s, op, e, limit, end);
        if (end) { if (is("C03") || is("C01")) fail(plan.prop.c_str(), "cursor-does-not-end", "operation %d: the cursor delivered more than %zu entries without reaching the end", op.id, limit); }
        call(op, false, [&]() { SgConserveInterp2D_reset(&s.h); });
        s.entries = e; s.haveEntries = true; s.cur = 0;
        for (size_t i = 0; i < e.size(); ++i) { out(e[i].dst); out(e[i].src); out(e[i].w); }
        for (size_t i = 0; i < e.size(); ++i)
            if (e[i].src < 0 || e[i].dst < 0 || (size_t) e[i].src >= s.src.cells() || (size_t) e[i].dst >= s.dst.cells()) {
                if (is("C01") || is("C03") || is("C16") || is("C17") || is("C14")) fail(plan.prop.c_str(), "index-out-of-range", "operation %d: entry %zu has src %d of %zu, dst %d of %zu", op.id, i, e[i].src, s.src.cells(), e[i].dst, s.dst.cells());
                s.haveEntries = false;
            }
        if (!s.tainted && s.haveEntries) { if (is("C01")) checkWeights(s, op); if (is("C03")) checkCursorAgainstApply(s, op); }
        return true;
    }
    case C_APPLY: {
        std::vector<double> data = field(s.src.cells(), op.seed, true);
        Inputs in(bufMode()); const double* d = in.d(data); OutBuf o(s.dst.cells());
        bool ok = call(op, faults, [&]() { SgConserveInterp2D_apply(&s.h, d, o.d()); });
        checkInputs(in, op); checkOut(o, op);
        if (!ok) return false;
        S->count[K_APPLIES]++;
        for (size_t i = 0; i < s.dst.cells(); ++i) out(o[i]);
        if (is("C12") && s.haveEntries && !s.tainted) { // cells without any weight belong to the caller
            std::vector<char> has(s.dst.cells(), 0); for (size_t i = 0; i < s.entries.size(); ++i) has[(size_t) s.entries[i].dst] = 1;
            for (size_t i = 0; i < s.dst.cells(); ++i) if (!has[i] && o.bits(i) != SENTINEL) fail("C12", "wrote-uncovered-cell", "operation %d wrote destination cell %zu which has no weights", op.id, i);
        }
        if (is("C02") && s.haveEntries && !s.tainted) checkApply(s, op, data, o);
        return true;
    }
    case C_CUR: { // a[0] steps of a random walk of the cursor
        rt::Rng r(op.seed); size_t n = s.entries.size();
        if (!s.haveEntries) return true;
        for (int k = 0; k < op.a[0]; ++k) {
            int what = r.range(0, 9); S->count[K_CURSTEPS]++;
            bool ok = true;
            if (what == 0) { ok = call(op, false, [&]() { SgConserveInterp2D_reset(&s.h); }); s.cur = 0; }
            else if (what <= 5) {
                int st = -99; ok = call(op, false, [&]() { st = SgConserveInterp2D_next(&s.h); });
                out(st);
                int expect = 0;
                if (s.cur + 1 >= n) { expect = 1; s.cur = 0; } else s.cur++;
                if (is("C03") && !s.tainted && (st != 0) != (expect != 0)) fail("C03", "cursor-end", "operation %d step %d: advancing the cursor returned %d, expected %d (%zu entries)", op.id, k, st, expect, n);
            } else {
                OutBuf w(1); int idx[6] = {-77, -77, -77, -77, -77, -77}; 
                ok = call(op, false, [&]() { SgConserveInterp2D_get(&s.h, &idx[1], &idx[4], w.d()); });
                checkOut(w, op);
                if (n > 0) { out(idx[1]); out(idx[4]); out(w[0]); }
                if (is("C03") && (idx[0] != -77 || idx[2] != -77 || idx[3] != -77 || idx[5] != -77)) fail("C03", "cursor-overwrite", "operation %d: reading the entry wrote next to the integers of its caller", op.id);
                if (is("C03") && !s.tainted && n > 0) {
                    const Entry& e = s.entries[s.cur];
                    if (idx[1] != e.src || idx[4] != e.dst || bitsOf(w[0]) != bitsOf(e.w))
                        fail("C03", "cursor-entry", "operation %d step %d: the cursor is at entry %zu of %zu and delivered (src %d, dst %d, %.17g) instead of (src %d, dst %d, %.17g)", op.id, k, s.cur, n, idx[1], idx[4], w[0], e.src, e.dst, e.w);
                }
            }
            if (!ok) return false;
        }
        return true;
    }
    }
    return true;
}
void modelAreas(const Slot& s, std::map<std::pair<int, int>, Real>& m, std::vector<Real>& dstArea, std::vector<Real>& dstPer) {
    m.clear(); size_t nd = s.dst.cells(), ns = s.src.cells(); dstArea.resize(nd); dstPer.resize(nd);
    std::vector<std::vector<P> > sq(ns); std::vector<Real> sb(4*ns);
    for (size_t k = 0; k < ns; ++k) { sq[k] = s.src.quad(k); bbox(sq[k], &sb[4*k]); }
    for (size_t d = 0; d < nd; ++d) {
        std::vector<P> q = s.dst.quad(d); Real b[4]; bbox(q, b); dstArea[d] = fabsl(model::polyArea(q)); dstPer[d] = perimeter(q);
        for (size_t k = 0; k < ns; ++k) {
            if (!boxesTouch(b, &sb[4*k], 0)) continue;
            S->count[K_CELLPAIRS]++;
            Real a = model::overlapArea(sq[k], q);
            if (a > 0) m[std::make_pair((int) d, (int) k)] = a;
        }
    }
}
static Real wTol(Real per, Real area) { return 1e-9L + 4e-6L*per/area; }
void checkWeights(Slot& s, const Op& op) {
    std::map<std::pair<int, int>, Real> m; std::vector<Real> da, dp; modelAreas(s, m, da, dp);
    std::map<std::pair<int, int>, Real> got;
    for (size_t i = 0; i < s.entries.size(); ++i) { const Entry& e = s.entries[i]; got[std::make_pair(e.dst, e.src)] += e.w; }
    std::vector<Real> sum(s.dst.cells(), 0), sumM(s.dst.cells(), 0);
    for (std::map<std::pair<int, int>, Real>::iterator it = m.begin(); it != m.end(); ++it) {
        int d = it->first.first; Real w = it->second/da[(size_t) d]; sumM[(size_t) d] += w;
        std::map<std::pair<int, int>, Real>::iterator g = got.find(it->first); Real gw = g == got.end() ? 0 : g->second;
        S->count[K_ENTRIES]++;
        if (!(fabsl(gw - w) <= wTol(dp[(size_t) d], da[(size_t) d])))
            fail("C01", "wrong-weight", "operation %d: weight of src cell %d in dst cell %d is %.12Lg but the overlap covers %.12Lg of the dst cell", op.id, it->first.second, d, gw, w);
    }
    for (std::map<std::pair<int, int>, Real>::iterator it = got.begin(); it != got.end(); ++it) {
        int d = it->first.first; sum[(size_t) d] += it->second;
        if (!m.count(it->first) && !(fabsl(it->second) <= wTol(dp[(size_t) d], da[(size_t) d])))
            fail("C01", "weight-without-overlap", "operation %d: weight of src cell %d in dst cell %d is %.12Lg but the cells do not overlap", op.id, it->first.second, d, it->second);
    }
    for (size_t d = 0; d < sum.size(); ++d) {
        if (sumM[d] > 1 - 1e-9L) S->count[K_FULLCELLS]++;
        if (!(fabsl(sum[d] - sumM[d]) <= 2*wTol(dp[d], da[d]))) fail("C01", "wrong-sum", "operation %d: the weights of dst cell %zu add up to %.12Lg but %.12Lg of it is covered", op.id, d, sum[d], sumM[d]);
    }
}
void checkCursorAgainstApply(Slot& s, const Op& op) {
    std::set<std::pair<int, int> > seen;
    for (size_t i = 0; i < s.entries.size(); ++i)
        if (!seen.insert(std::make_pair(s.entries[i].dst, s.entries[i].src)).second)
            fail("C03", "entry-twice", "operation %d: the cursor delivered the pair (dst %d, src %d) twice", op.id, s.entries[i].dst, s.entries[i].src);
    // what the weights do, column by column (a sample of the columns when there are many)
    rt::Rng r(op.seed + 5); size_t ns = s.src.cells(); size_t cols = std::min<size_t>(ns, 12);
    for (size_t k = 0; k < cols; ++k) {
        size_t c = cols == ns ? k : (size_t) r.below(ns);
        std::vector<double> data(ns, 0.); data[c] = 1; OutBuf o(s.dst.cells());
        call(op, false, [&]() { SgConserveInterp2D_apply(&s.h, &data[0], o.d()); });
        std::map<int, double> col; for (size_t i = 0; i < s.entries.size(); ++i) if ((size_t) s.entries[i].src == c) col[s.entries[i].dst] += s.entries[i].w;
        for (size_t d = 0; d < s.dst.cells(); ++d) {
            double e = col.count((int) d) ? col[(int) d] : 0, g = o.bits(d) == SENTINEL ? 0 : o[d];
            if (!(fabs(e - g) <= 1e-12*(1 + fabs(e)))) fail("C03", "cursor-vs-apply", "operation %d: the cursor says weight %.12g for (dst %zu, src %zu), the interpolation uses %.12g", op.id, e, d, c, g);
        }
    }
    // a second walk delivers the same
    std::vector<Entry> e2; int end; readEntries(s, op, e2, s.entries.size() + 4, end);
    bool same = !end && e2.size() == s.entries.size();
    for (size_t i = 0; same && i < e2.size(); ++i) same = e2[i].src == s.entries[i].src && e2[i].dst == s.entries[i].dst && bitsOf(e2[i].w) == bitsOf(s.entries[i].w);
    if (!same) fail("C03", "second-walk", "operation %d: a second walk of the cursor delivered %zu entries that differ from the first walk (%zu)", op.id, e2.size(), s.entries.size());
    call(op, false, [&]() { SgConserveInterp2D_reset(&s.h); });
}
void checkApply(Slot& s, const Op& op, const std::vector<double>& data, const OutBuf& o) {
    size_t nd = s.dst.cells(); std::vector<Real> e(nd, 0), mag(nd, 0); std::vector<char> has(nd, 0);
    for (size_t i = 0; i < s.entries.size(); ++i) { const Entry& x = s.entries[i]; e[(size_t) x.dst] += (Real) x.w*data[(size_t) x.src]; mag[(size_t) x.dst] += fabsl((Real) x.w*data[(size_t) x.src]); has[(size_t) x.dst] = 1; }
    for (size_t d = 0; d < nd; ++d) {
        if (!has[d]) { if (o.bits(d) != SENTINEL) fail("C02", "wrote-uncovered-cell", "operation %d wrote %.12g to destination cell %zu which has no weights", op.id, o[d], d); }
        else if (!std::isfinite((double) mag[d])) { if (std::isnan((double) e[d]) ? !std::isnan(o[d]) : o[d] != (double) e[d]) fail("C02", "not-the-weighted-sum", "operation %d: dst cell %zu is %.15g, the weighted sum of the source data is %.15Lg", op.id, d, o[d], e[d]); }
        else if (!(fabsl(o[d] - e[d]) <= 1e-12L*mag[d] + 1e-300L)) fail("C02", "not-the-weighted-sum", "operation %d: dst cell %zu is %.15g, the weighted sum of the source data is %.15Lg", op.id, d, o[d], e[d]);
    }
    for (size_t i = 0; i < data.size(); ++i) if (!std::isfinite(data[i])) return;
    std::map<std::pair<int, int>, Real> m; std::vector<Real> da, dp; modelAreas(s, m, da, dp);
    std::vector<Real> cov(nd, 0); Real total = 0, expect = 0, tol = 0, big = 0;
    for (size_t i = 0; i < data.size(); ++i) big = std::max(big, (Real) fabs(data[i]));
    for (std::map<std::pair<int, int>, Real>::iterator it = m.begin(); it != m.end(); ++it) { expect += it->second*data[(size_t) it->first.second]; cov[(size_t) it->first.first] += it->second; }
    for (size_t d = 0; d < nd; ++d) { if (has[d]) total += da[d]*(Real) o[d]; tol += 2*wTol(dp[d], da[d])*da[d]*big; }
    if (!(fabsl(total - expect) <= tol)) fail("C02", "not-conserved", "operation %d: the integral of the result is %.12Lg, the integral of the source data over the covered area is %.12Lg", op.id, total, expect);
    bool constant = true; for (size_t i = 1; i < data.size(); ++i) constant &= data[i] == data[0];
    if (constant && !data.empty()) for (size_t d = 0; d < nd; ++d) if (cov[d] > da[d]*(1 - 1e-9L) && has[d]) {
        S->count[K_FULLCELLS]++;
        if (!(fabsl(o[d] - data[0]) <= 2*wTol(dp[d], da[d])*fabs(data[0]))) fail("C02", "constant-not-kept", "operation %d: constant field %.12g became %.12g in the fully covered dst cell %zu", op.id, data[0], o[d], d);
    }
    if (constant) for (size_t d = 0; d < nd; ++d) if (cov[d] > da[d]*1e-3L + 10*wTol(dp[d], da[d])*da[d] && !has[d]) fail("C02", "covered-cell-skipped", "operation %d: dst cell %zu is covered but got no value", op.id, d);
}

// ================================================================ flow interpolation
bool doFlow(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case F_NEW: return call(op, faults, [&]() { SgFlowInterp2D_new(&s.h); });
    case F_DEL: return call(op, false, [&]() { SgFlowInterp2D_del(&s.h); });
    case F_SRC: {
        Grid g = makeGrid(fr, op.a, op.seed); Inputs in(bufMode());
        std::vector<int> dims; dims.push_back(g.n0); dims.push_back(g.n1);
        std::vector<const double*> cp; cp.push_back(in.d(g.x)); cp.push_back(in.d(g.y)); const int* d = in.i(dims); const double** c = in.pp(cp);
        bool ok = call(op, faults, [&]() { SgFlowInterp2D_setSrcGrid(&s.h, d, c); });
        checkInputs(in, op); s.src = g; s.srcFam = famOf(op.a); s.hasSrc = ok; s.comp = false; return ok;
    }
    case F_DST: {
        std::vector<double> x, y; polyline(fr, op.a, op.seed, x, y); Inputs in(bufMode()); std::vector<int> dims(1, (int) x.size());
        std::vector<const double*> cp; cp.push_back(in.d(x)); cp.push_back(in.d(y)); const int* d = in.i(dims); const double** c = in.pp(cp);
        bool ok = call(op, faults, [&]() { SgFlowInterp2D_setDstGrid(&s.h, d, c); });
        checkInputs(in, op); s.lineX = x; s.lineY = y; s.hasDst = ok; s.comp = false; return ok;
    }
    case F_COMP: {
        bool ok = call(op, faults, [&]() { SgFlowInterp2D_computeWeights(&s.h); });
        s.comp = ok; s.tainted = solverFired(); return ok;
    }
    case F_APPLY: {
        const Grid& g = s.src; size_t ns = s.lineX.size() - 1; rt::Rng r(op.seed);
        std::vector<double> psi(g.nodes()); bool stream = op.a[0] != 0; // a stream function, or arbitrary edge data
        double mag = op.seed % 7 == 0 ? 1e8 : op.seed % 7 == 1 ? 1e-8 : 1;
        std::map<std::pair<double, double>, double> at;
        for (size_t i = 0; i < g.nodes(); ++i) { std::pair<double, double> k(g.x[i], g.y[i]); double v = mag*r.uni(-1, 1); if (at.count(k)) v = at[k]; else at[k] = v; psi[i] = v; }
        std::vector<double> e0((size_t)(g.n0 - 1)*g.n1), e1((size_t) g.n0*(g.n1 - 1));
        for (int i = 0; i < g.n0 - 1; ++i) for (int j = 0; j < g.n1; ++j) e0[(size_t) i*g.n1 + j] = stream ? psi[(size_t)(i + 1)*g.n1 + j] - psi[(size_t) i*g.n1 + j] : mag*r.uni(-1, 1);
        for (int i = 0; i < g.n0; ++i) for (int j = 0; j < g.n1 - 1; ++j) e1[(size_t) i*(g.n1 - 1) + j] = stream ? psi[(size_t) i*g.n1 + j + 1] - psi[(size_t) i*g.n1 + j] : mag*r.uni(-1, 1);
        Inputs in(bufMode()); std::vector<const double*> cp; cp.push_back(in.d(e0)); cp.push_back(in.d(e1)); const double** c = in.pp(cp); OutBuf o(ns);
        bool ok = call(op, faults, [&]() { SgFlowInterp2D_apply(&s.h, c, o.d()); });
        checkInputs(in, op); checkOut(o, op); if (!ok) return false;
        S->count[K_APPLIES]++;
        for (size_t i = 0; i < ns; ++i) out(o[i]);
        if (is("C04") && stream && !s.tainted) checkFlow(s, op, psi, o, mag);
        return true;
    }
    }
    return true;
}
void checkFlow(Slot& s, const Op& op, const std::vector<double>& psi, const OutBuf& o, Real mag) {
    const Grid& g = s.src; size_t ns = s.lineX.size() - 1; Real tot = 0, tg = 0;
    std::vector<std::vector<P> > quads(g.cells()); std::vector<Real> bb(4*g.cells()); Real cellMin = 1e300L, ext = 0;
    for (size_t k = 0; k < g.cells(); ++k) { quads[k] = g.quad(k); bbox(quads[k], &bb[4*k]); cellMin = std::min(cellMin, sqrtl(fabsl(model::polyArea(quads[k])))); ext = std::max(ext, std::max(fabsl(bb[4*k]), fabsl(bb[4*k + 2]))); }
    for (size_t i = 0; i < ns; ++i) {
        P a = {s.lineX[i], s.lineY[i]}, b = {s.lineX[i + 1], s.lineY[i + 1]}; Real sb[4]; std::vector<P> ab; ab.push_back(a); ab.push_back(b); bbox(ab, sb);
        std::vector<std::pair<Real, Real> > claimed; Real sum = 0, cond = 0, pieces = 0; bool sure = true, any = false;
        for (size_t k = 0; k < g.cells(); ++k) {
            int ci = (int)(k/(size_t)(g.n1 - 1)), cj = (int)(k % (size_t)(g.n1 - 1));
            Real per = perimeter(quads[k]), slack[4] = {cj == 0 ? 0 : 1e-9L*per, ci == g.n0 - 2 ? 0 : 1e-9L*per, cj == g.n1 - 2 ? 0 : 1e-9L*per, ci == 0 ? 0 : 1e-9L*per};
            if (!boxesTouch(sb, &bb[4*k], 1e-9L*per)) continue;
            for (size_t e = 0; e < 4; ++e) if (slack[e] == 0) { // along the outer boundary, but for rounding: may or may not count
                P c = quads[k][e], d = quads[k][(e + 1)%4]; Real l = hypotl(d.x - c.x, d.y - c.y); if (l == 0) continue;
                Real da = model::cross(c, d, a)/l, db = model::cross(c, d, b)/l;
                if ((fabsl(da) < 1e-7L*per && fabsl(db) < 1e-7L*per) && (da != 0 || db != 0)) sure = false;
            }
            Real thin = fabsl(model::polyArea(quads[k]))/per; cond = std::max(cond, 5e-9L*per/thin);
            for (size_t e = 0; e < 4; ++e) { // nearly along an edge: where it is crossed is a matter of rounding
                P c = quads[k][e], d = quads[k][(e + 1)%4]; Real l = hypotl(d.x - c.x, d.y - c.y), L = hypotl(b.x - a.x, b.y - a.y); if (l == 0) continue;
                Real da = model::cross(c, d, a)/l, db = model::cross(c, d, b)/l, sn = fabsl(da - db)/L;
                if (sn > 0 && (da*db <= 0 || std::min(fabsl(da), fabsl(db)) < 1e-6L*per)) cond = std::max(cond, 1e-14L*(ext + per)/(sn*thin));
            }
            Real t0, t1; if (!clipSeg(quads[k], a, b, t0, t1, slack)) continue;
            if (t1 - t0 < 1e-13L) continue;
            any = true; pieces += 1;
            std::vector<std::pair<Real, Real> > todo(1, std::make_pair(t0, t1));
            for (size_t c = 0; c < claimed.size(); ++c) { // what is on a common edge counts once
                std::vector<std::pair<Real, Real> > next;
                for (size_t q = 0; q < todo.size(); ++q) {
                    Real lo = std::max(todo[q].first, claimed[c].first), hi = std::min(todo[q].second, claimed[c].second);
                    if (hi - lo <= 1e-13L) { next.push_back(todo[q]); continue; }
                    if (lo > todo[q].first) next.push_back(std::make_pair(todo[q].first, lo));
                    if (hi < todo[q].second) next.push_back(std::make_pair(hi, todo[q].second));
                }
                todo.swap(next);
            }
            Real n0 = psi[(size_t) ci*g.n1 + cj], n1 = psi[(size_t)(ci + 1)*g.n1 + cj], n2 = psi[(size_t)(ci + 1)*g.n1 + cj + 1], n3 = psi[(size_t) ci*g.n1 + cj + 1];
            for (size_t q = 0; q < todo.size(); ++q) {
                Real val[2];
                for (int e = 0; e < 2; ++e) {
                    Real t = e ? todo[q].second : todo[q].first, u, v; P p = {a.x + t*(b.x - a.x), a.y + t*(b.y - a.y)};
                    if (!model::invBilinear(quads[k], p, u, v) || u < -.01L || u > 1.01L || v < -.01L || v > 1.01L) { sure = false; u = v = 0; }
                    val[e] = (1 - u)*(1 - v)*n0 + u*(1 - v)*n1 + u*v*n2 + (1 - u)*v*n3;
                }
                sum += val[1] - val[0]; claimed.push_back(todo[q]);
            }
        }
        cond *= 1 + pieces/20; // the errors of the searches add up
        if (!sure || cond > 1e-3L) continue;
        S->count[K_SEGMENTS]++;
        double got = o.bits(i) == SENTINEL ? 0 : o[i];
        Real tol = mag*(2e-7L + 1e-8L/cellMin + 1e-13L*ext/cellMin + cond);
        if (!(fabsl(got - sum) <= tol)) fail("C04", "wrong-flux", "operation %d: the flux through segment %zu is %.12g, the difference of the stream function is %.12Lg", op.id, i, got, sum);
        if (any && fabsl(sum) > tol && o.bits(i) == SENTINEL) fail("C04", "segment-skipped", "operation %d: segment %zu got no value", op.id, i);
        tot += sum; tg += got;
    }
}

// ================================================================ node interpolation
bool doNode(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case N_NEW: s.nitermax = op.a[0]; s.tol = fr.s*pow(10., -op.a[1]); return call(op, faults, [&]() { SgNodeInterp2D_new(&s.h, op.a[0], fr.s*pow(10., -op.a[1])); });
    case N_DEL: return call(op, false, [&]() { SgNodeInterp2D_del(&s.h); });
    case N_SRC: case N_DST: {
        Grid g = makeGrid(fr, op.a, op.seed); Inputs in(bufMode());
        std::vector<int> dims; dims.push_back(g.n0); dims.push_back(g.n1); std::vector<int> per; per.push_back(op.a[8] & 1); per.push_back((op.a[8] >> 1) & 1);
        std::vector<const double*> cp; cp.push_back(in.d(g.x)); cp.push_back(in.d(g.y)); const int* d = in.i(dims); const int* pp = in.i(per); const double** c = in.pp(cp);
        bool ok = call(op, faults, [&]() { if (op.code == N_SRC) SgNodeInterp2D_setSrcGrid(&s.h, d, pp, c); else SgNodeInterp2D_setDstGrid(&s.h, d, c); });
        checkInputs(in, op);
        if (op.code == N_SRC) { s.src = g; s.srcFam = famOf(op.a); s.hasSrc = ok; s.period = per; } else { s.dst = g; s.dstFam = famOf(op.a); s.hasDst = ok; }
        s.comp = false; return ok;
    }
    case N_COMP: {
        bool ok = call(op, faults, [&]() { SgNodeInterp2D_computeWeights(&s.h); });
        s.comp = ok; s.tainted = solverFired(); return ok;
    }
    case N_APPLY: {
        std::vector<double> data = field(s.src.nodes(), op.seed);
        if (op.a[0] == 1) for (size_t i = 0; i < data.size(); ++i) data[i] = 2.5 - 1.25*(s.src.x[i] - fr.ox)/fr.s + .75*(s.src.y[i] - fr.oy)/fr.s; // linear in space
        Inputs in(bufMode()); const double* d = in.d(data); OutBuf o(s.dst.nodes());
        bool ok = call(op, faults, [&]() { SgNodeInterp2D_apply(&s.h, d, o.d()); });
        checkInputs(in, op); checkOut(o, op); if (!ok) return false;
        S->count[K_APPLIES]++;
        for (size_t i = 0; i < s.dst.nodes(); ++i) out(o[i]);
        if (!s.tainted && (is("C05") || is("C07"))) checkNodes(s, op, data, o);
        return true;
    }
    }
    return true;
}
void checkNodes(Slot& s, const Op& op, const std::vector<double>& data, const OutBuf& o) {
    const Grid& g = s.src; Real b[4] = {1e300L, -1e300L, 1e300L, -1e300L}, cellMin = 1e300L, big = 0, lo = 1e300L, hi = -1e300L; bool constant = true;
    for (size_t k = 0; k < g.cells(); ++k) { std::vector<P> q = g.quad(k); Real c[4]; bbox(q, c); b[0] = std::min(b[0], c[0]); b[1] = std::max(b[1], c[1]); b[2] = std::min(b[2], c[2]); b[3] = std::max(b[3], c[3]); cellMin = std::min(cellMin, fabsl(model::polyArea(q))/perimeter(q)); }
    for (size_t i = 0; i < data.size(); ++i) { big = std::max(big, (Real) fabs(data[i])); lo = std::min(lo, (Real) data[i]); hi = std::max(hi, (Real) data[i]); constant &= data[i] == data[0]; }
    bool tame = (isTame(s.srcFam) || s.srcFam == G_ANNULUS) && s.nitermax >= 100 && s.period[0] == 0 && s.period[1] == 0; // an index that is said to wrap around where the grid does not is no good start
    Real ext = std::max(std::max(fabsl(b[0]), fabsl(b[1])), std::max(fabsl(b[2]), fabsl(b[3])));
    Real vtol = (hi - lo)*(2*(Real) s.tol/cellMin + 1e-13L*ext/cellMin) + 1e-11L*big;
    Real m = 1e-6L*(b[1] - b[0] + b[3] - b[2]) + 3*(Real) s.tol;
    for (size_t i = 0; i < s.dst.nodes(); ++i) {
        P p = {s.dst.x[i], s.dst.y[i]}; bool wrote = o.bits(i) != SENTINEL; Real u, v;
        if (p.x < b[0] - m || p.x > b[1] + m || p.y < b[2] - m || p.y > b[3] + m) {
            S->count[K_NODES_OUT]++;
            if (is("C05") && wrote) fail("C05", "value-outside", "operation %d: dst node %zu is outside of the source grid and got the value %.12g", op.id, i, o[i]);
            continue;
        }
        bool inside = model::locate(g, p, u, v, 1e-10L);
        if (inside) {
            if (is("C05") && wrote) {
                S->count[K_NODES_IN]++;
                int ci = std::min(std::max((int) floorl(u), 0), g.n0 - 2), cj = std::min(std::max((int) floorl(v), 0), g.n1 - 2); Real e = 0; bool fits = false;
                // where the grid meets itself, or at a pole, any of the cells at that place will do
                size_t first = isTame(s.srcFam) ? (size_t) ci*(g.n1 - 1) + cj : 0, last = isTame(s.srcFam) ? first : g.cells() - 1;
                for (size_t k = first; k <= last && !fits; ++k) {
                    std::vector<P> q = g.quad(k); Real c[4], a, w, t = vtol; bbox(q, c); if (p.x < c[0] - m || p.x > c[1] + m || p.y < c[2] - m || p.y > c[3] + m) continue;
                    int i0 = (int)(k/(size_t)(g.n1 - 1)), j0 = (int)(k % (size_t)(g.n1 - 1));
                    if (first == last) { a = u - ci; w = v - cj; }
                    else {
                        if (!model::invBilinear(q, p, a, w)) { fits = s.srcFam == G_DISK; continue; }
                        Real xs = (1-w)*(q[1].x - q[0].x) + w*(q[2].x - q[3].x), xt = (1-a)*(q[3].x - q[0].x) + a*(q[2].x - q[1].x), ys = (1-w)*(q[1].y - q[0].y) + w*(q[2].y - q[3].y), yt = (1-a)*(q[3].y - q[0].y) + a*(q[2].y - q[1].y);
                        Real inv = (fabsl(xs) + fabsl(xt) + fabsl(ys) + fabsl(yt))/std::max((Real) 1e-300L, fabsl(xs*yt - xt*ys)), sl = (2*(Real) s.tol + 1e-13L*ext)*inv;
                        t = std::max(t, (hi - lo)*2*sl); if (t > .01L*(hi - lo)) { fits = true; continue; }
                        if (a < -sl - 1e-9L || a > 1 + sl + 1e-9L || w < -sl - 1e-9L || w > 1 + sl + 1e-9L) continue;
                    }
                    e = (1 - a)*(1 - w)*data[(size_t) i0*g.n1 + j0] + a*(1 - w)*data[(size_t)(i0 + 1)*g.n1 + j0] + a*w*data[(size_t)(i0 + 1)*g.n1 + j0 + 1] + (1 - a)*w*data[(size_t) i0*g.n1 + j0 + 1];
                    fits = fabsl(o[i] - e) <= t;
                }
                if (!fits) fail("C05", "wrong-value", "operation %d: dst node %zu got %.12g, the bilinear interpolation of the source data there is %.12Lg", op.id, i, o[i], e);
            }
            if (is("C05") && constant && wrote && !(fabsl(o[i] - data[0]) <= 1e-11L*big)) fail("C05", "constant-not-kept", "operation %d: constant field %.12g became %.12g at dst node %zu", op.id, data[0], o[i], i);
            if (!wrote && tame) fail(plan.prop.c_str(), "node-not-located", "operation %d: dst node %zu is inside of the source grid and got no value", op.id, i);
        } else if (is("C05") && wrote) {
            // accepted only within the tolerance of the search: the nearest point of the grid must be that close
            Real near = 1e300L; bool within = false;
            for (size_t k = 0; k < g.cells() && !within; ++k) { std::vector<P> q = g.quad(k); int pos = 0, neg = 0; for (int e = 0; e < 4; ++e) { Real c = model::cross(q[(size_t) e], q[(size_t)(e + 1)%4], p); pos += c >= 0; neg += c <= 0; } within = pos == 4 || neg == 4; }
            if (within) continue; // inside of a cell whose map could not be inverted
            for (size_t k = 0; k < g.cells(); ++k) { std::vector<P> q = g.quad(k); for (int e = 0; e < 4; ++e) { P A = q[(size_t) e], B = q[(size_t)(e + 1)%4]; Real dx = B.x - A.x, dy = B.y - A.y, l2 = dx*dx + dy*dy, t = l2 > 0 ? ((p.x - A.x)*dx + (p.y - A.y)*dy)/l2 : 0; t = std::min((Real) 1, std::max((Real) 0, t)); near = std::min(near, hypotl(A.x + t*dx - p.x, A.y + t*dy - p.y)); } }
            S->count[K_NODES_OUT]++;
            if (near > 2*(Real) s.tol + 1e-9L*fr.s) fail("C05", "value-outside", "operation %d: dst node %zu is %.3Lg away from the source grid and got the value %.12g", op.id, i, near, o[i]);
        }
    }
}

// ================================================================ point search
bool doFinder(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case P_NEW: s.nitermax = op.a[0]; s.tol = fr.s*pow(10., -op.a[1]); return call(op, faults, [&]() { SgFindPointInCell_new(&s.h, op.a[0], fr.s*pow(10., -op.a[1])); });
    case P_DEL: return call(op, false, [&]() { SgFindPointInCell_del(&s.h); });
    case P_GRID: {
        MGrid g = makeMGrid(fr, op.a, op.seed); Inputs in(bufMode());
        std::vector<int> dims(g.dims, g.dims + g.nd), per; for (int i = 0; i < g.nd; ++i) per.push_back((op.a[8] >> i) & 1);
        std::vector<const double*> cp; for (int i = 0; i < g.nd; ++i) cp.push_back(in.d(g.c[i])); const int* d = in.i(dims); const int* pp = in.i(per); const double** c = in.pp(cp);
        bool ok = call(op, faults, [&]() { SgFindPointInCell_setGrid(&s.h, g.nd, d, pp, c); });
        checkInputs(in, op); s.mg = g; s.srcFam = famOf(op.a); s.period = per; s.hasSrc = ok; s.hasReset = false; s.done = true; return ok;
    }
    case P_RESET: { // a[0] kind of target, a[1] kind of start
        rt::Rng r(op.seed); const MGrid& g = s.mg; std::vector<double> st((size_t) g.nd), tg((size_t) g.nd); double ind[3]; Real pos[3];
        for (int i = 0; i < g.nd; ++i) {
            int n = g.dims[i];
            ind[i] = op.a[0] == 1 ? r.range(0, n - 1) : op.a[0] == 2 && r.p(.5) ? r.range(0, n - 1) : r.uni(0, n - 1);
            st[(size_t) i] = op.a[1] == 0 ? (n - 1)/(i == 0 ? 2.14423 : 1.93265) : op.a[1] == 1 ? r.uni(0, n - 1) : op.a[1] == 2 ? r.range(0, n - 1) : op.a[1] == 4 ? (r.p(.5) ? r.uni(-n, 2*n) : r.p(.5) ? r.uni(-1, 1)*1e9 : r.uni(0, n - 1)) : ind[i];
        }
        g.eval(ind, pos); s.targetInside = op.a[0] != 3;
        double ext[3]; for (int i = 0; i < g.nd; ++i) { double lo = 1e300, hi = -1e300; for (size_t k = 0; k < g.nodes(); ++k) { lo = std::min(lo, g.c[i][k]); hi = std::max(hi, g.c[i][k]); } ext[i] = hi - lo; }
        for (int i = 0; i < g.nd; ++i) { tg[(size_t) i] = (double) pos[i]; if (op.a[0] == 3) tg[(size_t) i] += r.uni(-1, 1)*ext[i]; }
        if (op.a[0] == 4) { static const double odd[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e18}; tg[(size_t) r.range(0, g.nd - 1)] = odd[r.range(0, 5)]; s.targetInside = false; } // a mask value, say
        s.targetOdd = op.a[0] == 4; s.startOut = op.a[1] == 4;
        Inputs in(bufMode()); const double* a = in.d(st); const double* b = in.d(tg);
        bool ok = call(op, faults, [&]() { SgFindPointInCell_reset(&s.h, a, b); });
        checkInputs(in, op); s.start = st; s.target = tg; s.hasReset = ok; s.done = false; s.ncalls = s.niter = 0; s.hist.clear(); s.faultySearch = false; s.tainted = false; return ok;
    }
    case P_NEXT: {
        const MGrid& g = s.mg;
        for (int k = 0; k < op.a[0] && !s.done; ++k) {
            int st = -99; bool ok = call(op, faults && (k == op.a[1] % std::max(1, op.a[0]) || op.a[2]), [&]() { st = SgFindPointInCell_next(&s.h); });
            s.ncalls++;
            if (solverFired() || allocFired()) { s.faultySearch = true; s.tainted = true; }
            if (!ok) { s.hist.clear(); s.niter = -1; s.ncalls = 0; return false; }
            out(st);
            look(s, op, st, true);
            if (st != 0) { s.done = true; S->count[st == 1 ? K_SEARCH_OK : K_SEARCH_FAIL]++; }
        }
        if (is("C07") && s.done && !s.faultySearch && s.targetInside && s.nitermax >= 100 && s.srcFam != G_DISK && s.srcFam != G_ANNULUS && s.start.size() && !s.startOut && converges(s)) {
            double err = 0; call(op, false, [&]() { SgFindPointInCell_getError(&s.h, &err); });
            if (!(err < s.tol)) fail("C07", "search-gave-up", "operation %d: the search for a point inside of the grid ended after %d steps with error %.3g, the tolerance is %.3g", op.id, s.ncalls, err, s.tol);
        }
        (void) g; return true;
    }
    case P_LOOK: look(s, op, 0, false); return true;
    }
    return true;
}
// small displacements of the nodes add up over a great many of them: what one cell says about where a point far away is, in cells,
// may then be wrong by a good part of the other direction, and the search is not bound to get there
static bool crooked(int fam, int n0, int n1) { return (fam == G_PERTURBED || fam == G_ROTPERT) && std::max(n0, n1) > 100; }
bool converges(const Slot& s) const { // grids for which the search must succeed from where it started
    bool per = false; for (size_t i = 0; i < s.period.size(); ++i) per |= s.period[i] != 0;
    if (s.srcFam == 30) return !per;
    if (s.srcFam == 20) return !per;
    if (per) return false; // the grid does not close, whatever the caller says
    return isTame(s.srcFam) && !crooked(s.srcFam, s.mg.dims[0], s.mg.dims[1]);
}
void look(Slot& s, const Op& op, int st, bool afterNext) { // everything a caller can ask between two steps
    const MGrid& g = s.mg; OutBuf ind((size_t) g.nd), pos((size_t) g.nd), er(1); int nh = -1; double* hp = 0; std::vector<double> h;
    call(op, false, [&]() {
        SgFindPointInCell_getIndices(&s.h, ind.d()); SgFindPointInCell_getPosition(&s.h, pos.d()); SgFindPointInCell_getError(&s.h, er.d());
        SgFindPointInCell_getErrorHistory(&s.h, &nh, &hp);
    });
    checkOut(ind, op); checkOut(pos, op); checkOut(er, op);
    if (nh > 0 && nh < 100000) h.assign(hp, hp + nh);
    for (int i = 0; i < g.nd; ++i) { out(ind[(size_t) i]); out(pos[(size_t) i]); }
    out(er[0]);
    if (!(is("C06") || is("C07"))) return;
    S->count[K_PAUSES]++;
    if (s.startOut && s.niter == 0 && (!afterNext || st == -3) && is("C06")) return; // nothing is known before the first step
    double I[3]; Real mp[3]; Real e2 = 0, ext = fr.s, outside = -1e300L, blo[3], bhi[3];
    for (int i = 0; i < g.nd; ++i) { I[i] = ind[(size_t) i]; blo[i] = 1e300L; bhi[i] = -1e300L; for (size_t k = 0; k < g.nodes(); ++k) { blo[i] = std::min(blo[i], (Real) g.c[i][k]); bhi[i] = std::max(bhi[i], (Real) g.c[i][k]); ext = std::max(ext, (Real) fabs(g.c[i][k])); } outside = std::max(outside, std::max(blo[i] - s.target[(size_t) i], s.target[(size_t) i] - bhi[i])); }
    if (is("C07")) { if (afterNext && st == 0 && s.ncalls >= s.nitermax) fail("C07", "search-does-not-end", "operation %d: the search asks for more after %d steps, the limit is %d", op.id, s.ncalls, s.nitermax); return; }
    if (!(st == 0 || st == 1 || st == -1 || st == -2 || st == -3)) fail("C06", "unknown-status", "operation %d: status %d", op.id, st);
    for (int i = 0; i < g.nd; ++i) if (!(I[i] >= 0 && I[i] <= g.dims[i] - 1)) fail("C06", "index-out-of-range", "operation %d: index %d of the search is %.12g, the grid has %d nodes in that direction", op.id, i, I[i], g.dims[i]);
    if (s.targetOdd && st == 1) fail("C06", "false-success", "operation %d: success reported for a target that is no point", op.id);
    if (s.targetOdd) return;
    g.eval(I, mp);
    for (int i = 0; i < g.nd; ++i) { if (!(fabsl(mp[i] - pos[(size_t) i]) <= 1e-12L*ext)) fail("C06", "wrong-position", "operation %d: the search reports position[%d] = %.15g at its indices, the grid is at %.15Lg there", op.id, i, pos[(size_t) i], mp[i]); e2 += (mp[i] - s.target[(size_t) i])*(mp[i] - s.target[(size_t) i]); }
    Real err = sqrtl(e2);
    if (!(fabsl(err - er[0]) <= 1e-12L*ext)) fail("C06", "wrong-error", "operation %d: the search reports error %.12g, the distance to the target is %.12Lg", op.id, er[0], err);
    if (afterNext) {
        Real tb = std::max((Real) s.tol, 1e-13L);
        if (st == 1 && !(err < (Real) s.tol + 1e-12L*ext)) fail("C06", "false-success", "operation %d: success reported at distance %.6Lg from the target, the tolerance is %.3g", op.id, err, s.tol);
        if (st == -3 && outside < -1e-12L*ext) fail("C06", "false-outside", "operation %d: the target is inside of the box of the grid and the search says it is outside", op.id);
        if (st != -3 && outside > 2*tb + 1e-12L*ext) fail("C06", "outside-not-reported", "operation %d: the target is %.3Lg outside of the box of the grid and the search went on (status %d)", op.id, outside, st);
        if (s.niter >= 0) {
            if (st != -3) s.niter++;
            if (st == -1 && s.niter < s.nitermax) fail("C06", "false-limit", "operation %d: the search gave up after %d of %d steps", op.id, s.niter, s.nitermax);
            if (st == 0 && s.niter >= s.nitermax) fail("C06", "limit-ignored", "operation %d: the search asks for more after %d steps, the limit is %d", op.id, s.niter, s.nitermax);
        }
    }
    if (s.niter >= 0) {
        if (nh != s.niter) fail("C06", "history-length", "operation %d: %d steps were made, the history has %d errors", op.id, s.niter, nh);
        for (size_t i = 0; i < s.hist.size() && i < h.size(); ++i) if (bitsOf(s.hist[i]) != bitsOf(h[i])) fail("C06", "history-rewritten", "operation %d: entry %zu of the history changed from %.12g to %.12g", op.id, i, s.hist[i], h[i]);
        if (nh > 0 && !(fabs(h.back() - er[0]) <= 1e-12*(double) ext)) fail("C06", "history-last", "operation %d: the last error of the history is %.12g, the error is %.12g", op.id, h.back(), er[0]);
        s.hist = h;
    }
}

// ================================================================ overlapping cells
bool doOverlap(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case V_NEW: return call(op, faults, [&]() { SgFindOverlappingCells2D_new(&s.h); });
    case V_DEL: return call(op, false, [&]() { SgFindOverlappingCells2D_del(&s.h); });
    case V_GRID: {
        Grid g = makeGrid(fr, op.a, op.seed); Inputs in(bufMode()); std::vector<int> dims, per(2, 0); dims.push_back(g.n0); dims.push_back(g.n1);
        std::vector<const double*> cp; cp.push_back(in.d(g.x)); cp.push_back(in.d(g.y)); const int* d = in.i(dims); const int* pp = in.i(per); const double** c = in.pp(cp);
        bool ok = call(op, faults, [&]() { SgFindOverlappingCells2D_setSrcGrid(&s.h, d, pp, c); });
        checkInputs(in, op); s.src = g; s.srcFam = famOf(op.a); s.hasSrc = ok; s.found = false; return ok;
    }
    case V_POLY: {
        std::vector<double> p = polygon(fr, op.a, op.seed); Inputs in(bufMode()); const double* d = in.d(p); int n = (int) p.size()/2;
        bool ok = call(op, faults, [&]() { SgFindOverlappingCells2D_setPolygonPoints(&s.h, n, d); });
        checkInputs(in, op); s.poly = p; s.hasDst = ok; s.found = false; return ok;
    }
    case V_FIND: { bool ok = call(op, faults, [&]() { SgFindOverlappingCells2D_findSrcCellIndices(&s.h); }); s.found = ok; s.tainted = solverFired(); return ok; }
    case V_GET: {
        int n = -1; int* p = 0; std::vector<int> ids;
        bool ok = call(op, faults, [&]() { SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&s.h, &n); SgFindOverlappingCells2D_getSrcCellIndices(&s.h, &p); });
        if (!ok) return false;
        if (n > 0 && n < 10000000) ids.assign(p, p + n);
        for (size_t i = 0; i < ids.size(); ++i) out(ids[i]);
        if (is("C08")) {
            S->count[K_POLYS]++;
            std::set<int> set(ids.begin(), ids.end());
            if (set.size() != ids.size()) fail("C08", "cell-twice", "operation %d: a cell is listed twice", op.id);
            for (size_t i = 0; i < ids.size(); ++i) if (ids[i] < 0 || (size_t) ids[i] >= s.src.cells()) fail("C08", "invalid-cell", "operation %d: cell %d listed, the grid has %zu cells", op.id, ids[i], s.src.cells());
            if (!s.tainted && isParallel(s.srcFam)) {
                std::vector<P> poly = toPoly(s.poly); Real pb[4]; bbox(poly, pb);
                for (size_t c = 0; c < s.src.cells(); ++c) {
                    std::vector<P> q = s.src.quad(c); Real b[4]; bbox(q, b); if (!boxesTouch(b, pb, 0)) continue;
                    Real a = model::overlapArea(poly, q);
                    if (a > 1e-5L*fabsl(model::polyArea(q)) + 5e-6L*perimeter(q)) { S->count[K_OVERLAPS]++; if (!set.count((int) c)) fail("C08", "cell-missed", "operation %d: the polygon covers %.6Lg of cell %zu (area %.6Lg), which is not listed", op.id, a, c, fabsl(model::polyArea(q))); }
                }
            }
        }
        return true;
    }
    }
    return true;
}

// ================================================================ quad/quad intersection, hull area
bool doQuad(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case Q_NEW: return call(op, faults, [&]() { SgQuadIntersect_new(&s.h); });
    case Q_DEL: { bool ok = call(op, false, [&]() { SgQuadIntersect_del(&s.h); }); s.dropKept(s.kept); return ok; }
    case Q_SET: {
        std::vector<double> a = quad(fr, op.a, op.seed, op.a[10] & 1, op.a[11]), b = quad(fr, op.a + 5, op.seed + 1, (op.a[10] >> 1) & 1, op.a[11]); if (op.seed % 11 == 0) b = a;
        Inputs in(bufMode()); const double* p = lend(in, s.kept, 0, a, op); const double* q = lend(in, s.kept, 1, b, op);
        bool ok = call(op, faults, [&]() { SgQuadIntersect_setQuadPoints(&s.h, p, q); });
        checkInputs(in, op); std::vector<InBuf*> old; old.swap(s.kept); in.moveTo(s.kept); s.dropKept(old); // these stay with the handle
        s.q1 = a; s.q2 = b; s.hasQuad = ok; return ok;
    }
    case Q_GET: {
        int n = -1; double* p = 0; double area = 0; void* tri = 0; std::vector<double> pts; bool done = false; S->count[K_QUADS]++;
        bool ok = call(op, faults, [&]() {
            SgQuadIntersect_getIntersectPoints(&s.h, &n, &p);
            if (n >= 3 && n < 100000) { SgTriangulate_new(&tri, n, p); SgTriangulate_getConvexHullArea(&tri, &area); }
            done = true;
        });
        bool hit = solverFired();
        if (tri) call(op, false, [&]() { SgTriangulate_del(&tri); });
        if (!ok) return false;
        if (n > 0 && n < 100000) pts.assign(p, p + 2*n);
        if (is("C12")) for (size_t i = 0; i < s.kept.size(); ++i) if (!s.kept[i]->intact()) fail("C12", "input-modified", "operation %d modified a quad of its caller", op.id);
        out(n); for (size_t i = 0; i < pts.size(); ++i) out(pts[i]);
        out(area); (void) done;
        if (is("C09") && !hit) {
            std::vector<P> a = toPoly(s.q1), b = toPoly(s.q2); Real e = model::overlapArea(a, b), tol = 4e-6L*(perimeter(a) + perimeter(b)) + 1e-9L*fabsl(model::polyArea(a));
            if (!(fabsl(area - e) <= tol)) fail("C09", "wrong-overlap-area", "operation %d: %d intersection points enclose %.12g, the quads overlap by %.12Lg", op.id, n, area, e);
            for (size_t i = 0; i + 1 < pts.size(); i += 2) for (int k = 0; k < 2; ++k) {
                std::vector<P> q = k ? b : a; if (model::polyArea(q) < 0) std::reverse(q.begin(), q.end()); P x = {pts[i], pts[i + 1]};
                for (int g = 0; g < 4; ++g) { P c = q[(size_t) g], d = q[(size_t)(g + 1)%4]; Real l = hypotl(d.x - c.x, d.y - c.y); Real lim = -1e-9L*perimeter(q) - 1e-12L*(fabsl(x.x) + fabsl(x.y)); if (model::cross(c, d, x)/l < lim) fail("C09", "point-outside", "operation %d: intersection point (%.12g, %.12g) is outside of quad %d", op.id, pts[i], pts[i + 1], k); }
            }
        }
        return true;
    }
    }
    return true;
}

// ================================================================ quad/line intersection
bool doLine(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case I_NEW: return call(op, faults, [&]() { SgQuadLineIntersect_new(&s.h); });
    case I_DEL: { bool ok = call(op, false, [&]() { SgQuadLineIntersect_del(&s.h); }); s.dropKept(s.keptQuad); s.dropKept(s.keptLine); return ok; }
    case I_QUAD: {
        std::vector<double> a = quad(fr, op.a, op.seed, op.a[10], op.a[11]); Inputs in(bufMode()); const double* p = lend(in, s.keptQuad, 0, a, op);
        bool ok = call(op, faults, [&]() { SgQuadLineIntersect_setQuadPoints(&s.h, p); });
        checkInputs(in, op); std::vector<InBuf*> old; old.swap(s.keptQuad); in.moveTo(s.keptQuad); s.dropKept(old); s.q1 = a; s.hasQuad = ok; return ok;
    }
    case I_LINE: {
        std::vector<double> x, y; int b[6] = {op.a[0], 2, op.a[1], op.a[2], op.a[3], op.a[4]}; polyline(fr, b, op.seed, x, y);
        std::vector<double> l; l.push_back(x[0]); l.push_back(y[0]); l.push_back(x[1]); l.push_back(y[1]); if (op.a[10] & 1) l[op.a[10] & 2 ? 2 : 3] += fr.s*1.07e-2*(op.a[11] % 97 + 1); Inputs in(bufMode()); const double* p = lend(in, s.keptLine, 0, l, op);
        bool ok = call(op, faults, [&]() { SgQuadLineIntersect_setLinePoints(&s.h, p); });
        checkInputs(in, op); std::vector<InBuf*> old; old.swap(s.keptLine); in.moveTo(s.keptLine); s.dropKept(old); s.line = l; s.hasLine = ok; return ok;
    }
    case I_GET: {
        int n = -1; double* p = 0; std::vector<double> pts; S->count[K_LINES]++;
        bool ok = call(op, faults, [&]() { SgQuadLineIntersect_collectIntersectPoints(&s.h, &n, &p); });
        bool hit = solverFired(); if (!ok) return false;
        if (n > 0 && n < 100000) pts.assign(p, p + 2*n);
        if (is("C12")) for (int k = 0; k < 2; ++k) { std::vector<InBuf*>& v = k ? s.keptQuad : s.keptLine; for (size_t i = 0; i < v.size(); ++i) if (!v[i]->intact()) fail("C12", "input-modified", "operation %d modified an array of its caller", op.id); }
        out(n); for (size_t i = 0; i < pts.size(); ++i) out(pts[i]);
        if (is("C20") && !hit) {
            std::vector<P> q = toPoly(s.q1); P a = {s.line[0], s.line[1]}, b = {s.line[2], s.line[3]}; Real t0, t1, L = hypotl(b.x - a.x, b.y - a.y), tol = 1e-8L*(L + perimeter(q));
            bool cut = clipSeg(q, a, b, t0, t1) && (t1 - t0)*L > 2*tol; Real prev = -1e300L, sgn = model::polyArea(q) < 0 ? -1 : 1;
            for (int e = 0; e < 4; ++e) { // along an edge, but for rounding: what is inside is undecided
                P c = q[(size_t) e], d = q[(size_t)(e + 1)%4]; Real l = hypotl(d.x - c.x, d.y - c.y), da = fabsl(model::cross(c, d, a))/l, db = fabsl(model::cross(c, d, b))/l;
                if (da < tol && db < tol && (da != 0 || db != 0)) cut = false;
            }
            for (int i = 0; i < n; ++i) {
                P x = {pts[(size_t) 2*i], pts[(size_t) 2*i + 1]}; Real t = ((x.x - a.x)*(b.x - a.x) + (x.y - a.y)*(b.y - a.y))/(L*L), off = fabsl(model::cross(a, b, x))/L;
                if (!(off <= tol) || t*L < -tol || t*L > L + tol) fail("C20", "point-off-the-line", "operation %d: intersection point %d is not on the segment", op.id, i);
                if (t*L < prev - tol) fail("C20", "points-not-sorted", "operation %d: intersection point %d comes before its predecessor on the segment", op.id, i);
                prev = t*L;
                for (int e = 0; e < 4; ++e) { P c = q[(size_t) e], d = q[(size_t)(e + 1)%4]; Real l = hypotl(d.x - c.x, d.y - c.y); if (sgn*model::cross(c, d, x)/l < -tol) fail("C20", "point-outside-quad", "operation %d: intersection point %d is not in the quad", op.id, i); }
            }
            if (cut) {
                if (n < 2) fail("C20", "intersection-missed", "operation %d: the segment is in the quad for %.6Lg of its length and %d points were found", op.id, t1 - t0, n);
                P f = {pts[0], pts[1]}, g = {pts[(size_t) 2*n - 2], pts[(size_t) 2*n - 1]};
                Real df = hypotl(f.x - (a.x + t0*(b.x - a.x)), f.y - (a.y + t0*(b.y - a.y))), dg = hypotl(g.x - (a.x + t1*(b.x - a.x)), g.y - (a.y + t1*(b.y - a.y)));
                Real sens = 1; { Real w = 1e300L; for (int k = 0; k < 4; ++k) { P c = q[(size_t) k], d = q[(size_t)(k + 1)%4]; Real l = hypotl(d.x - c.x, d.y - c.y); Real sn = fabsl((d.x - c.x)*(b.y - a.y) - (d.y - c.y)*(b.x - a.x))/(l*L); if (sn > 1e-14L) w = std::min(w, sn); } if (w < 1e200L) sens = 1/w; }
                if (sens < 1e4L && (!(df <= tol) || !(dg <= tol))) fail("C20", "wrong-end-point", "operation %d: the part of the segment in the quad is [%.9Lg, %.9Lg], the points found miss its ends by %.3Lg and %.3Lg", op.id, t0, t1, df, dg);
            } 
        }
        return true;
    }
    }
    return true;
}

// ================================================================ quad/line flows
bool doFlows(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case L_NEW: return call(op, faults, [&]() { SgQuadLineFlows_new(&s.h); });
    case L_DEL: { bool ok = call(op, false, [&]() { SgQuadLineFlows_del(&s.h); }); s.dropKept(s.keptQuad); s.dropKept(s.keptLine); return ok; }
    case L_QUAD: {
        std::vector<double> a = quad(fr, op.a, op.seed, op.a[10], op.a[11]); Inputs in(bufMode()); const double* p = lend(in, s.keptQuad, 0, a, op);
        bool ok = call(op, faults, [&]() { SgQuadLineFlows_setQuadPoints(&s.h, p); });
        checkInputs(in, op); std::vector<InBuf*> old; old.swap(s.keptQuad); in.moveTo(s.keptQuad); s.dropKept(old); s.q1 = a; s.kind = op.a[0]; s.hasQuad = ok; return ok;
    }
    case L_LINE: { // in the parameters of the current quad (a[0] = 1: anywhere)
        rt::Rng r(op.seed); std::vector<double> l;
        for (int k = 0; k < 2; ++k) {
            double u = r.uni(0, 1), v = r.uni(0, 1); if (r.p(.2)) u = r.range(0, 1);
            if (r.p(.2)) v = r.range(0, 1);
            if (op.a[0] == 1) { u = r.uni(-.8, 1.8); v = r.uni(-.8, 1.8); }
            const std::vector<double>& q = s.q1.size() == 8 ? s.q1 : std::vector<double>(8, 0.);
            for (int c = 0; c < 2; ++c) l.push_back((1 - u)*(1 - v)*q[(size_t) c] + u*(1 - v)*q[(size_t) c + 2] + u*v*q[(size_t) c + 4] + (1 - u)*v*q[(size_t) c + 6]);
        }
        Inputs in(bufMode()); const double* p = lend(in, s.keptLine, 0, l, op);
        bool ok = call(op, faults, [&]() { SgQuadLineFlows_setLinePoints(&s.h, p); });
        checkInputs(in, op); std::vector<InBuf*> old; old.swap(s.keptLine); in.moveTo(s.keptLine); s.dropKept(old); s.line = l; s.hasLine = ok; return ok;
    }
    case L_COMP: {
        int ret = -99; double pr[4] = {0, 0, 0, 0}; S->count[K_FLOWS]++;
        bool ok = call(op, faults, [&]() { ret = SgQuadLineFlows_computeProjections(&s.h); for (int k = 0; k < 4; ++k) SgQuadLineFlows_getProjection(&s.h, k, &pr[k]); });
        bool hit = solverFired(); if (!ok) return false;
        if (is("C12")) for (int k = 0; k < 2; ++k) { std::vector<InBuf*>& v = k ? s.keptQuad : s.keptLine; for (size_t i = 0; i < v.size(); ++i) if (!v[i]->intact()) fail("C12", "input-modified", "operation %d modified an array of its caller", op.id); }
        out(ret); for (int k = 0; k < 4; ++k) out(pr[k]);
        if (is("C20")) {
            std::vector<P> q = toPoly(s.q1); Real u[2], v[2]; bool in = true, far = false; Real cell = fabsl(model::polyArea(q))/perimeter(q); Real ext = 0; for (int i = 0; i < 4; ++i) ext = std::max(ext, std::max(fabsl(q[(size_t) i].x), fabsl(q[(size_t) i].y)));
            for (int e = 0; e < 2; ++e) { P p = {s.line[(size_t) 2*e], s.line[(size_t) 2*e + 1]}; if (!model::invBilinear(q, p, u[e], v[e])) { return true; } Real m = std::max(std::max(-u[e], u[e] - 1), std::max(-v[e], v[e] - 1)); if (m > 1e-9L) in = false; if (m > 1e-6L + 1e-8L/cell) far = true; }
            if (far && ret == 0) fail("C20", "outside-not-reported", "operation %d: an end point of the line is outside of the quad and no error is returned", op.id);
            Real jmin = INFINITY, jmax = 0; for (size_t c = 0; c < 4; ++c) { Real j = fabsl(model::cross(q[c], q[(c + 1) % 4], q[(c + 3) % 4])); jmin = std::min(jmin, j); jmax = std::max(jmax, j); }
            if (in && ret != 0 && !hit && (s.kind < 2 || jmin > .3L*jmax)) fail("C20", "inside-not-found", "operation %d: the line is inside of the quad, which is a parallelogram or not far from one, and error %d is returned", op.id, ret);
            if (in && ret == 0) {
                Real du = u[1] - u[0], dv = v[1] - v[0], um = .5L*(u[0] + u[1]), vm = .5L*(v[0] + v[1]), e[4] = {du*(1 - vm), du*vm, dv*(1 - um), dv*um}, tol = (1e-9L + 2e-10L*perimeter(q))/cell + 1e-12L*ext/cell + 1e-11L;
                for (int k = 0; k < 4; ++k) if (!(fabsl(pr[k] - e[k]) <= tol)) fail("C20", "wrong-projection", "operation %d: success is returned, projection %d is %.12g and should be %.12Lg", op.id, k, pr[k], e[k]);
            }
        }
        return true;
    }
    }
    return true;
}

// ================================================================ linear solver
bool doSolve(Slot& s, const Op& op, bool faults) {
    switch (op.code) {
    case S_NEW: s.nrow = std::max(1, op.a[0]); s.ncol = std::max(1, op.a[1]); return call(op, faults, [&]() { SgLinearSolve_new(&s.h, s.nrow, s.ncol); });
    case S_DEL: return call(op, false, [&]() { SgLinearSolve_del(&s.h); });
    case S_MAT: {
        rt::Rng r(op.seed); std::vector<double> m((size_t) s.nrow*s.ncol); double sc = pow(10., op.a[1]);
        for (int i = 0; i < s.nrow; ++i) for (int j = 0; j < s.ncol; ++j) m[(size_t) i*s.ncol + j] = sc*(r.uni(-1, 1) + (i == j ? (s.nrow + s.ncol) : 0));
        if (op.a[0] == 3) { // well conditioned without a heavy diagonal: turned in a few planes
            for (int i = 0; i < s.nrow; ++i) for (int j = 0; j < s.ncol; ++j) m[(size_t) i*s.ncol + j] = i == j ? sc*r.uni(.5, 2)*(r.p(.5) ? 1 : -1) : 0;
            for (int k = 0; k < 3*(s.nrow + s.ncol); ++k) {
                bool rows = r.p(.5); int w = rows ? s.nrow : s.ncol, l = rows ? s.ncol : s.nrow; if (w < 2) continue;
                int a = r.range(0, w - 1), b = (a + r.range(1, w - 1))%w; double t = r.uni(0, 6.283185307179586), c = cos(t), d = sin(t);
                for (int q = 0; q < l; ++q) { double& x = m[(size_t)(rows ? a*s.ncol + q : q*s.ncol + a)]; double& y = m[(size_t)(rows ? b*s.ncol + q : q*s.ncol + b)]; double X = c*x - d*y; y = d*x + c*y; x = X; }
            }
        }
        if (op.a[0] == 1) { int c = r.range(0, std::min(s.nrow, s.ncol) - 1); if (s.nrow >= s.ncol) for (int i = 0; i < s.nrow; ++i) m[(size_t) i*s.ncol + c] = 0;
            if (s.nrow <= s.ncol) for (int j = 0; j < s.ncol; ++j) m[(size_t) c*s.ncol + j] = 0; } // exactly rank deficient
        if (op.a[0] == 2) for (int i = 0; i < s.nrow; ++i) if (i != s.nrow - 1 - i) for (int j = 0; j < s.ncol && i < s.nrow/2; ++j) std::swap(m[(size_t) i*s.ncol + j], m[(size_t)(s.nrow - 1 - i)*s.ncol + j]); // rows permuted
        Inputs in(bufMode()); const double* p = in.d(m); bool ok = call(op, faults, [&]() { SgLinearSolve_setMatrix(&s.h, p); });
        checkInputs(in, op); s.mat = m; s.matOk = ok; s.solved = false; s.kind = op.a[0]; return ok;
    }
    case S_RHS: {
        rt::Rng r(op.seed); std::vector<double> b((size_t) s.nrow); double sc = pow(10., op.a[1]); for (size_t i = 0; i < b.size(); ++i) b[i] = sc*r.uni(-2, 2); if (op.a[0] == 1) for (size_t i = 0; i < b.size(); ++i) b[i] = 0;
        Inputs in(bufMode()); const double* p = in.d(b); bool ok = call(op, faults, [&]() { SgLinearSolve_setRightHandSide(&s.h, p); });
        checkInputs(in, op); s.rhs = b; s.rhsOk = ok; s.solved = false; return ok;
    }
    case S_SOLVE: {
        int ret = -99; bool ok = call(op, faults, [&]() { ret = SgLinearSolve_solve(&s.h); });
        s.solveRet = ret; bool hit = solverFired(); s.tainted = hit; s.solved = ok; s.matOk = s.rhsOk = false; if (!ok) return false;
        out(ret); S->count[K_SOLVES]++;
        if (is("C19")) {
            if (hit && ret == 0) fail("C19", "failure-swallowed", "operation %d: the solver reported a failure and the caller was told that all is well", op.id);
            if (!hit && s.kind == 1 && ret <= 0) fail("C19", "singular-not-reported", "operation %d: the matrix has a zero row or column and the solve returned %d", op.id, ret);
            if (!hit && s.kind != 1 && ret != 0) fail("C19", "failure-invented", "operation %d: the matrix is regular and the solve returned %d", op.id, ret);
        }
        return true;
    }
    case S_GET: {
        double* x = 0; double res = -1; bool ok = call(op, faults, [&]() { SgLinearSolve_getSolution(&s.h, &x); SgLinearSolve_getResidual(&s.h, &res); });
        if (!ok) return false;
        std::vector<double> v(x, x + s.ncol); if (s.solveRet == 0) { for (int i = 0; i < s.ncol; ++i) out(v[(size_t) i]); out(res); } // undefined after a failure
        if (is("C19")) {
            int n = s.nrow, m = s.ncol; Real norm = 0, xn = 0, sum = 0; for (size_t i = 0; i < s.mat.size(); ++i) norm = std::max(norm, (Real) fabs(s.mat[i])); for (int i = 0; i < m; ++i) xn = std::max(xn, (Real) fabs(v[(size_t) i]));
            std::vector<Real> r((size_t) n); for (int i = 0; i < n; ++i) { Real t = -(Real) s.rhs[(size_t) i]; for (int j = 0; j < m; ++j) t += (Real) s.mat[(size_t) i*m + j]*v[(size_t) j]; r[(size_t) i] = t; sum += fabsl(t); }
            Real tol = 0; for (int i = 0; i < n; ++i) tol = std::max(tol, (Real) fabs(s.rhs[(size_t) i])); tol = 1e-12L*(norm*xn*m*n + std::max((Real) 1e-250L, tol));
            if (!(fabsl(sum - res) <= tol*n) && std::isfinite((double) sum)) fail("C19", "wrong-residual", "operation %d: residual reported %.12g, the residual of the solution is %.12Lg", op.id, res, sum);
            if (s.solveRet == 0 && !s.tainted && s.kind != 1) {
                if (n <= m) { for (int i = 0; i < n; ++i) if (!(fabsl(r[(size_t) i]) <= 1e3L*tol)) fail("C19", "not-a-solution", "operation %d: equation %d of %dx%d is violated by %.3Lg", op.id, i, n, m, r[(size_t) i]); }
                else { for (int j = 0; j < m; ++j) { Real t = 0; for (int i = 0; i < n; ++i) t += (Real) s.mat[(size_t) i*m + j]*r[(size_t) i]; if (!(fabsl(t) <= 1e3L*tol*norm*n)) fail("C19", "not-least-squares", "operation %d: the residual of the %dx%d system is not orthogonal to column %d (%.3Lg)", op.id, n, m, j, t); } }
                if (n < m) { // minimum norm: x = A^T y, solve A A^T y = b by elimination
                    std::vector<std::vector<Real> > M((size_t) n, std::vector<Real>((size_t) n + 1, 0)); for (int i = 0; i < n; ++i) { for (int k = 0; k < n; ++k) for (int j = 0; j < m; ++j) M[(size_t) i][(size_t) k] += (Real) s.mat[(size_t) i*m + j]*s.mat[(size_t) k*m + j]; M[(size_t) i][(size_t) n] = s.rhs[(size_t) i]; }
                    for (int c = 0; c < n; ++c) { int p = c; for (int i = c; i < n; ++i) if (fabsl(M[(size_t) i][(size_t) c]) > fabsl(M[(size_t) p][(size_t) c])) p = i; std::swap(M[(size_t) c], M[(size_t) p]); for (int i = 0; i < n; ++i) if (i != c) { Real f = M[(size_t) i][(size_t) c]/M[(size_t) c][(size_t) c]; for (int k = c; k <= n; ++k) M[(size_t) i][(size_t) k] -= f*M[(size_t) c][(size_t) k]; } }
                    for (int j = 0; j < m; ++j) { Real t = 0; for (int i = 0; i < n; ++i) t += (Real) s.mat[(size_t) i*m + j]*M[(size_t) i][(size_t) n]/M[(size_t) i][(size_t) i]; if (!(fabsl(t - v[(size_t) j]) <= 1e-9L*(xn + fabsl(t)))) fail("C19", "not-minimum-norm", "operation %d: component %d of the %dx%d system is %.12g, the smallest solution has %.12Lg", op.id, j, n, m, v[(size_t) j], t); }
                }
            }
        }
        return true;
    }
    }
    return true;
}

// ================================================================ simple objects
// kinds: 0 box iterator, 1 line, 2 triangle, 3 tetrahedron, 4 tripolar grid, 5 octree, 6 hull of a point set, 7 side iterator
static Real hullArea(std::vector<double> v) { // monotone chain
    std::vector<std::pair<double, double> > p; for (size_t i = 0; i + 1 < v.size(); i += 2) p.push_back(std::make_pair(v[i], v[i + 1]));
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    if (p.size() < 3) return 0;
    std::vector<size_t> h;
    for (int pass = 0; pass < 2; ++pass) {
        size_t base = h.size();
        for (size_t k = 0; k < p.size(); ++k) {
            size_t i = pass ? p.size() - 1 - k : k;
            while (h.size() >= base + 2) { const std::pair<double, double>&a = p[h[h.size() - 2]], &b = p[h.back()], &c = p[i]; if (((Real) b.first - a.first)*((Real) c.second - a.second) - ((Real) b.second - a.second)*((Real) c.first - a.first) > 0) break; h.pop_back(); }
            h.push_back(i);
        }
        h.pop_back();
    }
    Real s = 0; for (size_t i = 0; i < h.size(); ++i) { const std::pair<double, double>&a = p[h[i]], &b = p[h[(i + 1) % h.size()]]; s += ((Real) a.first - p[0].first)*((Real) b.second - p[0].second) - ((Real) a.second - p[0].second)*((Real) b.first - p[0].first); }
    return s/2;
}
bool newMisc(Slot& s, const Op& op, bool faults) {
    int k = s.kind, big = op.a[1]; rt::Rng r(op.seed); Inputs in(bufMode()); bool ok = true;
    if (k == 0) {
        int nd = big ? r.range(1, 6) : r.range(1, 3); std::vector<int> a, b; s.ext.clear(); long total = 1; int far = big && r.p(.3) ? 1000000 : 3, wide = big ? (r.p(.5) ? 12 : 60000) : 5;
        for (int i = 0; i < nd; ++i) { int e = wide > 100 && r.p(.5) ? r.range(1, 6) : r.range(1, wide); if (total*e > 2000000000L) e = 1; if (big == 2 && r.p(.1)) e = 0; total *= e; a.push_back(r.range(-far, far)); b.push_back(a.back() + e); s.ext.push_back(e); }
        s.lo = a; s.nrow = nd; const int* p = in.i(a); const int* q = in.i(b); ok = call(op, faults, [&]() { SgBoxIterator_new(&s.h, nd, p, q); });
    } else if (k <= 3) {
        const double* p[4]; s.poly.clear(); double m = big ? pow(10., r.range(-300, 300)) : 1;
        bool common = big && r.p(.2), odd = big && r.p(.15); int layout = big ? r.range(0, 4) : 0; std::vector<double> all; // layout 1: one array of all points, 2: overlapping parts of an array
        for (int i = 0; i < 4; ++i) {
            std::vector<double> v; for (int c = 0; c < 3; ++c) v.push_back(r.p(.05) && big ? 0. : m*r.uni(-1, 1));
            if (common && i) { int c = r.range(0, 2); v[(size_t) c] = s.poly[(size_t) c]; }
            if (odd && r.p(.3)) { static const double w[] = {NAN, INFINITY, -INFINITY, -0., 5e-324, 1.7976931348623157e308}; v[(size_t) r.range(0, 2)] = w[r.range(0, 5)]; }
            if (big && i && r.p(.1)) { int q = r.range(0, i - 1); v.assign(s.poly.begin() + 3*q, s.poly.begin() + 3*q + 3); }
            if (layout == 2 && i) { int sh = r.range(1, 3), at = (int) all.size(); for (int c = 0; c < sh; ++c) all.push_back(v[(size_t) c]); at = (int) all.size() - 3; v.assign(all.begin() + at, all.begin() + at + 3); } else all.insert(all.end(), v.begin(), v.end());
            s.poly.insert(s.poly.end(), v.begin(), v.end()); s.ext.push_back((int) all.size() - 3);
        }
        if (layout == 1 || layout == 2) { const double* q = in.d(all); for (int i = 0; i < 4; ++i) p[i] = q + s.ext[s.ext.size() - 4 + (size_t) i]; }
        else for (int i = 0; i < 4; ++i) { std::vector<double> v(s.poly.begin() + 3*i, s.poly.begin() + 3*i + 3); p[i] = in.d(v); }
        s.ext.clear();
        if (big && r.p(.3)) { int i = r.range(0, 2), j = r.range(i + 1, 3); p[j] = p[i]; std::copy(s.poly.begin() + 3*i, s.poly.begin() + 3*i + 3, s.poly.begin() + 3*j); } // the caller hands in one array twice
        s.handedD.assign(4, 0); s.handedI.assign(10, 0);
        ok = call(op, faults, [&]() { if (k == 1) SgLine_new(&s.h, p[0], p[1]); else if (k == 2) SgTriangle_new(&s.h, p[0], p[1], p[2]); else SgTetrahedron_new(&s.h, p[0], p[1], p[2], p[3]); });
    } else if (k == 8) ok = call(op, faults, [&]() { simParser_new(&s.h); });
    else if (k == 9) { s.h = &s; return true; } // functions, there is no object
    else if (k == 4) {
        int hi = big == 2 && r.p(.03) ? 150 : big ? 40 : 9; std::vector<int> d; d.push_back(r.range(big ? 3 : 4, hi)); d.push_back(r.range(big ? 3 : 4, r.p(.5) ? hi : 2*hi)); if (big == 2 && plan.prop == "C21" && r.p(.001)) { d[0] = r.range(4, 6); d[1] = r.range(32000, 70000); if (r.p(.5)) std::swap(d[0], d[1]); } s.nrow = d[0]; s.ncol = d[1];
        int cap = r.range(1, d[0] - 2); s.cap = cap; const int* p = in.i(d); ok = call(op, faults, [&]() { SgTripolarGrid_new(&s.h, p, cap); });
    }
    else if (k == 5) {
        int nd = r.range(1, big ? 4 : 3), np = r.range(big ? 1 : 2, big ? 40 : 12), nl = r.range(1, big ? (nd == 1 ? 9 : nd == 2 ? 5 : 3) : 3); std::vector<double> v; double m = big ? pow(10., r.range(-3, 5)) : 1, far = big && r.p(.3) ? 100*m : 0; bool flat = big && r.p(.1); int lattice = r.range(0, 2);
        for (int i = 0; i < nd*np; ++i) v.push_back(flat && i % nd == 0 ? far + m : far + m*(lattice == 1 ? r.range(-8, 8)*.125 : r.uni(-1, 1)));
        s.nrow = nd; s.ncol = nl; s.poly = v; const double* p = in.d(v); ok = call(op, faults, [&]() { SgOctreePoints_new(&s.h, nl, nd, np, p); });
    } else if (k == 6) {
        int np = r.range(big == 2 ? 0 : 3, big ? (r.p(.1) ? 120 : 45) : 9); std::vector<double> v; double m = big ? pow(10., r.range(-1, 3)) : 1; int w = big ? r.range(0, 6) : 0, cells = r.range(1, 6); double fx = big && r.p(.2) ? 8*m*r.range(-9, 9) : 0, fy = fx ? 8*m*r.range(-9, 9) : 0, dx = r.range(-3, 3), dy = r.range(-3, 3);
        if (w == 4) m = pow(2., r.range(-3, 9)), fx = m*(int) (fx/m), fy = m*(int) (fy/m);
        for (int i = 0; i < np; ++i) {
            double x = r.p(.3) ? r.range(-2, 2)*.5 : r.uni(-1, 1), y = r.p(.3) ? r.range(-2, 2)*.5 : r.uni(-1, 1);
            if (w == 1) { x = r.range(-cells, cells); y = r.range(-cells, cells); }              // lattice: many on common lines, many the same
            if (w == 2) { int t = r.range(-9, 9); x = dx*t; y = dy*t; if (r.p(.08)) y += r.range(-4, 4); } // all but a few on one line
            if (w == 3) { x = r.p(.5) ? r.range(-1, 1) : r.uni(-1, 1); y = x*x; }                 // all of them corners
            if (w == 6) { double t = 6.283185307179586*(r.p(.5) ? r.uni(0, 1) : r.uni(0, .1)); x = cos(t); y = sin(t); } // corners all, many of them nearly flat
            if (w == 4) { static const int c[][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}, {0, 0}}; int t = r.range(0, 12); x = c[t][0]; y = c[t][1]; } // at the same distance from the centre
            double px = fx + m*x, py = fy + m*y; // points closer than 1e-6 count as equal, so there are none unless they are equal
            for (size_t k2 = 0; k2 + 1 < v.size(); k2 += 2) if (fabs(v[k2] - px) < 1e-5 && fabs(v[k2 + 1] - py) < 1e-5) { px = v[k2]; py = v[k2 + 1]; break; }
            v.push_back(px); v.push_back(py);
        }
        s.poly = v; s.nrow = np; const double* p = in.d(v); ok = call(op, faults, [&]() { SgTriangulate_new(&s.h, np, p); });
    } else { s.nrow = r.range(1, big ? 6 : 3); s.cur = 0; ok = call(op, faults, [&]() { simSideIterator_new(&s.h, s.nrow); }); }
    checkInputs(in, op);
    return ok;
}
bool getSides(Slot& s, const Op& op, bool faults) {
    rt::Rng r(op.seed); int n = -1, total = 1; for (int i = 0; i < s.nrow; ++i) total *= 3;
    if (!call(op, faults, [&]() { simSideIterator_num(&s.h, &n); })) return false;
    out(n); if (is("C22") && n != total) fail("C22", "wrong-number", "operation %d: %d sides in %d dimensions instead of %d", op.id, n, s.nrow, total);
    bool walk = plan.prop == "C22"; if (!walk || r.p(.2)) { call(op, false, [&]() { simSideIterator_reset(&s.h); }); s.cur = 0; }
    int steps = walk ? r.range(1, r.p(.3) ? total + 3 : 12) : std::min(total, 100);
    for (int i = 0; i < steps; ++i) {
        if ((int) s.cur < total) {
            int side[8] = {9, 9, 9, 9, 9, 9, 9, 9}, m = 0;
            if (!call(op, faults && i == 0, [&]() { m = simSideIterator_get(&s.h, side, 8); })) return false;
            size_t c = s.cur; if (is("C22") && m != s.nrow) fail("C22", "wrong-number", "operation %d: a side of %d components in %d dimensions", op.id, m, s.nrow);
            for (int d = s.nrow - 1; d >= 0; --d) { int want = (int) (c % 3) - 1; c /= 3; if (is("C22") && side[d] != want) fail("C22", "wrong-side", "operation %d: component %d of side %zu of %d is %d instead of %d", op.id, d, s.cur, total, side[d], want); }
            for (int d = 0; d < s.nrow; ++d) out(side[d]);
        }
        if ((int) s.cur >= total) { if (r.p(.5)) break; call(op, false, [&]() { simSideIterator_reset(&s.h); }); s.cur = 0; continue; }
        int end = -1; call(op, false, [&]() { end = simSideIterator_next(&s.h); }); s.cur++; out(end);
        if (is("C22") && end != ((int) s.cur < total ? 0 : 1)) fail("C22", "wrong-end", "operation %d: moving to side %zu of %d reports %d", op.id, s.cur, total, end);
    }
    return true;
}
bool getOctree(Slot& s, const Op& op, bool faults) {
    rt::Rng r(op.seed); int nd = s.nrow, nl = s.ncol, np = (int) s.poly.size()/nd; std::vector<double> lo((size_t) nd, INFINITY), hi((size_t) nd, -INFINITY);
    for (size_t i = 0; i < s.poly.size(); ++i) { lo[i % (size_t) nd] = std::min(lo[i % (size_t) nd], s.poly[i]); hi[i % (size_t) nd] = std::max(hi[i % (size_t) nd], s.poly[i]); }
    int first = r.range(0, np - 1), many = std::min(np, 8) + 4;
    for (int q = 0; q < many; ++q) {
        std::vector<double> x((size_t) nd); if (q < std::min(np, 8)) for (int d = 0; d < nd; ++d) x[(size_t) d] = s.poly[(size_t) (((first + q) % np)*nd + d)]; else for (int d = 0; d < nd; ++d) x[(size_t) d] = r.p(.3) ? (r.p(.5) ? lo[(size_t) d] : hi[(size_t) d]) : lo[(size_t) d] + (hi[(size_t) d] - lo[(size_t) d])*(r.p(.3) ? r.range(0, 16)/16. : r.uni(0, 1));
        std::vector<int> deep;
        for (int l = nl; l >= 1; --l) {
            Inputs in(bufMode()); const double* p = in.d(x); int key[16], n = 0; for (int i = 0; i < 16; ++i) key[i] = -7;
            if (!call(op, faults && q == 0 && l == nl, [&]() { n = simOctree_key(&s.h, p, l, key, 16); })) return false;
            checkInputs(in, op); for (int i = 0; i < n && i < 16; ++i) out(key[i]);
            if (is("C23")) {
                if (n != l) fail("C23", "wrong-depth", "operation %d: the key of a point at level %d has %d parts", op.id, l, n);
                for (int i = 0; i < l; ++i) if (key[i] < 0 || key[i] >= 1 << nd) fail("C23", "wrong-key", "operation %d: part %d of the key of a point at level %d is %d, there are %d parts of a box", op.id, i, l, key[i], 1 << nd);
                if (l == nl) deep.assign(key, key + l); else for (int i = 0; i < l; ++i) if (key[i] != deep[(size_t) i]) fail("C23", "not-nested", "operation %d: at level %d a point lies in part %d of the box of level %d, at level %d in part %d", op.id, nl, deep[(size_t) i], i, l, key[i]);
            }
            double a[8], b[8]; int m = 0; if (!call(op, false, [&]() { m = simOctree_box(&s.h, key, l, a, b, 8); })) return false;
            for (int d = 0; d < m && d < 8; ++d) { out(a[d]); out(b[d]); }
            if (is("C23")) {
                if (m != nd) fail("C23", "wrong-box", "operation %d: a box of %d sides in %d dimensions", op.id, m, nd);
                for (int d = 0; d < nd; ++d) {
                    double w = hi[(size_t) d] - lo[(size_t) d], tol = 1e-12*(w + std::max(fabs(lo[(size_t) d]), fabs(hi[(size_t) d])));
                    if (!(x[(size_t) d] >= a[d] - tol && x[(size_t) d] <= b[d] + tol)) fail("C23", "point-outside-box", "operation %d: coordinate %d of a point is %.15g, its box at level %d reaches from %.15g to %.15g", op.id, d, x[(size_t) d], l, a[d], b[d]);
                    if (!(fabs((b[d] - a[d]) - w/(1 << l)) <= tol)) fail("C23", "wrong-box", "operation %d: side %d of a box at level %d is %.15g long, that of all points %.15g", op.id, d, l, b[d] - a[d], w);
                }
            }
        }
    }
    return true;
}
bool getSimplex(Slot& s, const Op& op, bool faults) {
    int k = s.kind, n = -1, np = k + 1; const char* name = k == 1 ? "line" : k == 2 ? "triangle" : "tetrahedron";
    if (!call(op, faults, [&]() { if (k == 1) SgLine_getNumberOfPoints(&s.h, &n); else if (k == 2) SgTriangle_getNumberOfPoints(&s.h, &n); else SgTetrahedron_getNumberOfPoints(&s.h, &n); })) return false;
    out(n); if (is("C24") && n != np) fail("C24", "wrong-number", "operation %d: a %s of %d points", op.id, name, n);
    for (size_t i = 0; i < s.handedD.size(); ++i) if (const double* p = s.handedD[i]) if (is("C24")) for (int c = 0; c < 3; ++c) if (bitsOf(p[c]) != bitsOf(s.poly[i*3 + (size_t) c])) fail("C24", "lost", "operation %d: coordinate %d of point %zu of the %s, handed out before, now reads %.17g instead of %.17g", op.id, c, i, name, p[c], s.poly[i*3 + (size_t) c]);
    rt::Rng r(op.seed); int turn = r.range(0, 3);
    for (int j = 0; j < n && j < 8; ++j) {
        int i = plan.prop == "C24" ? (j + turn) % n : j; double* p = 0; if (!call(op, false, [&]() { if (k == 1) SgLine_getPoint(&s.h, i, &p); else if (k == 2) SgTriangle_getPoint(&s.h, i, &p); else SgTetrahedron_getPoint(&s.h, i, &p); })) return false;
        for (int c = 0; c < 3; ++c) { out(p[c]); if (is("C24") && bitsOf(p[c]) != bitsOf(s.poly[(size_t) (i*3 + c)])) fail("C24", "wrong-point", "operation %d: coordinate %d of point %d of the %s is %.17g instead of %.17g", op.id, c, i, name, p[c], s.poly[(size_t) (i*3 + c)]); }
        if (i < 4) s.handedD[(size_t) i] = p;
    }
    if (k == 1) return true;
    int ne = -1, nf = 0; if (!call(op, false, [&]() { if (k == 2) SgTriangle_getNumberOfEdges(&s.h, &ne); else { SgTetrahedron_getNumberOfEdges(&s.h, &ne); SgTetrahedron_getNumberOfFaces(&s.h, &nf); } })) return false;
    out(ne); out(nf); if (is("C24") && (ne != (k == 2 ? 3 : 6) || nf != (k == 2 ? 0 : 4))) fail("C24", "wrong-number", "operation %d: a %s of %d edges and %d faces", op.id, name, ne, nf);
    unsigned edges = 0, faces = 0;
    for (int i = 0; i < ne && i < 8; ++i) {
        int* e = 0; if (!call(op, false, [&]() { if (k == 2) SgTriangle_getEdge(&s.h, i, &e); else SgTetrahedron_getEdge(&s.h, i, &e); })) return false;
        out(e[0]); out(e[1]); if (e[0] < 0 || e[1] < 0 || e[0] >= np || e[1] >= np || e[0] == e[1]) { if (is("C24")) fail("C24", "wrong-edge", "operation %d: edge %d of the %s joins points %d and %d", op.id, i, name, e[0], e[1]); continue; }
        unsigned bit = 1u << ((1 << e[0]) | (1 << e[1])); if (is("C24") && (edges & bit)) fail("C24", "wrong-edge", "operation %d: edge %d of the %s joins points %d and %d, as another does", op.id, i, name, e[0], e[1]); edges |= bit;
        if (is("C24") && s.handedI[(size_t) i] && s.handedI[(size_t) i] != e) fail("C24", "moved", "operation %d: edge %d of the %s is not where it was", op.id, i, name); s.handedI[(size_t) i] = e;
    }
    for (int i = 0; i < nf && i < 8; ++i) {
        int* f = 0; if (!call(op, false, [&]() { SgTetrahedron_getFace(&s.h, i, &f); })) return false;
        unsigned set = 0; for (int c = 0; c < 3; ++c) { out(f[c]); if (f[c] >= 0 && f[c] < 4) set |= 1u << f[c]; }
        if (is("C24") && (__builtin_popcount(set) != 3 || (faces & (1u << set)))) fail("C24", "wrong-face", "operation %d: face %d of the tetrahedron has the corners %d, %d and %d", op.id, i, f[0], f[1], f[2]); faces |= 1u << set;
    }
    return true;
}
bool getBox(Slot& s, const Op& op, bool faults) {
    int n = -1; if (!call(op, faults, [&]() { SgBoxIterator_getNumberOfElements(&s.h, &n); })) return false;
    out(n); long total = 1; for (size_t d = 0; d < s.ext.size(); ++d) total *= s.ext[d];
    if (is("C22") && n != total) fail("C22", "wrong-number", "operation %d: %d elements in a box of %ld", op.id, n, total);
    rt::Rng r(op.seed); int all = std::min(n, 200), some = n > 200 ? 60 : 0; bool back = plan.prop == "C22" && r.p(.3);
    for (int q = 0; q < all + some; ++q) {
        int i = q < all ? (back ? all - 1 - q : q) : q == all ? n - 1 : (int) r.below((uint64_t) n), ind[8], again = -1; for (int d = 0; d < 8; ++d) ind[d] = -5;
        call(op, false, [&]() { SgBoxIterator_getElement(&s.h, i, ind); });
        Inputs in(bufMode()); const int* p = in.i(std::vector<int>(ind, ind + s.nrow)); call(op, false, [&]() { SgBoxIterator_getIndex(&s.h, p, &again); }); checkInputs(in, op);
        for (int d = 0; d < s.nrow; ++d) out(ind[d]); out(again);
        if (is("C22")) {
            long rest = i; for (int d = s.nrow - 1; d >= 0; --d) { int want = s.lo[(size_t) d] + (int) (rest % s.ext[(size_t) d]); rest /= s.ext[(size_t) d]; if (ind[d] != want) fail("C22", "wrong-index-set", "operation %d: index %d of element %d of %d is %d instead of %d", op.id, d, i, n, ind[d], want); }
            if (again != i) fail("C22", "not-inverse", "operation %d: the flat index of element %d of %d is %d", op.id, i, n, again);
            for (int d = s.nrow; d < 8; ++d) if (ind[d] != -5) fail("C22", "wrong-index-set", "operation %d: index %d of an element in %d dimensions was written", op.id, d, s.nrow);
        }
    }
    return true;
}
// ---------------------------------------------------------------- grids of latitudes and longitudes, and others
static void onSphere(Real lat, Real lon, Real* x) { Real d = acosl(-1)/180; x[0] = cosl(lat*d)*cosl(lon*d); x[1] = cosl(lat*d)*sinl(lon*d); x[2] = sinl(lat*d); }
static Real apart(const Real* a, const Real* b) { return std::max(std::max(fabsl(a[0] - b[0]), fabsl(a[1] - b[1])), fabsl(a[2] - b[2])); }
bool getTripolar(Slot& s, const Op& op, bool faults) {
    int nlat = s.nrow, nlon = s.ncol, d[2] = {-1, -1}; size_t n = (size_t) nlat*nlon; bool c21 = is("C21");
    if (c21) for (size_t i = 0; i < s.gridVals.size(); ++i) if (bitsOf(s.handedG[i/n][i % n]) != bitsOf(s.gridVals[i])) fail("C21", "changed", "operation %d: coordinate %zu of node %zu, handed out earlier, is %.15g, it was %.15g", op.id, i/n, i % n, s.handedG[i/n][i % n], s.gridVals[i]);
    double** c = 0; if (!call(op, faults, [&]() { SgTripolarGrid_getGrid(&s.h, d, &c); })) return false;
    out(d[0]); out(d[1]); for (size_t i = 0; i < n; ++i) { out(c[0][i]); out(c[1][i]); }
    if (!c21) return true;
    if (d[0] != nlon || d[1] != nlat) fail("C21", "wrong-size", "operation %d: a grid of %d latitudes and %d longitudes is said to have %d and %d", op.id, nlat, nlon, d[1], d[0]);
    if (!s.gridVals.empty() && (s.handedG[0] != c[0] || s.handedG[1] != c[1])) fail("C21", "moved", "operation %d: the coordinates are not where they were", op.id);
    if (!s.gridVals.empty()) { // once is enough
        for (size_t i = 0; i < 2*n; ++i) if (bitsOf(c[i/n][i % n]) != bitsOf(s.gridVals[i])) fail("C21", "changed", "operation %d: coordinate %zu of node %zu is %.15g, it was %.15g", op.id, i/n, i % n, c[i/n][i % n], s.gridVals[i]);
        return true;
    }
    s.handedG.assign(c, c + 2); s.gridVals.assign(c[0], c[0] + n); s.gridVals.insert(s.gridVals.end(), c[1], c[1] + n);
    Real pi = acosl(-1), rad = 180/pi, dlat = pi/(nlat - 1), dlon = 2*pi/(nlon - 1), per = pi - s.cap*dlat, dcap = pi/2/(nlat - s.cap - 1);
    for (int j = 0; j < nlat; ++j) for (int i = 0; i < nlon; ++i) {
        size_t k = (size_t) j*nlon + i; double lat = c[0][k], lon = c[1][k], lo = j < s.cap ? -90 : (double) (90 - per*rad);
        if (!(lat >= lo - 1e-9 && lat <= 90 + 1e-9)) fail("C21", "latitude-out-of-range", "operation %d: latitude %.15g of node %d, %d of %d, %d (cap from %d on) lies outside of [%.15g, 90]", op.id, lat, j, i, nlat, nlon, s.cap, lo);
        if (!(lon >= -180 - 1e-9 && lon <= 180 + 1e-9)) fail("C21", "longitude-out-of-range", "operation %d: longitude %.15g of node %d, %d of %d, %d (cap from %d on)", op.id, lon, j, i, nlat, nlon, s.cap);
        Real a[3], b[3]; onSphere(lat, lon, a);
        if (j < s.cap) {
            Real wlat = -90 + j*dlat*rad, wlon = -180 + i*dlon*rad;
            if (!(fabsl(lat - wlat) <= 1e-9 && fabsl(lon - wlon) <= 1e-9)) fail("C21", "not-lat-lon", "operation %d: node %d, %d of %d, %d below the cap (from %d on) is at %.15g, %.15g instead of %.15Lg, %.15Lg", op.id, j, i, nlat, nlon, s.cap, lat, lon, wlat, wlon);
            continue;
        }
        // in the cap: the image of a grid of confocal lines, the two halves fold onto each other in the last row
        int h = i < nlon/2 ? i : nlon - 1 - i; Real p = -pi/2 + h*dlon, e = pi/2 - (j - s.cap)*dcap, dist = acosl(std::min((Real) 1, std::max((Real) -1, cosl(e)*cosl(p)))), wlon = -atan2l(sinl(e)*std::max((Real) 0, cosl(p)), sinl(p));
        if (j == nlat - 1) wlon = p < 0 ? -pi : 0;
        if (i >= nlon/2) wlon = -wlon;
        onSphere(90 - 2*atanl(tanl(per/2)*tanl(dist/2))*rad, wlon*rad, b);
        if (!(apart(a, b) <= 3e-7L)) fail("C21", "off-the-cap", "operation %d: node %d, %d of %d, %d (cap from %d on) at %.15g, %.15g is %.3Lg away from its place at longitude %.15Lg", op.id, j, i, nlat, nlon, s.cap, lat, lon, apart(a, b), wlon*rad);
        if (j == s.cap && !(fabs(lat - lo) <= 1e-9 && fabsl(lon - (-180 + i*dlon*rad)) <= 1e-9)) { Real w[3]; onSphere(lo, -180 + i*dlon*rad, w); if (!(apart(a, w) <= 1e-9L)) fail("C21", "gap", "operation %d: node %d of the first row of the cap is at %.15g, %.15g, its column is at longitude %.15Lg and the cap begins at %.15g", op.id, i, lat, lon, -180 + i*dlon*rad, lo); }
    }
    for (int i = 0; i < nlon; ++i) { // the last row meets itself
        size_t k = (size_t) (nlat - 1)*nlon; Real a[3], b[3]; onSphere(c[0][k + i], c[1][k + i], a); onSphere(c[0][k + nlon - 1 - i], c[1][k + nlon - 1 - i], b);
        if (!(apart(a, b) <= 3e-7L)) fail("C21", "no-fold", "operation %d: nodes %d and %d of the last row of %d by %d nodes are %.3Lg apart", op.id, i, nlon - 1 - i, nlat, nlon, apart(a, b));
    }
    // seen from the pole, the cells of a half do not overlap: all have the same sense of rotation
    for (int j = s.cap; j + 1 < nlat; ++j) for (int i = 0; i + 1 < nlon; ++i) {
        if (i < nlon/2 && i + 1 >= nlon/2 && nlon % 2 == 0) continue; // the two halves are joined here
        static const int di[] = {0, 1, 1, 0}, dj[] = {0, 0, 1, 1}; Real x[4], y[4], area = 0, size = 0;
        for (int q = 0; q < 4; ++q) { size_t k = (size_t) (j + dj[q])*nlon + i + di[q]; Real r = tanl((90 - c[0][k])/rad/2), t = c[1][k]/rad; x[q] = r*cosl(t); y[q] = r*sinl(t); size = std::max(size, fabsl(r)); }
        for (int q = 0; q < 4; ++q) area += (x[q]*y[(q + 1) % 4] - x[(q + 1) % 4]*y[q])/2;
        if (!(area > -1e-7L*size*size)) fail("C21", "cell-turned-over", "operation %d: cell %d, %d of %d by %d nodes (cap from %d on) has the area %.3Lg as seen from the pole", op.id, j, i, nlat, nlon, s.cap, area);
    }
    return true;
}
bool makeGrids(Slot& s, const Op& op, bool faults) {
    rt::Rng r(op.seed); int what = r.range(0, 7), hi = plan.prop != "C26" ? 8 : r.p(.03) ? 260 : r.p(.3) ? 60 : 9; bool c26 = is("C26"); Inputs in(bufMode()); Real pi = acosl(-1);
    if (what >= 6) {
        std::vector<double> a, b; for (int i = 0; i < 9; ++i) a.push_back(r.uni(-2, 2)); for (int i = 0; i < (what == 6 ? 9 : 3); ++i) b.push_back(r.p(.1) ? 0 : r.uni(-2, 2));
        const double* p = in.d(a); const double* q = in.d(b); OutBuf o(b.size());
        if (!call(op, faults, [&]() { if (what == 6) matrixDotMatrix(p, q, o.d()); else matrixDotVector(p, q, o.d()); })) return false;
        checkInputs(in, op); checkOut(o, op); int w = what == 6 ? 3 : 1;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < w; ++j) { Real x = 0; for (int k = 0; k < 3; ++k) x += (Real) a[(size_t) (3*i + k)]*b[(size_t) (w*k + j)]; out(o[(size_t) (w*i + j)]); if (c26 && !(fabsl(x - o[(size_t) (w*i + j)]) <= 1e-13L)) fail("C26", "wrong-product", "operation %d: element %d, %d of a product is %.15g instead of %.15Lg", op.id, i, j, o[(size_t) (w*i + j)], x); }
        return true;
    }
    what /= 2; std::vector<int> d; d.push_back(r.range(2, hi)); d.push_back(r.range(2, hi)); if (hi == 260 && r.p(.02)) { int k = r.range(0, 1); d[(size_t) k] = r.range(30000, 70000); d[(size_t) (1 - k)] = r.range(2, 5); } if (what == 2 && r.p(.5)) { static const int div[] = {1, 2, 3, 4, 5, 6, 9, 10, 12, 18, 36, 180, 360}; int k = hi > 9 ? 12 : 4; d[0] = div[r.range(0, k)] + 1; d[1] = div[r.range(0, hi > 60 ? k : 4)]*2 + 1; }
    size_t n = (size_t) d[0]*d[1]; OutBuf x(n), y(n); std::vector<double> u(2), v(2); double m = pow(10., r.range(-3, 3)), radius = 0, dla = 0, dlo = 0;
    for (int i = 0; i < 2; ++i) { u[(size_t) i] = r.p(.3) ? 0 : m*r.uni(-1, 1); v[(size_t) i] = r.p(.2) ? m : m*r.uni(-1, 1); }
    radius = m*(r.p(.3) ? 1 : r.uni(.1, 5)); dla = r.p(.3) ? r.range(-36, 36)*2.5 : r.p(.3) ? r.range(-90, 180) : r.uni(-180, 180); dlo = r.p(.4) ? r.range(-36, 36)*5 : r.uni(-180, 360);
    const int* pd = in.i(d); const double* pu = in.d(u); const double* pv = in.d(v); double* co[2] = {x.d(), y.d()};
    if (!call(op, faults, [&]() { if (what == 0) createRectangularGrid(pd, pu, pv, co); else if (what == 1) createPolarGrid(pd, pu, radius, co); else createRotatedPoleGrid(pd, dla, dlo, co); })) return false;
    checkInputs(in, op); checkOut(x, op); checkOut(y, op);
    for (size_t i = 0; i < n; ++i) { out(x[i]); out(y[i]); }
    if (!c26) return true;
    Real ca = cosl(dla*pi/180), sa = sinl(dla*pi/180), cb = cosl(dlo*pi/180), sb = sinl(dlo*pi/180);
    for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) {
        size_t k = (size_t) i*d[1] + j; Real fi = (Real) i/(d[0] - 1), fj = (Real) j/(d[1] - 1);
        if (what < 2) {
            Real wx = what == 0 ? u[0] + ((Real) v[0] - u[0])*fi : u[0] + radius*fi*cosl(2*pi*fj), wy = what == 0 ? u[1] + ((Real) v[1] - u[1])*fj : u[1] + radius*fi*sinl(2*pi*fj), tol = 1e-12L*(what == 0 ? m : m + radius);
            if (!(fabsl(x[k] - wx) <= tol && fabsl(y[k] - wy) <= tol)) fail("C26", "wrong-node", "operation %d: node %d, %d of a %s grid of %d by %d nodes is at %.15g, %.15g instead of %.15Lg, %.15Lg", op.id, i, j, what ? "polar" : "rectangular", d[0], d[1], x[k], y[k], wx, wy);
        } else {
            if (!(x[k] >= -90 - 1e-10 && x[k] <= 90 + 1e-10 && y[k] >= -180 - 1e-10 && y[k] <= 180 + 1e-10)) fail("C26", "out-of-range", "operation %d: node %d, %d of a rotated pole grid of %d by %d nodes, displaced by %.15g and %.15g, is at latitude %.15g and longitude %.15g", op.id, i, j, d[0], d[1], dla, dlo, x[k], y[k]);
            Real a[3], b[3], q[3]; onSphere(x[k], y[k], a); onSphere(-90 + 180*fi, -180 + 360*fj, q);
            Real t0 = ca*q[0] + sa*q[2], t2 = -sa*q[0] + ca*q[2], t1 = q[1]; b[0] = cb*t0 + sb*t1; b[1] = -sb*t0 + cb*t1; b[2] = t2;
            Real cl = sqrtl(b[0]*b[0] + b[1]*b[1]), tol = 1e-11L + 1e-15L/std::max(cl, (Real) 1e-8L);
            if (!(apart(a, b) <= tol)) fail("C26", "wrong-node", "operation %d: node %d, %d of a rotated pole grid of %d by %d nodes, displaced by %.15g and %.15g, is at latitude %.15g and longitude %.15g, %.3Lg from where the rotation puts it", op.id, i, j, d[0], d[1], dla, dlo, x[k], y[k], apart(a, b));
        }
    }
    return true;
}
// ---------------------------------------------------------------- command lines
static std::string number(rt::Rng& r, bool whole, double* v = 0) {
    char b[64]; int k = r.range(0, 9);
    if (whole) { int i = k < 6 ? r.range(-50, 50) : k < 8 ? r.range(-2000000000, 2000000000) : k == 8 ? 2147483647 : -2147483647 - 1; snprintf(b, sizeof b, k == 0 && i >= 0 ? "+%d" : k == 1 && i >= 0 ? "0%d" : "%d", i); }
    else { double d = k < 5 ? r.range(-800, 800)*.125 : k < 8 ? r.uni(-1, 1)*pow(10., r.range(-12, 12)) : r.uni(-1, 1)*pow(10., r.range(-300, 300)); snprintf(b, sizeof b, k == 0 ? "%.2e" : k == 1 ? "%+g" : k == 2 ? "%.3f" : "%.17g", d); if (k == 3 && fabs(d) < 1 && d != 0) { std::string t = b; size_t z = t.find("0."); if (z != std::string::npos && t.find('e') == std::string::npos) { t.erase(z, 1); return t; } } }
    return b;
}
static std::string words(rt::Rng& r) {
    static const char* w[] = {"", "a", "file.vtk", "two words", "x=1", "a,b", "0", "-", "1.5e3", "\xc3\xa9t\xc3\xa9", "%s%n", "/tmp/x y.txt", "--"}; std::string s = w[r.range(0, 11)];
    if (r.p(.2)) { int n = r.range(14, 300); while ((int) s.size() < n) s += (char) r.range('a', 'z'); }
    return s;
}
static std::string list(rt::Rng& r, bool whole) { std::string s; int n = r.range(1, r.p(.1) ? 40 : 6); for (int i = 0; i < n; ++i) s += (i ? r.p(.3) ? ", " : "," : "") + number(r, whole); return s; }
static bool splitList(const std::string& s, bool whole, std::vector<double>& v) { // true if it is a clean list of numbers
    v.clear(); if (s.empty()) return true;
    for (size_t at = 0; at <= s.size();) {
        size_t e = s.find(',', at); if (e == std::string::npos) e = s.size(); std::string t = s.substr(at, e - at); char* end = 0; double d = whole ? (double) strtol(t.c_str(), &end, 10) : strtod(t.c_str(), &end);
        if (t.empty() || *end || end == t.c_str() || (whole && fabs(d) > 2147483648.)) return false;
        v.push_back(d); at = e + 1;
    }
    return true;
}
bool useParser(Slot& s, const Op& op, bool faults) {
    static const char* names[] = {"-n", "-nx", "-ny", "--n", "--nx", "-x", "-verbose", "--file", "-l", "-list"}; static const int NN = 10;
    static const char* unknown[] = {"--nope", "-", "-n=5", "-nxx", "--fil", "-verbos", "-N", "--"};
    rt::Rng r(op.seed); bool c25 = plan.prop == "C25", first = true; Options& m = s.opts;
    if (c25 && m.of[3].empty() && m.of[2].empty()) { Options::Opt o = {0, "", true}; m.of[3]["-h"] = o; m.of[3]["--help"] = o; }
    Options local; Options& M = c25 ? m : local; // elsewhere an operation declares all that it asks for
    auto declare = [&]() {
        int type = r.range(0, 3), nm = r.range(0, NN - 1); std::string name = names[nm]; Options::Opt o; o.n = 0; o.sure = true;
        std::string num = type == 0 ? number(r, false) : number(r, true); if (type == 0) o.n = strtod(num.c_str(), 0); if (type == 1) o.n = (double) strtol(num.c_str(), 0, 10); if (type == 3) o.n = r.range(0, 1);
        if (type == 2) o.s = r.p(.4) ? words(r) : list(r, r.p(.5));
        Inputs in(bufMode()); const char* pn = in.s(name); const char* ps = in.s(o.s); const char* ph = in.s(words(r)); int how = type == 2 ? r.range(2, 3) : type == 3 ? 4 : type;
        M.of[type][name] = o; M.of[type][name].sure = false;
        bool ok = call(op, faults && first, [&]() { simParser_set(&s.h, how, pn, o.n, (int) o.n, ps, ph); }); first = false; checkInputs(in, op);
        if (ok) M.of[type][name] = o;
        else if (r.p(.5)) call(op, false, [&]() { simParser_text(&s.h, 0, ""); }); // what was only half declared must not be in the way
        return ok;
    };
    auto parse = [&]() {
        std::vector<std::string> a; a.push_back(r.p(.2) ? words(r) : "prog"); bool refuse = false; int n = r.range(0, 9); Options was = M;
        for (int i = 0; i < n; ++i) {
            std::string name = c25 && r.p(.05) ? (r.p(.5) ? "-h" : "--help") : names[r.range(0, NN - 1)]; bool has[4]; for (int t = 0; t < 4; ++t) has[t] = M.of[t].count(name) > 0;
            if (r.p(.08)) { std::string w = words(r); if (w.size() >= 2 && w[0] == '-') w = "w"; a.push_back(w); continue; } // not an option
            if (!(has[0] || has[1] || has[2] || has[3])) { if (!c25 || !r.p(.3)) continue; a.push_back(name); refuse = true; continue; }
            if (r.p(.02)) { std::string u = unknown[r.range(0, 7)]; bool known = u.size() < 2; for (int t = 0; t < 4; ++t) known |= M.of[t].count(u) > 0; a.push_back(u); if (!known) refuse = true; continue; }
            a.push_back(name); if (has[3]) M.of[3][name].n = !M.of[3][name].n;
            if (!(has[0] || has[1] || has[2])) continue;
            if (i == n - 1 && r.p(.3)) break; // the value is missing
            std::string v = has[1] ? number(r, true) : has[0] ? number(r, false) : r.p(.3) ? number(r, false) : r.p(.5) ? list(r, r.p(.5)) : words(r);
            if (v.size() >= 2 && v[0] == '-' && !(isdigit(v[1]) || v[1] == '.')) v = "v";
            a.push_back(v); if (has[0]) M.of[0][name].n = strtod(v.c_str(), 0); if (has[1]) M.of[1][name].n = (double) (int) strtol(v.c_str(), 0, 10); if (has[2]) M.of[2][name].s = v;
            for (int t = 0; t < 3; ++t) if (has[t]) M.of[t][name].sure = true;
        }
        if (refuse) M = was;
        Inputs in(bufMode()); std::vector<const double*> av; for (size_t i = 0; i < a.size(); ++i) av.push_back((const double*) in.s(a[i])); av.push_back(0); const char** pa = (const char**) in.pp(av);
        int ret = -1; bool ok = call(op, faults && first, [&]() { ret = simParser_parse(&s.h, (int) a.size(), pa); }); first = false; checkInputs(in, op);
        if (!ok) { M = was; for (int t = 0; t < 4; ++t) for (size_t i = 1; i < a.size(); ++i) if (M.of[t].count(a[i])) M.of[t][a[i]].sure = false; return false; }
        out(ret); if (is("C25") && ret != (refuse ? 0 : 1)) { std::string t; for (size_t i = 1; i < a.size(); ++i) t += " '" + a[i].substr(0, 40) + "'"; fail("C25", refuse ? "unknown-accepted" : "refused", "operation %d: the command line%.300s is %s", op.id, t.c_str(), ret ? "accepted" : "refused"); }
        return true;
    };
    auto ask = [&]() {
        std::vector<std::string> all(names, names + NN); if (c25) { all.push_back("-h"); all.push_back("--help"); all.push_back("-never"); } int from = r.range(0, (int) all.size() - 1);
        for (size_t q = 0; q < all.size(); ++q) for (int t = 0; t < 4; ++t) {
            const std::string& name = all[(q + from) % all.size()]; std::map<std::string, Options::Opt>::const_iterator it = M.of[t].find(name); bool there = it != M.of[t].end();
            if (!c25 && !there) continue;
            if (there && !it->second.sure) continue;
            Inputs in(bufMode()); const char* pn = in.s(name); bool f = faults && first; first = false;
            if (t != 2) {
                double got = 0, want = there ? it->second.n : t == 0 ? -1.7976931348623157e308 : t == 1 ? -2147483647. : 0;
                if (!call(op, f, [&]() { simParser_number(&s.h, t, pn, &got); })) return false;
                out(got); if (is("C25") && bitsOf(got + 0.) != bitsOf(want + 0.)) fail("C25", there ? "wrong-value" : "not-neutral", "operation %d: %s option %s is %.17g, it should be %.17g", op.id, t == 0 ? "number" : t == 1 ? "whole number" : "switch", name.c_str(), got, want);
            } else {
                char buf[2048]; int n = 0, how = r.range(2, 3); std::string want = there ? it->second.s : "";
                if (!call(op, f, [&]() { n = simParser_string(&s.h, how, pn, buf, sizeof buf); })) return false;
                std::string got(buf, (size_t) std::max(0, std::min(n, (int) sizeof buf))); out(n); uint64_t h = 0; for (size_t i = 0; i < got.size(); ++i) h = rt::mix(h, (unsigned char) got[i]); out((double) (h >> 12));
                if (is("C25") && got != want) fail("C25", there ? "wrong-value" : "not-neutral", "operation %d: text option %s is '%.60s' (%zu characters), it should be '%.60s' (%zu)", op.id, name.c_str(), got.c_str(), got.size(), want.c_str(), want.size());
                std::vector<double> w; int whole = r.range(0, 1); if (!splitList(want, whole, w)) continue;
                double v[64]; if (!call(op, false, [&]() { n = simParser_list(&s.h, whole, pn, v, 64); })) return false;
                out(n); for (int i = 0; i < n && i < 64; ++i) out(v[i]);
                if (is("C25")) {
                    if (n != (int) w.size()) fail("C25", "wrong-list", "operation %d: the list '%.80s' has %d elements", op.id, want.c_str(), n);
                    for (int i = 0; i < n && i < 64; ++i) if (bitsOf(v[i] + 0.) != bitsOf(w[(size_t) i] + 0.)) fail("C25", "wrong-list", "operation %d: element %d of the list '%.80s' is %.17g", op.id, i, want.c_str(), v[i]);
                }
            }
        }
        return true;
    };
    if (!c25) {
        for (int i = r.range(1, 4); i > 0; --i) if (!declare()) return false;
        if (r.p(.8) && !parse()) return false;
        if (r.p(.3)) { Inputs in(bufMode()); const char* p = in.s(words(r)); int w = r.range(0, 2); if (!call(op, false, [&]() { simParser_text(&s.h, w, p); })) return false; }
        return ask();
    }
    for (int i = r.range(1, 5); i > 0; --i) {
        int k = r.range(0, 9); bool ok = true;
        if (k < 4) ok = declare(); else if (k < 7) ok = parse(); else if (k < 9) ok = ask();
        else { Inputs in(bufMode()); const char* p = in.s(words(r)); int w = r.range(0, 2); ok = call(op, faults && first, [&]() { simParser_text(&s.h, w, p); }); first = false; checkInputs(in, op); }
        if (!ok) return false;
    }
    return ask();
}
bool doMisc(Slot& s, const Op& op, bool faults) {
    if (op.code == M_NEW) { s.kind = op.a[0] % 10; return newMisc(s, op, faults); }
    int k = s.kind;
    if (op.code == M_DEL) return call(op, false, [&]() { switch (k) { case 0: SgBoxIterator_del(&s.h); break; case 1: SgLine_del(&s.h); break; case 2: SgTriangle_del(&s.h); break; case 3: SgTetrahedron_del(&s.h); break; case 4: SgTripolarGrid_del(&s.h); break; case 8: simParser_del(&s.h); break; case 9: s.h = 0; break; case 5: SgOctreePoints_del(&s.h); break; case 6: SgTriangulate_del(&s.h); break; default: simSideIterator_del(&s.h); } });
    if (k == 0) return getBox(s, op, faults);
    if (k <= 3) return getSimplex(s, op, faults);
    if (k == 5) return getOctree(s, op, faults);
    if (k == 7) return getSides(s, op, faults);
    if (k == 4) return getTripolar(s, op, faults);
    if (k == 8) return useParser(s, op, faults);
    if (k == 9) return makeGrids(s, op, faults);
    double a = -1; if (!call(op, faults, [&]() { SgTriangulate_getConvexHullArea(&s.h, &a); })) return false;
    out(a);
    if (is("C27")) {
        Real want = hullArea(s.poly); double x0 = INFINITY, x1 = -INFINITY, y0 = INFINITY, y1 = -INFINITY, far = 0; for (size_t i = 0; i + 1 < s.poly.size(); i += 2) { x0 = std::min(x0, s.poly[i]); x1 = std::max(x1, s.poly[i]); y0 = std::min(y0, s.poly[i + 1]); y1 = std::max(y1, s.poly[i + 1]); far = std::max(far, std::max(fabs(s.poly[i]), fabs(s.poly[i + 1]))); }
        double size = s.poly.size() < 4 ? 0 : (x1 - x0) + (y1 - y0), tol = 1e-9*size*size + 1e-10 + 1e-14*far*size;
        if (!(fabsl(want - a) <= tol)) fail("C27", "wrong-area", "operation %d: the hull of %d points has the area %.15Lg, reported is %.15g", op.id, s.nrow, want, a);
    }
    return true;
}

// ================================================================ the calls of one thread
static int typeOf(int code) { return code <= C_DEL ? 1 : code <= F_DEL ? 2 : code <= N_DEL ? 3 : code <= P_DEL ? 4 : code <= V_DEL ? 5 : code <= Q_DEL ? 6 : code <= I_DEL ? 7 : code <= L_DEL ? 8 : code <= S_DEL ? 9 : 10; }
static bool isNew(int c) { return c == C_NEW || c == F_NEW || c == N_NEW || c == P_NEW || c == V_NEW || c == Q_NEW || c == I_NEW || c == L_NEW || c == S_NEW || c == M_NEW; }
static bool isDel(int c) { return c == C_DEL || c == F_DEL || c == N_DEL || c == P_DEL || c == V_DEL || c == Q_DEL || c == I_DEL || c == L_DEL || c == S_DEL || c == M_DEL; }
static int delOf(int type) { static const int d[] = {0, C_DEL, F_DEL, N_DEL, P_DEL, V_DEL, Q_DEL, I_DEL, L_DEL, S_DEL, M_DEL}; return d[type]; }
static bool allowed(const Slot& s, int c) { // what the documentation allows in this state
    switch (c) {
    case C_COMP: case F_COMP: case N_COMP: return s.hasSrc && s.hasDst;
    case C_APPLY: case C_CUR: case F_APPLY: case N_APPLY: return s.comp;
    case P_RESET: return s.hasSrc;
    case P_NEXT: return s.hasReset && !s.done;
    case P_LOOK: return s.hasReset;
    case V_FIND: return s.hasSrc && s.hasDst;
    case V_GET: return s.found;
    case Q_GET: return s.hasQuad;
    case I_GET: case L_COMP: return s.hasQuad && s.hasLine;
    case L_LINE: return s.hasQuad;
    case S_SOLVE: return s.matOk && s.rhsOk;
    case S_GET: return s.solved;
    case M_GET: return true;
    }
    return true;
}
static bool isOutput(int c) { return c == C_COMP || c == C_APPLY || c == C_CUR || c == F_APPLY || c == N_APPLY || c == P_NEXT || c == P_LOOK || c == V_GET || c == Q_GET || c == I_GET || c == L_COMP || c == S_SOLVE || c == S_GET || c == M_GET; }
void remember(Slot& s, const Op& op) { // the calls that determine the state of the handle
    static const int kills[][5] = {{C_SRC, C_SRC, C_COMP, C_CUR, 0}, {C_DST, C_DST, C_COMP, C_CUR, 0}, {C_COMP, C_COMP, C_CUR, 0, 0}, {F_SRC, F_SRC, F_COMP, 0, 0}, {F_DST, F_DST, F_COMP, 0, 0}, {F_COMP, F_COMP, 0, 0, 0},
        {N_SRC, N_SRC, N_COMP, 0, 0}, {N_DST, N_DST, N_COMP, 0, 0}, {N_COMP, N_COMP, 0, 0, 0}, {P_GRID, P_GRID, P_RESET, P_NEXT, 0}, {P_RESET, P_RESET, P_NEXT, 0, 0}, {V_GRID, V_GRID, V_FIND, 0, 0}, {V_POLY, V_POLY, V_FIND, 0, 0}, {V_FIND, V_FIND, 0, 0, 0},
        {Q_SET, Q_SET, 0, 0, 0}, {I_QUAD, I_QUAD, 0, 0, 0}, {I_LINE, I_LINE, 0, 0, 0}, {L_QUAD, L_QUAD, 0, 0, 0}, {L_LINE, L_LINE, 0, 0, 0}, {S_MAT, S_MAT, S_SOLVE, 0, 0}, {S_RHS, S_RHS, S_SOLVE, 0, 0}, {S_SOLVE, S_SOLVE, 0, 0, 0}};
    if (op.code == C_APPLY || op.code == F_APPLY || op.code == N_APPLY || op.code == P_LOOK || op.code == V_GET || op.code == Q_GET || op.code == I_GET || op.code == L_COMP || op.code == S_GET || op.code == M_GET) return;
    for (size_t k = 0; k < sizeof kills/sizeof *kills; ++k) if (kills[k][0] == op.code) {
        std::vector<Op> keep;
        for (size_t i = 0; i < s.eff.size(); ++i) { bool dead = false; for (int j = 1; j < 5; ++j) dead |= kills[k][j] && kills[k][j] == s.eff[i].code; if (!dead) keep.push_back(s.eff[i]); }
        s.eff.swap(keep); break;
    }
    s.eff.push_back(op); s.eff.back().faults.clear();
}
bool dispatch(Slot& s, const Op& op, bool faults) {
    switch (typeOf(op.code)) {
    case 1: return doConserve(s, op, faults); case 2: return doFlow(s, op, faults); case 3: return doNode(s, op, faults); case 4: return doFinder(s, op, faults); case 5: return doOverlap(s, op, faults);
    case 6: return doQuad(s, op, faults); case 7: return doLine(s, op, faults); case 8: return doFlows(s, op, faults); case 9: return doSolve(s, op, faults); default: return doMisc(s, op, faults);
    }
}
bool wantFresh(const Slot& s, const Op& op) const {
    if (quiet || !opts.oracles || !isOutput(op.code) || s.tainted || opHit) return false;
    return plan.prop == "C10" || plan.prop == "C14" || plan.prop == "C17";
}
void compareWithFresh(Slot& s, const Op& op, const std::vector<double>& got) {
    Slot f; bool q = quiet; quiet = true; std::vector<double> keep = outv;
    for (size_t i = 0; i < s.eff.size(); ++i) { outv.clear(); dispatch(f, s.eff[i], false); if (i == 0) f.eff.push_back(s.eff[0]); }
    if (op.code != C_COMP && op.code != C_CUR && op.code != P_NEXT && op.code != S_SOLVE) { outv.clear(); dispatch(f, op, false); } // the others are the last of the list already
    std::vector<double> ref = outv;
    Op d; d.code = delOf(s.type); d.id = op.id; d.seed = op.seed; dispatch(f, d, false); f.h = 0;
    quiet = q; outv = keep; S->count[K_FRESH]++;
    bool same = got.size() == ref.size(); size_t at = 0; double big = 0;
    for (size_t i = 0; i < ref.size(); ++i) if (std::isfinite(ref[i])) big = std::max(big, fabs(ref[i]));
    for (size_t i = 0; same && i < ref.size(); ++i) {
        bool eq = bitsOf(got[i]) == bitsOf(ref[i]) || (std::isnan(got[i]) && std::isnan(ref[i])) || fabs(got[i] - ref[i]) <= 1e-10*big || got[i] == ref[i];
        if (!eq) { same = false; at = i; }
    }
    if (!same) {
        const char* kind = plan.prop == "C10" ? "differs-from-fresh-handle" : plan.prop == "C14" ? "not-recovered-from-failed-allocation" : "not-recovered-from-solver-failure";
        if (got.size() != ref.size()) fail(plan.prop.c_str(), kind, "operation %d (%s) delivered %zu values, a fresh handle with the same settings delivers %zu", op.id, opNames[op.code], got.size(), ref.size());
        fail(plan.prop.c_str(), kind, "operation %d (%s): value %zu of %zu is %.15g, a fresh handle with the same settings delivers %.15g", op.id, opNames[op.code], at, ref.size(), got[at], ref[at]);
    }
}
void record(const Op& op) {
    if (!opts.record) return;
    for (size_t i = 0; i < outv.size(); ++i) { if (S->nout >= MAXOUT) { S->outOverflow = 1; return; } OutRec& o = S->out[S->nout++]; o.op = op.id; o.seq = (int) i; o.bits = bitsOf(outv[i]); if (std::isnan(outv[i])) o.bits = 0x7ff8ull << 48; S->count[K_OUTS]++; }
}
void drawResult(const Slot& s, const Op& op, const std::vector<double>& got) { // for a comparison with a process that did nothing else
    if (s.eff.size() > 1000 || got.empty() || got.size() > 20000 || !draw.p(1./++S->effSeen)) return;
    S->effOp = op.id; S->effN = 0; bool last = false;
    for (size_t i = 0; i < s.eff.size(); ++i) { S->effIds[S->effN++] = s.eff[i].id; last |= s.eff[i].id == op.id; }
    if (!last) S->effIds[S->effN++] = op.id;
    S->nout = 0; for (size_t i = 0; i < got.size(); ++i) { OutRec& o = S->out[S->nout++]; o.op = op.id; o.seq = (int) i; o.bits = bitsOf(got[i]); }
}
void step(const Op& op, int thread) {
    S->curOp[thread & 7] = op.id; curOpId = op.id;
    std::unique_ptr<Slot>& sp = slots[std::make_pair(thread, op.slot)];
    if (isNew(op.code)) { if (sp) { S->count[K_SKIPPED]++; return; } sp.reset(new Slot()); sp->type = typeOf(op.code); }
    else if (!sp || sp->type != typeOf(op.code) || !allowed(*sp, op.code)) { S->count[K_SKIPPED]++; return; }
    Slot& s = *sp; outv.clear(); opHit = false;
    bool ok = dispatch(s, op, true);
    S->opHash = rt::mix(S->opHash, (uint64_t) op.code*131 + (uint64_t) thread*17 + (uint64_t) op.slot + (ok ? 0 : 1000003) + (uint64_t) rt::firedInCallKind(rt::F_SOLVER)*7919 + op.seed*(op.code < 0));
    if (isDel(op.code)) { sp.reset(); return; }
    if (!ok) {
        if (isNew(op.code)) {
            if (s.h) { Op d = op; d.code = delOf(s.type); d.faults.clear(); dispatch(s, d, false); s.h = 0; } // what was built so far goes back
        } else if (op.a[9] == 1) { // the caller gives up
            Op d = op; d.code = delOf(s.type); d.faults.clear(); dispatch(s, d, false); sp.reset(); S->count[K_ABANDONED]++; return;
        } else if (op.a[9] == 2) poke(s, op);
        // once memory is available again the same call succeeds
        S->count[K_RETRIED]++; outv.clear();
        ok = dispatch(s, op, false);
        if (!ok) fail(plan.prop.c_str(), "retry-failed", "operation %d failed again although no fault was injected", op.id);
    }
    if (!s.eff.empty()) s.reuse++;
    std::vector<double> got = outv;
    remember(s, op);
    record(op);
    if (wantFresh(s, op)) { drawResult(s, op, got); compareWithFresh(s, op, got); }
    heapProbe(op);
}
void poke(Slot& s, const Op& op) { // a failed computation leaves a handle that can still be called
    if (op.code == C_COMP) {
        std::vector<double> data(s.src.cells(), 1.); OutBuf o(s.dst.cells());
        call(op, false, [&]() { SgConserveInterp2D_apply(&s.h, &data[0], o.d()); }); checkOut(o, op);
        call(op, false, [&]() { SgConserveInterp2D_reset(&s.h); int a, b; double w; for (int i = 0; i < 50; ++i) { SgConserveInterp2D_get(&s.h, &a, &b, &w); if (SgConserveInterp2D_next(&s.h)) break; } });
    } else if (op.code == F_COMP) {
        const Grid& g = s.src; std::vector<double> e0((size_t)(g.n0 - 1)*g.n1, 1.), e1((size_t) g.n0*(g.n1 - 1), 1.); const double* e[] = {&e0[0], &e1[0]}; OutBuf o(s.lineX.size() - 1);
        call(op, false, [&]() { SgFlowInterp2D_apply(&s.h, e, o.d()); }); checkOut(o, op);
    } else if (op.code == N_COMP) {
        std::vector<double> data(s.src.nodes(), 1.); OutBuf o(s.dst.nodes());
        call(op, false, [&]() { SgNodeInterp2D_apply(&s.h, &data[0], o.d()); }); checkOut(o, op);
    }
}
void heapProbe(const Op& op) {
    if (plan.prop != "C16" && plan.prop != "C12") return;
    std::string what; if (!rt::heapCheck(what)) fail(plan.prop.c_str(), "heap", "%s after operation %d (%s)", what.c_str(), op.id, opNames[op.code]);
}
void cleanup(int thread) { // the caller deletes what it still has
    for (Slots::iterator it = slots.begin(); it != slots.end(); ++it) if (it->second && it->second->h) {
        Op d; d.code = delOf(it->second->type); d.id = 100000 + it->first.second; d.seed = 1; S->curOp[thread & 7] = d.id; curOpId = d.id; dispatch(*it->second, d, false); 
    }
    slots.clear();
}
void runThread(int t) {
    for (size_t i = 0; i < plan.ops.size(); ++i) if (plan.ops[i].thread == t) { rt::opBoundary(); step(plan.ops[i], t); }
}
