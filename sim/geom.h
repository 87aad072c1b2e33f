// Generators of grids, fields, polylines and polygons; everything is a function of the operation's arguments.
#pragma once
#include "model.h"
#include "rt.h"
#include "plan.h"

namespace geom {
using model::Grid; using model::P; using model::Real;
struct Frame { // affine map, physical = o + s * A * lattice
    double s, ox, oy, a, b, c, d;
    void map(double X, double Y, double& x, double& y) const { x = ox + s*(a*X + b*Y); y = oy + s*(c*X + d*Y); }
};
inline Frame makeFrame(const Plan& p) {
    static const double scales[] = {0.1, 0.5, 1, 1, 10, 100, 1000, 0.01, 3e-3, 1e-3, 1e4, 1e5, 1, 1, 1, 1};
    Frame f; f.s = scales[p.scale & 15]; rt::Rng r(p.frameSeed);
    double th = r.uni(0, 6.283185307179586), sh = r.uni(-.6, .6), as = r.p(.3) ? r.uni(.2, 3) : 1;
    double ox = r.uni(-3, 3), oy = r.uni(-3, 3); int far = r.range(0, 9);
    f.a = 1; f.b = 0; f.c = 0; f.d = 1; f.ox = f.oy = 0;
    if (p.frame & 1) { f.a = cos(th); f.b = -sin(th); f.c = sin(th); f.d = cos(th); }
    if (p.frame & 2) { f.b += sh*f.a; f.d += sh*f.c; f.b *= as; f.d *= as; }
    if (p.frame & 4) { f.ox = f.s*ox; f.oy = f.s*oy; }
    if (p.frame & 8) { f.b = -f.b; f.d = -f.d; } // mirror
    if ((p.frame & 16) && far < 5) { f.ox *= far ? 30 : 300; f.oy *= far ? 30 : 300; }
    return f;
}
// families
enum { G_UNIFORM = 0, G_NONUNIFORM, G_PERTURBED, G_ROTATED, G_ROTPERT, G_ANNULUS, G_DISK, G_TRANSPOSED, G_REVERSED, G_NFAM };
inline bool isParallel(int fam) { return fam == G_UNIFORM || fam == G_NONUNIFORM || fam == G_ROTATED || fam == G_TRANSPOSED || fam == G_REVERSED; }
inline bool isTame(int fam) { return fam != G_ANNULUS && fam != G_DISK; }
// The grid of an earlier call, but for a detail: a[10] 1 one node moved, 2 one node inside moved, 3 all nodes inside moved, 4 shifted,
// 5 stretched with the first node fixed, 6 last column (or row) moved out a little
inline void tweak(Grid& g, const int* a, const Frame& fr) {
    int k = a[10]; if (!k || !isTame(a[0])) return;
    rt::Rng r((uint64_t) a[11]*77 + 5); double amp = isParallel(a[0]) ? .2 : .04; std::vector<double> ox = g.x, oy = g.y;
    if (k == 4) { double sx = fr.s*r.uni(-.3, .3), sy = fr.s*r.uni(-.3, .3); for (size_t n = 0; n < g.nodes(); ++n) { g.x[n] += sx; g.y[n] += sy; } return; }
    if (k == 5) { double f = r.uni(.6, 1.3); for (size_t n = 1; n < g.nodes(); ++n) { g.x[n] = g.x[0] + f*(ox[n] - ox[0]); g.y[n] = g.y[0] + f*(oy[n] - oy[0]); } return; }
    if (k == 6) {
        double f = r.uni(.1, .5); bool row = r.p(.5);
        for (int i = 0; i < g.n0; ++i) for (int j = 0; j < g.n1; ++j) { if (row ? i != g.n0 - 1 : j != g.n1 - 1) continue; size_t n = (size_t) i*g.n1 + j, m = row ? n - (size_t) g.n1 : n - 1; g.x[n] += f*(ox[n] - ox[m]); g.y[n] += f*(oy[n] - oy[m]); }
        return;
    }
    int pi = r.range(0, g.n0 - 1), pj = r.range(0, g.n1 - 1);
    if (k >= 2) { if (g.n0 < 3 || g.n1 < 3) return; pi = r.range(1, g.n0 - 2); pj = r.range(1, g.n1 - 2); }
    for (int i = 0; i < g.n0; ++i) for (int j = 0; j < g.n1; ++j) {
        if (k == 3 ? i == 0 || j == 0 || i == g.n0 - 1 || j == g.n1 - 1 : i != pi || j != pj) continue;
        size_t n = (size_t) i*g.n1 + j; double e[4] = {0, 0, 0, 0};
        for (int d = 0; d < 2; ++d) { // the shorter of the edges in either direction
            double best = 1e300; for (int o = -1; o <= 1; o += 2) { int ii = i + (d == 0 ? o : 0), jj = j + (d == 1 ? o : 0); if (ii < 0 || jj < 0 || ii >= g.n0 || jj >= g.n1) continue; size_t m = (size_t) ii*g.n1 + jj; double ex = ox[m] - ox[n], ey = oy[m] - oy[n], l = hypot(ex, ey); if (l < best) { best = l; e[2*d] = ex; e[2*d + 1] = ey; } }
        }
        double p = (r.p(.5) ? 1 : -1)*r.uni(.3, 1)*amp, q = (r.p(.5) ? 1 : -1)*r.uni(.3, 1)*amp; if (k == 3) { p *= .5; q *= .5; }
        g.x[n] += p*e[0] + q*e[2]; g.y[n] += p*e[1] + q*e[3];
    }
}
// a: fam n0 n1 x0 x1 y0 y1 jitter; box in quarters of a lattice unit
inline Grid makeGrid(const Frame& fr, const int* a, uint64_t seed) {
    int fam = a[0]; Grid g; g.n0 = std::max(2, a[1]); g.n1 = std::max(2, a[2]);
    double x0 = a[3]*.25, x1 = a[4]*.25, y0 = a[5]*.25, y1 = a[6]*.25;
    if (!(x1 > x0)) x1 = x0 + 1;
    if (!(y1 > y0)) y1 = y0 + 1;
    rt::Rng r(seed);
    double th = r.uni(0, 6.283185307179586), pert = (fam == G_PERTURBED || fam == G_ROTPERT) ? r.uni(.05, .2) : 0;
    double rr0 = r.uni(.15, .6), t0 = r.uni(0, 6.283185307179586), dt = r.uni(.8, 5.2);
    bool full = r.p(.5);
    std::vector<double> u(g.n0), v(g.n1);
    { double s = 0; for (int i = 0; i < g.n0; ++i) { u[i] = s; s += r.uni(.5, 1.5); } for (int i = 0; i < g.n0; ++i) u[i] /= u[g.n0 - 1]; }
    { double s = 0; for (int i = 0; i < g.n1; ++i) { v[i] = s; s += r.uni(.5, 1.5); } for (int i = 0; i < g.n1; ++i) v[i] /= v[g.n1 - 1]; }
    if (fam == G_ANNULUS && full) dt = 6.283185307179586;
    if (fam == G_DISK) { dt = 6.283185307179586; rr0 = 0; }
    double cx = .5*(x0 + x1), cy = .5*(y0 + y1), rad = .5*std::min(x1 - x0, y1 - y0);
    g.x.resize(g.nodes()); g.y.resize(g.nodes());
    double jit = 0; // relative to the box
    if (a[7] > 0) jit = pow(10., -(double) a[7]);
    for (int i = 0; i < g.n0; ++i) for (int j = 0; j < g.n1; ++j) {
        double p = (double) i/(g.n0 - 1), q = (double) j/(g.n1 - 1), X, Y;
        if (fam == G_NONUNIFORM) { p = u[i]; q = v[j]; }
        if (fam == G_REVERSED) p = 1 - p;
        if (fam == G_TRANSPOSED) std::swap(p, q);
        if (pert > 0) { double e1 = r.uni(-pert, pert)/(g.n0 - 1), e2 = r.uni(-pert, pert)/(g.n1 - 1); p += e1; q += e2; }
        if (fam == G_ANNULUS || fam == G_DISK) {
            double R = rad*(rr0 + (1 - rr0)*p), t = t0 + dt*q;
            if (fam == G_DISK && i == 0) R = 0;
            X = cx + R*cos(t); Y = cy + R*sin(t);
            if (dt > 6.28 && j == g.n1 - 1) { X = cx + R*cos(t0); Y = cy + R*sin(t0); } // closed
        } else {
            X = x0 + (x1 - x0)*p; Y = y0 + (y1 - y0)*q;
            if (fam == G_ROTATED || fam == G_ROTPERT) { double dx = X - cx, dy = Y - cy; X = cx + cos(th)*dx - sin(th)*dy; Y = cy + sin(th)*dx + cos(th)*dy; }
        }
        if (jit > 0) { X += jit*r.uni(-1, 1); Y += jit*r.uni(-1, 1); }
        double x, y; fr.map(X, Y, x, y);
        g.x[(size_t) i*g.n1 + j] = x; g.y[(size_t) i*g.n1 + j] = y;
    }
    tweak(g, a, fr);
    return g;
}
// the family that tells what is true of the grid
inline int famOf(const int* a) { return isParallel(a[0]) && (a[10] == 1 || a[10] == 2 || a[10] == 3) ? (int) G_PERTURBED : a[0]; }
inline std::vector<double> field(size_t n, uint64_t seed, bool special = false) {
    rt::Rng r(seed); std::vector<double> v(n); int k = r.range(0, special ? 9 : 8);
    for (size_t i = 0; i < n; ++i) v[i] = k == 0 ? 1. : k == 1 ? r.uni(0, 1) : k == 2 ? (r.p(.2) ? 1. : 0.) : r.uni(-1, 1);
    if (k == 5) for (size_t i = 0; i < n; ++i) v[i] *= 1000;
    if (k == 6) { double f = r.p(.5) ? 1e30 : 1e-30; for (size_t i = 0; i < n; ++i) v[i] *= f; }
    if (k >= 8) { // missing values as callers mark them
        static const double m[] = {-9999, -999, 1e20, -1e34, 1e35, -1e300, 9.96921e36, 0, -0., 1e-280, 1e15}; double w = m[r.range(0, 10)], p = r.uni(.05, .5); if (k == 9) w = r.p(.7) ? NAN : r.p(.5) ? INFINITY : -INFINITY;
        for (size_t i = 0; i < n; ++i) if (r.p(p)) v[i] = w;
    }
    if (k == 7) for (size_t i = 0; i < n; ++i) v[i] *= pow(10., r.range(-12, 12));
    return v;
}
// polyline: a: kind npts x0 x1 y0 y1
inline void polyline(const Frame& fr, const int* a, uint64_t seed, std::vector<double>& x, std::vector<double>& y) {
    rt::Rng r(seed); int kind = a[0], n = std::max(2, a[1]); double x0 = a[2]*.25, x1 = a[3]*.25, y0 = a[4]*.25, y1 = a[5]*.25;
    x.clear(); y.clear(); double X = 0, Y = 0, pX = 1e9, pY = 1e9, fX = 0, fY = 0;
    for (int i = 0; i < n; ++i) {
        for (int tries = 0; tries < 50; ++tries) {
            if (kind == 0) { X = r.uni(x0, x1); Y = r.uni(y0, y1); }
            else if (kind == 1) { X = x0 + (x1 - x0)*r.range(0, 4)/4.; Y = y0 + (y1 - y0)*r.range(0, 4)/4.; } // lattice points
            else if (kind == 2) { if (i == 0) { X = x0 + (x1 - x0)*r.range(0, 4)/4.; Y = y0 + (y1 - y0)*r.range(0, 4)/4.; } else { X = pX; Y = pY; if (r.p(.5)) X = x0 + (x1 - x0)*r.range(0, 12)/12.; else Y = y0 + (y1 - y0)*r.range(0, 12)/12.; } } // along lattice lines
            else if (kind == 4) { double h = .06; if (i == 0) { X = r.uni(x0, x1); Y = r.uni(y0, y1); } else { X = pX + h*(x1 - x0)*r.uni(-1, 1); Y = pY + h*(y1 - y0)*r.uni(-1, 1); } } // short steps
            else { double t = 6.283185307179586*i/(n > 2 ? n - 1 : 1), ra = r.uni(.3, .7); X = .5*(x0 + x1) + ra*(x1 - x0)*cos(t); Y = .5*(y0 + y1) + ra*(y1 - y0)*sin(t); } // loop
            if (fabs(X - pX) + fabs(Y - pY) > 1e-2*(x1 - x0 + y1 - y0)/4) break;
        }
        if (i == 0) { fX = X; fY = Y; }
        if (kind == 3 && i == n - 1 && n > 3) { X = fX; Y = fY; }
        double xx, yy; fr.map(X, Y, xx, yy); x.push_back(xx); y.push_back(yy); pX = X; pY = Y;
    }
}
// convex polygon: a: kind npts x0 x1 y0 y1 (flat array out)
inline std::vector<double> polygon(const Frame& fr, const int* a, uint64_t seed) {
    rt::Rng r(seed); int kind = a[0], n = std::max(3, a[1]); double x0 = a[2]*.25, x1 = a[3]*.25, y0 = a[4]*.25, y1 = a[5]*.25;
    std::vector<double> res;
    if (kind == 0) n = 4;
    double cx = r.uni(x0, x1), cy = r.uni(y0, y1), ra = r.uni(.01, .7)*(x1 - x0), rb = r.uni(.01, .7)*(y1 - y0), t0 = r.uni(0, 6.28), dir = r.p(.5) ? 1 : -1;
    for (int i = 0; i < n; ++i) {
        double X, Y;
        if (kind == 0) { X = (i == 1 || i == 2) ? x1 : x0; Y = (i >= 2) ? y1 : y0; if (dir < 0) { X = (i == 2 || i == 3) ? x1 : x0; Y = (i == 1 || i == 2) ? y1 : y0; } }
        else { double t = t0 + dir*6.283185307179586*i/n; X = cx + ra*cos(t); Y = cy + rb*sin(t); }
        double x, y; fr.map(X, Y, x, y); res.push_back(x); res.push_back(y);
    }
    return res;
}
// convex quad: a[0] kind, a[1..4] box quarters
inline std::vector<double> quad(const Frame& fr, const int* a, uint64_t seed, int tweak = 0, int how = 0) { // tweak: one vertex moved
    rt::Rng r(seed); int kind = a[0]; double x0 = a[1]*.25, x1 = a[2]*.25, y0 = a[3]*.25, y1 = a[4]*.25;
    double th = r.uni(0, 6.28), cx = .5*(x0 + x1), cy = .5*(y0 + y1), pert = kind >= 2 ? r.uni(.02, .2) : 0; int rot = r.range(0, 3); bool rev = r.p(.3);
    std::vector<P> q;
    for (int i = 0; i < 4; ++i) {
        double p = (i == 1 || i == 2) ? 1 : 0, t = i >= 2 ? 1 : 0;
        if (pert > 0) { double e1 = r.uni(-pert, pert), e2 = r.uni(-pert, pert); p += e1; t += e2; }
        double X = x0 + (x1 - x0)*p, Y = y0 + (y1 - y0)*t;
        if (kind == 1 || kind == 3) { double dx = X - cx, dy = Y - cy; X = cx + cos(th)*dx - sin(th)*dy; Y = cy + sin(th)*dx + cos(th)*dy; }
        double x, y; fr.map(X, Y, x, y); q.push_back(P{x, y});
    }
    if (kind >= 4) { // any convex shape: points on an ellipse
        double t[4], o = r.uni(0, 6.283185307179586), sum = 0; for (int i = 0; i < 4; ++i) { t[i] = r.uni(.15, 1); sum += t[i]; }
        for (int i = 0; i < 4; ++i) { o += 6.283185307179586*t[i]/sum; double x, y; fr.map(cx + .5*(x1 - x0)*cos(o), cy + .5*(y1 - y0)*sin(o), x, y); q[(size_t) i] = P{x, y}; }
    }
    if (tweak) { rt::Rng w((uint64_t) how*31 + 9); size_t k = (size_t) w.range(0, 3), n = (k + 1)%4, m = (k + 3)%4; double f = w.uni(-.08, .08), h = w.uni(-.08, .08); q[k].x += f*(q[n].x - q[k].x) + h*(q[m].x - q[k].x); q[k].y += f*(q[n].y - q[k].y) + h*(q[m].y - q[k].y); q[k].x = (double) q[k].x; q[k].y = (double) q[k].y; }
    std::rotate(q.begin(), q.begin() + rot, q.end());
    if (rev) std::reverse(q.begin(), q.end());
    std::vector<double> o; for (int i = 0; i < 4; ++i) { o.push_back((double) q[i].x); o.push_back((double) q[i].y); }
    return o;
}
inline std::vector<P> toPoly(const std::vector<double>& f) { std::vector<P> p; for (size_t i = 0; i + 1 < f.size(); i += 2) p.push_back(P{f[i], f[i + 1]}); return p; }
// grids of any dimension for the point search
struct MGrid {
    int nd; int dims[3]; std::vector<double> c[3];
    size_t nodes() const { size_t n = 1; for (int i = 0; i < nd; ++i) n *= (size_t) dims[i]; return n; }
    void eval(const double* ind, Real* pos) const {
        int lo[3]; Real f[3];
        for (int i = 0; i < nd; ++i) { int k = (int) floor(ind[i]); k = std::max(0, std::min(k, dims[i] - 2)); lo[i] = k; f[i] = (Real) ind[i] - k; }
        for (int i = 0; i < nd; ++i) pos[i] = 0;
        for (int m = 0; m < (1 << nd); ++m) {
            Real w = 1; size_t flat = 0;
            for (int i = 0; i < nd; ++i) { int b = (m >> i) & 1; w *= b ? f[i] : 1 - f[i]; flat = flat*(size_t) dims[i] + (size_t)(lo[i] + b); }
            for (int i = 0; i < nd; ++i) pos[i] += w*c[i][flat];
        }
    }
};
// a[0]: family of 2D grids, or 20 for 1D, 30 for 3D
inline MGrid makeMGrid(const Frame& fr, const int* a, uint64_t seed) {
    MGrid m;
    if (a[0] == 20) {
        rt::Rng r(seed); m.nd = 1; m.dims[0] = std::max(2, a[1]); double x = r.uni(-2, 2); bool neg = r.p(.3), uni = r.p(.3);
        for (int i = 0; i < m.dims[0]; ++i) { m.c[0].push_back(fr.s*(neg ? -x : x)); x += uni ? .5 : r.uni(.6, 1.4); }
    } else if (a[0] == 30) {
        rt::Rng r(seed); m.nd = 3; m.dims[0] = std::max(2, std::min(a[1], 5)); m.dims[1] = std::max(2, std::min(a[2], 5)); m.dims[2] = 2 + (int)(seed % 4);
        double A[9]; for (int i = 0; i < 9; ++i) A[i] = r.uni(-.3, .3); A[0] += 1; A[4] += 1; A[8] += 1;
        double o[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
        for (int i = 0; i < m.dims[0]; ++i) for (int j = 0; j < m.dims[1]; ++j) for (int k = 0; k < m.dims[2]; ++k)
            for (int c = 0; c < 3; ++c) m.c[c].push_back(fr.s*(o[c] + A[3*c]*i + A[3*c + 1]*j + A[3*c + 2]*k));
    } else {
        Grid g = makeGrid(fr, a, seed); m.nd = 2; m.dims[0] = g.n0; m.dims[1] = g.n1; m.c[0] = g.x; m.c[1] = g.y;
    }
    return m;
}
} // namespace geom
