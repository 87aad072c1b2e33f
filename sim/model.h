// Independent reference models: nothing in here is shared with the code under test.
#pragma once
#include <vector>
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <map>

namespace model {
typedef long double Real;
struct P { Real x, y; };

inline Real cross(const P& a, const P& b, const P& c) {
    return (b.x - a.x)*(c.y - a.y) - (b.y - a.y)*(c.x - a.x);
}
inline Real polyArea(const std::vector<P>& p) { // signed, shoelace
    Real s = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        const P& a = p[i]; const P& b = p[(i + 1) % p.size()];
        s += (a.x - p[0].x)*(b.y - p[0].y) - (b.x - p[0].x)*(a.y - p[0].y);
    }
    return s/2;
}
// Sutherland-Hodgman, clip must be convex (any orientation)
inline std::vector<P> clipConvex(std::vector<P> subj, std::vector<P> clip) {
    if (polyArea(clip) < 0) std::reverse(clip.begin(), clip.end());
    for (size_t e = 0; e < clip.size() && !subj.empty(); ++e) {
        P a = clip[e], b = clip[(e + 1) % clip.size()];
        if (a.x == b.x && a.y == b.y) continue; // degenerate edge
        std::vector<P> out;
        for (size_t i = 0; i < subj.size(); ++i) {
            P c = subj[i], d = subj[(i + 1) % subj.size()];
            Real sc = cross(a, b, c), sd = cross(a, b, d);
            if (sc >= 0) out.push_back(c);
            if ((sc > 0 && sd < 0) || (sc < 0 && sd > 0)) {
                Real t = sc/(sc - sd);
                out.push_back(P{c.x + t*(d.x - c.x), c.y + t*(d.y - c.y)});
            }
        }
        subj.swap(out);
    }
    return subj;
}
inline Real overlapArea(const std::vector<P>& a, const std::vector<P>& b) {
    std::vector<P> c = clipConvex(a, b);
    return c.size() < 3 ? (Real)0 : fabsl(polyArea(c));
}
inline bool convexQuad(const std::vector<P>& q, Real minSin) {
    int sgn = 0;
    for (int i = 0; i < 4; ++i) {
        P a = q[i], b = q[(i + 1)%4], c = q[(i + 2)%4];
        Real l1 = hypotl(b.x - a.x, b.y - a.y), l2 = hypotl(c.x - b.x, c.y - b.y);
        Real s = cross(a, b, c)/(l1*l2);
        if (!(fabsl(s) > minSin)) return false;
        int sg = s > 0 ? 1 : -1;
        if (sgn && sg != sgn) return false;
        sgn = sg;
    }
    return true;
}
// convex hull area, monotone chain
inline Real hullArea(std::vector<P> p) {
    std::sort(p.begin(), p.end(), [](const P& a, const P& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    size_t n = p.size(), k = 0;
    if (n < 3) return 0;
    std::vector<P> h(2*n);
    for (size_t i = 0; i < n; ++i) { while (k >= 2 && cross(h[k-2], h[k-1], p[i]) <= 0) k--; h[k++] = p[i]; }
    size_t t = k + 1;
    for (size_t i = n - 1; i-- > 0;) { while (k >= t && cross(h[k-2], h[k-1], p[i]) <= 0) k--; h[k++] = p[i]; }
    h.resize(k ? k - 1 : 0);
    return fabsl(polyArea(h));
}

// a structured 2D grid, node (i, j) at i*n1 + j
struct Grid {
    int n0, n1;
    std::vector<double> x, y;
    Grid() : n0(0), n1(0) {}
    size_t nodes() const { return (size_t) n0*n1; }
    size_t cells() const { return (size_t)(n0 - 1)*(n1 - 1); }
    P node(int i, int j) const { return P{x[(size_t) i*n1 + j], y[(size_t) i*n1 + j]}; }
    std::vector<P> quad(size_t c) const {
        int i = (int)(c/(n1 - 1)), j = (int)(c % (n1 - 1));
        return std::vector<P>{node(i, j), node(i + 1, j), node(i + 1, j + 1), node(i, j + 1)};
    }
    P interp(Real u, Real v) const { // bilinear in index space
        int i = std::min(std::max((int) floorl(u), 0), n0 - 2), j = std::min(std::max((int) floorl(v), 0), n1 - 2);
        Real s = u - i, t = v - j;
        P a = node(i, j), b = node(i + 1, j), c = node(i + 1, j + 1), d = node(i, j + 1);
        return P{(1-s)*(1-t)*a.x + s*(1-t)*b.x + s*t*c.x + (1-s)*t*d.x,
                 (1-s)*(1-t)*a.y + s*(1-t)*b.y + s*t*c.y + (1-s)*t*d.y};
    }
};

// inverse of the bilinear map of one convex quad; returns false if it does not converge. Newton from several starts: the
// solution in the unit square is unique, others may exist outside and the iteration may go astray in distorted cells.
inline bool invBilinear(const std::vector<P>& q, P p, Real& s, Real& t) {
    static const Real S[][2] = {{.5L, .5L}, {.1L, .1L}, {.9L, .9L}, {.1L, .9L}, {.9L, .1L}, {.5L, .1L}, {.5L, .9L}, {.1L, .5L}, {.9L, .5L}};
    Real best = 1e300L, size = 0;
    for (int k = 0; k < 4; ++k) size = std::max(size, fabsl(q[(size_t) k].x - q[0].x) + fabsl(q[(size_t) k].y - q[0].y));
    for (int st = 0; st < 9; ++st) {
        Real u = S[st][0], v = S[st][1]; bool ok = false;
        for (int it = 0; it < 60; ++it) {
            Real x = (1-u)*(1-v)*q[0].x + u*(1-v)*q[1].x + u*v*q[2].x + (1-u)*v*q[3].x - p.x;
            Real y = (1-u)*(1-v)*q[0].y + u*(1-v)*q[1].y + u*v*q[2].y + (1-u)*v*q[3].y - p.y;
            Real xs = (1-v)*(q[1].x - q[0].x) + v*(q[2].x - q[3].x), xt = (1-u)*(q[3].x - q[0].x) + u*(q[2].x - q[1].x);
            Real ys = (1-v)*(q[1].y - q[0].y) + v*(q[2].y - q[3].y), yt = (1-u)*(q[3].y - q[0].y) + u*(q[2].y - q[1].y);
            Real det = xs*yt - xt*ys;
            if (det == 0 || !std::isfinite((double) det)) break;
            Real du = (-x*yt + y*xt)/det, dv = (-y*xs + x*ys)/det;
            if (fabsl(du) + fabsl(dv) < 1e-17L || (fabsl(du) + fabsl(dv) < 1e-13L && fabsl(x) + fabsl(y) < 1e-15L*size)) { u += du; v += dv; ok = true; break; }
            u += du; v += dv;
            if (u < -3) u = -3;
            if (u > 4) u = 4;
            if (v < -3) v = -3;
            if (v > 4) v = 4;
            if (it == 59) ok = fabsl(x) + fabsl(y) < 1e-14L*size;
        }
        if (!ok) continue;
        Real out = std::max(std::max(-u, u - 1), std::max(-v, v - 1));
        if (out < best) { best = out; s = u; t = v; }
        if (out <= 1e-3L) break;
    }
    return best < 1e200L;
}
// locate p in the grid (cells must be convex): index coordinates u, v and the cell; false when outside
inline bool locate(const Grid& g, P p, Real& u, Real& v, Real slack = 1e-12L) {
    for (size_t c = 0; c < g.cells(); ++c) {
        std::vector<P> q = g.quad(c);
        Real s, t;
        Real xlo = q[0].x, xhi = q[0].x, ylo = q[0].y, yhi = q[0].y;
        for (int k = 1; k < 4; ++k) { xlo = std::min(xlo, q[k].x); xhi = std::max(xhi, q[k].x); ylo = std::min(ylo, q[k].y); yhi = std::max(yhi, q[k].y); }
        Real m = 1e-9L*(xhi - xlo + yhi - ylo);
        if (p.x < xlo - m || p.x > xhi + m || p.y < ylo - m || p.y > yhi + m) continue;
        if (!invBilinear(q, p, s, t)) continue;
        if (s >= -slack && s <= 1 + slack && t >= -slack && t <= 1 + slack) {
            u = (Real)(c/(g.n1 - 1)) + s; v = (Real)(c % (g.n1 - 1)) + t;
            return true;
        }
    }
    return false;
}
} // namespace model
