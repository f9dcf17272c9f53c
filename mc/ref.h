// Independent reference model of the library's semantics (long double,
// geometry + automatic differentiation, dense full-pivot elimination) and the
// glue that builds the same scene out of real library objects.
//
// Nothing in here reads the library's intermediate data; a scene is plain data
// from which both sides are constructed.
#ifndef REF_H
#define REF_H
#include "mc.h"
#include <algorithm>
#include <array>
#include <cfloat>
#include <vector>

#include "scs.h"
#include "clutch_constraint.h"
#include "conjugate_gradient_sle_solver.h"
#include "constant_rotation_constraint.h"
#include "constant_speed_motor.h"
#include "euler_ode_solver.h"
#include "fixed_position_constraint.h"
#include "fixed_rotation_constraint.h"
#include "gauss_seidel_sle_solver.h"
#include "gaussian_elimination_sle_solver.h"
#include "generic_rigid_body_system.h"
#include "gravity_force_generator.h"
#include "line_constraint.h"
#include "link_constraint.h"
#include "nsv_ode_solver.h"
#include "optimized_nsv_rigid_body_system.h"
#include "rk4_ode_solver.h"
#include "rolling_constraint.h"
#include "rotation_friction_constraint.h"
#include "simple_gear_constraint.h"
#include "sparse_matrix.h"
#include "spring.h"
#include "static_force_generator.h"

namespace ref {
typedef long double R;

// ------------------------------------------------------------ hyper-dual numbers
// v + a e1 + b e2 + ab e1 e2
struct H {
    R v, a, b, ab;
    H(R v_ = 0, R a_ = 0, R b_ = 0, R ab_ = 0) : v(v_), a(a_), b(b_), ab(ab_) {}
};
inline H operator+(H x, H y) { return H(x.v + y.v, x.a + y.a, x.b + y.b, x.ab + y.ab); }
inline H operator-(H x, H y) { return H(x.v - y.v, x.a - y.a, x.b - y.b, x.ab - y.ab); }
inline H operator-(H x) { return H(-x.v, -x.a, -x.b, -x.ab); }
inline H operator*(H x, H y) { return H(x.v * y.v, x.a * y.v + x.v * y.a, x.b * y.v + x.v * y.b, x.ab * y.v + x.a * y.b + x.b * y.a + x.v * y.ab); }
inline H hsin(H x) { R s = sinl(x.v), c = cosl(x.v); return H(s, c * x.a, c * x.b, c * x.ab - s * x.a * x.b); }
inline H hcos(H x) { R s = sinl(x.v), c = cosl(x.v); return H(c, -s * x.a, -s * x.b, -s * x.ab - c * x.a * x.b); }
struct P2 { H x, y; };
inline P2 rot(H th, P2 p) { H c = hcos(th), s = hsin(th); return {c * p.x - s * p.y, s * p.x + c * p.y}; }
inline P2 operator+(P2 a, P2 b) { return {a.x + b.x, a.y + b.y}; }
inline P2 operator-(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
inline H dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
inline H cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }

// ------------------------------------------------------------ scenes
struct BodyD { double m = 1, I = 1, x = 0, y = 0, th = 0, vx = 0, vy = 0, w = 0; bool reg = true; };

enum ConKind { FIXPOS, FIXROT, LINE, LINK, ROLL, CLUTCH, GEAR, CONSTROT, ROTFRIC, WELD, CON_KINDS };
static const char *const conNames[] = {"fixpos", "fixrot", "line", "link", "roll", "clutch", "gear", "constrot", "rotfric", "weld"};
inline int conBodies(int k) { return k == LINK || k == ROLL || k == CLUTCH || k == GEAR || k == WELD ? 2 : 1; }
inline int conRows(int k) { return k == FIXPOS || k == LINK || k == ROLL ? 2 : k == WELD ? 3 : 1; }

struct ConD {
    int kind = FIXPOS, b0 = 0, b1 = 1;
    double lx = 0.3, ly = -0.2;       // local point (body 1 / base)
    double lx2 = -0.4, ly2 = 0.25;    // local point of the second body
    double wx = 0.7, wy = -0.4;       // world target / line origin
    double dx = 0.8, dy = 0.6;        // line direction
    double r = 0.5;                   // radius, ratio, target angle or speed
    double ks = 10, kd = 1;
    double lo = -DBL_MAX, hi = DBL_MAX;
    bool neutral = false;
    double vb[3] = {0.3, -0.2, 0.15}; // weld speed targets
};

enum GenKind { GRAVITY, STATIC, SPRING, MOTOR, FIELD, GEN_KINDS };
static const char *const genNames[] = {"gravity", "static", "spring", "motor", "field"};
struct GenD {
    int kind = GRAVITY, b0 = 0, b1 = 1;
    double g = 9.81;
    double px = 0.3, py = -0.4, px2 = -0.2, py2 = 0.6;
    double fx = 3, fy = -2;
    double ks = 20, kd = 0.5, rest = 0.8;
    double speed = 2, maxT = 500;
    // field: force and torque depending smoothly on the body's whole state
    double k[6] = {1.5, 0.7, 0.9, 0.4, 1.1, 0.6};
};
struct Scene {
    std::vector<BodyD> b;
    std::vector<ConD> c;
    std::vector<GenD> g;
};

struct State { std::vector<R> x, y, th, vx, vy, w, at; };
inline State stateOf(const Scene &s) {
    State t;
    for (auto &b : s.b) { t.x.push_back(b.x); t.y.push_back(b.y); t.th.push_back(b.th); t.vx.push_back(b.vx); t.vy.push_back(b.vy); t.w.push_back(b.w); t.at.push_back(0); }
    return t;
}

struct Row {
    R C = 0, J[6] = {0}, Jd[6] = {0}, vb = 0, ks = 0, kd = 0;
    double lo = -DBL_MAX, hi = DBL_MAX;
    int b[2] = {-1, -1}; // scene body numbers
    int nb = 0, con = 0, row = 0;
};

// position error of row k of a constraint, given both bodies' coordinates
inline H conError(const ConD &c, int k, const H q[6]) {
    P2 p1{q[0], q[1]}, p2{q[3], q[4]};
    H t1 = q[2], t2 = q[5];
    switch (c.kind) {
    case FIXPOS: { P2 w = p1 + rot(t1, {c.lx, c.ly}); return k == 0 ? w.x - H(c.wx) : w.y - H(c.wy); }
    case FIXROT: return t1 - H(c.r);
    case LINE: { P2 w = p1 + rot(t1, {c.lx, c.ly}); return cross(P2{c.dx, c.dy}, w - P2{c.wx, c.wy}); }
    case LINK: { P2 d = (p1 + rot(t1, {c.lx, c.ly})) - (p2 + rot(t2, {c.lx2, c.ly2})); return k == 0 ? d.x : d.y; }
    case ROLL: {
        P2 o = p1 + rot(t1, {c.lx, c.ly}), d = rot(t1, {c.dx, c.dy}), del = p2 - o;
        // slip: rolled arc (relative angle times radius) against travel along the line
        return k == 0 ? -((t2 - t1) * H(c.r)) - dot(del, d) : H(c.r) - cross(d, del);
    }
    case WELD: {
        P2 d = (p1 + rot(t1, {c.lx, c.ly})) - (p2 + rot(t2, {c.lx2, c.ly2}));
        return k == 0 ? d.x : k == 1 ? d.y : (t1 - t2) - H(c.r);
    }
    default: return H(0);
    }
}
// coefficients of a pure speed constraint
inline bool speedRow(const ConD &c, R J[6]) {
    for (int i = 0; i < 6; ++i) J[i] = 0;
    switch (c.kind) {
    case CLUTCH: J[2] = -1; J[5] = 1; return true;
    case GEAR: J[2] = 1; J[5] = -c.r; return true;
    case CONSTROT: J[2] = 1; return true;
    case ROTFRIC: J[2] = 1; return true;
    default: return false;
    }
}
inline Row conRow(const ConD &c, int k, const R q[6], const R v[6]) {
    Row r;
    r.row = k;
    r.nb = conBodies(c.kind);
    if (!speedRow(c, r.J)) {
        for (int i = 0; i < 3 * r.nb; ++i) {
            H h[6];
            for (int j = 0; j < 6; ++j) h[j] = H(q[j], j == i, v[j], 0);
            H e = conError(c, k, h);
            r.C = e.v;
            r.J[i] = e.a;
            r.Jd[i] = e.ab;
        }
    }
    r.ks = c.ks; r.kd = c.kd;
    if (c.kind == ROLL && k == 0) r.ks = r.kd = 0;
    if (c.kind == CONSTROT) r.vb = c.r;
    if (c.kind == WELD) {
        r.vb = c.vb[k]; r.ks = c.ks * (k + 1); r.kd = c.kd * (3 - k);
        // every row has limits of its own
        if (c.lo > -1e300) r.lo = c.lo * (k + 1);
        if (c.hi < 1e300) r.hi = c.hi * (k + 1);
    }
    if (c.kind == LINK) { r.lo = -c.hi; r.hi = c.hi; }
    if (c.kind == CLUTCH || c.kind == CONSTROT || c.kind == ROTFRIC) { r.lo = c.lo; r.hi = c.hi; }
    if (c.kind == GEAR && c.neutral) r.lo = r.hi = 0;
    return r;
}
inline void coords(const State &s, int a, int b, R q[6], R v[6]) {
    for (int i = 0; i < 6; ++i) q[i] = v[i] = 0;
    q[0] = s.x[a]; q[1] = s.y[a]; q[2] = s.th[a]; v[0] = s.vx[a]; v[1] = s.vy[a]; v[2] = s.w[a];
    if (b >= 0) { q[3] = s.x[b]; q[4] = s.y[b]; q[5] = s.th[b]; v[3] = s.vx[b]; v[4] = s.vy[b]; v[5] = s.w[b]; }
}
inline std::vector<Row> rowsOf(const Scene &sc, const State &s) {
    std::vector<Row> out;
    for (size_t i = 0; i < sc.c.size(); ++i) {
        const ConD &c = sc.c[i];
        int nb = conBodies(c.kind);
        R q[6], v[6];
        coords(s, c.b0, nb == 2 ? c.b1 : -1, q, v);
        for (int k = 0; k < conRows(c.kind); ++k) {
            Row r = conRow(c, k, q, v);
            r.con = (int)i;
            r.b[0] = sc.b[c.b0].reg ? c.b0 : -1;
            r.b[1] = nb == 2 && sc.b[c.b1].reg ? c.b1 : -1;
            out.push_back(r);
        }
    }
    return out;
}

// ------------------------------------------------------------ forces
struct Load { R fx = 0, fy = 0, t = 0; };
inline void pushForce(Load &l, const State &s, int b, R px, R py, R fx, R fy) {
    R c = cosl(s.th[b]), n = sinl(s.th[b]);
    R ax = c * px - n * py, ay = n * px + c * py;
    l.fx += fx; l.fy += fy; l.t += ax * fy - ay * fx;
}
inline void fieldForce(const GenD &g, R x, R y, R th, R vx, R vy, R w, R m, R I, R &fx, R &fy, R &t) {
    fx = m * (g.k[0] * sinl(y + 0.3L) - g.k[1] * x - g.k[2] * vx + 0.2L * w * vy);
    fy = m * (g.k[0] * cosl(x) - g.k[1] * y * y - g.k[2] * vy - 0.1L * th * vx);
    t = I * (g.k[3] * x * y - g.k[4] * sinl(th) - g.k[5] * w + 0.3L * vx);
}
inline R shortestSpring = 1e9L; // met by forces() since it was last reset
inline std::vector<Load> forces(const Scene &sc, const State &s) {
    std::vector<Load> L(sc.b.size());
    for (auto &g : sc.g) {
        switch (g.kind) {
        case GRAVITY: for (size_t i = 0; i < sc.b.size(); ++i) if (sc.b[i].reg) L[i].fy -= (R)sc.b[i].m * g.g; break;
        case STATIC: pushForce(L[g.b0], s, g.b0, g.px, g.py, g.fx, g.fy); break;
        case SPRING: {
            auto end = [&](int b, R px, R py, R &x, R &y, R &vx, R &vy) {
                R c = cosl(s.th[b]), n = sinl(s.th[b]), ax = c * px - n * py, ay = n * px + c * py;
                x = s.x[b] + ax; y = s.y[b] + ay; vx = vy = 0;
                if (sc.b[b].reg) { vx = s.vx[b] - s.w[b] * ay; vy = s.vy[b] + s.w[b] * ax; }
            };
            R x1, y1, u1, v1, x2, y2, u2, v2;
            end(g.b0, g.px, g.py, x1, y1, u1, v1);
            end(g.b1, g.px2, g.py2, x2, y2, u2, v2);
            R dx = x2 - x1, dy = y2 - y1, l = sqrtl(dx * dx + dy * dy);
            shortestSpring = std::min(shortestSpring, l);
            if (l >= 1e-2L) { dx /= l; dy /= l; } else dx = dy = 0;
            R fx = dx * (l - g.rest) * g.ks + (u2 - u1) * g.kd, fy = dy * (l - g.rest) * g.ks + (v2 - v1) * g.kd;
            if (sc.b[g.b0].reg) pushForce(L[g.b0], s, g.b0, g.px, g.py, fx, fy);
            if (sc.b[g.b1].reg) pushForce(L[g.b1], s, g.b1, g.px2, g.py2, -fx, -fy);
            break;
        }
        case MOTOR: {
            R v0 = sc.b[g.b0].reg ? s.w[g.b0] : 0, a0 = sc.b[g.b0].reg ? s.at[g.b0] : 0;
            R t = (g.speed - (s.w[g.b1] - v0)) * g.ks - (s.at[g.b1] - a0) * g.kd;
            if (t > g.maxT) t = g.maxT;
            if (t < -g.maxT) t = -g.maxT;
            if (sc.b[g.b0].reg) L[g.b0].t -= t;
            L[g.b1].t += t;
            break;
        }
        case FIELD: {
            R fx, fy, t;
            int b = g.b0;
            fieldForce(g, s.x[b], s.y[b], s.th[b], s.vx[b], s.vy[b], s.w[b], sc.b[b].m, sc.b[b].I, fx, fy, t);
            L[b].fx += fx; L[b].fy += fy; L[b].t += t;
            break;
        }
        }
    }
    return L;
}

// ------------------------------------------------------------ dense solve
// Returns false if (numerically) singular; quality = smallest / largest pivot.
inline bool solveDense(std::vector<R> A, std::vector<R> b, std::vector<R> &x, R *quality = nullptr) {
    int n = (int)b.size();
    std::vector<int> col(n);
    for (int i = 0; i < n; ++i) col[i] = i;
    R pmax = 0, pmin = 1e300L;
    for (int k = 0; k < n; ++k) {
        int pi = k, pj = k;
        R best = -1;
        for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (fabsl(A[i * n + j]) > best) { best = fabsl(A[i * n + j]); pi = i; pj = j; }
        if (!(best > 0)) { if (quality) *quality = 0; return false; }
        pmax = std::max(pmax, best); pmin = std::min(pmin, best);
        if (pi != k) { for (int j = 0; j < n; ++j) std::swap(A[pi * n + j], A[k * n + j]); std::swap(b[pi], b[k]); }
        if (pj != k) { for (int i = 0; i < n; ++i) std::swap(A[i * n + pj], A[i * n + k]); std::swap(col[pj], col[k]); }
        for (int i = k + 1; i < n; ++i) {
            R f = A[i * n + k] / A[k * n + k];
            if (f == 0) continue;
            for (int j = k; j < n; ++j) A[i * n + j] -= f * A[k * n + j];
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0);
    std::vector<R> y(n);
    for (int i = n - 1; i >= 0; --i) {
        R s = b[i];
        for (int j = i + 1; j < n; ++j) s -= A[i * n + j] * y[j];
        y[i] = s / A[i * n + i];
    }
    for (int i = 0; i < n; ++i) x[col[i]] = y[i];
    if (quality) *quality = n ? pmin / pmax : 1;
    return true;
}
inline R invMass(const Scene &sc, int b, int k) { return 1 / (R)(k == 2 ? sc.b[b].I : sc.b[b].m); }
inline R rowDot(const Scene &sc, const Row &p, const Row &q, bool weighted) {
    R s = 0;
    for (int a = 0; a < 2; ++a) {
        if (p.b[a] < 0) continue;
        for (int b = 0; b < 2; ++b)
            if (q.b[b] == p.b[a]) for (int k = 0; k < 3; ++k) s += p.J[a * 3 + k] * q.J[b * 3 + k] * (weighted ? invMass(sc, p.b[a], k) : 1);
    }
    return s;
}
inline std::vector<R> gram(const Scene &sc, const std::vector<Row> &rows) {
    int n = (int)rows.size();
    std::vector<R> A(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i * n + j] = rowDot(sc, rows[i], rows[j], true);
    return A;
}
// box-constrained solution of A x = b, lo <= x <= hi (A positive definite):
// enumerates the active sets of the limited rows
inline bool solveBoxed(const std::vector<R> &A, const std::vector<R> &b, const std::vector<R> &lo, const std::vector<R> &hi, std::vector<R> &x) {
    int n = (int)b.size();
    std::vector<int> lim;
    for (int i = 0; i < n; ++i) if (lo[i] > -1e200L || hi[i] < 1e200L) lim.push_back(i);
    long total = 1;
    for (size_t i = 0; i < lim.size(); ++i) total *= 3;
    for (long code = 0; code < total; ++code) {
        std::vector<int> st(n, 0);
        long c = code;
        bool ok = true;
        for (int i : lim) { st[i] = c % 3; c /= 3; if ((st[i] == 1 && lo[i] < -1e200L) || (st[i] == 2 && hi[i] > 1e200L)) ok = false; }
        if (!ok) continue;
        std::vector<int> fr;
        for (int i = 0; i < n; ++i) if (!st[i]) fr.push_back(i);
        std::vector<R> xx(n, 0);
        for (int i = 0; i < n; ++i) if (st[i]) xx[i] = st[i] == 1 ? lo[i] : hi[i];
        int m = (int)fr.size();
        std::vector<R> S(m * m), t(m), y;
        for (int i = 0; i < m; ++i) {
            t[i] = b[fr[i]];
            for (int j = 0; j < n; ++j) if (st[j]) t[i] -= A[fr[i] * n + j] * xx[j];
            for (int j = 0; j < m; ++j) S[i * m + j] = A[fr[i] * n + fr[j]];
        }
        if (m && !solveDense(S, t, y)) continue;
        for (int i = 0; i < m; ++i) xx[fr[i]] = y[i];
        R sc = 1;
        for (int i = 0; i < n; ++i) sc = std::max(sc, fabsl(b[i]));
        for (int i = 0; i < n && ok; ++i) {
            R tolx = 1e-14L * std::max((R)1, fabsl(xx[i]));
            if (!st[i]) { if (xx[i] < lo[i] - tolx || xx[i] > hi[i] + tolx) ok = false; continue; }
            R g = b[i];
            for (int j = 0; j < n; ++j) g -= A[i * n + j] * xx[j];
            if (lo[i] == hi[i]) continue;
            if (st[i] == 2 && g < -1e-13L * sc) ok = false; // at maximum: wants more
            if (st[i] == 1 && g > 1e-13L * sc) ok = false;
        }
        if (ok) { x = xx; return true; }
    }
    return false;
}
// sweeps Gauss-Seidel needs for relative change `delta` (or limit+1)
inline int gsSweeps(const std::vector<R> &A, const std::vector<R> &b, double delta, int limit, const std::vector<R> *lo = nullptr, const std::vector<R> *hi = nullptr) {
    int n = (int)b.size();
    std::vector<double> x(n, 0), a(n * n), bb(n);
    for (int i = 0; i < n * n; ++i) a[i] = (double)A[i];
    for (int i = 0; i < n; ++i) bb[i] = (double)b[i];
    for (int it = 1; it <= limit; ++it) {
        double worst = 0;
        for (int i = 0; i < n; ++i) {
            double s = bb[i];
            for (int j = 0; j < n; ++j) if (j != i) s -= a[i * n + j] * x[j];
            double y = s / a[i * n + i];
            if (lo) y = std::max((double)(*lo)[i], std::min((double)(*hi)[i], y));
            worst = std::max(worst, std::fabs(y - x[i]) / std::max(1e-3, std::fabs(x[i])));
            x[i] = y;
        }
        if (worst < delta) return it;
    }
    return limit + 1;
}

// ------------------------------------------------------------ steps
struct React { R fx[3][2] = {}, fy[3][2] = {}, ft[3][2] = {}; };
enum SolverKind { GE, CG, GS, SOLVERS };
static const char *const solverNames[] = {"ge", "cg", "gs"};
enum IntegKind { EULER, NSV, RK4, INTEGS };
static const char *const integNames[] = {"euler", "nsv", "rk4"};
enum SysKind { SYS_NSV, SYS_GEN };
static const char *const sysNames[] = {"velocity-level", "acceleration-level"};

const double gsDelta = 1e-9;
const int gsBudget = 20000;

struct Sim {
    const Scene &sc;
    State s;
    std::vector<React> react;
    std::vector<Load> load;   // applied forces of the last evaluation
    std::vector<R> lastAx, lastAy; // accelerations of the last evaluation
    R worst = 1;              // worst pivot ratio met
    R travel = 0;             // largest displacement within one substep of several
    R scale = 1;              // largest velocity / velocity change met
    R forceScale = 1;         // largest reaction met
    int sweeps = 0;           // Gauss-Seidel sweeps needed at most
    bool ok = true;
    bool countSweeps = false;
    bool boxed = false;       // respect limits (velocity-level system)
    Sim(const Scene &scene) : sc(scene), s(stateOf(scene)), react(scene.c.size()) {}

    void see(R v) { if (fabsl(v) > scale) scale = fabsl(v); }
    std::vector<R> solveRows(const std::vector<Row> &rows, const std::vector<R> &rhs, const std::vector<R> *lo = nullptr, const std::vector<R> *hi = nullptr) {
        std::vector<R> A = gram(sc, rows), x;
        R q;
        if (!solveDense(A, rhs, x, &q)) { ok = false; q = 0; x.assign(rhs.size(), 0); return x; }
        worst = std::min(worst, q);
        if (lo) { if (!solveBoxed(A, rhs, *lo, *hi, x)) ok = false; }
        if (countSweeps) sweeps = std::max(sweeps, gsSweeps(A, rhs, gsDelta, 3000, lo, hi));
        return x;
    }
    void setReact(const std::vector<Row> &rows, const std::vector<R> &lam, R k, bool clear) {
        if (clear) for (auto &r : react) r = React();
        for (size_t i = 0; i < rows.size(); ++i)
            for (int b = 0; b < rows[i].nb; ++b) {
                if (rows[i].b[b] < 0) continue;
                React &t = react[rows[i].con];
                t.fx[rows[i].row][b] += k * lam[i] * rows[i].J[b * 3];
                t.fy[rows[i].row][b] += k * lam[i] * rows[i].J[b * 3 + 1];
                t.ft[rows[i].row][b] += k * lam[i] * rows[i].J[b * 3 + 2];
                for (int q = 0; q < 3; ++q) forceScale = std::max(forceScale, fabsl(k * lam[i] * rows[i].J[b * 3 + q]));
            }
    }
    void nsvSubstep(R h, R bias) {
        size_t n = sc.b.size();
        load = forces(sc, s);
        std::vector<Row> rows = rowsOf(sc, s);
        std::vector<R> u = s.vx, v = s.vy, w = s.w;
        for (size_t i = 0; i < n; ++i) {
            if (!sc.b[i].reg) continue;
            see(s.vx[i]); see(s.vy[i]); see(s.w[i]);
            u[i] += h * load[i].fx / sc.b[i].m; v[i] += h * load[i].fy / sc.b[i].m; w[i] += h * load[i].t / sc.b[i].I;
            see(u[i]); see(v[i]); see(w[i]);
        }
        std::vector<R> rhs, lo, hi;
        for (auto &r : rows) {
            R jv = 0;
            for (int b = 0; b < 2; ++b) if (r.b[b] >= 0) jv += r.J[b * 3] * u[r.b[b]] + r.J[b * 3 + 1] * v[r.b[b]] + r.J[b * 3 + 2] * w[r.b[b]];
            rhs.push_back(-(jv + r.vb + bias / h * r.C));
            lo.push_back(r.lo <= -1e300 ? -1e301L : r.lo * h);
            hi.push_back(r.hi >= 1e300 ? 1e301L : r.hi * h);
        }
        std::vector<R> lam = boxed ? solveRows(rows, rhs, &lo, &hi) : solveRows(rows, rhs);
        setReact(rows, lam, 1 / h, true);
        for (size_t i = 0; i < rows.size(); ++i)
            for (int b = 0; b < 2; ++b) {
                int k = rows[i].b[b];
                if (k < 0) continue;
                u[k] += lam[i] * rows[i].J[b * 3] / sc.b[k].m;
                v[k] += lam[i] * rows[i].J[b * 3 + 1] / sc.b[k].m;
                w[k] += lam[i] * rows[i].J[b * 3 + 2] / sc.b[k].I;
                see(lam[i] * rows[i].J[b * 3] / sc.b[k].m); see(lam[i] * rows[i].J[b * 3 + 1] / sc.b[k].m); see(lam[i] * rows[i].J[b * 3 + 2] / sc.b[k].I);
            }
        for (size_t i = 0; i < n; ++i) {
            if (!sc.b[i].reg) continue;
            s.at[i] = (w[i] - s.w[i]) / h;
            s.vx[i] = u[i]; s.vy[i] = v[i]; s.w[i] = w[i];
            s.x[i] += h * u[i]; s.y[i] += h * v[i]; s.th[i] += h * w[i];
        }
    }
    // accelerations at the current state; reactions accumulate with weight k
    std::vector<State> *record = nullptr; // states at which the forces are evaluated
    void accel(std::vector<R> &ax, std::vector<R> &ay, R k, bool clear) {
        if (record) record->push_back(s);
        size_t n = sc.b.size();
        load = forces(sc, s);
        std::vector<Row> rows = rowsOf(sc, s);
        ax.assign(n, 0); ay.assign(n, 0);
        std::vector<R> at(n, 0), rhs;
        for (size_t i = 0; i < n; ++i) if (sc.b[i].reg) {
            ax[i] = load[i].fx / sc.b[i].m; ay[i] = load[i].fy / sc.b[i].m; at[i] = load[i].t / sc.b[i].I;
            see(s.vx[i]); see(s.vy[i]); see(s.w[i]); see(ax[i]); see(ay[i]); see(at[i]);
        }
        for (auto &r : rows) {
            R jv = 0, jdv = 0, ja = 0;
            for (int b = 0; b < 2; ++b) if (r.b[b] >= 0) {
                int q = r.b[b];
                jv += r.J[b * 3] * s.vx[q] + r.J[b * 3 + 1] * s.vy[q] + r.J[b * 3 + 2] * s.w[q];
                jdv += r.Jd[b * 3] * s.vx[q] + r.Jd[b * 3 + 1] * s.vy[q] + r.Jd[b * 3 + 2] * s.w[q];
                ja += r.J[b * 3] * ax[q] + r.J[b * 3 + 1] * ay[q] + r.J[b * 3 + 2] * at[q];
            }
            rhs.push_back(-jdv - ja - r.ks * r.C - r.kd * (jv + r.vb));
        }
        std::vector<R> lam = solveRows(rows, rhs);
        setReact(rows, lam, k, clear);
        for (size_t i = 0; i < rows.size(); ++i)
            for (int b = 0; b < 2; ++b) {
                int q = rows[i].b[b];
                if (q < 0) continue;
                R dx = lam[i] * rows[i].J[b * 3] / sc.b[q].m, dy = lam[i] * rows[i].J[b * 3 + 1] / sc.b[q].m, dt = lam[i] * rows[i].J[b * 3 + 2] / sc.b[q].I;
                ax[q] += dx; ay[q] += dy; at[q] += dt;
                see(dx); see(dy); see(dt);
            }
        for (size_t i = 0; i < n; ++i) if (sc.b[i].reg) s.at[i] = at[i];
        lastAx = ax; lastAy = ay;
    }
    void genericSubstep(R h, int integ) {
        size_t n = sc.b.size();
        std::vector<R> ax, ay;
        if (integ != RK4) {
            accel(ax, ay, 1, true);
            for (size_t i = 0; i < n; ++i) {
                if (!sc.b[i].reg) continue;
                if (integ == EULER) { s.x[i] += h * s.vx[i]; s.y[i] += h * s.vy[i]; s.th[i] += h * s.w[i]; }
                s.vx[i] += h * ax[i]; s.vy[i] += h * ay[i]; s.w[i] += h * s.at[i];
                if (integ == NSV) { s.x[i] += h * s.vx[i]; s.y[i] += h * s.vy[i]; s.th[i] += h * s.w[i]; }
            }
            return;
        }
        State y0 = s;
        std::vector<R> dx(n), dy(n), dt(n), du(n), dv(n), dw(n);
        const R wt[4] = {1, 2, 2, 1}, at[4] = {0, 0.5L, 0.5L, 1};
        std::vector<R> px, py, pt, pa, pb; // previous stage derivatives
        for (int k = 0; k < 4; ++k) {
            if (k) for (size_t i = 0; i < n; ++i) {
                if (!sc.b[i].reg) continue;
                R f = h * at[k];
                R ox = s.vx[i], oy = s.vy[i], ow = s.w[i], oa = s.at[i];
                s.x[i] = y0.x[i] + f * ox; s.y[i] = y0.y[i] + f * oy; s.th[i] = y0.th[i] + f * ow;
                s.vx[i] = y0.vx[i] + f * ax[i]; s.vy[i] = y0.vy[i] + f * ay[i]; s.w[i] = y0.w[i] + f * oa;
            }
            accel(ax, ay, wt[k] / 6, k == 0);
            for (size_t i = 0; i < n; ++i) {
                dx[i] += wt[k] * s.vx[i]; dy[i] += wt[k] * s.vy[i]; dt[i] += wt[k] * s.w[i];
                du[i] += wt[k] * ax[i]; dv[i] += wt[k] * ay[i]; dw[i] += wt[k] * s.at[i];
            }
        }
        for (size_t i = 0; i < n; ++i) {
            if (!sc.b[i].reg) continue;
            s.x[i] = y0.x[i] + h / 6 * dx[i]; s.y[i] = y0.y[i] + h / 6 * dy[i]; s.th[i] = y0.th[i] + h / 6 * dt[i];
            s.vx[i] = y0.vx[i] + h / 6 * du[i]; s.vy[i] = y0.vy[i] + h / 6 * dv[i]; s.w[i] = y0.w[i] + h / 6 * dw[i];
        }
    }
    void process(int sys, int integ, double dt, int steps, double bias) {
        for (auto &a : s.at) a = 0;
        for (int i = 0; i < steps; ++i) {
            if (sys == SYS_NSV) nsvSubstep((R)dt / steps, bias);
            else genericSubstep((R)dt / steps, integ);
            if (steps > 1 || integ == RK4) travel = std::max(travel, scale * (R)dt / steps);
        }
    }
    // inside the domain where every solver is expected to reach the solution
    bool inDomain(int solver) const {
        if (!ok || worst < 1e-5L || !(scale < 1e7L) || travel > 4) return false;
        return solver != GS || sweeps <= 3000;
    }
};
} // namespace ref

// ---------------------------------------------------------------- real objects
namespace real {
using namespace atg_scs;
using ref::Scene; using ref::ConD; using ref::GenD; using ref::BodyD;

// a user-defined constraint with three rows, speed targets and per-row gains
class Weld : public Constraint {
  public:
    ConD d;
    Weld() : Constraint(3, 2) {}
    virtual void calculate(Output *o, SystemState *s) {
        int a = m_bodies[0]->index, b = m_bodies[1]->index;
        ref::R q[6], v[6];
        q[0] = s->p_x[a]; q[1] = s->p_y[a]; q[2] = s->theta[a]; v[0] = s->v_x[a]; v[1] = s->v_y[a]; v[2] = s->v_theta[a];
        q[3] = s->p_x[b]; q[4] = s->p_y[b]; q[5] = s->theta[b]; v[3] = s->v_x[b]; v[4] = s->v_y[b]; v[5] = s->v_theta[b];
        for (int k = 0; k < 3; ++k) {
            ref::Row r = ref::conRow(d, k, q, v);
            o->C[k] = (double)r.C;
            for (int i = 0; i < 6; ++i) { o->J[k][i] = (double)r.J[i]; o->J_dot[k][i] = (double)r.Jd[i]; }
            o->v_bias[k] = (double)r.vb; o->ks[k] = (double)r.ks; o->kd[k] = (double)r.kd;
            o->limits[k][0] = r.lo; o->limits[k][1] = r.hi;
        }
    }
};
// a user-defined smooth force field on one body
class Field : public ForceGenerator {
  public:
    GenD d;
    RigidBody *body = nullptr;
    virtual void apply(SystemState *s) {
        int b = body->index;
        ref::R fx, fy, t;
        ref::fieldForce(d, s->p_x[b], s->p_y[b], s->theta[b], s->v_x[b], s->v_y[b], s->v_theta[b], body->m, body->I, fx, fy, t);
        s->f_x[b] += (double)fx; s->f_y[b] += (double)fy; s->t[b] += (double)t;
    }
};

inline void setBody(RigidBody *r, const BodyD &b) {
    r->m = b.m; r->I = b.I; r->p_x = b.x; r->p_y = b.y; r->theta = b.th; r->v_x = b.vx; r->v_y = b.vy; r->v_theta = b.w;
}
inline Constraint *makeConstraint(const ConD &c, const std::vector<RigidBody *> &b) {
    using namespace ref;
    RigidBody *p = c.b0 >= 0 ? b[c.b0] : nullptr, *q = conBodies(c.kind) == 2 ? b[c.b1] : nullptr;
    switch (c.kind) {
    case FIXPOS: { auto *k = new FixedPositionConstraint; k->setBody(p); k->setLocalPosition(c.lx, c.ly); k->setWorldPosition(c.wx, c.wy); k->m_ks = c.ks; k->m_kd = c.kd; return k; }
    case FIXROT: { auto *k = new FixedRotationConstraint; k->setBody(p); k->m_rotation = c.r; k->m_ks = c.ks; k->m_kd = c.kd; return k; }
    case LINE: { auto *k = new LineConstraint; k->setBody(p); k->m_local_x = c.lx; k->m_local_y = c.ly; k->m_p0_x = c.wx; k->m_p0_y = c.wy; k->m_dx = c.dx; k->m_dy = c.dy; k->m_ks = c.ks; k->m_kd = c.kd; return k; }
    case LINK: { auto *k = new LinkConstraint; k->setBody1(p); k->setBody2(q); k->setLocalPosition1(c.lx, c.ly); k->setLocalPosition2(c.lx2, c.ly2); k->m_ks = c.ks; k->m_kd = c.kd; if (c.hi < DBL_MAX) k->m_maxForce = c.hi; return k; }
    case ROLL: { auto *k = new RollingConstraint; k->setBaseBody(p); k->setRollingBody(q); k->m_local_x = c.lx; k->m_local_y = c.ly; k->m_dx = c.dx; k->m_dy = c.dy; k->m_radius = c.r; k->m_ks = c.ks; k->m_kd = c.kd; return k; }
    case CLUTCH: { auto *k = new ClutchConstraint; k->setBody1(p); k->setBody2(q); k->m_ks = c.ks; k->m_kd = c.kd; if (c.lo > -DBL_MAX) k->m_minTorque = c.lo; if (c.hi < DBL_MAX) k->m_maxTorque = c.hi; return k; }
    case GEAR: { auto *k = new SimpleGearConstraint; k->setBody1(p); k->setBody2(q); k->m_ratio = c.r; k->m_ks = c.ks; k->m_kd = c.kd; k->m_neutral = c.neutral; return k; }
    case CONSTROT: { auto *k = new ConstantRotationConstraint; k->setBody(p); k->m_rotationSpeed = c.r; k->m_ks = c.ks; k->m_kd = c.kd; if (c.lo > -DBL_MAX) k->m_minTorque = c.lo; if (c.hi < DBL_MAX) k->m_maxTorque = c.hi; return k; }
    case ROTFRIC: { auto *k = new RotationFrictionConstraint; k->setBody(p); k->m_ks = c.ks; k->m_kd = c.kd; if (c.lo > -DBL_MAX) k->m_minTorque = c.lo; if (c.hi < DBL_MAX) k->m_maxTorque = c.hi; return k; }
    default: { auto *k = new Weld; k->d = c; k->m_bodies[0] = p; k->m_bodies[1] = q; return k; }
    }
}
inline ForceGenerator *makeGenerator(const GenD &g, const std::vector<RigidBody *> &b) {
    using namespace ref;
    switch (g.kind) {
    case GRAVITY: { auto *k = new GravityForceGenerator; k->m_g = g.g; return k; }
    case STATIC: { auto *k = new StaticForceGenerator; k->setForce(g.fx, g.fy); k->setPosition(g.px, g.py); k->m_body = b[g.b0]; return k; }
    case SPRING: { auto *k = new Spring; k->m_body1 = b[g.b0]; k->m_body2 = b[g.b1]; k->m_p1_x = g.px; k->m_p1_y = g.py; k->m_p2_x = g.px2; k->m_p2_y = g.py2; k->m_ks = g.ks; k->m_kd = g.kd; k->m_restLength = g.rest; return k; }
    case MOTOR: { auto *k = new ConstantSpeedMotor; k->m_body0 = b[g.b0]; k->m_body1 = b[g.b1]; k->m_ks = g.ks; k->m_kd = g.kd; k->m_maxTorque = g.maxT; k->m_speed = g.speed; return k; }
    default: { auto *k = new Field; k->d = g; k->body = b[g.b0]; return k; }
    }
}
inline SleSolver *makeSolver(int kind) {
    if (kind == ref::GE) return new GaussianEliminationSleSolver;
    if (kind == ref::CG) {
        auto *c = new ConjugateGradientSleSolver;
        c->setMaxIterations(2000); c->setMaxError(1e-11); c->setMinError(1e-11);
        return c;
    }
    auto *g = new GaussSeidelSleSolver;
    g->m_maxIterations = ref::gsBudget; g->m_minDelta = ref::gsDelta;
    return g;
}
inline OdeSolver *makeIntegrator(int kind) {
    if (kind == ref::EULER) return new EulerOdeSolver;
    if (kind == ref::NSV) return new NsvOdeSolver;
    return new Rk4OdeSolver;
}

// a system with its solver objects (all on the heap)
struct System {
    int kind, solver, integ;
    OptimizedNsvRigidBodySystem *nsv = nullptr;
    GenericRigidBodySystem *gen = nullptr;
    RigidBodySystem *sys = nullptr;
    SleSolver *sle = nullptr;
    OdeSolver *ode = nullptr;
    bool ownSle = true, ownOde = true;
    System(int kind_, int solver_, int integ_, SleSolver *shareSle = nullptr, OdeSolver *shareOde = nullptr) : kind(kind_), solver(solver_), integ(integ_) {
        sle = shareSle ? shareSle : makeSolver(solver);
        ownSle = !shareSle;
        if (kind == ref::SYS_NSV) { sys = nsv = new OptimizedNsvRigidBodySystem; nsv->initialize(sle); }
        else {
            ode = shareOde ? shareOde : makeIntegrator(integ);
            ownOde = !shareOde;
            sys = gen = new GenericRigidBodySystem;
            gen->initialize(sle, ode);
        }
    }
    ~System() { delete sys; if (ownOde) delete ode; if (ownSle) delete sle; }
    System(const System &) = delete;
};
// the bodies, constraints and generators of a scene (all on the heap)
struct Objects {
    std::vector<RigidBody *> b;
    std::vector<Constraint *> c;
    std::vector<ForceGenerator *> g;
    const Scene sc;
    explicit Objects(const Scene &s) : sc(s) {
        for (auto &d : s.b) { auto *r = new RigidBody; setBody(r, d); b.push_back(r); }
        for (auto &d : s.c) c.push_back(makeConstraint(d, b));
        for (auto &d : s.g) g.push_back(makeGenerator(d, b));
    }
    void registerAll(RigidBodySystem *sys) {
        for (size_t i = 0; i < b.size(); ++i) if (sc.b[i].reg) sys->addRigidBody(b[i]);
        for (auto *k : c) sys->addConstraint(k);
        for (auto *k : g) sys->addForceGenerator(k);
    }
    ~Objects() { for (auto *p : c) delete p; for (auto *p : g) delete p; for (auto *p : b) delete p; }
    Objects(const Objects &) = delete;
};
struct World : System, Objects {
    World(const Scene &s, int kind, int solver, int integ) : System(kind, solver, integ), Objects(s) { registerAll(sys); }
    void process(double dt, int steps) { sys->process(dt, steps); }
};

inline double tolOf(int solver) { return solver == ref::GS ? 1e-5 : 1e-7; }
inline uint64_t hashBodies(const std::vector<RigidBody *> &b) {
    mc::Hash h;
    for (auto *r : b) h.d(r->p_x).d(r->p_y).d(r->theta).d(r->v_x).d(r->v_y).d(r->v_theta).i(r->index);
    return h.h;
}
inline uint64_t hashReactions(const std::vector<Constraint *> &c) {
    mc::Hash h;
    for (auto *k : c) for (int r = 0; r < k->getConstraintCount(); ++r) for (int b = 0; b < k->m_bodyCount; ++b) h.d(k->F_x[r][b]).d(k->F_y[r][b]).d(k->F_t[r][b]);
    return h.h;
}
// real bodies against the reference state
inline void compareMotion(mc::Ctx &x, const std::vector<RigidBody *> &b, const ref::Sim &s, double tol, const char *when) {
    double sc = (double)s.scale;
    for (size_t i = 0; i < b.size(); ++i) {
        x.nearScale(b[i]->v_x, (double)s.s.vx[i], tol, sc, "%s: body %zu v_x", when, i);
        x.nearScale(b[i]->v_y, (double)s.s.vy[i], tol, sc, "%s: body %zu v_y", when, i);
        x.nearScale(b[i]->v_theta, (double)s.s.w[i], tol, sc, "%s: body %zu v_theta", when, i);
        x.nearScale(b[i]->p_x, (double)s.s.x[i], tol, sc, "%s: body %zu p_x", when, i);
        x.nearScale(b[i]->p_y, (double)s.s.y[i], tol, sc, "%s: body %zu p_y", when, i);
        x.nearScale(b[i]->theta, (double)s.s.th[i], tol, sc, "%s: body %zu theta", when, i);
    }
}
inline void compareReactions(mc::Ctx &x, const std::vector<Constraint *> &c, const ref::Sim &s, double tol, const char *when) {
    double sc = (double)s.forceScale;
    for (size_t i = 0; i < c.size(); ++i)
        for (int r = 0; r < ref::conRows(s.sc.c[i].kind); ++r)
            for (int b = 0; b < ref::conBodies(s.sc.c[i].kind); ++b) {
                x.nearScale(c[i]->F_x[r][b], (double)s.react[i].fx[r][b], tol, sc, "%s: constraint %zu (%s) row %d body %d F_x", when, i, ref::conNames[s.sc.c[i].kind], r, b);
                x.nearScale(c[i]->F_y[r][b], (double)s.react[i].fy[r][b], tol, sc, "%s: constraint %zu (%s) row %d body %d F_y", when, i, ref::conNames[s.sc.c[i].kind], r, b);
                x.nearScale(c[i]->F_t[r][b], (double)s.react[i].ft[r][b], tol, sc, "%s: constraint %zu (%s) row %d body %d F_t", when, i, ref::conNames[s.sc.c[i].kind], r, b);
            }
}
} // namespace real
#endif
