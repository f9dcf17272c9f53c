// C23: internal forces conserve momentum, angular momentum and do no spurious work.
#include "sys.h"
using namespace sys;

namespace {
struct Opt { int gen, kind, a, b; }; // gen: force generator
std::vector<Opt> internals(int n) {
    std::vector<Opt> o;
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) {
        o.push_back({0, LINK, a, b}); o.push_back({0, CLUTCH, a, b}); o.push_back({0, ROLL, a, b});
        o.push_back({1, SPRING, a, b}); o.push_back({1, MOTOR, a, b});
    }
    return o;
}
void add(mc::Ctx &x, Scene &sc, const Opt &p, int salt) {
    if (x.tracing()) x.note("%s(%d,%d)", p.gen ? genNames[p.kind] : conNames[p.kind], p.a, p.b);
    if (p.gen) {
        GenD g = gen::generator(x, p.kind, p.a, p.b, true);
        if (p.kind == SPRING) {
            // ends that meet, or nearly
            static const double gaps[] = {-1, 0, 0.004, 0.02};
            double gap = gaps[x.deviate(4, "ends meet")];
            if (gap >= 0) {
                if (x.tracing()) x.note("ends %g apart", gap);
                const BodyD &a = sc.b[p.a], &b = sc.b[p.b];
                R c = cosl(a.th), s = sinl(a.th), c2 = cosl(b.th), s2 = sinl(b.th);
                R wx = a.x + c * g.px - s * g.py + gap - b.x, wy = a.y + s * g.px + c * g.py - b.y;
                g.px2 = (double)(c2 * wx + s2 * wy); g.py2 = (double)(-s2 * wx + c2 * wy);
            }
        }
        sc.g.push_back(g);
    }
    else sc.c.push_back(gen::constraint(x, p.kind, p.a, p.b, salt));
}
struct Total { R px = 0, py = 0, l = 0, mag = 1; };
// momentum of the velocities `v` of the bodies seen at the positions of `at`
Total total(const Scene &sc, const State &at, const std::vector<atg_scs::RigidBody *> &b) {
    Total t;
    for (size_t i = 0; i < b.size(); ++i) {
        R m = sc.b[i].m, I = sc.b[i].I, u = b[i]->v_x, v = b[i]->v_y, w = b[i]->v_theta;
        t.px += m * u; t.py += m * v; t.l += m * (at.x[i] * v - at.y[i] * u) + I * w;
        t.mag += fabsl(m * u) + fabsl(m * v) + fabsl(m * at.x[i] * v) + fabsl(m * at.y[i] * u) + fabsl(I * w);
    }
    return t;
}
State now(const std::vector<atg_scs::RigidBody *> &b) {
    State s;
    for (auto *r : b) { s.x.push_back(r->p_x); s.y.push_back(r->p_y); s.th.push_back(r->theta); s.vx.push_back(r->v_x); s.vy.push_back(r->v_y); s.w.push_back(r->v_theta); s.at.push_back(0); }
    return s;
}
// moves body b of constraint c so that the joint is satisfied
void satisfy(Scene &sc, const ConD &c) {
    BodyD &p = sc.b[c.b0], &q = sc.b[c.b1];
    R c0 = cosl(p.th), s0 = sinl(p.th), c1 = cosl(q.th), s1 = sinl(q.th);
    if (c.kind == LINK) {
        q.x = (double)(p.x + c0 * c.lx - s0 * c.ly - (c1 * c.lx2 - s1 * c.ly2));
        q.y = (double)(p.y + s0 * c.lx + c0 * c.ly - (s1 * c.lx2 + c1 * c.ly2));
    } else if (c.kind == ROLL) {
        // along the line by s, off it by the radius, turned to match
        R dx = c0 * c.dx - s0 * c.dy, dy = s0 * c.dx + c0 * c.dy, s = 0.4L;
        R ox = p.x + c0 * c.lx - s0 * c.ly, oy = p.y + s0 * c.lx + c0 * c.ly;
        q.x = (double)(ox + s * dx - c.r * dy); q.y = (double)(oy + s * dy + c.r * dx);
        q.th = (double)(p.th - s / c.r);
    }
}
void momentum(mc::Ctx &x, const Scene &sc, const Config &c, double dt, int steps, int calls, bool angular) {
    Run r(sc, c);
    for (int k = 0; k < calls; ++k) {
        State start = now(r.w.b);
        Total t0 = total(sc, start, r.w.b);
        if (!r.step(x, dt, steps, 1)) { if (!k) x.discard(); return; }
        Total t1 = total(sc, start, r.w.b);
        R mag = std::max(std::max(t0.mag, t1.mag), r.s.scale);
        x.nearScale((double)t1.px, (double)t0.px, 1e-10, (double)mag, "total momentum x");
        x.nearScale((double)t1.py, (double)t0.py, 1e-10, (double)mag, "total momentum y");
        if (angular && k == 0) x.nearScale((double)t1.l, (double)t0.l, 1e-10, (double)mag, "total angular momentum");
    }
}
// any configuration, any number of substeps, any integrator
void linear(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<Opt> o = internals(3);
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::body(x, i));
    for (int k = 0; k < 2; ++k) { int q = x.choose((int)o.size() + 1, "connection"); if (!q) break; add(x, sc, o[q - 1], k); }
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    momentum(x, sc, c, dt, steps, 2, false);
}
// satisfied joints, tree topologies: body k+1 hangs on an earlier one
void angular(mc::Ctx &x) {
    static const std::vector<Config> all = [] { std::vector<Config> o; for (auto &c : configs(true, true)) if (c.integ != RK4) o.push_back(c); return o; }();
    const Config &c = all[x.choose((int)all.size(), "configuration")];
    int n = 2 + x.choose(x.thorough() ? 3 : 2, "bodies");
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::body(x, i));
    for (int i = 1; i < n; ++i) {
        int parent = i > 1 ? x.choose(i, "parent") : 0, kind = x.choose(6, "joint");
        bool turned = x.choose(2, "turned") == 1;
        static const Opt k[] = {{0, LINK, 0, 0}, {0, CLUTCH, 0, 0}, {0, ROLL, 0, 0}, {1, SPRING, 0, 0}, {1, MOTOR, 0, 0}, {0, LINK, 0, 0}};
        Opt p = k[kind];
        p.a = turned ? i : parent; p.b = turned ? parent : i;
        add(x, sc, p, i - 1);
        if (p.gen) sc.g.back().kd = 0;
        else if (!turned) satisfy(sc, sc.c.back());
        else {
            // keep the earlier body where it is: place the later one as the base
            ConD &d = sc.c.back();
            if (d.kind == LINK) { ConD e = d; std::swap(e.b0, e.b1); std::swap(e.lx, e.lx2); std::swap(e.ly, e.ly2); satisfy(sc, e); }
            else if (d.kind == ROLL) {
                BodyD save = sc.b[d.b1];
                satisfy(sc, d);
                double ex = save.x - sc.b[d.b1].x, ey = save.y - sc.b[d.b1].y, et = save.th - sc.b[d.b1].th;
                sc.b[d.b1] = save;
                // move and turn the base with everything attached rigidly about the wheel
                BodyD &p0 = sc.b[d.b0];
                R cx = save.x - ex, cy = save.y - ey;
                R rx = p0.x - cx, ry = p0.y - cy, cs = cosl(et), sn = sinl(et);
                p0.x = (double)(save.x + cs * rx - sn * ry); p0.y = (double)(save.y + sn * rx + cs * ry); p0.th += et;
            }
        }
        if (kind == 5) { Opt e{1, SPRING, p.a, p.b}; add(x, sc, e, i); sc.g.back().kd = 0; }
    }
    momentum(x, sc, c, gen::dtOf(x), 1, 1, true);
}
// reaction forces of satisfied constraints do no work
void work(mc::Ctx &x) {
    static const std::vector<Config> all = [] { std::vector<Config> o; for (auto &c : configs(true, true)) if (c.integ != RK4) o.push_back(c); return o; }();
    const Config &c = all[x.choose((int)all.size(), "configuration")];
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::body(x, i));
    int first = x.choose(4, "fixed constraint");
    static const int kinds[] = {FIXPOS, LINE, FIXROT, LINK};
    auto put = [&](int kind, int a, int b, int salt) {
        ConD d = gen::constraint(x, kind, a, b, salt);
        BodyD &p = sc.b[a];
        R cs = cosl(p.th), sn = sinl(p.th), wx = p.x + cs * d.lx - sn * d.ly, wy = p.y + sn * d.lx + cs * d.ly;
        if (kind == FIXPOS) { d.wx = (double)wx; d.wy = (double)wy; }
        if (kind == LINE) { d.wx = (double)(wx - 0.7L * d.dx); d.wy = (double)(wy - 0.7L * d.dy); }
        if (kind == FIXROT) d.r = p.th;
        sc.c.push_back(d);
        if (kind == LINK || kind == ROLL) satisfy(sc, d);
    };
    put(kinds[first], 0, 1, 0);
    int second = x.choose(5, "second constraint");
    if (second < 4) put(kinds[second], first == 3 ? 1 : 0, 2, 1);
    int third = x.choose(4, "third constraint");
    if (third < 3) put(kinds[third], 2, 2, 2);
    loads(x, sc, 3);
    // velocities consistent with all constraints
    std::vector<Row> rows = rowsOf(sc, stateOf(sc));
    std::vector<R> A = gram(sc, rows), rhs, lam;
    auto rate = [&](const Row &r, const State &s) { R v = 0; for (int e = 0; e < r.nb; ++e) v += r.J[3 * e] * s.vx[r.b[e]] + r.J[3 * e + 1] * s.vy[r.b[e]] + r.J[3 * e + 2] * s.w[r.b[e]]; return v; };
    State s0 = stateOf(sc);
    for (auto &r : rows) rhs.push_back(-rate(r, s0));
    if (!solveDense(A, rhs, lam)) x.discard();
    for (size_t i = 0; i < rows.size(); ++i) for (int e = 0; e < rows[i].nb; ++e) {
        BodyD &b = sc.b[rows[i].b[e]];
        b.vx += (double)(lam[i] * rows[i].J[3 * e] / b.m); b.vy += (double)(lam[i] * rows[i].J[3 * e + 1] / b.m); b.w += (double)(lam[i] * rows[i].J[3 * e + 2] / b.I);
    }
    Run r(sc, c);
    State start = now(r.w.b);
    if (!r.step(x, gen::dtOf(x), 1, 1)) x.discard();
    State vel = c.kind == SYS_NSV ? now(r.w.b) : start; // velocities at which the constraint holds
    double tol = c.solver == GE ? 1e-8 : 1e-5;
    R f = std::max(r.s.forceScale, r.s.scale) * r.s.scale;
    for (const Row &q : rows) {
        R power = 0;
        for (int e = 0; e < q.nb; ++e) {
            int b = q.b[e];
            power += r.w.c[q.con]->F_x[q.row][e] * vel.vx[b] + r.w.c[q.con]->F_y[q.row][e] * vel.vy[b] + r.w.c[q.con]->F_t[q.row][e] * vel.w[b];
        }
        x.nearScale((double)power, 0, tol, (double)f, "power of constraint %d (%s) row %d", q.con, conNames[sc.c[q.con].kind], q.row);
    }
}
// a moved and turned copy moves identically in its own frame
void frames(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<Opt> o = [] { auto v = internals(3); v.push_back({0, GEAR, 0, 1}); v.push_back({0, GEAR, 2, 1}); v.push_back({0, CONSTROT, 1, -1}); v.push_back({0, ROTFRIC, 0, -1}); v.push_back({0, ROTFRIC, 2, -1}); return v; }();
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::defaultBody(i));
    for (int k = 0; k < 2; ++k) { int q = x.choose((int)o.size() + 1, "connection"); if (!q) break; add(x, sc, o[q - 1], k); }
    static const double moves[][3] = {{0, 0, 1.5707963267948966}, {3.5, -2.25, 0}, {-1.2, 4, 2.3}, {0.5, 0, -0.7}, {0, 0, 3.141592653589793}};
    const double *m = x.pick(moves, "frame");
    R cs = cosl((R)m[2]), sn = sinl((R)m[2]);
    Scene t = sc;
    for (auto &b : t.b) {
        BodyD a = b;
        b.x = (double)(m[0] + cs * a.x - sn * a.y); b.y = (double)(m[1] + sn * a.x + cs * a.y); b.th = a.th + m[2];
        b.vx = (double)(cs * a.vx - sn * a.vy); b.vy = (double)(sn * a.vx + cs * a.vy);
    }
    int steps = 1 + x.choose(2, "steps");
    Run r(sc, c), q(t, c);
    if (!r.step(x, 1 / 64.0, steps, 1) || !q.step(x, 1 / 64.0, steps, 1)) x.discard();
    double tol = real::tolOf(c.solver) * (c.solver == GE ? 0.1 : 1), s = (double)r.s.scale * 2 + 10;
    for (size_t i = 0; i < 3; ++i) {
        auto *a = r.w.b[i], *b = q.w.b[i];
        x.nearScale(b->p_x, (double)(m[0] + cs * a->p_x - sn * a->p_y), tol, s, "moved copy: body %zu p_x", i);
        x.nearScale(b->p_y, (double)(m[1] + sn * a->p_x + cs * a->p_y), tol, s, "moved copy: body %zu p_y", i);
        x.nearScale(b->theta, a->theta + m[2], tol, s, "moved copy: body %zu theta", i);
        x.nearScale(b->v_x, (double)(cs * a->v_x - sn * a->v_y), tol, s, "moved copy: body %zu v_x", i);
        x.nearScale(b->v_y, (double)(sn * a->v_x + cs * a->v_y), tol, s, "moved copy: body %zu v_y", i);
        x.nearScale(b->v_theta, a->v_theta, tol, s, "moved copy: body %zu v_theta", i);
    }
}
// long internal chains, rings and stars
void longer(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    int n = x.pick(longSizes, "bodies"), shape = x.choose(3, "shape");
    if (n < 2 || (!x.thorough() && n > 12)) x.discard();
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::defaultBody(i));
    for (int i = 1; i < n; ++i) {
        int a = shape == 1 ? 0 : i - 1;
        static const int kinds[] = {LINK, CLUTCH, LINK, ROLL};
        ConD d; d.kind = shape == 2 ? kinds[i % 4] : LINK; d.b0 = i % 2 ? a : i; d.b1 = i % 2 ? i : a;
        d.lx += 0.04 * i; d.ly2 -= 0.03 * i;
        sc.c.push_back(d);
        GenD g; g.kind = i % 3 ? SPRING : MOTOR; g.b0 = d.b0; g.b1 = (d.b1 + 1) % n; g.ks = 5;
        if (g.kind == MOTOR) g.kd = 0;
        if (g.b0 != g.b1) sc.g.push_back(g);
    }
    momentum(x, sc, c, 1 / 64.0, 1 + x.choose(2, "steps"), 2, false);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C23",
                   "both systems x all integrators x all linear solvers: all pairs of internal connections (link, clutch, rolling contact, spring, motor) on 3 bodies (linear momentum, any configuration), all trees of satisfied connections on up to 4 bodies (angular momentum), all combinations of satisfied fixed constraints and links with consistent velocities (no work), all pairs of connections under 5 rigid motions (frame invariance), long chains and stars; bounded deviations of all parameters",
                   {{"linear", linear, 1, 2, false}, {"angular", angular, 1, 2, false}, {"work", work, 1, 2, false}, {"frames", frames, 0, 1, false}, {"longer", longer, 0, 0, false}},
                   {"rows linearly independent (pivot ratio at least 1e-5)", "angular momentum is taken about the origin with the positions the impulses act at; multi-stage integrators only for linear momentum and frames"});
}
