// C29: where a scene lies, which way it is turned and how many times its bodies
// have gone round make no difference.
#include "sys.h"
using namespace sys;

namespace {
struct Map {
    double tx = 0, ty = 0, phi = 0;
    int turns[3] = {0, 0, 0};
    double c() const { return cos(phi); }
    double s() const { return sin(phi); }
    void vec(double &x, double &y) const { if (phi == 0) return; double u = c() * x - s() * y, v = s() * x + c() * y; x = u; y = v; }
    void point(double &x, double &y) const { vec(x, y); x += tx; y += ty; }
    double angle(int b) const { return phi + 6.283185307179586476925L * turns[b]; }
};
Scene apply(const Scene &s, const Map &m) {
    Scene t = s;
    for (size_t i = 0; i < t.b.size(); ++i) {
        BodyD &b = t.b[i];
        m.point(b.x, b.y); m.vec(b.vx, b.vy);
        b.th += m.angle((int)i);
    }
    for (auto &c : t.c) {
        m.point(c.wx, c.wy);
        if (c.kind == LINE) m.vec(c.dx, c.dy);
        if (c.kind == WELD) { m.vec(c.vb[0], c.vb[1]); c.r += m.angle(c.b0) - m.angle(c.b1); }
        if (c.kind == FIXROT) c.r += m.angle(c.b0);
    }
    for (auto &g : t.g) if (g.kind == STATIC) m.vec(g.fx, g.fy);
    return t;
}
// runs both and compares
void same(mc::Ctx &x, const Scene &sc, const Config &c, const Map &m, double dt, int steps, int calls, bool boxed, double tol, const char *what) {
    Scene sd = apply(sc, m);
    Run p(sc, c), q(sd, c);
    if (boxed) p.s.boxed = q.s.boxed = true;
    double far = fabs(m.tx) + fabs(m.ty);
    int most = 0;
    for (int t : m.turns) most = std::max(most, abs(t));
    if (dt > 1) calls = steps = 1; // such steps multiply any difference
    for (int k = 0; k < calls; ++k) {
        shortestSpring = 1e9;
        if (!p.step(x, dt, steps, 1) || !q.step(x, dt, steps, 1)) { if (!k) x.discard(); return; }
        if (shortestSpring < 0.015) { if (!k) x.discard(); return; }
        // what is lost in adding and subtracting the distance, amplified by the correction rate
        double s = (double)p.s.scale * 2 + 10, t = tol * (k + 1) * (1 + far * 1e-4 + most * 1e-2);
        for (size_t i = 0; i < p.w.b.size(); ++i) {
            auto *a = p.w.b[i], *b = q.w.b[i];
            double px = a->p_x, py = a->p_y, vx = a->v_x, vy = a->v_y;
            m.point(px, py); m.vec(vx, vy);
            x.nearScale(b->p_x, px, t, s, "%s: body %zu p_x", what, i);
            x.nearScale(b->p_y, py, t, s, "%s: body %zu p_y", what, i);
            x.nearScale(b->theta - m.angle((int)i), a->theta, t, s, "%s: body %zu theta", what, i);
            x.nearScale(b->v_x, vx, t, s, "%s: body %zu v_x", what, i);
            x.nearScale(b->v_y, vy, t, s, "%s: body %zu v_y", what, i);
            x.nearScale(b->v_theta, a->v_theta, t, s, "%s: body %zu v_theta", what, i);
        }
        double f = (double)p.s.forceScale * 2 + 10;
        for (size_t i = 0; i < p.w.c.size(); ++i) {
            // a joint's rows along x and y turn into each other: their sum is what counts
            int rows = conRows(sc.c[i].kind), groups = m.phi == 0 || sc.c[i].kind == ROLL ? rows : 1;
            for (int r = 0; r < groups; ++r)
                for (int e = 0; e < conBodies(sc.c[i].kind); ++e) {
                    double u[3] = {0, 0, 0}, v[3] = {0, 0, 0};
                    for (int k2 = groups == rows ? r : 0; k2 < (groups == rows ? r + 1 : rows); ++k2) {
                        u[0] += p.w.c[i]->F_x[k2][e]; u[1] += p.w.c[i]->F_y[k2][e]; u[2] += p.w.c[i]->F_t[k2][e];
                        v[0] += q.w.c[i]->F_x[k2][e]; v[1] += q.w.c[i]->F_y[k2][e]; v[2] += q.w.c[i]->F_t[k2][e];
                    }
                    m.vec(u[0], u[1]);
                    static const char *const n[] = {"F_x", "F_y", "F_t"};
                    for (int d = 0; d < 3; ++d) x.nearScale(v[d], u[d], t * 10, f, "%s: constraint %zu (%s) row %d body %d %s", what, i, conNames[sc.c[i].kind], r, e, n[d]);
                }
        }
    }
}
enum { MOVED, TURNED, ROUND };
struct Opt { int gen, kind, a, b; };
// bodies 0 and 1 are registered, body 2 is not
std::vector<Opt> parts(int mode) {
    std::vector<Opt> o;
    for (int k = 0; k < CON_KINDS; ++k) {
        if (mode == TURNED && k == WELD) continue; // its rows are stiff to different degrees
        if (conBodies(k) == 1) for (int a = 0; a < 2; ++a) o.push_back({0, k, a, -1});
        else for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) {
            if ((a == 2 || b == 2) && k != CLUTCH && k != GEAR) continue;
            o.push_back({0, k, a, b});
        }
    }
    for (int a = 0; a < 3; ++a) {
        if (a < 2) o.push_back({1, STATIC, a, -1});
        for (int b = 0; b < 3; ++b) if (a != b) { o.push_back({1, SPRING, a, b}); if (b < 2) o.push_back({1, MOTOR, a, b}); }
    }
    if (mode != TURNED) o.push_back({1, GRAVITY, 0, 0});
    return o;
}
Scene build(mc::Ctx &x, int mode, int count) {
    static const std::vector<Opt> o[3] = {parts(MOVED), parts(TURNED), parts(ROUND)};
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::body(x, i));
    sc.b[2].reg = false;
    sc.b[2].vx = sc.b[2].vy = sc.b[2].w = 0;
    for (int k = 0; k < count; ++k) {
        int q = x.choose((int)o[mode].size() + 1, "part");
        if (!q) break;
        const Opt &p = o[mode][q - 1];
        if (x.tracing()) x.note("%s(%d,%d)", p.gen ? genNames[p.kind] : conNames[p.kind], p.a, p.b);
        if (p.gen) sc.g.push_back(gen::generator(x, p.kind, p.a, p.b, true));
        else sc.c.push_back(gen::constraint(x, p.kind, p.a, p.b, k));
    }
    return sc;
}
double tolerance(int solver, double exact) { return solver == GE ? exact : real::tolOf(solver) * 3; }

void moved(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const double d[][2] = {{7, -3}, {-300, 0.01}, {0, 5000}, {40000, 40000}, {-1e6, 2e6}};
    const double *k = x.pick(d, "moved by");
    Map m; m.tx = k[0]; m.ty = k[1];
    Scene sc = build(x, MOVED, 2);
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, false, tolerance(c.solver, 3e-10), "moved");
}
void turned(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const double a[] = {1.5707963267948966, 3.141592653589793, -1.5707963267948966, 0.4, -2.5, 1e-5};
    Map m; m.phi = x.pick(a, "turned by");
    Scene sc = build(x, TURNED, 2);
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, false, tolerance(c.solver, 1e-10), "turned");
}
void rounds(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const int t[][3] = {{1, 0, 0}, {0, -1, 0}, {-2, 3, 1}, {40, 40, 40}, {-700, 9, -80}, {1200, 0, -9000}};
    const int *k = x.pick(t, "turns");
    Map m;
    for (int i = 0; i < 3; ++i) m.turns[i] = k[i];
    Scene sc = build(x, ROUND, 2);
    // a wheel that has turned has rolled: only with its base
    for (auto &q : sc.c) if (q.kind == ROLL) m.turns[q.b1] = m.turns[q.b0];
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, false, tolerance(c.solver, 1e-10), "whole turns");
}
// one part (two) with the parameters varied, every map
void single(mc::Ctx &x) {
    static const std::vector<Config> ge = [] { std::vector<Config> o; for (auto &c : configs(true, true)) if (c.solver == GE) o.push_back(c); return o; }();
    const Config &c = ge[x.choose((int)ge.size(), "configuration")];
    if (x.tracing()) x.note("%s", name(c).c_str());
    static const double k[][6] = {{-1e6, 2e6, 0, 0, 0, 0}, {30, -20, 0.4, 0, 0, 0}, {0, 0, -1.5707963267948966, 1, -2, 0}, {0, 0, 0, 3, -80, 700}, {0, 0, 0, -1, 0, 1}};
    const double *q = x.pick(k, "map");
    Map m; m.tx = q[0]; m.ty = q[1]; m.phi = q[2];
    for (int i = 0; i < 3; ++i) m.turns[i] = (int)q[3 + i];
    Scene sc = build(x, m.phi ? TURNED : MOVED, x.thorough() ? 2 : 1);
    for (auto &d : sc.c) if (d.kind == ROLL) m.turns[d.b1] = m.turns[d.b0];
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, false, 3e-10, "moved and turned");
}
// everything at once, with limits, larger scenes
void all(mc::Ctx &x) {
    static const int kinds[] = {CHAIN, STAR, MIXED, PINS};
    Config c{SYS_NSV, GS, NSV};
    static const double d[][3] = {{7, -3, 0}, {-300, 800, 2}, {0, 0, -15}};
    const double *k = x.pick(d, "moved");
    Map m; m.tx = k[0]; m.ty = k[1];
    Scene sc;
    sc = longScene(kinds[x.choose(4, "scene")], 3);
    sc.g.pop_back(); // the field depends on the place
    for (int i = 0; i < 3; ++i) m.turns[i] = (int)k[2];
    static const double L[][2] = {{-DBL_MAX, DBL_MAX}, {-2, 5}, {-30, 0.5}, {0, 40}, {-7, -1}};
    int lim = 0;
    for (auto &q : sc.c) {
        if (q.kind != CLUTCH && q.kind != LINK && q.kind != CONSTROT && q.kind != ROTFRIC) continue;
        if (lim++ == 3) break;
        const double *l = x.pick(L, "limits");
        q.lo = l[0]; q.hi = l[1];
        if (q.kind == LINK) { q.lo = -DBL_MAX; q.hi = fabs(q.hi); }
    }
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, true, 3e-5, "moved scene with limits");
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C29",
                   "both systems x all integrators x all linear solvers: all pairs of constraints and force generators of every kind and attachment on two registered bodies and an anchor, run twice: moved to 5 other places, turned by 6 angles, and with whole turns added to any of the bodies; bounded deviations of all parameters, step lengths and substeps; positions, velocities and reported reactions must correspond",
                   {{"moved", moved, 0, 0, false}, {"turned", turned, 0, 0, false}, {"rounds", rounds, 0, 0, false}, {"varied", single, 1, 1, false}, {"all", all, 0, 1, false}},
                   {"rows linearly independent (pivot ratio at least 1e-5 in both scenes)", "springs never shorter than 0.015"});
}
