// C27: units, mirror images, uniform motion and the naming of a joint's two
// ends make no difference.
#include "sys.h"
using namespace sys;

namespace {
// what happens to the numbers of a scene, and how to map results back
struct Map {
    double M = 1, L = 1, T = 1;  // units of mass, length and time
    bool mirror = false;         // x -> -x
    double ux = 0, uy = 0;       // added velocity
    bool swapEnds = false;       // the two bodies of every joint exchanged
    double vel() const { return L / T; }
    double acc() const { return L / (T * T); }
    double force() const { return M * L / (T * T); }
    double torque() const { return M * L * L / (T * T); }
};
double limit(double v, double k) { return fabs(v) >= 1e300 ? v : v * k; }
Scene apply(const Scene &s, const Map &m) {
    Scene t = s;
    double sx = m.mirror ? -1 : 1;
    for (auto &b : t.b) {
        b.m *= m.M; b.I *= m.M * m.L * m.L;
        b.x *= m.L * sx; b.y *= m.L; b.th *= sx;
        b.vx = b.vx * m.vel() * sx + m.ux; b.vy = b.vy * m.vel() + m.uy; b.w *= sx / m.T;
    }
    for (auto &c : t.c) {
        c.lx *= m.L * sx; c.ly *= m.L; c.lx2 *= m.L * sx; c.ly2 *= m.L; c.wx *= m.L * sx; c.wy *= m.L;
        c.ks /= m.T * m.T; c.kd /= m.T;
        double k = c.kind == LINK ? m.force() : m.torque(), lo = limit(c.lo, k), hi = limit(c.hi, k);
        bool flip = m.mirror && c.kind != LINK;
        if (c.kind == CLUTCH && m.swapEnds) flip = !flip;
        c.lo = flip ? -hi : lo; c.hi = flip ? -lo : hi;
        if (m.mirror && c.kind == LINE) c.dx = -c.dx;
        if (m.mirror && c.kind == ROLL) c.dy = -c.dy; // reversed: the wheel stays on the line's other hand
        if (c.kind == ROLL) c.r *= m.L;
        if (c.kind == FIXROT || c.kind == WELD) c.r *= sx;
        if (c.kind == CONSTROT) c.r *= sx / m.T;
        c.vb[0] *= m.vel() * sx; c.vb[1] *= m.vel(); c.vb[2] *= sx / m.T;
        if (m.swapEnds) {
            if (c.kind == LINK) { std::swap(c.b0, c.b1); std::swap(c.lx, c.lx2); std::swap(c.ly, c.ly2); }
            if (c.kind == CLUTCH) std::swap(c.b0, c.b1);
            if (c.kind == GEAR) { std::swap(c.b0, c.b1); c.r = 1 / c.r; }
        }
    }
    for (auto &g : t.g) {
        g.g *= m.acc();
        g.px *= m.L * sx; g.py *= m.L; g.px2 *= m.L * sx; g.py2 *= m.L; g.rest *= m.L;
        g.fx *= m.force() * sx; g.fy *= m.force();
        if (g.kind == SPRING) { g.ks *= m.M / (m.T * m.T); g.kd *= m.M / m.T; }
        if (g.kind == MOTOR) { g.ks *= m.M * m.L * m.L / m.T; g.kd *= m.M * m.L * m.L; g.speed *= sx / m.T; g.maxT *= m.torque(); }
        if (m.swapEnds && g.kind == SPRING) { std::swap(g.b0, g.b1); std::swap(g.px, g.px2); std::swap(g.py, g.py2); }
        if (m.swapEnds && g.kind == MOTOR) { std::swap(g.b0, g.b1); g.speed = -g.speed; }
    }
    return t;
}
bool swapped(const Map &m, const ConD &c) { return m.swapEnds && (c.kind == LINK || c.kind == CLUTCH || c.kind == GEAR); }

// runs both and compares
void same(mc::Ctx &x, const Scene &sc, const Config &c, const Map &m, double dt, int steps, int calls, double bias, bool boxed, double tol, const char *what) {
    Scene sd = apply(sc, m);
    Run p(sc, c), q(sd, c);
    if (boxed) p.s.boxed = q.s.boxed = true;
    double sx = m.mirror ? -1 : 1, time = 0;
    shortestSpring = 1e9;
    for (int k = 0; k < calls; ++k) {
        if (!p.step(x, dt, steps, bias) || !q.step(x, dt * m.T, steps, bias)) { if (!k) x.discard(); return; }
        // springs shorter than a hundredth have no axis, in any unit
        if (m.L != 1 && shortestSpring < 0.015) { if (!k) x.discard(); return; }
        time += dt * m.T;
        double s = (double)p.s.scale * 2 + 10, t = tol * (k + 1);
        for (size_t i = 0; i < p.w.b.size(); ++i) {
            auto *a = p.w.b[i], *b = q.w.b[i];
            x.nearScale(b->p_x / m.L, sx * a->p_x + m.ux * time / m.L, t, s, "%s: body %zu p_x", what, i);
            x.nearScale(b->p_y / m.L, a->p_y + m.uy * time / m.L, t, s, "%s: body %zu p_y", what, i);
            x.nearScale(b->theta, sx * a->theta, t, s, "%s: body %zu theta", what, i);
            x.nearScale(b->v_x / m.vel(), sx * a->v_x + m.ux / m.vel(), t, s, "%s: body %zu v_x", what, i);
            x.nearScale(b->v_y / m.vel(), a->v_y + m.uy / m.vel(), t, s, "%s: body %zu v_y", what, i);
            x.nearScale(b->v_theta * m.T, sx * a->v_theta, t, s, "%s: body %zu v_theta", what, i);
        }
        double f = (double)p.s.forceScale * 2 + 10;
        for (size_t i = 0; i < p.w.c.size(); ++i)
            for (int r = 0; r < conRows(sc.c[i].kind); ++r)
                for (int b = 0; b < conBodies(sc.c[i].kind); ++b) {
                    int e = swapped(m, sc.c[i]) ? 1 - b : b;
                    auto *u = p.w.c[i], *v = q.w.c[i];
                    x.nearScale(v->F_x[r][e] / m.force(), sx * u->F_x[r][b], t * 10, f, "%s: constraint %zu (%s) row %d body %d F_x", what, i, conNames[sc.c[i].kind], r, b);
                    x.nearScale(v->F_y[r][e] / m.force(), u->F_y[r][b], t * 10, f, "%s: constraint %zu (%s) row %d body %d F_y", what, i, conNames[sc.c[i].kind], r, b);
                    x.nearScale(v->F_t[r][e] / m.torque(), sx * u->F_t[r][b], t * 10, f, "%s: constraint %zu (%s) row %d body %d F_t", what, i, conNames[sc.c[i].kind], r, b);
                }
    }
}
struct Opt { int gen, kind, a, b; };
std::vector<Opt> parts(int n, bool anchored) {
    std::vector<Opt> o;
    for (int k = 0; k < CON_KINDS; ++k) {
        if (!anchored && (k == FIXPOS || k == LINE || k == FIXROT)) { if (k != FIXROT) continue; }
        if (conBodies(k) == 1) for (int a = 0; a < n; ++a) o.push_back({0, k, a, -1});
        else for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) o.push_back({0, k, a, b});
    }
    for (int a = 0; a < n; ++a) {
        o.push_back({1, STATIC, a, -1});
        for (int b = 0; b < n; ++b) if (a != b) { o.push_back({1, SPRING, a, b}); o.push_back({1, MOTOR, a, b}); }
    }
    o.push_back({1, GRAVITY, 0, 0});
    return o;
}
void add(mc::Ctx &x, Scene &sc, const Opt &p, int salt) {
    if (x.tracing()) x.note("%s(%d,%d)", p.gen ? genNames[p.kind] : conNames[p.kind], p.a, p.b);
    if (p.gen) sc.g.push_back(gen::generator(x, p.kind, p.a, p.b, true));
    else sc.c.push_back(gen::constraint(x, p.kind, p.a, p.b, salt));
}
Scene build(mc::Ctx &x, int n, int count, bool anchored) {
    static const std::vector<Opt> o[2][4] = {{{}, parts(1, false), parts(2, false), parts(3, false)}, {{}, parts(1, true), parts(2, true), parts(3, true)}};
    const std::vector<Opt> &p = o[anchored][n];
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::body(x, i));
    for (int k = 0; k < count; ++k) { int q = x.choose((int)p.size() + 1, "part"); if (!q) break; add(x, sc, p[q - 1], k); }
    return sc;
}
const double EXACT = 1e-9;
double tolerance(int solver, double exact) { return solver == GE ? exact : real::tolOf(solver) * 3; }

// units: the direct solver has no tolerance of its own, so any factor will do
void units(mc::Ctx &x) {
    static const std::vector<Config> all = [] { std::vector<Config> o; for (auto &c : configs(true, true)) if (c.solver == GE) o.push_back(c); return o; }();
    const Config &c = all[x.choose((int)all.size(), "configuration")];
    if (x.tracing()) x.note("%s", name(c).c_str());
    static const double f[][3] = {{1 << 24, 1, 1}, {1.0 / (1 << 24), 1, 1}, {1, 32, 1}, {1, 0.125, 1}, {1, 1, 512}, {1, 1, 1.0 / 512}, {1000, 100, 60}, {1e-6, 0.3, 0.001}, {1e9, 1000, 1}};
    const double *k = x.pick(f, "units");
    Map m; m.M = k[0]; m.L = k[1]; m.T = k[2];
    Scene sc = build(x, 2, 2, true);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    same(x, sc, c, m, dt, steps, 2, 1, false, m.L == 1 ? EXACT : 1e-8, "other units");
}
// one part at a time in units so small or large that every number of the scene is extreme
void extremes(mc::Ctx &x) {
    static const std::vector<Config> all = [] { std::vector<Config> o; for (auto &c : configs(true, true)) if (c.solver == GE) o.push_back(c); return o; }();
    const Config &c = all[x.choose((int)all.size(), "configuration")];
    static const double f[] = {0x1p-40, 0x1p40, 0x1p-70, 0x1p70, 0x1p-20, 0x1p20, 0x1p-100, 0x1p100};
    Map m;
    int which = x.choose(4, "unit");
    double k = x.pick(f, "factor");
    if (which == 0 || which == 3) m.M = k;
    if (which == 1 || which == 3) m.L = k;
    if (which == 2 || which == 3) m.T = 1 / k;
    if (which == 3 && (k < 1e-15 || k > 1e15)) x.discard();
    Scene sc = build(x, 2, 1, true);
    // the motion at first is a match for the joint, or nearly
    if (x.choose(2, "at rest")) for (auto &b : sc.b) b.vx = b.vy = b.w = 0;
    if (m.L != 1) for (auto &g : sc.g) if (g.kind == SPRING) x.discard();
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, 1, false, 1e-8, "extreme units");
}
// heavier scenes with limits, Gauss-Seidel
void heavy(mc::Ctx &x) {
    static const int kinds[] = {CLUTCH, LINK, CONSTROT, ROTFRIC, GEAR};
    Config c{SYS_NSV, GS, NSV};
    Map m; m.M = x.choose(2, "mass unit") ? 1 << 20 : 4096;
    m.mirror = x.choose(2, "mirror") == 1;
    m.swapEnds = x.choose(2, "ends exchanged") == 1;
    Scene sc;
    for (int i = 0; i < 2; ++i) sc.b.push_back(gen::body(x, i));
    for (int k = 0; k < 2; ++k) {
        int q = x.choose(k ? 6 : 5, "kind");
        if (q == 5) break;
        int side = x.choose(2, "side");
        ConD d = gen::constraint(x, kinds[q], side, conBodies(kinds[q]) == 2 ? 1 - side : -1, k);
        static const double L[][2] = {{-DBL_MAX, DBL_MAX}, {-2, 5}, {-30, 0.5}, {0, 40}, {-7, -1}};
        const double *l = x.pick(L, "limits");
        d.lo = l[0]; d.hi = l[1];
        if (d.kind == LINK && !(d.hi >= 0 && d.lo == -DBL_MAX)) { d.hi = fabs(l[1]); }
        if (d.kind == LINK) d.lo = -DBL_MAX;
        if (d.kind == GEAR) { d.neutral = x.choose(2, "neutral"); d.lo = -DBL_MAX; d.hi = DBL_MAX; }
        sc.c.push_back(d);
    }
    add(x, sc, {1, GRAVITY, 0, 0}, 0);
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, 1, true, 3e-5, "heavier scene");
}
void mirror(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    Map m; m.mirror = true;
    Scene sc = build(x, 2, 2, true);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    same(x, sc, c, m, dt, steps, 2, 1, false, tolerance(c.solver, EXACT), "mirror image");
}
void ends(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    Map m; m.swapEnds = true;
    Scene sc = build(x, x.thorough() ? 3 : 2, 2, true);
    for (auto &g : sc.c) if (g.kind == GEAR && fabs(g.r) < 0.06) x.discard();
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, 1, false, tolerance(c.solver, 1e-8), "ends exchanged");
}
void drift(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const double u[][2] = {{3, 0}, {0, -5}, {-40, 70}, {1000, 1000}};
    const double *v = x.pick(u, "velocity");
    Map m; m.ux = v[0]; m.uy = v[1];
    Scene sc = build(x, 2, 2, false);
    same(x, sc, c, m, gen::dtOf(x), gen::stepsOf(x), 2, 1, false, std::max(tolerance(c.solver, EXACT), 1e-11 * fabs(v[1])), "moving scene");
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C27",
                   "both systems x all integrators x all linear solvers: all pairs of constraints and force generators of every kind and attachment on two bodies, run twice: in 9 systems of units, each part alone with every unit scaled by factors of 2^20 to 2^100 either way, mirrored, with the ends of every joint exchanged, and with every velocity shifted; limited rows under Gauss-Seidel with limits of every sign; bounded deviations of all parameters, step lengths and substeps; positions, velocities and reported reactions must correspond",
                   {{"units", units, 0, 1, false}, {"extremes", extremes, 0, 1, false}, {"heavy", heavy, 0, 1, false}, {"mirror", mirror, 0, 1, false}, {"ends", ends, 0, 1, false}, {"drift", drift, 0, 1, false}},
                   {"rows linearly independent (pivot ratio at least 1e-5 in both scenes)", "other units only with the direct solver (iterative tolerances are absolute), springs never shorter than 0.015", "springs, links, clutches, gears and motors can be attached either way round"});
}
