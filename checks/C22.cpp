// C22: a step of k substeps equals k separate steps of one k-th the length.
#include "sys.h"
using namespace sys;

namespace {
void same(mc::Ctx &x, real::World &a, real::World &b, double tol, double sc, double fsc, const char *what) {
    for (size_t i = 0; i < a.b.size(); ++i) {
        const double *p[] = {&a.b[i]->p_x, &a.b[i]->p_y, &a.b[i]->theta, &a.b[i]->v_x, &a.b[i]->v_y, &a.b[i]->v_theta};
        const double *q[] = {&b.b[i]->p_x, &b.b[i]->p_y, &b.b[i]->theta, &b.b[i]->v_x, &b.b[i]->v_y, &b.b[i]->v_theta};
        static const char *const n[] = {"p_x", "p_y", "theta", "v_x", "v_y", "v_theta"};
        for (int k = 0; k < 6; ++k) x.nearScale(*p[k], *q[k], tol, sc, "%s: body %zu %s", what, i, n[k]);
    }
    for (size_t i = 0; i < a.c.size(); ++i)
        for (int r = 0; r < a.c[i]->getConstraintCount(); ++r)
            for (int e = 0; e < a.c[i]->m_bodyCount; ++e) {
                x.nearScale(a.c[i]->F_x[r][e], b.c[i]->F_x[r][e], tol, fsc, "%s: constraint %zu row %d body %d F_x", what, i, r, e);
                x.nearScale(a.c[i]->F_y[r][e], b.c[i]->F_y[r][e], tol, fsc, "%s: constraint %zu row %d body %d F_y", what, i, r, e);
                x.nearScale(a.c[i]->F_t[r][e], b.c[i]->F_t[r][e], tol, fsc, "%s: constraint %zu row %d body %d F_t", what, i, r, e);
            }
}
void play(mc::Ctx &x, const Scene &sc, const Config &c, double h, int k, int split, double bias, int rounds) {
    Sim s(sc);
    s.countSweeps = c.solver == GS;
    s.process(c.kind, c.integ, h * k * rounds, k * rounds, bias);
    if (!s.inDomain(c.solver)) x.discard();
    real::World a(sc, c.kind, c.solver, c.integ), b(sc, c.kind, c.solver, c.integ);
    if (a.nsv) a.nsv->m_biasFactor = b.nsv->m_biasFactor = bias;
    double tol = real::tolOf(c.solver) * (c.solver == GE ? 0.1 : 1), fsc = std::max((double)s.forceScale, (double)s.scale / h * 1e-2), scale = (double)s.scale;
    for (int round = 0; round < rounds; ++round) {
        for (int i = 0; i < k; ++i) { a.process(h, 1); x.step(); }
        // split: bit i set = a new call starts after substep i
        int run = 0;
        for (int i = 0; i < k; ++i) {
            ++run;
            if (i == k - 1 || (split >> i & 1)) { b.process(h * run, run); x.step(); run = 0; }
        }
        x.state(real::hashBodies(b.b));
        same(x, b, a, tol, scale, tol > 1e-6 ? fsc * 10 : fsc, "substeps against separate steps");
        if (a.nsv) {
            x.nearScale(b.nsv->timeElapsed(), a.nsv->timeElapsed(), 1e-12, 0, "elapsed time");
            x.nearScale(b.nsv->timeElapsed(), h * k * (round + 1), 1e-12, 0, "elapsed time");
        }
    }
}
void pairs(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<gen::Option> o = gen::options(3);
    Scene sc = scene(x, 3, 2, o);
    static const int ks[] = {2, 3, 5};
    play(x, sc, c, 1 / 64.0, x.pick(ks, "k"), 0, 1, 1);
}
void singles(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<gen::Option> o = gen::options(3);
    Scene sc = scene(x, 3, 1, o);
    static const int ks[] = {2, 3, 4, 7};
    int k = x.pick(ks, "k");
    double dt = gen::dtOf(x);
    double bias = gen::var(x, "bias", 1, {0, 0.25});
    play(x, sc, c, dt / 4, k, 0, bias, 2);
}
// every split of up to 5 (7) substeps into calls
void splits(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    int shape = x.choose(SHAPES, "shape");
    Scene sc = longScene(shape, 3 + x.choose(2, "bodies"));
    int k = 1 + x.choose(x.thorough() ? 8 : 6, "k");
    int split = x.choose(1 << (k - 1), "split");
    play(x, sc, c, 1 / 128.0, k, split, 1, 2);
}
// every generator and pair of generators
void loadsOnly(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    int n = 2;
    Scene sc;
    for (int i = 0; i < n + 1; ++i) { sc.b.push_back(gen::body(x, i)); sc.b.back().reg = i < n; }
    static const struct { int kind, a, b; } o[] = {{GRAVITY, 0, 0}, {STATIC, 0, 0}, {STATIC, 1, 0}, {SPRING, 0, 1}, {SPRING, 1, 2}, {SPRING, 2, 0}, {MOTOR, 0, 1}, {MOTOR, 2, 1}, {FIELD, 0, 0}, {FIELD, 1, 1}};
    for (int k = 0; k < 2; ++k) {
        int q = x.choose(11, "generator");
        if (!q) break;
        sc.g.push_back(gen::generator(x, o[q - 1].kind, o[q - 1].a, o[q - 1].b, true));
    }
    if (x.choose(2, "joint")) { ConD d; d.kind = LINK; sc.c.push_back(d); }
    static const int ks[] = {2, 3, 8};
    play(x, sc, c, 1 / 64.0, x.pick(ks, "k"), 0, 1, 2);
}
// limits binding and releasing over the substeps
void limited(mc::Ctx &x) {
    Scene sc;
    for (int i = 0; i < 2; ++i) sc.b.push_back(gen::body(x, i));
    static const double lims[][2] = {{-0.5, 0.5}, {0, 0}, {-30, 4}, {2, 9}, {-DBL_MAX, 1}, {-DBL_MAX, DBL_MAX}};
    static const gen::Option o[] = {{LINK, 0, 1}, {CLUTCH, 0, 1}, {GEAR, 1, 0}, {CONSTROT, 0, -1}, {ROTFRIC, 1, -1}, {FIXPOS, 1, -1}};
    for (int k = 0; k < 2; ++k) {
        const gen::Option &p = x.pick(o, "constraint");
        ConD c = gen::constraint(x, p.kind, p.b0, p.b1, k);
        const double *l = x.pick(lims, "limits");
        c.lo = l[0]; c.hi = l[1];
        if (c.kind == LINK && c.hi <= 0) c.hi = 0.1;
        if (c.kind == GEAR) c.neutral = l[1] == 0;
        sc.c.push_back(c);
    }
    loads(x, sc, 2);
    Sim s(sc);
    s.countSweeps = s.boxed = true;
    static const int ks[] = {2, 4};
    int k = x.pick(ks, "k");
    s.process(SYS_NSV, NSV, k / 64.0, k, 1);
    if (!s.inDomain(GS)) x.discard();
    real::World a(sc, SYS_NSV, GS, NSV), b(sc, SYS_NSV, GS, NSV);
    for (int i = 0; i < k; ++i) a.process(1 / 64.0, 1);
    b.process(k / 64.0, k);
    x.step();
    x.state(real::hashBodies(b.b));
    same(x, b, a, 1e-5, (double)s.scale, std::max((double)s.forceScale, (double)s.scale) * 10, "limited: substeps against separate steps");
}
// counts of substeps beyond those anyone would unroll, at several speeds
void many(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const int ks[] = {16, 17, 32, 33, 64, 100, 128, 257, 512, 513, 700, 1000, 1025, 2000};
    int k = x.pick(ks, "k");
    if (!x.thorough() && k > 1025) x.discard();
    int what = x.choose(4, "scene"), fast = x.choose(3, "speed");
    Scene sc;
    for (int i = 0; i < 2; ++i) { BodyD b = gen::defaultBody(i); if (fast) { b.vx *= fast == 1 ? 300 : 1e-6; b.vy *= fast == 1 ? -250 : 1e-6; b.w *= fast == 1 ? 3 : 1e-6; } sc.b.push_back(b); }
    GenD g;
    if (what != 0) { g.kind = GRAVITY; sc.g.push_back(g); }
    if (what == 2) { g.kind = SPRING; g.b1 = 1; sc.g.push_back(g); }
    ConD d;
    if (what == 3) { d.kind = FIXROT; d.r = sc.b[0].th; sc.c.push_back(d); d.kind = CONSTROT; d.b0 = 1; d.r = 2; sc.c.push_back(d); }
    // a whole and an odd fraction of a second in all
    play(x, sc, c, (x.choose(2, "length") ? 0.7 : 0.25) / k, k, 0, 1, 2);
}
void longer(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    int shape = x.choose(SHAPES, "shape"), n = x.pick(longSizes, "bodies");
    if (!x.thorough() && n > 12) x.discard();
    play(x, longScene(shape, n), c, 1 / 128.0, 2 + x.choose(2, "k"), 0, 1, 2);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C22",
                   "both systems x all integrators x all linear solvers: all ordered pairs of (constraint kind, attachment) on 3 bodies x k, every split of up to 8 substeps into calls, every pair of force generators, binding limits, long compositions, up to 2000 substeps, with bounded deviations of all parameters; substeps and separate steps run on real objects and are compared with each other",
                   {{"pairs", pairs, 0, 1, false}, {"singles", singles, 1, 2, false}, {"splits", splits, 0, 0, false}, {"loads", loadsOnly, 1, 2, false}, {"limited", limited, 1, 2, false}, {"longer", longer, 0, 0, false}, {"many", many, 0, 0, false}},
                   {"motor acceleration damping excluded (its force depends on the previous acceleration)", "rows linearly independent (pivot ratio at least 1e-5)"});
}
