// C08: the acceleration-level system makes every constraint's stabilised equation hold.
#include "sys.h"
using namespace sys;

namespace {
void judge(mc::Ctx &x, Run &r, const Scene &sc, const char *when) {
    double tol = real::tolOf(r.c.solver);
    real::compareMotion(x, r.w.b, r.s, tol, when);
    for (size_t i = 0; i < sc.b.size(); ++i) x.check(r.w.b[i]->m == sc.b[i].m && r.w.b[i]->I == sc.b[i].I, "mass or inertia of body %zu changed", i);
    if (r.c.integ == RK4) return;
    // the published accelerations are those of the last evaluation
    const atg_scs::SystemState *t = r.w.sys->state();
    double s = (double)r.s.scale;
    for (size_t i = 0; i < sc.b.size(); ++i) {
        int k = r.w.b[i]->index;
        if (k < 0) continue;
        x.nearScale(t->a_theta[k], (double)r.s.s.at[i], tol, s, "%s: a_theta of body %zu", when, i);
        x.nearScale(t->a_x[k], (double)r.s.lastAx[i], tol, s, "%s: a_x of body %zu", when, i);
        x.nearScale(t->a_y[k], (double)r.s.lastAy[i], tol, s, "%s: a_y of body %zu", when, i);
    }
}
void play(mc::Ctx &x, const Scene &sc, const Config &c, double dt, int steps, int calls) {
    Run r(sc, c);
    for (int k = 0; k < calls; ++k) {
        if (!r.step(x, dt, steps, 1)) { if (!k) x.discard(); return; }
        judge(x, r, sc, k ? "after a further step" : "after the first step");
    }
}
void pairs(mc::Ctx &x) {
    const Config &c = config(x, false, true);
    int n = x.thorough() ? 1 + x.choose(3, "bodies") : 3;
    static const std::vector<gen::Option> o[] = {gen::options(1), gen::options(2), gen::options(3)};
    Scene sc = scene(x, n, 2, o[n - 1]);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    play(x, sc, c, dt, steps, c.integ == RK4 ? 1 : 2);
}
void triples(mc::Ctx &x) {
    const Config &c = config(x, false, true);
    static const std::vector<gen::Option> o2 = gen::options(2), o3 = gen::options(3);
    bool three = x.thorough() && x.choose(2, "bodies") == 1;
    Scene sc = scene(x, three ? 3 : 2, 3, three ? o3 : o2);
    play(x, sc, c, 1 / 64.0, 2, 1);
}
void longer(mc::Ctx &x) {
    const Config &c = config(x, false, true);
    int shape = x.choose(SHAPES, "shape"), n = x.pick(longSizes, "bodies");
    Scene sc = longScene(shape, n);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    play(x, sc, c, dt, steps, n > 12 ? 1 : 3);
}
// joints to an unregistered body
void anchors(mc::Ctx &x) {
    const Config &c = config(x, false, true);
    Scene sc = anchoredScene(x, x.thorough() ? 2 : 1);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    play(x, sc, c, dt, steps, 2);
}
void big(mc::Ctx &x) {
    static const int ns[] = {33, 40, 64, 90, 130, 140};
    int solver = x.choose(2, "solver");
    int shape = x.choose(SHAPES, "shape"), n = x.pick(ns, "bodies");
    if (!x.thorough() && n > 70 && shape != PINS && shape != MIXED) x.discard();
    Scene sc = longScene(shape, n);
    play(x, sc, {SYS_GEN, solver, n % 2 ? NSV : EULER}, 1 / 64.0, 1, 1);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C08",
                   "acceleration-level system x all linear solvers x all integrators x all ordered pairs of (constraint kind, attachment) on 3 bodies, triples on 2 bodies, clutches and gears to an unregistered body with one (thorough: two) further constraints, chains/stars/pins/mixtures/rings of up to 140 bodies, with bounded deviations of every mass, inertia, coordinate, velocity, constraint parameter, gain, load, step length and substep count",
                   {{"pairs", pairs, 1, 2, false}, {"triples", triples, 0, 0, false}, {"longer", longer, 1, 2, false}, {"anchors", anchors, 0, 1, false}, {"big", big, 0, 0, false}},
                   {"rows linearly independent (pivot ratio of an extended-precision elimination at least 1e-5)"});
}
