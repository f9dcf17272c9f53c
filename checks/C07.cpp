// C07: the velocity-level system makes every constraint's velocity equation hold.
#include "sys.h"
using namespace sys;

namespace {
double biasOf(mc::Ctx &x) { return gen::var(x, "bias", 1, {0, 0.25, 2.5}); }
void judge(mc::Ctx &x, Run &r, const Scene &sc, const char *when) {
    real::compareMotion(x, r.w.b, r.s, real::tolOf(r.c.solver), when);
    for (size_t i = 0; i < sc.b.size(); ++i) x.check(r.w.b[i]->m == sc.b[i].m && r.w.b[i]->I == sc.b[i].I, "mass or inertia of body %zu changed", i);
}
void play(mc::Ctx &x, const Scene &sc, const Config &c, double dt, int steps, double bias, int calls) {
    Run r(sc, c);
    for (int k = 0; k < calls; ++k) {
        if (!r.step(x, dt, steps, bias)) { if (!k) x.discard(); return; }
        judge(x, r, sc, k ? "after a further step" : "after the first step");
    }
}
// all pairs of constraints on up to 3 bodies
void pairs(mc::Ctx &x) {
    const Config &c = config(x, true, false);
    int n = x.thorough() ? 1 + x.choose(3, "bodies") : 3;
    static const std::vector<gen::Option> o[] = {gen::options(1), gen::options(2), gen::options(3)};
    Scene sc = scene(x, n, 2, o[n - 1]);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    double bias = biasOf(x);
    play(x, sc, c, dt, steps, bias, 2);
}
// all triples of constraints on 2 bodies (and on 3 in the thorough tier)
void triples(mc::Ctx &x) {
    const Config &c = config(x, true, false);
    static const std::vector<gen::Option> o2 = gen::options(2), o3 = gen::options(3);
    bool three = x.thorough() && x.choose(2, "bodies") == 1;
    Scene sc = scene(x, three ? 3 : 2, 3, three ? o3 : o2);
    play(x, sc, c, 1 / 64.0, 2, 1, 1);
}
// chains, stars, pins, mixtures and rings of many constraints
void longer(mc::Ctx &x) {
    const Config &c = config(x, true, false);
    int shape = x.choose(SHAPES, "shape"), n = x.pick(longSizes, "bodies");
    Scene sc = longScene(shape, n);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    double bias = biasOf(x);
    play(x, sc, c, dt, steps, bias, n > 12 ? 1 : 3);
}
// joints to an unregistered body
void anchors(mc::Ctx &x) {
    const Config &c = config(x, true, false);
    Scene sc = anchoredScene(x, x.thorough() ? 2 : 1);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    play(x, sc, c, dt, steps, 1, 2);
}
void big(mc::Ctx &x) {
    static const int ns[] = {33, 40, 64, 90, 130, 140};
    int solver = x.choose(2, "solver");
    int shape = x.choose(SHAPES, "shape"), n = x.pick(ns, "bodies");
    if (!x.thorough() && n > 70 && shape != PINS && shape != MIXED) x.discard();
    Scene sc = longScene(shape, n);
    play(x, sc, {SYS_NSV, solver, NSV}, 1 / 64.0, 1, 1, 1);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C07",
                   "velocity-level system x all linear solvers x all ordered pairs of (constraint kind, attachment) on 3 bodies, triples on 2 bodies, clutches and gears to an unregistered body with one (thorough: two) further constraints, chains/stars/pins/mixtures/rings of up to 140 bodies, with bounded deviations of every mass, inertia, coordinate, velocity, constraint parameter, load, step length, substep count and bias factor",
                   {{"pairs", pairs, 1, 2, false}, {"triples", triples, 0, 0, false}, {"longer", longer, 1, 2, false}, {"anchors", anchors, 1, 2, false}, {"big", big, 0, 0, false}},
                   {"rows linearly independent (pivot ratio of an extended-precision elimination at least 1e-5)", "limits do not bind"});
}
