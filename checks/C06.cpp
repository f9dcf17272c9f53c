// C06: the Runge-Kutta integrator is the classical fourth-order method.
#include "sys.h"
using namespace sys;

namespace {
// ---- through the general system: every evaluation is observed
class Probe : public atg_scs::ForceGenerator {
  public:
    std::vector<State> seen;
    std::vector<double> dts;
    virtual void apply(atg_scs::SystemState *s) {
        dts.push_back(s->dt);
        State t;
        for (int i = 0; i < s->n; ++i) { t.x.push_back(s->p_x[i]); t.y.push_back(s->p_y[i]); t.th.push_back(s->theta[i]); t.vx.push_back(s->v_x[i]); t.vy.push_back(s->v_y[i]); t.w.push_back(s->v_theta[i]); }
        seen.push_back(t);
    }
};
void compareStages(mc::Ctx &x, const std::vector<State> &got, const std::vector<State> &want, int n, double scale, double tol) {
    x.check(got.size() == want.size(), "%zu force evaluations, expected %zu (four per substep)", got.size(), want.size());
    for (size_t k = 0; k < want.size(); ++k) {
        x.check((int)got[k].x.size() == n, "evaluation %zu saw %zu bodies, expected %d", k, got[k].x.size(), n);
        for (int i = 0; i < n; ++i) {
            const State &g = got[k], &w = want[k];
            x.nearScale((double)g.x[i], (double)w.x[i], tol, scale, "evaluation %zu, body %d: p_x", k, i);
            x.nearScale((double)g.y[i], (double)w.y[i], tol, scale, "evaluation %zu, body %d: p_y", k, i);
            x.nearScale((double)g.th[i], (double)w.th[i], tol, scale, "evaluation %zu, body %d: theta", k, i);
            x.nearScale((double)g.vx[i], (double)w.vx[i], tol, scale, "evaluation %zu, body %d: v_x", k, i);
            x.nearScale((double)g.vy[i], (double)w.vy[i], tol, scale, "evaluation %zu, body %d: v_y", k, i);
            x.nearScale((double)g.w[i], (double)w.w[i], tol, scale, "evaluation %zu, body %d: v_theta", k, i);
        }
    }
}
void play(mc::Ctx &x, const Scene &sc, int solver, double dt, int steps, int calls) {
    Run r(sc, {SYS_GEN, solver, RK4});
    Probe *p = new Probe;
    struct Del { Probe *p; ~Del() { delete p; } } del{p};
    r.w.sys->addForceGenerator(p);
    std::vector<State> want;
    r.s.record = &want;
    double tol = sc.c.empty() ? 1e-10 : real::tolOf(solver);
    for (int k = 0; k < calls; ++k) {
        want.clear(); p->seen.clear(); p->dts.clear();
        if (!r.step(x, dt, steps, 1)) { if (!k) x.discard(); return; }
        compareStages(x, p->seen, want, (int)sc.b.size(), (double)r.s.scale, tol);
        static const double into[] = {0, 0.5, 0.5, 1};
        for (size_t e = 0; e < p->dts.size(); ++e) x.near(p->dts[e], into[e % 4] * dt / steps, 1e-12, "evaluation %zu: the state's dt (time into the substep)", e);
        real::compareMotion(x, r.w.b, r.s, tol, "after a step");
    }
}
struct GOption { int kind, a, b; };
void fields(mc::Ctx &x) {
    int n = x.choose(x.thorough() ? 6 : 5, "bodies");
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::body(x, i));
    std::vector<GOption> o;
    o.push_back({GRAVITY, 0, 0});
    for (int a = 0; a < n; ++a) { o.push_back({FIELD, a, 0}); if (a < 2) o.push_back({STATIC, a, 0}); }
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) { o.push_back({SPRING, a, b}); if (a < 2 && b < 2) o.push_back({MOTOR, a, b}); }
    int ng = n ? 2 : 0;
    for (int k = 0; k < ng; ++k) {
        int q = x.choose((int)o.size() + 1, "generator");
        if (!q) break;
        const GOption &p = o[q - 1];
        GenD g; g.kind = p.kind; g.b0 = p.a; g.b1 = p.b;
        if (g.kind == MOTOR) { g.ks = 4; g.kd = x.deviate(2, "motor kd") * 0.1; }
        if (g.kind == SPRING) g.kd = gen::var(x, "spring kd", 0.5, {0, 4});
        if (x.tracing()) x.note("%s(%d,%d)", genNames[g.kind], g.b0, g.b1);
        sc.g.push_back(g);
    }
    if (x.choose(2, "field on all")) for (int i = 0; i < n; ++i) { GenD g; g.kind = FIELD; g.b0 = i; g.k[0] += 0.3 * i; g.k[4] -= 0.2 * i; sc.g.push_back(g); }
    play(x, sc, GE, gen::dtOf(x), gen::stepsOf(x), 2);
}
// many bodies, generators and substeps
void crowd(mc::Ctx &x) {
    static const int counts[] = {6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 513};
    static const int stepCounts[] = {1, 2, 5, 10, 33, 64, 100, 129, 300};
    int n = x.pick(counts, "bodies"), steps = x.pick(stepCounts, "steps");
    if (n * steps > (x.thorough() ? 20000 : 3000)) x.discard();
    Scene sc;
    for (int i = 0; i < n; ++i) { BodyD b = gen::defaultBody(i); b.vx += 0.01 * i; b.th = 0.05 * (i % 100); sc.b.push_back(b); }
    int load = x.choose(3, "load");
    GenD g;
    if (load < 2) { g.kind = GRAVITY; sc.g.push_back(g); }
    if (load) for (int i = 0; i < n; ++i) { g.kind = FIELD; g.b0 = i; g.k[0] = 0.3 + 0.001 * i; sc.g.push_back(g); }
    int held = x.choose(3, "constraints"); // none, on the first two bodies, on the last two
    if (held) { ConD c; c.kind = LINK; c.b0 = held == 1 ? 0 : n - 1; c.b1 = held == 1 ? 1 : n - 2; sc.c.push_back(c); c.kind = FIXROT; sc.c.push_back(c); }
    play(x, sc, GE, steps > 20 ? 0.25 : 1 / 32.0, steps, 2);
}
// constraint forces enter every stage
void constrained(mc::Ctx &x) {
    int solver = x.choose(SOLVERS, "solver");
    static const std::vector<gen::Option> o = gen::options(2);
    Scene sc = scene(x, 2, 2, o);
    play(x, sc, solver, gen::dtOf(x), gen::stepsOf(x), 2);
}
// ---- the protocol itself: start / (step, solve) x 4 / end on bare states
struct Law { R kx, kv, kt; };
void evaluate(atg_scs::SystemState *s) {
    for (int i = 0; i < s->n; ++i) {
        R fx, fy, t;
        GenD g;
        g.k[1] += 0.1 * i;
        fieldForce(g, s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i], 1, 1, fx, fy, t);
        s->a_x[i] = (double)fx; s->a_y[i] = (double)fy; s->a_theta[i] = (double)t;
    }
}
void fill(atg_scs::SystemState *s, int n, int nc, int salt) {
    s->resize(n, nc);
    for (int i = 0; i < n; ++i) {
        BodyD b = gen::defaultBody(i + salt);
        s->p_x[i] = b.x; s->p_y[i] = b.y; s->theta[i] = b.th; s->v_x[i] = b.vx; s->v_y[i] = b.vy; s->v_theta[i] = b.w; s->m[i] = b.m;
        s->a_x[i] = s->a_y[i] = s->a_theta[i] = 0; s->f_x[i] = s->f_y[i] = s->t[i] = 0;
    }
    for (int i = 0; i < 2 * nc; ++i) s->r_x[i] = s->r_y[i] = s->r_t[i] = 0;
}
void protocol(mc::Ctx &x) {
    static const double dts[] = {1 / 64.0, 0.2, 1 / 1024.0};
    atg_scs::Rk4OdeSolver *rk = new atg_scs::Rk4OdeSolver;
    struct Del { atg_scs::Rk4OdeSolver *p; ~Del() { delete p; } } del{rk};
    static const int sizes[][2] = {{1, 0}, {0, 0}, {2, 3}, {4, 1}, {3, 0}};
    int depth = x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int sz = x.choose(x.thorough() ? 4 : 6, "size");
        if (sz == (x.thorough() ? 3 : 5)) break;
        int n = sizes[sz][0], nc = sizes[sz][1];
        double dt = dts[d % 3];
        // stages completed before giving up (4 = the whole step), with end() or without
        int stages = x.choose(5, "stages"), ended = stages == 4 ? 1 : x.choose(2, "end");
        x.note("n=%d rows=%d dt=%g stages=%d end=%d", n, nc, dt, stages, ended);
        atg_scs::SystemState *s = new atg_scs::SystemState;
        struct Free { atg_scs::SystemState *s; ~Free() { s->destroy(); delete s; } } fr{s};
        fill(s, n, nc, d);
        Scene sc;
        for (int i = 0; i < n; ++i) { BodyD b = gen::defaultBody(i + d); b.m = b.I = 1; sc.b.push_back(b); GenD g; g.kind = FIELD; g.b0 = i; g.k[1] += 0.1 * i; sc.g.push_back(g); }
        Sim ref(sc);
        std::vector<State> want, got;
        ref.record = &want;
        ref.process(SYS_GEN, RK4, dt, 1, 1);
        if (x.choose(2, "fresh solver")) { delete rk; rk = del.p = new atg_scs::Rk4OdeSolver; }
        rk->start(s, dt);
        for (int k = 0; k < stages; ++k) {
            bool done = rk->step(s);
            x.step();
            x.check(done == (k == 3), "step() reports %s at evaluation %d", done ? "completion" : "more stages", k + 1);
            State t;
            for (int i = 0; i < n; ++i) { t.x.push_back(s->p_x[i]); t.y.push_back(s->p_y[i]); t.th.push_back(s->theta[i]); t.vx.push_back(s->v_x[i]); t.vy.push_back(s->v_y[i]); t.w.push_back(s->v_theta[i]); }
            got.push_back(t);
            want.resize(4);
            evaluate(s);
            for (int i = 0; i < 2 * nc; ++i) { s->r_x[i] = k + 1; s->r_y[i] = i; s->r_t[i] = -k; }
            rk->solve(s);
        }
        want.resize(got.size());
        compareStages(x, got, want, n, (double)ref.scale, 1e-11);
        if (ended) rk->end();
        if (stages == 4) for (int i = 0; i < n; ++i) {
            double sc2 = (double)ref.scale;
            x.nearScale(s->p_x[i], (double)ref.s.x[i], 1e-11, sc2, "p_x of body %d", i);
            x.nearScale(s->p_y[i], (double)ref.s.y[i], 1e-11, sc2, "p_y of body %d", i);
            x.nearScale(s->theta[i], (double)ref.s.th[i], 1e-11, sc2, "theta of body %d", i);
            x.nearScale(s->v_x[i], (double)ref.s.vx[i], 1e-11, sc2, "v_x of body %d", i);
            x.nearScale(s->v_y[i], (double)ref.s.vy[i], 1e-11, sc2, "v_y of body %d", i);
            x.nearScale(s->v_theta[i], (double)ref.s.w[i], 1e-11, sc2, "v_theta of body %d", i);
        }
        mc::Hash h;
        h.i(n).i(nc).i(stages).i(ended);
        for (int i = 0; i < n; ++i) h.d(s->p_x[i]).d(s->v_x[i]).d(s->theta[i]);
        x.state(h.h);
    }
}
// exact for constant acceleration; error shrinks like the fifth power of the
// step on a law with a known solution (harmonic oscillator in every coordinate)
void order(mc::Ctx &x) {
    int n = 1 + x.choose(4, "bodies");
    static const double ws[] = {1, 2.5, 0.4};
    double w = x.pick(ws, "frequency");
    bool constant = x.choose(2, "constant acceleration") == 1;
    double err[3];
    for (int k = 0; k < 3; ++k) {
        double dt = 0.2 / (1 << k);
        atg_scs::SystemState *s = new atg_scs::SystemState;
        struct Free { atg_scs::SystemState *s; ~Free() { s->destroy(); delete s; } } fr{s};
        fill(s, n, 0, 0);
        std::vector<std::array<double, 6>> y;
        for (int i = 0; i < n; ++i) y.push_back({s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i]});
        atg_scs::Rk4OdeSolver rk;
        rk.start(s, dt);
        for (bool done = false; !done;) {
            done = rk.step(s);
            for (int i = 0; i < n; ++i) {
                s->a_x[i] = constant ? 1.5 : -w * w * s->p_x[i];
                s->a_y[i] = constant ? -2 + i : -w * w * s->p_y[i];
                s->a_theta[i] = constant ? 0.75 : -w * w * s->theta[i];
            }
            rk.solve(s);
            x.step();
        }
        rk.end();
        err[k] = 0;
        for (int i = 0; i < n; ++i) {
            double g[6] = {s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i]};
            double a[3] = {1.5, -2.0 + i, 0.75};
            for (int c = 0; c < 3; ++c) {
                double p = constant ? y[i][c] + dt * y[i][3 + c] + 0.5 * dt * dt * a[c] : y[i][c] * cos(w * dt) + y[i][3 + c] / w * sin(w * dt);
                double v = constant ? y[i][3 + c] + dt * a[c] : -y[i][c] * w * sin(w * dt) + y[i][3 + c] * cos(w * dt);
                if (constant) { x.near(g[c], p, 1e-12, "constant acceleration: coordinate %d", c); x.near(g[3 + c], v, 1e-12, "constant acceleration: velocity %d", c); }
                err[k] = std::max(err[k], std::max(std::fabs(g[c] - p), std::fabs(g[3 + c] - v)));
            }
        }
        x.state(mc::Hash().d(s->p_x[0]).d(s->v_theta[n - 1]).i(n).h);
    }
    if (!constant) for (int k = 0; k < 2; ++k) x.check(err[k + 1] < err[k] / 24 + 1e-13, "halving the step reduces the error of one step from %g to %g only", err[k], err[k + 1]);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C06",
                   "all pairs of force generators on up to 5 bodies and all pairs of (constraint kind, attachment) on 2 bodies with every stage state observed through the general system, bounded deviations of all parameters; 6 to 513 bodies with up to 300 substeps; all sequences of full, abandoned and ended steps of the bare integrator over states of 5 sizes, on one or several solver objects",
                   {{"fields", fields, 1, 2, false}, {"constrained", constrained, 1, 2, false}, {"crowd", crowd, 0, 0, false}, {"protocol", protocol, 0, 0, false}, {"order", order, 0, 0, false}},
                   {});
}
