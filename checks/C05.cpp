// C05: free motion follows the integrator's rule for every body and step.
#include "ref.h"
#include "scenes.h"
using namespace ref;

namespace {
struct Combo { int sys, integ; };
const Combo combos[] = {{SYS_NSV, NSV}, {SYS_GEN, EULER}, {SYS_GEN, NSV}};

struct GOption { int kind, b0, b1; };
std::vector<GOption> genOptions(int n, int nStatic) {
    std::vector<GOption> o;
    o.push_back({-1, 0, 0});
    o.push_back({GRAVITY, 0, 0});
    for (int a = 0; a < n; ++a) { o.push_back({STATIC, a, 0}); o.push_back({FIELD, a, 0}); }
    int t = n + nStatic;
    for (int a = 0; a < t; ++a) for (int b = 0; b < t; ++b) if (a != b && (a < n || b < n)) {
        o.push_back({SPRING, a, b});
        if (b < n) o.push_back({MOTOR, a, b});
    }
    return o;
}

void checkUntouched(mc::Ctx &x, const Scene &sc, const std::vector<atg_scs::RigidBody *> &b) {
    for (size_t i = 0; i < b.size(); ++i) {
        x.check(b[i]->m == sc.b[i].m && b[i]->I == sc.b[i].I, "mass or inertia of body %zu changed", i);
        if (!sc.b[i].reg) x.check(b[i]->p_x == sc.b[i].x && b[i]->p_y == sc.b[i].y && b[i]->theta == sc.b[i].th && b[i]->v_x == sc.b[i].vx && b[i]->v_y == sc.b[i].vy && b[i]->v_theta == sc.b[i].w, "unregistered body %zu moved", i);
    }
}

// every composition of generators on 0..3 bodies
void composition(mc::Ctx &x) {
    const Combo &cb = x.pick(combos, "integrator");
    int solver = x.choose(SOLVERS, "solver");
    int n = x.choose(x.thorough() ? 5 : 4, "bodies");
    int nStatic = n > 0 && n < 3 ? x.choose(2, "static body") : 0;
    Scene sc;
    for (int i = 0; i < n + nStatic; ++i) { sc.b.push_back(gen::body(x, i)); sc.b.back().reg = i < n; }
    std::vector<GOption> o = genOptions(n, nStatic);
    int ng = n >= 3 ? 1 : 2;
    if (x.thorough() && n < 3) ng = 3;
    for (int k = 0; k < ng; ++k) {
        const GOption &g = o[x.choose((int)o.size(), "generator")];
        if (g.kind < 0) break;
        sc.g.push_back(gen::generator(x, g.kind, g.b0, g.b1, false));
        x.note("%s(%d,%d)", genNames[g.kind], g.b0, g.b1);
    }
    if (n >= 3) { GenD g; g.kind = GRAVITY; sc.g.push_back(g); g.kind = FIELD; g.b0 = 1; sc.g.push_back(g); }
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    // over steps that long only the first is predictable
    int calls = 3;
    if (dt > 1) steps = calls = 1;
    real::World w(sc, cb.sys, solver, cb.integ);
    Sim s(sc);
    x.state(real::hashBodies(w.b));
    for (int p = 0; p < calls; ++p) {
        // stiff springs amplify rounding from call to call: each starts at the real state
        for (size_t i = 0; i < w.b.size(); ++i) {
            const atg_scs::RigidBody *b = w.b[i];
            s.s.x[i] = b->p_x; s.s.y[i] = b->p_y; s.s.th[i] = b->theta; s.s.vx[i] = b->v_x; s.s.vy[i] = b->v_y; s.s.w[i] = b->v_theta;
        }
        s.process(cb.sys, cb.integ, dt, steps, 1);
        w.process(dt, steps);
        x.step();
        real::compareMotion(x, w.b, s, 1e-9, "after process");
        checkUntouched(x, sc, w.b);
        x.check(w.sys->state()->n == n, "state() has %d bodies, expected %d", w.sys->state()->n, n);
        for (int i = 0, k = 0; i < (int)sc.b.size(); ++i) {
            if (!sc.b[i].reg) continue;
            const atg_scs::SystemState *t = w.sys->state();
            x.nearScale(t->a_x[k], (double)(s.load[i].fx / sc.b[i].m), 1e-9, (double)s.scale / dt, "a_x of body %d", i);
            x.nearScale(t->a_y[k], (double)(s.load[i].fy / sc.b[i].m), 1e-9, (double)s.scale / dt, "a_y of body %d", i);
            x.nearScale(t->a_theta[k], (double)(s.load[i].t / sc.b[i].I), 1e-9, (double)s.scale / dt, "a_theta of body %d", i);
            if (sc.g.empty()) x.check(w.b[i]->v_x == sc.b[i].vx && w.b[i]->v_y == sc.b[i].vy && w.b[i]->v_theta == sc.b[i].w, "velocity of unforced body %d changed", i);
            ++k;
        }
        x.state(real::hashBodies(w.b));
    }
}

// generators see the state of the moment, once per substep, on clean accumulators
struct Seen { std::vector<double> p, v, f, a; double dt; };
class Probe : public atg_scs::ForceGenerator {
  public:
    std::vector<Seen> seen;
    double add[3] = {0, 0, 0};
    virtual void apply(atg_scs::SystemState *s) {
        Seen k;
        for (int i = 0; i < s->n; ++i) {
            k.p.insert(k.p.end(), {s->p_x[i], s->p_y[i], s->theta[i]});
            k.v.insert(k.v.end(), {s->v_x[i], s->v_y[i], s->v_theta[i]});
            k.f.insert(k.f.end(), {s->f_x[i], s->f_y[i], s->t[i]});
            k.a.insert(k.a.end(), {s->a_x[i], s->a_y[i], s->a_theta[i]});
            s->f_x[i] += add[0] * (i + 1); s->f_y[i] += add[1] * (i + 2); s->t[i] += add[2] * (i + 3);
        }
        k.dt = s->dt;
        seen.push_back(k);
    }
};
void probe(mc::Ctx &x) {
    const Combo &cb = x.pick(combos, "integrator");
    int n = x.choose(5, "bodies");
    int np = 1 + x.choose(4, "probes");
    static const int stepCounts[] = {1, 2, 3, 4, 9, 16};
    int steps = x.pick(stepCounts, "steps");
    static const double dts[] = {1 / 64.0, 0.3, 1e-4};
    double dt = x.pick(dts, "dt");
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::defaultBody(i));
    real::World w(sc, cb.sys, GE, cb.integ);
    std::vector<Probe *> pr;
    for (int k = 0; k < np; ++k) {
        Probe *p = new Probe;
        p->add[0] = 1.5 * k - 1; p->add[1] = 0.75 + k; p->add[2] = 0.5 - k;
        pr.push_back(p);
        w.sys->addForceGenerator(p);
    }
    std::vector<std::array<double, 6>> st;
    for (auto *b : w.b) st.push_back({b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta});
    double h = dt / steps;
    std::string bad;
    std::vector<std::array<double, 3>> acc(n);
    for (int p = 0; p < 2 && bad.empty(); ++p) {
        for (auto *q : pr) q->seen.clear();
        w.process(dt, steps);
        x.step();
        for (auto *q : pr) if ((int)q->seen.size() != steps) bad = mc::format("%zu evaluations of a generator in %d substeps", q->seen.size(), steps);
        for (int k = 0; k < steps && bad.empty(); ++k) {
            for (int i = 0; i < n; ++i) {
                double f[3] = {0, 0, 0};
                for (int q = 0; q < np; ++q) {
                    const Seen &s = pr[q]->seen[k];
                    if ((int)s.p.size() != 3 * n) { bad = "wrong number of bodies shown to a generator"; break; }
                    for (int c = 0; c < 3; ++c) {
                        if (!(std::fabs(s.p[3 * i + c] - st[i][c]) <= 1e-9 * (1 + std::fabs(st[i][c])))) bad = mc::format("substep %d probe %d body %d: generator saw position %g, expected %g", k, q, i, s.p[3 * i + c], st[i][c]);
                        if (!(std::fabs(s.v[3 * i + c] - st[i][3 + c]) <= 1e-9 * (1 + std::fabs(st[i][3 + c])))) bad = mc::format("substep %d probe %d body %d: generator saw velocity %g, expected %g", k, q, i, s.v[3 * i + c], st[i][3 + c]);
                        if (!(std::fabs(s.f[3 * i + c] - f[c]) <= 1e-12 * (1 + std::fabs(f[c])))) bad = mc::format("substep %d probe %d body %d: accumulated force was %g, expected %g", k, q, i, s.f[3 * i + c], f[c]);
                    }
                    // accelerations are those of the evaluation before, none at first
                    for (int c = 0; c < 3; ++c) { double a = k ? acc[i][c] : 0; if (!(std::fabs(s.a[3 * i + c] - a) <= 1e-9 * (1 + std::fabs(a)))) bad = mc::format("substep %d probe %d body %d: generator saw acceleration %g, expected %g", k, q, i, s.a[3 * i + c], a); }
                    if (!(std::fabs(s.dt - h) <= 1e-12 * h)) bad = mc::format("state dt %g, expected %g", s.dt, h);
                    f[0] += pr[q]->add[0] * (i + 1); f[1] += pr[q]->add[1] * (i + 2); f[2] += pr[q]->add[2] * (i + 3);
                }
                const double mm[3] = {sc.b[i].m, sc.b[i].m, sc.b[i].I};
                for (int c = 0; c < 3; ++c) {
                    acc[i][c] = f[c] / mm[c];
                    if (cb.integ == EULER) st[i][c] += h * st[i][3 + c];
                    st[i][3 + c] += h * f[c] / mm[c];
                    if (cb.integ == NSV) st[i][c] += h * st[i][3 + c];
                }
            }
        }
        for (int i = 0; i < n && bad.empty(); ++i) {
            double got[6] = {w.b[i]->p_x, w.b[i]->p_y, w.b[i]->theta, w.b[i]->v_x, w.b[i]->v_y, w.b[i]->v_theta};
            for (int c = 0; c < 6; ++c) if (!(std::fabs(got[c] - st[i][c]) <= 1e-9 * (1 + std::fabs(st[i][c])))) bad = mc::format("body %d coordinate %d: %g, expected %g", i, c, got[c], st[i][c]);
        }
        x.state(real::hashBodies(w.b));
    }
    for (auto *q : pr) { w.sys->removeForceGenerator(q); delete q; }
    if (!bad.empty()) x.fail("%s", bad.c_str());
}

// velocities and positions that come to be exactly zero are values like any
// other: every combination of coordinates that stop within a step, start from
// rest, hardly move or cross the origin, in sizes from tiny to huge.
class Push : public atg_scs::ForceGenerator {
  public:
    std::vector<std::array<double, 3>> f;
    virtual void apply(atg_scs::SystemState *s) { for (int i = 0; i < s->n; ++i) { s->f_x[i] += f[i][0]; s->f_y[i] += f[i][1]; s->t[i] += f[i][2]; } }
};
void zeros(mc::Ctx &x) {
    static const Combo every[] = {{SYS_NSV, NSV}, {SYS_GEN, EULER}, {SYS_GEN, NSV}, {SYS_GEN, RK4}};
    const Combo &cb = x.pick(every, "integrator");
    int n = 1 + x.choose(2, "bodies");
    static const int stepCounts[] = {1, 2, 4};
    int steps = x.pick(stepCounts, "steps");
    const double dt = 1 / 16.0, h = dt / steps;
    // the zero falls at the end of a call, or in the middle of one
    int at = x.choose(steps > 1 ? 2 : 1, "when") ? steps / 2 : steps;
    Scene sc;
    Push *push = new Push;
    struct Del { Push *p; ~Del() { delete p; } } del{push};
    static const double sizes[][2] = {{1, 1e-4}, {1, 1e-9}, {1e-5, 1e-3}, {1e-80, 1}, {1e30, 1}};
    const double *size = sizes[x.choose(n == 1 || x.thorough() ? 5 : 2, "size")];
    const double small = size[1];
    std::vector<std::array<double, 6>> st;
    std::vector<double> tol;
    for (int i = 0; i < n; ++i) {
        BodyD b = gen::defaultBody(i);
        b.m = 2; b.I = 0.5;
        std::array<double, 3> p{1.5, -2.25, 0.75}, v{0.5, -1, 0.25}, f;
        for (int c = 0; c < 3; ++c) {
            double mm = c < 2 ? b.m : b.I;
            int mode = x.choose(i ? 4 : 6, "coordinate");
            if (mode == 0) { f[c] = 0.5 - c; }                                        // simply moves
            if (mode == 1) f[c] = -v[c] * mm / (at * h);                              // stops
            if (mode == 2) { v[c] = 0; f[c] = 0; }                                    // rests
            if (mode == 3) { f[c] = 0; p[c] = -v[c] * at * h; }                       // passes zero
            if (mode == 4) { v[c] = 0; p[c] = 0; f[c] = 2; }                          // leaves zero
            if (mode == 5) { v[c] *= small; p[c] = 0; f[c] = 0; }                     // hardly moves
        }
        for (int c = 0; c < 3; ++c) { double k = c == 2 && size[0] > 1 ? 1 : size[0]; p[c] *= k; v[c] *= k; f[c] *= k; }
        b.x = p[0]; b.y = p[1]; b.th = p[2]; b.vx = v[0]; b.vy = v[1]; b.w = v[2];
        sc.b.push_back(b);
        push->f.push_back(f);
        for (int c = 0; c < 3; ++c) tol.push_back(1e-12 * (std::fabs(p[c]) + std::fabs(v[c]) + std::fabs(f[c])));
        st.push_back({p[0], p[1], p[2], v[0], v[1], v[2]});
    }
    real::World w(sc, cb.sys, GE, cb.integ);
    w.sys->addForceGenerator(push);
    std::string bad;
    for (int call = 0; call < 3; ++call) {
        w.process(dt, steps);
        x.step();
        for (int k = 0; k < steps; ++k) for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) {
            if (cb.integ != NSV) st[i][c] += h * st[i][3 + c];
            if (cb.integ == RK4) st[i][c] += h * h / 2 * push->f[i][c] / (c < 2 ? sc.b[i].m : sc.b[i].I);
            st[i][3 + c] += h * push->f[i][c] / (c < 2 ? sc.b[i].m : sc.b[i].I);
            if (cb.integ == NSV) st[i][c] += h * st[i][3 + c];
        }
        for (int i = 0; i < n && bad.empty(); ++i) {
            double got[6] = {w.b[i]->p_x, w.b[i]->p_y, w.b[i]->theta, w.b[i]->v_x, w.b[i]->v_y, w.b[i]->v_theta};
            for (int c = 0; c < 6; ++c) if (!(std::fabs(got[c] - st[i][c]) <= tol[3 * i + c % 3])) bad = mc::format("call %d, body %d coordinate %d: %.17g, expected %.17g", call, i, c, got[c], st[i][c]);
        }
        x.state(real::hashBodies(w.b));
    }
    w.sys->removeForceGenerator(push);
    if (!bad.empty()) x.fail("%s", bad.c_str());
}

// many bodies, many generators, many substeps
void crowd(mc::Ctx &x) {
    static const Combo every[] = {{SYS_NSV, NSV}, {SYS_GEN, EULER}, {SYS_GEN, NSV}, {SYS_GEN, RK4}};
    const Combo &cb = x.pick(every, "integrator");
    static const int counts[] = {1, 2, 4, 5, 7, 8, 9, 12, 15, 16, 17, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1025};
    int n = x.pick(counts, "bodies");
    static const int stepCounts[] = {1, 2, 10, 33, 64, 100, 129, 257, 1000};
    int steps = x.pick(stepCounts, "steps");
    if (n * steps > (x.thorough() ? 70000 : 9000)) x.discard();
    Scene sc;
    for (int i = 0; i < n; ++i) { BodyD b = gen::defaultBody(i); b.vx += 0.01 * i; b.th = 0.05 * (i % 100); sc.b.push_back(b); }
    int load = x.choose(5, "load");
    GenD g;
    if (load) { g.kind = GRAVITY; sc.g.push_back(g); }
    if (load > 1) for (int i = 0; i < n; i += load == 2 ? 1 : 3) { g.kind = FIELD; g.b0 = i; g.k[0] = 0.3 + 0.001 * i; sc.g.push_back(g); }
    if (load == 4) { if (n > 3) x.discard(); static const int many[] = {64, 65, 129, 300, 513, 1025}; int ng = x.pick(many, "generators"); if (ng * steps > 9000) x.discard(); for (int i = 0; i < ng; ++i) { g.kind = i % 2 ? STATIC : FIELD; g.b0 = i % n; g.fx = 0.01 * (i % 9 - 3); g.fy = 0.02; g.k[0] = 0.001; g.k[1] = g.k[2] = g.k[3] = g.k[4] = g.k[5] = 1e-3; sc.g.push_back(g); } }
    if (load == 3) for (int i = 0; i + 1 < n; i += 2) { g.kind = i % 4 ? STATIC : SPRING; g.b0 = n - 1 - i; g.b1 = i; if (g.b0 == g.b1) continue; sc.g.push_back(g); }
    double dt = steps > 20 ? 0.25 : 1 / 32.0;
    real::World w(sc, cb.sys, GE, cb.integ);
    Sim s(sc);
    for (int p = 0; p < 2; ++p) {
        s.process(cb.sys, cb.integ, dt, steps, 1);
        w.process(dt, steps);
        x.step();
        real::compareMotion(x, w.b, s, 1e-9, "after process");
    }
    checkUntouched(x, sc, w.b);
    x.state(mc::Hash().u(real::hashBodies(w.b)).i(n).i(steps).h);
}

// histories: generators and bodies come and go between steps, nothing is carried over
void histories(mc::Ctx &x) {
    const Combo &cb = x.pick(combos, "integrator");
    Scene all;
    for (int i = 0; i < 3; ++i) all.b.push_back(gen::defaultBody(i));
    GenD g;
    g.kind = GRAVITY; all.g.push_back(g);
    g.kind = SPRING; g.b0 = 0; g.b1 = 1; all.g.push_back(g);
    g.kind = STATIC; g.b0 = 1; all.g.push_back(g);
    real::System sys(cb.sys, x.choose(SOLVERS, "solver"), cb.integ);
    real::Objects ob(all);
    bool onB[3] = {true, true, false}, onG[3] = {true, false, false};
    for (int i = 0; i < 2; ++i) sys.sys->addRigidBody(ob.b[i]);
    sys.sys->addForceGenerator(ob.g[0]);
    int depth = x.thorough() ? 6 : 4;
    int processed = 0;
    for (int d = 0; d < depth; ++d) {
        int op = x.choose(10, "op");
        if (op == 0) break;
        if (op <= 3) { int i = op - 1; if (onB[i]) { if (i == 1 && (onG[2])) continue; sys.sys->removeRigidBody(ob.b[i]); } else sys.sys->addRigidBody(ob.b[i]); onB[i] = !onB[i]; x.note("%s body %d", onB[i] ? "add" : "remove", i); continue; }
        if (op <= 6) { int i = op - 4; if (i == 2 && !onB[1]) continue; if (onG[i]) sys.sys->removeForceGenerator(ob.g[i]); else sys.sys->addForceGenerator(ob.g[i]); onG[i] = !onG[i]; x.note("%s generator %d", onG[i] ? "add" : "remove", i); continue; }
        if (op == 7) { sys.sys->reset(); for (int i = 0; i < 3; ++i) { onB[i] = onG[i] = false; ob.b[i]->index = -1; ob.g[i]->m_index = -1; } x.note("reset"); continue; }
        int steps = op == 8 ? 1 : 3;
        Scene cur;
        for (int i = 0; i < 3; ++i) {
            BodyD b = all.b[i];
            b.x = ob.b[i]->p_x; b.y = ob.b[i]->p_y; b.th = ob.b[i]->theta; b.vx = ob.b[i]->v_x; b.vy = ob.b[i]->v_y; b.w = ob.b[i]->v_theta;
            b.reg = onB[i];
            cur.b.push_back(b);
        }
        for (int i = 0; i < 3; ++i) if (onG[i]) cur.g.push_back(all.g[i]);
        Sim s(cur);
        s.process(cb.sys, cb.integ, 0.02, steps, 1);
        sys.sys->process(0.02, steps);
        x.step();
        ++processed;
        real::compareMotion(x, ob.b, s, 1e-9, "after process");
        x.state(real::hashBodies(ob.b));
    }
    if (!processed) x.state(0);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C05",
                   "all compositions of force generators on 0..3 bodies (registered and static ends) x integrators x solvers x bounded parameter deviations; probe generators at every substep; every combination of coordinates that stop, rest, pass or leave zero within a call, or hardly move, in five sizes; 1 to 1025 bodies with as many generators and up to 1000 substeps; all histories of adding/removing between steps; each compared with an independent integrator model",
                   {{"composition", composition, 1, 2, false}, {"probe", probe, 0, 0, false}, {"zeros", zeros, 0, 0, false}, {"crowd", crowd, 0, 0, false}, {"histories", histories, 0, 0, false}},
                   {"values outside the listed parameter alphabets are not explored"});
}
