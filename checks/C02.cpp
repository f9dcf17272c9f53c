// C02: a step depends only on the current scene, never on what came before.
#include "sys.h"
#include <memory>
using namespace sys;

namespace {
const int kScenes = 11;
Scene catalog(int k) {
    Scene s;
    GenD g;
    switch (k) {
    case 0: return s; // nothing at all
    case 1: s.b.push_back(gen::defaultBody(0)); s.g.push_back(g); return s;
    case 2: { s.b.push_back(gen::defaultBody(1)); ConD c; c.kind = FIXPOS; s.c.push_back(c); s.g.push_back(g); return s; }
    case 3: return longScene(CHAIN, 2);
    case 4: return longScene(CHAIN, 4);
    case 5: { // static ends and an acceleration-damped motor
        for (int i = 0; i < 4; ++i) { s.b.push_back(gen::defaultBody(i)); s.b[i].reg = i != 3; }
        ConD c; c.kind = CLUTCH; c.b0 = 0; c.b1 = 3; c.lo = -0.5; c.hi = 0.4; s.c.push_back(c);
        c.lo = -DBL_MAX; c.hi = DBL_MAX;
        c.kind = GEAR; c.b0 = 3; c.b1 = 1; c.r = 2; s.c.push_back(c);
        c.kind = LINE; c.b0 = 2; s.c.push_back(c);
        g.kind = SPRING; g.b0 = 3; g.b1 = 0; s.g.push_back(g);
        g.kind = MOTOR; g.b0 = 1; g.b1 = 2; g.ks = 3; g.kd = 0.2; s.g.push_back(g);
        return s;
    }
    case 6: return longScene(MIXED, 4);
    case 7: return longScene(STAR, 5);
    case 8: { for (int i = 0; i < 6; ++i) s.b.push_back(gen::defaultBody(i)); s.g.push_back(g); g.kind = FIELD; g.b0 = 4; s.g.push_back(g); return s; }
    case 9: return longScene(PINS, 6);
    default: { // as many rows as scene 4, other bodies and kinds
        for (int i = 0; i < 3; ++i) s.b.push_back(gen::defaultBody(i + 2));
        ConD c; c.kind = WELD; c.b0 = 0; c.b1 = 2; s.c.push_back(c);
        c.kind = ROLL; c.b0 = 0; c.b1 = 1; s.c.push_back(c);
        c.kind = LINE; c.b0 = 1; s.c.push_back(c);
        c.kind = FIXPOS; c.b0 = 0; s.c.push_back(c);
        g.kind = GRAVITY; s.g.push_back(g);
        return s;
    }
    }
}
void compare(mc::Ctx &x, const real::Objects &got, const real::Objects &want, const Sim &s, double tol, const char *what) {
    static const char *const n[] = {"p_x", "p_y", "theta", "v_x", "v_y", "v_theta"};
    double sc = (double)s.scale, f = std::max((double)s.forceScale, sc);
    for (size_t i = 0; i < want.b.size(); ++i) {
        const double *p[] = {&got.b[i]->p_x, &got.b[i]->p_y, &got.b[i]->theta, &got.b[i]->v_x, &got.b[i]->v_y, &got.b[i]->v_theta};
        const double *q[] = {&want.b[i]->p_x, &want.b[i]->p_y, &want.b[i]->theta, &want.b[i]->v_x, &want.b[i]->v_y, &want.b[i]->v_theta};
        for (int k = 0; k < 6; ++k) x.nearScale(*p[k], *q[k], tol, sc, "%s: body %zu %s", what, i, n[k]);
    }
    for (size_t i = 0; i < want.c.size(); ++i)
        for (int r = 0; r < want.c[i]->getConstraintCount(); ++r)
            for (int e = 0; e < want.c[i]->m_bodyCount; ++e) {
                x.nearScale(got.c[i]->F_x[r][e], want.c[i]->F_x[r][e], tol * 10, f, "%s: constraint %zu row %d body %d F_x", what, i, r, e);
                x.nearScale(got.c[i]->F_y[r][e], want.c[i]->F_y[r][e], tol * 10, f, "%s: constraint %zu row %d body %d F_y", what, i, r, e);
                x.nearScale(got.c[i]->F_t[r][e], want.c[i]->F_t[r][e], tol * 10, f, "%s: constraint %zu row %d body %d F_t", what, i, r, e);
            }
}
double tolOf(int solver) { return solver == GE ? 1e-9 : real::tolOf(solver); }
// the current state of objects as a scene
Scene snapshot(const real::Objects &o) {
    Scene s = o.sc;
    for (size_t i = 0; i < s.b.size(); ++i) {
        auto *r = o.b[i];
        BodyD &b = s.b[i];
        b.x = r->p_x; b.y = r->p_y; b.th = r->theta; b.vx = r->v_x; b.vy = r->v_y; b.w = r->v_theta; b.m = r->m; b.I = r->I;
    }
    return s;
}
struct System2 {
    int kind, solver, integ;
    atg_scs::OptimizedNsvRigidBodySystem *nsv = nullptr;
    atg_scs::GenericRigidBodySystem *gen = nullptr;
    atg_scs::RigidBodySystem *sys;
    std::unique_ptr<real::Objects> cur;
    System2(int k, int s, int i, atg_scs::SleSolver *sle, atg_scs::OdeSolver *ode) : kind(k), solver(s), integ(i) {
        if (kind == SYS_NSV) { sys = nsv = new atg_scs::OptimizedNsvRigidBodySystem; nsv->initialize(sle); }
        else { sys = gen = new atg_scs::GenericRigidBodySystem; gen->initialize(sle, ode); }
    }
    ~System2() { delete sys; }
    void clear(bool oneByOne) {
        if (!cur) return;
        if (!oneByOne) { sys->reset(); }
        else {
            for (auto *c : cur->c) sys->removeConstraint(c);
            for (auto *g : cur->g) sys->removeForceGenerator(g);
            for (size_t i = 0; i < cur->b.size(); ++i) if (cur->sc.b[i].reg) sys->removeRigidBody(cur->b[i]);
        }
        cur.reset();
    }
};
// one step of the used system against the same step of fresh objects
bool step(mc::Ctx &x, System2 &u, double dt, int steps, const char *what) {
    Scene now = snapshot(*u.cur);
    Sim s(now);
    s.countSweeps = u.solver == GS;
    s.boxed = u.solver == GS && u.kind == SYS_NSV;
    s.process(u.kind, u.integ, dt, steps, 1);
    if (!s.inDomain(u.solver)) return false;
    real::World fresh(now, u.kind, u.solver, u.integ);
    fresh.process(dt, steps);
    u.sys->process(dt, steps);
    x.step();
    compare(x, *u.cur, fresh, s, tolOf(u.solver), what);
    x.check(u.sys->state()->n == fresh.sys->state()->n, "state() holds %d bodies, fresh one %d", u.sys->state()->n, fresh.sys->state()->n);
    x.state(real::hashBodies(u.cur->b));
    return true;
}
// sequences of whole scenes through one or two systems sharing the solver objects
void scenes(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    int other = x.choose(3, "second system"); // none, same kind, other kind
    std::unique_ptr<atg_scs::SleSolver> sle(real::makeSolver(c.solver));
    std::unique_ptr<atg_scs::OdeSolver> ode(real::makeIntegrator(c.integ));
    System2 a(c.kind, c.solver, c.integ, sle.get(), ode.get());
    System2 b(other == 2 ? 1 - c.kind : c.kind, c.solver, c.integ, sle.get(), ode.get());
    int depth = other ? 3 : x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        System2 &u = other && x.choose(2, "system") ? b : a;
        static const int few[] = {0, 3, 4, 5, 7, 10, kScenes};
        int k = other && !x.thorough() ? x.pick(few, "scene") : x.choose(kScenes + 1, "scene");
        if (k == kScenes) { if (!u.cur) break; x.note("same scene again"); }
        else {
            x.note("scene %d", k);
            u.clear(u.cur && x.choose(2, "one by one"));
            u.cur.reset(new real::Objects(catalog(k)));
            u.cur->registerAll(u.sys);
        }
        if (!step(x, u, d % 2 ? 1 / 128.0 : 1 / 64.0, 1 + d % 2, "used objects against fresh ones")) x.discard();
    }
    a.clear(false); b.clear(false);
}
// edits of one scene between steps
void edits(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    std::unique_ptr<atg_scs::SleSolver> sle(real::makeSolver(c.solver));
    std::unique_ptr<atg_scs::OdeSolver> ode(real::makeIntegrator(c.integ));
    System2 u(c.kind, c.solver, c.integ, sle.get(), ode.get());
    Scene pool;
    const int nb = 4, nc = 6, ng = 4;
    for (int i = 0; i < nb; ++i) pool.b.push_back(gen::defaultBody(i));
    static const gen::Option cs[] = {{FIXPOS, 0, -1}, {LINK, 0, 1}, {CLUTCH, 2, 1}, {GEAR, 3, 2}, {LINE, 1, -1}, {WELD, 0, 1}};
    for (int i = 0; i < nc; ++i) { ConD d; d.kind = cs[i].kind; d.b0 = cs[i].b0; d.b1 = cs[i].b1; d.lx += 0.1 * i; d.ks += i; d.r += 0.3 * i; if (d.kind == CLUTCH) { d.lo = -0.3; d.hi = 0.2; } pool.c.push_back(d); }
    static const struct { int k, a, b; } gs[] = {{GRAVITY, 0, 0}, {SPRING, 2, 0}, {MOTOR, 0, 1}, {FIELD, 1, 0}};
    for (int i = 0; i < ng; ++i) { GenD d; d.kind = gs[i].k; d.b0 = gs[i].a; d.b1 = gs[i].b; if (d.kind == MOTOR) { d.ks = 3; d.kd = 0.1; } pool.g.push_back(d); }
    real::Objects ob(pool);
    std::vector<int> inB = {0, 1, 2, 3}, inC, inG;
    int start = x.choose(2, "start");
    for (int i : inB) u.sys->addRigidBody(ob.b[i]);
    if (start) { for (int i : {0, 1, 3}) { u.sys->addConstraint(ob.c[i]); inC.push_back(i); } for (int i = 0; i < ng; ++i) { u.sys->addForceGenerator(ob.g[i]); inG.push_back(i); } }
    auto toggle = [](std::vector<int> &v, int k) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == k) { v.erase(v.begin() + i); return false; } v.push_back(k); return true; };
    double bias = 1;
    int depth = x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int op = x.choose(2 + nc + ng + 5, "edit");
        double dt = 1 / 64.0;
        int steps = 1;
        if (op == 0) { if (d) break; }
        else if (op <= nc) { int k = op - 1; x.note("toggle %s", conNames[pool.c[k].kind]); if (toggle(inC, k)) u.sys->addConstraint(ob.c[k]); else u.sys->removeConstraint(ob.c[k]); }
        else if (op <= nc + ng) { int k = op - 1 - nc; x.note("toggle %s", genNames[pool.g[k].kind]); if (toggle(inG, k)) u.sys->addForceGenerator(ob.g[k]); else u.sys->removeForceGenerator(ob.g[k]); }
        else switch (op - nc - ng) {
        case 1: // body 3 leaves or returns (its gear keeps one end)
            x.note("toggle body 3");
            if (toggle(inB, 3)) u.sys->addRigidBody(ob.b[3]); else u.sys->removeRigidBody(ob.b[3]);
            break;
        case 2: x.note("mass"); ob.b[1]->m *= 3; ob.b[0]->I *= 0.5; break;
        case 3: x.note("pushed"); ob.b[0]->v_x += 4; ob.b[2]->theta -= 0.7; break;
        case 4: x.note("bias, dt, steps"); bias = 0.4; dt = 1 / 100.0; steps = 3; break;
        case 5: { // everything cleared and registered again in the other order
            x.note("cleared");
            u.sys->reset();
            std::reverse(inB.begin(), inB.end()); std::reverse(inC.begin(), inC.end()); std::reverse(inG.begin(), inG.end());
            for (int i : inB) u.sys->addRigidBody(ob.b[i]);
            for (int i : inC) u.sys->addConstraint(ob.c[i]);
            for (int i : inG) u.sys->addForceGenerator(ob.g[i]);
            break;
        }
        case 6: x.note("empty step"); steps = 2; break;
        }
        // the same objects' state, registered in the same order in a fresh system
        Scene now;
        std::vector<int> where(nb, -1);
        for (int i = 0; i < nb; ++i) {
            auto *r = ob.b[i];
            BodyD b; b.x = r->p_x; b.y = r->p_y; b.th = r->theta; b.vx = r->v_x; b.vy = r->v_y; b.w = r->v_theta; b.m = r->m; b.I = r->I;
            b.reg = std::find(inB.begin(), inB.end(), i) != inB.end();
            now.b.push_back(b);
        }
        for (int i : inC) now.c.push_back(pool.c[i]);
        for (int i : inG) now.g.push_back(pool.g[i]);
        Sim s(now);
        s.countSweeps = c.solver == GS;
        s.boxed = c.solver == GS && c.kind == SYS_NSV;
        s.process(c.kind, c.integ, dt, steps, bias);
        if (!s.inDomain(c.solver)) x.discard();
        real::System f(c.kind, c.solver, c.integ);
        real::Objects fo(now);
        fo.registerAll(f.sys);
        if (u.nsv) u.nsv->m_biasFactor = f.nsv->m_biasFactor = bias;
        f.sys->process(dt, steps);
        u.sys->process(dt, steps);
        x.step();
        double tol = tolOf(c.solver), sc = (double)s.scale, fs = std::max((double)s.forceScale, sc);
        for (int i = 0; i < nb; ++i) {
            auto *g = ob.b[i], *w = fo.b[i];
            x.nearScale(g->p_x, w->p_x, tol, sc, "body %d p_x", i); x.nearScale(g->p_y, w->p_y, tol, sc, "body %d p_y", i); x.nearScale(g->theta, w->theta, tol, sc, "body %d theta", i);
            x.nearScale(g->v_x, w->v_x, tol, sc, "body %d v_x", i); x.nearScale(g->v_y, w->v_y, tol, sc, "body %d v_y", i); x.nearScale(g->v_theta, w->v_theta, tol, sc, "body %d v_theta", i);
        }
        for (size_t i = 0; i < inC.size(); ++i) {
            auto *g = ob.c[inC[i]], *w = fo.c[i];
            for (int r = 0; r < g->getConstraintCount(); ++r) for (int e = 0; e < g->m_bodyCount; ++e) {
                if (!now.b[e ? now.c[i].b1 : now.c[i].b0].reg) continue;
                x.nearScale(g->F_x[r][e], w->F_x[r][e], tol * 10, fs, "%s row %d body %d F_x", conNames[now.c[i].kind], r, e);
                x.nearScale(g->F_y[r][e], w->F_y[r][e], tol * 10, fs, "%s row %d body %d F_y", conNames[now.c[i].kind], r, e);
                x.nearScale(g->F_t[r][e], w->F_t[r][e], tol * 10, fs, "%s row %d body %d F_t", conNames[now.c[i].kind], r, e);
            }
        }
        x.state(real::hashBodies(ob.b));
    }
}
// sizes only: n bodies with k pinned, all sequences
void sizes(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    std::unique_ptr<atg_scs::SleSolver> sle(real::makeSolver(c.solver));
    std::unique_ptr<atg_scs::OdeSolver> ode(real::makeIntegrator(c.integ));
    System2 u(c.kind, c.solver, c.integ, sle.get(), ode.get());
    int depth = x.thorough() ? 4 : 3;
    static const int sz[][2] = {{1, 0}, {1, 1}, {2, 1}, {2, 2}, {5, 1}, {3, 3}, {5, 5}, {12, 0}, {12, 2}, {2, 0}, {0, 0}, {9, 9}};
    for (int d = 0; d < depth; ++d) {
        const int *k = x.pick(sz, "size");
        Scene s;
        for (int i = 0; i < k[0]; ++i) s.b.push_back(gen::defaultBody(i + d));
        for (int i = 0; i < k[1]; ++i) { ConD q; q.kind = i % 2 ? FIXROT : LINE; q.b0 = k[0] - 1 - i; q.r = 0.3 * i; s.c.push_back(q); }
        GenD g; s.g.push_back(g);
        u.clear(d % 2 == 1);
        u.cur.reset(new real::Objects(s));
        u.cur->registerAll(u.sys);
        if (!step(x, u, 1 / 64.0, 1, "used objects against fresh ones")) x.discard();
    }
    u.clear(false);
}
// solvers and integrators handed over between steps, new ones and used ones
void handover(mc::Ctx &x) {
    static const int solvers[] = {GE, CG, GS}, integs[] = {EULER, NSV, RK4};
    int kind = x.choose(2, "system") ? SYS_GEN : SYS_NSV;
    std::unique_ptr<atg_scs::SleSolver> sle[3];
    std::unique_ptr<atg_scs::OdeSolver> ode[3];
    for (int i = 0; i < 3; ++i) { sle[i].reset(real::makeSolver(solvers[i])); ode[i].reset(real::makeIntegrator(integs[i])); }
    int s0 = x.choose(3, "solver"), i0 = kind == SYS_GEN ? x.choose(3, "integrator") : 1;
    System2 u(kind, solvers[s0], integs[i0], sle[s0].get(), ode[i0].get());
    static const int scenes[] = {3, 4, 10, 5};
    int depth = x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(d ? 4 : 2, "scene");
        if (!d || k < 3) { // the same rows, fewer or more, or another scene of equal size
            u.clear(false);
            u.cur.reset(new real::Objects(catalog(scenes[d ? k : k + 2])));
            u.cur->registerAll(u.sys);
        }
        if (d) {
            int t = x.choose(3, "solver");
            if (t != s0) x.note("solver %d", t);
            s0 = t;
            if (kind == SYS_GEN) i0 = (i0 + x.choose(2, "next integrator")) % 3;
            u.solver = solvers[s0]; u.integ = integs[i0];
            if (u.nsv) u.nsv->initialize(sle[s0].get());
            else u.gen->initialize(sle[s0].get(), ode[i0].get());
        }
        if (!step(x, u, 1 / 64.0, 1 + d % 2, "after handing over")) x.discard();
    }
    u.clear(false);
}
// long lives: what a step does does not depend on how many there were before
void endurance(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const int ks[] = {2, 3, 4, 5, 6, 7, 8, 9, 10};
    int k = x.pick(ks, "scene");
    std::unique_ptr<atg_scs::SleSolver> sle(real::makeSolver(c.solver));
    std::unique_ptr<atg_scs::OdeSolver> ode(real::makeIntegrator(c.integ));
    System2 u(c.kind, c.solver, c.integ, sle.get(), ode.get());
    u.cur.reset(new real::Objects(catalog(k)));
    u.cur->registerAll(u.sys);
    const int total = x.thorough() ? 5000 : 1300;
    std::vector<double> pose;
    auto grab = [&] { pose.clear(); for (auto *b : u.cur->b) pose.insert(pose.end(), {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta}); };
    auto put = [&] { for (size_t i = 0; i < u.cur->b.size(); ++i) { auto *b = u.cur->b[i]; const double *v = &pose[6 * i]; b->p_x = v[0]; b->p_y = v[1]; b->theta = v[2]; b->v_x = v[3]; b->v_y = v[4]; b->v_theta = v[5]; } };
    grab();
    for (int n = 0; n < total; ++n) {
        // the same short motion again and again, so that no scene leaves its domain
        if (n % 8 == 0) put();
        bool look = n < 12 || n % 32 == 1 || n > total - 12 || (n > 590 && n < 612) || (n > 1015 && n < 1035);
        if (look) { if (!step(x, u, 1 / 256.0, 1, "late in a long life")) x.discard(); }
        else { u.sys->process(1 / 256.0, 1); x.step(); }
    }
    u.clear(false);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C02",
                   "both systems x all integrators x all linear solvers: all sequences of 3 (4) scenes out of 11 (0 to 6 bodies, 0 to 11 rows) through one system, of 3 out of 6 (11) through two systems sharing solver objects, cleared at once or one by one; all sequences of 3 (4) edits with a step after each; all sequences of 3 (4) of 12 sizes; all sequences of handing other new and used solvers and integrators to one system over 3 (4) steps; 9 scenes over 1300 (5000) steps; every step compared with freshly constructed objects",
                   {{"scenes", scenes, 0, 0, false}, {"edits", edits, 0, 0, false}, {"sizes", sizes, 0, 0, false}, {"handover", handover, 0, 0, false}, {"endurance", endurance, 0, 0, false}},
                   {"rows linearly independent (pivot ratio at least 1e-5), solver tolerances tight"});
}
