// C28: user-supplied solvers, integrators, constraints and force generators are
// driven by the documented protocol, with the right system, and their answers
// are what the bodies get.
#include "scs.h"
#include "mc.h"
#include <algorithm>
#include <array>
#include <memory>
using namespace atg_scs;

namespace {
struct Env;
struct RowV { double J[6], Jd[6], C, vb, lo, hi, ks, kd; };

class UserConstraint : public Constraint {
  public:
    UserConstraint(Env &e_, int id_, int rows, int bodies) : Constraint(rows, bodies), e(e_), id(id_) {}
    virtual void calculate(Output *o, SystemState *s);
    Env &e;
    int id, evaluations = 0;
    RowV at(int row, SystemState *s) const {
        RowV v;
        double phase = 0;
        for (int b = 0; b < m_bodyCount; ++b) if (m_bodies[b]->index >= 0) phase += s->p_x[m_bodies[b]->index] - 0.5 * s->v_theta[m_bodies[b]->index];
        for (int k = 0; k < 6; ++k) {
            v.J[k] = 1 + 0.7 * id + 0.23 * row - 0.41 * k + 0.0625 * phase + (k == 2 ? 0.5 * row : 0);
            v.Jd[k] = -0.3 + 0.11 * id - 0.05 * row + 0.07 * k - 0.03125 * phase;
        }
        v.C = 0.4 - 0.15 * id + 0.06 * row + 0.01 * phase;
        v.vb = -0.2 + 0.25 * row + 0.1 * id;
        v.lo = -2 - row - id; v.hi = 3 + 2 * row + id;
        v.ks = 4 + row + id; v.kd = 1.5 - 0.25 * row + 0.5 * id;
        return v;
    }
};
class UserForce : public ForceGenerator {
  public:
    UserForce(Env &e_, int id_) : e(e_), id(id_) {}
    virtual void apply(SystemState *s);
    Env &e;
    int id, evaluations = 0;
};
class UserSolver : public SleSolver {
  public:
    UserSolver(Env &e_, bool limits) : SleSolver(limits), e(e_) {}
    virtual bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *result, Matrix *previous) { return answer(J, W, right, nullptr, result, previous); }
    virtual bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix &limits, Matrix *result, Matrix *previous) { return answer(J, W, right, &limits, result, previous); }
    bool answer(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *limits, Matrix *result, Matrix *previous);
    Env &e;
};
class UserOde : public OdeSolver {
  public:
    UserOde(Env &e_, int n) : e(e_), stages(n) {}
    virtual void start(SystemState *s, double dt);
    virtual bool step(SystemState *s);
    virtual void solve(SystemState *s);
    virtual void end();
    Env &e;
    int stages, stage = 0;
};

// everything the user objects observed and expect
struct Env {
    bool generic = true;
    std::vector<RigidBody *> bodies;       // registered, in any order
    std::vector<UserConstraint *> cons;    // registered
    std::vector<UserForce *> gens;         // registered
    double substep = 0, bias = 1;
    int started = 0, ended = 0, stepped = 0, solvedOde = 0, calls = 0;
    int pattern = 0;
    std::string bad;
    std::vector<std::array<double, 6>> value; // positions and velocities, by body slot, expected now
    std::vector<std::array<double, 3>> force, accel;
    struct Answer { UserConstraint *c; int row; double lambda; RowV v; };
    std::vector<Answer> last;
    std::vector<double> raw; // last answer in the solver's own order
    bool warm = false;
    long long evaluation = 0;
    uint64_t hash = 1;
    void say(const std::string &s) { if (bad.empty()) bad = s; }
    static bool close(double a, double b, double scale = 1) { return std::fabs(a - b) <= 1e-10 * std::max({1.0, std::fabs(b), scale}); }
    void sees(SystemState *s, const char *who) {
        if (s->n != (int)bodies.size()) { say(mc::format("%s was shown %d bodies of %zu", who, s->n, bodies.size())); return; }
        for (auto *b : bodies) {
            int i = b->index;
            double got[6] = {s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i]};
            for (int k = 0; k < 6; ++k) if (!close(got[k], value[i][k])) say(mc::format("%s was shown coordinate %d of body %d as %.17g, expected %.17g", who, k, i, got[k], value[i][k]));
            if (s->m[i] != b->m) say(mc::format("%s was shown mass %g of body %d, expected %g", who, s->m[i], i, b->m));
        }
    }
    void sizeUp() {
        int n = (int)bodies.size();
        value.assign(n, {}); force.assign(n, {}); accel.assign(n, {});
        for (auto *b : bodies) value[b->index] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
    }
    // the velocity-level system brings its own integrator: a new substep shows
    // by the first evaluation after the solver answered, or a generator's second
    bool answered = false;
    int advanced = 0;
    void advance() {
        accelerations(nullptr, "the substep");
        for (auto *r : bodies) { int i = r->index; for (int k = 0; k < 3; ++k) { value[i][3 + k] += substep * accel[i][k]; value[i][k] += substep * value[i][3 + k]; } }
        ++advanced;
    }
    void begin(bool again) { if (!generic && (answered || again)) { advance(); fresh(); } }
    // before each evaluation
    void fresh() {
        answered = false;
        for (auto &f : force) f = {};
        for (auto *c : cons) c->evaluations = 0;
        for (auto *g : gens) g->evaluations = 0;
        calls = 0;
        last.clear();
    }
    // after each evaluation: the accelerations are those of the answer
    void accelerations(SystemState *s, const char *who) {
        for (auto *c : cons) if (c->evaluations < 1 && c->getConstraintCount()) say(mc::format("%s: constraint %d was not evaluated", who, c->id));
        for (auto *g : gens) if (g->evaluations != 1) say(mc::format("%s: generator %d was evaluated %d times", who, g->id, g->evaluations));
        int rows = 0;
        for (auto *c : cons) rows += c->getConstraintCount();
        if (calls > 1 || (rows && !calls)) say(mc::format("%s: the linear solver was called %d times for one evaluation", who, calls));
        std::vector<std::array<double, 3>> f = force;
        double scale = 1;
        for (auto &a : last) for (int b = 0; b < a.c->m_bodyCount; ++b) {
            int i = a.c->m_bodies[b]->index;
            if (i < 0) continue;
            for (int k = 0; k < 3; ++k) { double r = a.v.J[3 * b + k] * a.lambda / (generic ? 1 : substep); f[i][k] += r; scale = std::max(scale, std::fabs(r)); }
        }
        for (auto *b : bodies) {
            int i = b->index;
            accel[i] = {f[i][0] / b->m, f[i][1] / b->m, f[i][2] / b->I};
            if (!s) continue;
            double got[3] = {s->a_x[i], s->a_y[i], s->a_theta[i]}, fs[3] = {s->f_x[i], s->f_y[i], s->t[i]};
            for (int k = 0; k < 3; ++k) {
                if (!close(got[k], accel[i][k], scale)) say(mc::format("%s: acceleration %d of body %d is %.17g, the forces and the solver's answer give %.17g", who, k, i, got[k], accel[i][k]));
                if (!close(fs[k], force[i][k])) say(mc::format("%s: force %d on body %d is %.17g, expected %.17g", who, k, i, fs[k], force[i][k]));
            }
        }
    }
    // the reactions reported after a call are those of the last answer
    void reactions(double scale) {
        for (auto &a : last) for (int b = 0; b < a.c->m_bodyCount; ++b) {
            int i = a.c->m_bodies[b]->index;
            double got[3] = {a.c->F_x[a.row][b], a.c->F_y[a.row][b], a.c->F_t[a.row][b]};
            for (int k = 0; k < 3; ++k) {
                double want = i < 0 ? 0 : a.v.J[3 * b + k] * a.lambda / (generic ? 1 : substep);
                if (!close(got[k], want, scale)) say(mc::format("constraint %d row %d body %d reports reaction %d as %.17g, expected %.17g", a.c->id, a.row, b, k, got[k], want));
            }
        }
    }
};

void UserConstraint::calculate(Output *o, SystemState *s) {
    e.begin(false);
    e.sees(s, "a constraint");
    ++evaluations;
    for (int r = 0; r < getConstraintCount(); ++r) {
        RowV v = at(r, s);
        for (int k = 0; k < 3 * m_bodyCount; ++k) { o->J[r][k] = v.J[k]; o->J_dot[r][k] = v.Jd[k]; }
        o->C[r] = v.C; o->v_bias[r] = v.vb; o->limits[r][0] = v.lo; o->limits[r][1] = v.hi; o->ks[r] = v.ks; o->kd[r] = v.kd;
    }
}
void UserForce::apply(SystemState *s) {
    e.begin(evaluations > 0);
    e.sees(s, "a generator");
    ++evaluations;
    for (int i = 0; i < s->n; ++i) {
        double f[3] = {1.5 - 0.5 * id + 0.25 * i + 0.1 * s->p_y[i], -2 + id - 0.75 * i, 0.5 + 0.3 * id - 0.2 * s->v_theta[i]};
        double *t[3] = {&s->f_x[i], &s->f_y[i], &s->t[i]};
        for (int k = 0; k < 3; ++k) { *t[k] += f[k]; e.force[i][k] += f[k]; }
    }
}
bool UserSolver::answer(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *limits, Matrix *result, Matrix *previous) {
    e.begin(false);
    ++e.calls;
    ++e.evaluation;
    int n = (int)e.bodies.size(), rows = 0;
    for (auto *c : e.cons) rows += c->getConstraintCount();
    if (J.getHeight() != rows || J.getWidth() != 3 * n) { e.say(mc::format("the solver was given a %dx%d matrix, expected %dx%d", J.getWidth(), J.getHeight(), 3 * n, rows)); return false; }
    if (right.getHeight() != rows || (rows && right.getWidth() != 1)) { e.say("the right side given to the solver has the wrong shape"); return false; }
    if (limits && (limits->getHeight() != rows || (rows && limits->getWidth() != 2))) { e.say("the limits given to the solver have the wrong shape"); return false; }
    if (!e.generic && (limits != nullptr) != supportsLimits()) e.say("the solver was asked through the wrong entry");
    if (W.getHeight() != 3 * n) { e.say(mc::format("%d inverse masses for %d bodies", W.getHeight(), n)); return false; }
    for (auto *b : e.bodies) {
        double w[3] = {1 / b->m, 1 / b->m, 1 / b->I};
        for (int k = 0; k < 3; ++k) if (!Env::close(W.get(0, 3 * b->index + k), w[k])) e.say(mc::format("inverse mass %d of body %d is %.17g, expected %.17g", k, b->index, W.get(0, 3 * b->index + k), w[k]));
    }
    if (e.warm) {
        bool same = previous && previous->getHeight() == (int)e.raw.size() && (e.raw.empty() || previous->getWidth() == 1);
        for (size_t i = 0; same && i < e.raw.size(); ++i) same = previous->get(0, (int)i) == e.raw[i];
        if (!same) e.say("the solver was not given its previous answer as the start of the next");
    }
    // the expected rows, in whatever order the system numbers them
    SystemState s;
    std::vector<double> px(n), vt(n);
    for (int i = 0; i < n; ++i) { px[i] = e.value[i][0]; vt[i] = e.value[i][5]; }
    s.p_x = px.data(); s.v_theta = vt.data();
    Matrix D;
    J.expand(&D);
    std::vector<bool> used(rows, false);
    std::vector<double> lambda(rows, 0);
    e.last.clear();
    for (auto *c : e.cons) for (int r = 0; r < c->getConstraintCount(); ++r) {
        RowV v = c->at(r, &s);
        std::vector<double> want(3 * n, 0);
        double Jq = 0, Jdq = 0, Ja = 0, size = 1;
        for (int b = 0; b < c->m_bodyCount; ++b) {
            int i = c->m_bodies[b]->index;
            if (i < 0) continue;
            double wm[3] = {1 / c->m_bodies[b]->m, 1 / c->m_bodies[b]->m, 1 / c->m_bodies[b]->I};
            for (int k = 0; k < 3; ++k) {
                want[3 * i + k] += v.J[3 * b + k];
                Jq += v.J[3 * b + k] * e.value[i][3 + k];
                Jdq += v.Jd[3 * b + k] * e.value[i][3 + k];
                Ja += v.J[3 * b + k] * wm[k] * e.force[i][k];
                size += std::fabs(v.J[3 * b + k]) * (std::fabs(e.value[i][3 + k]) + wm[k] * std::fabs(e.force[i][k]));
            }
        }
        bool both = true;
        for (int b = 0; b < c->m_bodyCount; ++b) both = both && c->m_bodies[b]->index < 0;
        double rhs = e.generic ? -Jdq - Ja - v.ks * v.C - v.kd * (Jq + v.vb)
                               : -(Jq + e.substep * Ja + v.vb + e.bias / e.substep * v.C);
        int found = -1;
        for (int i = 0; i < rows && found < 0; ++i) {
            if (used[i]) continue;
            bool eq = true;
            for (int k = 0; k < 3 * n; ++k) eq = eq && Env::close(D.get(k, i), want[k]);
            // rows without any registered body are alike: tell them apart by their right side and limits
            if (eq && both && e.generic) { found = i; break; }
            if (eq && both && !Env::close(right.get(0, i), rhs, size * 10)) eq = false;
            if (eq && both && limits && !Env::close(limits->get(0, i), v.lo * e.substep)) eq = false;
            if (eq) found = i;
        }
        if (found < 0) { e.say(mc::format("row %d of constraint %d is not among the rows given to the solver", r, c->id)); continue; }
        used[found] = true;
        if (!(both && e.generic) && !Env::close(right.get(0, found), rhs, size * 10)) e.say(mc::format("row %d of constraint %d: right side %.17g, expected %.17g", r, c->id, right.get(0, found), rhs));
        if (limits && (!Env::close(limits->get(0, found), v.lo * e.substep) || !Env::close(limits->get(1, found), v.hi * e.substep))) e.say(mc::format("row %d of constraint %d: limits %g..%g, expected %g..%g", r, c->id, limits->get(0, found), limits->get(1, found), v.lo * e.substep, v.hi * e.substep));
        double l = e.pattern == 0 ? 0.75 - 0.5 * r + 0.35 * c->id + 0.05 * (e.evaluation % 7) : e.pattern == 1 ? (r == 0 ? 2.5 : 0) : -40.0 * (1 + r) + 9 * c->id;
        lambda[found] = l;
        e.last.push_back({c, r, l, v});
    }
    D.destroy();
    s.p_x = s.v_theta = nullptr;
    result->resize(1, rows);
    for (int i = 0; i < rows; ++i) result->set(0, i, lambda[i]);
    e.raw = lambda;
    e.warm = true;
    e.answered = true;
    return true;
}
void UserOde::start(SystemState *s, double dt) {
    OdeSolver::start(s, dt);
    e.sees(s, "the integrator's start");
    if (e.started != e.ended) e.say("a substep was started before the last one ended");
    if (!Env::close(dt, e.substep, 0)) e.say(mc::format("substep of %g started, expected %g", dt, e.substep));
    ++e.started;
    stage = 0;
}
bool UserOde::step(SystemState *s) {
    e.sees(s, "the integrator's step");
    if (e.started != e.ended + 1) e.say("step outside a substep");
    if (stage >= stages) e.say("step after the last stage");
    ++e.stepped;
    ++stage;
    // an intermediate state of the integrator's own making
    for (auto *b : e.bodies) {
        int i = b->index;
        s->p_x[i] += 0.125 * stage; s->v_y[i] -= 0.0625 * stage; s->v_theta[i] += 0.25; s->theta[i] -= 0.5;
        e.value[i] = {s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i]};
    }
    s->dt = m_dt;
    e.fresh();
    return stage == stages;
}
void UserOde::solve(SystemState *s) {
    e.sees(s, "the integrator's solve");
    if (e.started != e.ended + 1) e.say("solve outside a substep");
    e.accelerations(s, "at the integrator's solve");
    ++e.solvedOde;
    if (e.solvedOde != e.stepped) e.say("step and solve do not alternate");
    for (auto *b : e.bodies) {
        int i = b->index;
        s->v_x[i] += m_dt * s->a_x[i]; s->v_y[i] += m_dt * s->a_y[i]; s->v_theta[i] += m_dt * s->a_theta[i];
        s->p_y[i] += m_dt * s->v_y[i];
        e.value[i] = {s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i]};
    }
}
void UserOde::end() {
    OdeSolver::end();
    if (stage != stages) e.say("a substep ended before its last stage");
    ++e.ended;
    if (e.ended != e.started) e.say("end without start");
}
struct Play {
    Env e;
    std::vector<RigidBody *> b;
    std::vector<UserConstraint *> c;
    std::vector<UserForce *> g;
    UserSolver *solver = nullptr;
    UserOde *ode = nullptr;
    RigidBodySystem *sys = nullptr;
    OptimizedNsvRigidBodySystem *nsv = nullptr;
    Play(bool generic, bool limits, int stages) {
        e.generic = generic;
        solver = new UserSolver(e, limits);
        if (generic) { ode = new UserOde(e, stages); auto *s = new GenericRigidBodySystem; s->initialize(solver, ode); sys = s; }
        else { sys = nsv = new OptimizedNsvRigidBodySystem; nsv->initialize(solver); }
    }
    Play(const Play &) = delete;
    ~Play() {
        delete sys; delete solver; delete ode;
        for (auto *p : c) delete p;
        for (auto *p : g) delete p;
        for (auto *p : b) delete p;
    }
    RigidBody *body(int i) {
        auto *r = new RigidBody;
        r->m = 1.5 + 0.5 * i; r->I = 0.75 + 0.25 * i * i;
        r->p_x = 0.5 - i; r->p_y = 1.25 * i; r->theta = 0.3 * i; r->v_x = -0.5 + 0.2 * i; r->v_y = 0.8 - i; r->v_theta = 1 + 0.5 * i;
        b.push_back(r);
        return r;
    }
    void add(RigidBody *r) { sys->addRigidBody(r); e.bodies.push_back(r); }
    void add(UserConstraint *p) { sys->addConstraint(p); e.cons.push_back(p); e.warm = false; }
    void add(UserForce *p) { sys->addForceGenerator(p); e.gens.push_back(p); }
    template <class V, class T> static void drop(V &v, T *p) { v.erase(std::find(v.begin(), v.end(), p)); }
    void remove(RigidBody *r) { sys->removeRigidBody(r); drop(e.bodies, r); }
    void remove(UserConstraint *p) { sys->removeConstraint(p); drop(e.cons, p); e.warm = false; }
    void remove(UserForce *p) { sys->removeForceGenerator(p); drop(e.gens, p); }
    void run(mc::Ctx &x, double dt, int steps, const char *when) {
        e.substep = dt / steps;
        e.sizeUp();
        e.started = e.ended = e.stepped = e.solvedOde = 0;
        if (nsv) e.bias = nsv->m_biasFactor;
        if (e.generic) {
            sys->process(dt, steps);
            x.step();
            if (e.started != steps || e.ended != steps || e.stepped != steps * ode->stages || e.solvedOde != e.stepped)
                e.say(mc::format("%d substeps of %d stages: start %d, step %d, solve %d, end %d times", steps, ode->stages, e.started, e.stepped, e.solvedOde, e.ended));
        } else {
            e.fresh();
            e.advanced = 0;
            sys->process(dt, steps);
            x.step();
            // nothing to observe: nothing but free motion
            int seen = e.cons.empty() && e.gens.empty() ? steps : e.advanced + 1;
            while (e.advanced < seen) e.advance();
            if (seen != steps) e.say(mc::format("%d evaluations in %d substeps", seen, steps));
        }
        double scale = 1;
        for (auto *r : e.bodies) {
            const auto &w = e.value[r->index];
            double got[6] = {r->p_x, r->p_y, r->theta, r->v_x, r->v_y, r->v_theta};
            for (int k = 0; k < 6; ++k) { if (!Env::close(got[k], w[k], 100)) e.say(mc::format("coordinate %d of body %d after the call: %.17g, the integrator left %.17g", k, r->index, got[k], w[k])); x.state(mc::Hash().d(got[k]).i(k).h); scale = std::max(scale, std::fabs(got[k])); }
        }
        e.reactions(scale);
        x.check(e.bad.empty(), "%s: %s", when, e.bad.c_str());
    }
};
// constraint (rows, first body, second body); -1: none, bodies 3 and 4 are not registered
struct Att { int rows, a, b; };
void drive(mc::Ctx &x, bool generic) {
    int n = 1 + x.choose(3, "bodies");
    bool limits = x.choose(2, "limits") == 1;
    int stages = generic ? 1 + x.choose(x.thorough() ? 4 : 3, "stages") : 1;
    Play p(generic, limits, stages);
    p.e.pattern = x.choose(3, "answer");
    for (int i = 0; i < 3; ++i) p.body(i);
    p.body(7);
    int order = x.choose(n == 1 ? 1 : 2, "order");
    for (int i = 0; i < n; ++i) p.add(p.b[order ? n - 1 - i : i]);
    std::vector<Att> at;
    for (int a = 0; a < n; ++a) {
        at.push_back({1 + a % 2, a, -1});
        at.push_back({3, a, 3}); at.push_back({2, 3, a}); at.push_back({0, a, a ? -1 : 3});
        for (int q = 0; q < n; ++q) at.push_back({1 + (a + q) % 3, a, q});
    }
    at.push_back({2, 3, -1});
    int nc = x.choose(x.thorough() || n < 3 ? 4 : 3, "constraints");
    for (int k = 0; k < nc; ++k) {
        const Att &t = at[k < 2 || x.thorough() ? x.choose((int)at.size(), "attachment") : (k * 5) % at.size()];
        auto *c = new UserConstraint(p.e, k, t.rows, t.b < 0 ? 1 : 2);
        c->m_bodies[0] = p.b[t.a];
        if (t.b >= 0) c->m_bodies[1] = p.b[t.b];
        if (x.tracing()) x.note("%d rows on %d,%d", t.rows, t.a, t.b);
        p.c.push_back(c);
        p.add(c);
    }
    int ng = x.choose(3, "generators");
    for (int k = 0; k < ng; ++k) { p.g.push_back(new UserForce(p.e, k)); p.add(p.g[k]); }
    int steps = 1 + x.choose(2, "substeps") * 2;
    p.run(x, 0.125, steps, "first call");
    int change = x.choose(5, "change");
    if (change == 1 && nc) { p.remove(p.c[0]); p.add(p.c[0]); }
    if (change == 2 && nc) p.remove(p.c[0]);
    if (change == 3 && ng) { p.remove(p.g[0]); if (ng == 2) p.add(p.g[0]); }
    if (change == 4) { p.b[0]->m = 6; p.b[0]->I = 0.5; p.b[0]->v_x = 3; p.b[0]->p_y = -2; if (p.nsv) p.nsv->m_biasFactor = 0.25; }
    p.run(x, 0.25, steps, change == 1 ? "second call, a constraint registered anew" : change == 2 ? "second call, a constraint removed" : change == 3 ? "second call, a generator removed" : change == 4 ? "second call, settings changed" : "second call");
}
void general(mc::Ctx &x) { drive(x, true); }
void velocity(mc::Ctx &x) { drive(x, false); }
// integrators of many stages
void manyStages(mc::Ctx &x) {
    static const int stages[] = {4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 32, 33, 40, 64, 65, 100, 129, 257};
    bool limits = x.choose(2, "limits") == 1;
    Play p(true, limits, x.pick(stages, "stages"));
    p.e.pattern = x.choose(3, "answer");
    for (int i = 0; i < 3; ++i) p.add(p.body(i));
    int nc = x.choose(3, "constraints"), ng = x.choose(2, "generators");
    for (int k = 0; k < nc; ++k) { p.c.push_back(new UserConstraint(p.e, k, 1 + k, 2)); p.c[k]->m_bodies[0] = p.b[k]; p.c[k]->m_bodies[1] = p.b[k + 1]; p.add(p.c[k]); }
    for (int k = 0; k < ng; ++k) { p.g.push_back(new UserForce(p.e, k)); p.add(p.g[k]); }
    int steps = 1 + x.choose(2, "substeps") * 2;
    // short: the state must stay of order one over many stages
    p.run(x, 1.0 / 4096, steps, "first call");
    p.run(x, 1.0 / 4096, steps, "second call");
}
// another solver or integrator can be handed over between calls
void exchange(mc::Ctx &x) {
    bool generic = x.choose(2, "system") == 1;
    bool first = x.choose(2, "limits") == 1;
    int stages = 1 + x.choose(3, "stages");
    Play p(generic, first, stages);
    for (int i = 0; i < 2; ++i) p.add(p.body(i));
    for (int k = 0; k < 2; ++k) { p.c.push_back(new UserConstraint(p.e, k, 2 - k, 2)); p.c[k]->m_bodies[0] = p.b[k]; p.c[k]->m_bodies[1] = p.b[1 - k]; p.add(p.c[k]); }
    p.g.push_back(new UserForce(p.e, 0)); p.add(p.g[0]);
    std::vector<UserSolver *> old;
    std::vector<UserOde *> oldOde;
    struct Del { std::vector<UserSolver *> &a; std::vector<UserOde *> &b; ~Del() { for (auto *q : a) delete q; for (auto *q : b) delete q; } } del{old, oldOde};
    int depth = x.thorough() ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        p.run(x, 0.125, 1 + d % 2, "a call");
        int k = x.choose(generic ? 4 : 3, "hand over");
        if (k == 0) continue;
        if (k == 1) break;
        if (k == 2 || k == 3) { old.push_back(p.solver); p.solver = new UserSolver(p.e, x.choose(2, "limits") == 1); }
        if (k == 3) { oldOde.push_back(p.ode); p.ode = new UserOde(p.e, 1 + x.choose(3, "stages")); }
        p.e.warm = false;
        if (generic) ((GenericRigidBodySystem *)p.sys)->initialize(p.solver, p.ode);
        else p.nsv->initialize(p.solver);
    }
}
// calls of many substeps, many constraints, and sets of rows that grow and shrink by any factor
void calls(mc::Ctx &x) {
    bool generic = x.choose(2, "system") == 1, limits = x.choose(2, "limits") == 1;
    Play p(generic, limits, generic ? 1 + x.choose(2, "stages") : 1);
    p.e.pattern = x.choose(3, "answer");
    for (int i = 0; i < 4; ++i) p.add(p.body(i));
    for (int k = 0; k < 12; ++k) {
        auto *c = new UserConstraint(p.e, k, 1 + (k * 2 + k / 3) % 3, 2);
        c->m_bodies[0] = p.b[k % 4]; c->m_bodies[1] = p.b[(k + 1 + k / 4) % 4];
        p.c.push_back(c);
    }
    for (int k = 0; k < 5; ++k) p.g.push_back(new UserForce(p.e, k));
    static const int substeps[] = {1, 5, 10, 2, 8, 17};
    static const int sets[][2] = {{1, 1}, {0, 2}, {2, 0}, {4, 5}, {12, 3}};
    int has[2] = {0, 0}, depth = x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        const int *t = sets[x.choose(5, "constraints and generators")];
        while (has[0] > t[0]) p.remove(p.c[--has[0]]);
        while (has[0] < t[0]) p.add(p.c[has[0]++]);
        while (has[1] > t[1]) p.remove(p.g[--has[1]]);
        while (has[1] < t[1]) p.add(p.g[has[1]++]);
        p.run(x, d % 2 ? 0.25 : 0.0625, substeps[x.choose(d < 2 && x.thorough() ? 6 : 3, "substeps")], "a call");
    }
}
// large numbers of parts
void crowd(mc::Ctx &x) {
    bool generic = x.choose(2, "system") == 1, limits = x.choose(2, "limits") == 1;
    static const int bodies[] = {1, 2, 9, 33, 65, 130}, counts[] = {0, 1, 2, 9, 17, 33, 65, 100, 129, 200};
    int n = x.pick(bodies, "bodies"), nc = x.pick(counts, "constraints"), ng = x.pick(counts, "generators");
    if (!x.thorough() && (nc > 65 || (nc > 9 && ng > 9)) && n > 33) x.discard();
    Play p(generic, limits, generic ? 1 + n % 2 : 1);
    for (int i = 0; i < n; ++i) p.body(i % 11);
    for (int i = 0; i < n; ++i) p.add(p.b[(i * 7 + 3) % (n % 7 ? n : 1 + n)]);
    int mix = x.choose(2, "rows");
    for (int k = 0; k < nc; ++k) {
        auto *c = new UserConstraint(p.e, k, mix ? (k * 2 + k / 3) % 4 : 1 + k % 3, n > 1 && k % 4 ? 2 : 1);
        c->m_bodies[0] = p.b[k % n];
        if (c->m_bodyCount == 2) c->m_bodies[1] = p.b[(k + 1 + k / n % (n - 1)) % n];
        p.c.push_back(c);
        p.add(c);
    }
    for (int k = 0; k < ng; ++k) { p.g.push_back(new UserForce(p.e, k)); p.add(p.g[k]); }
    p.run(x, 0.125, 2, "first call");
    // all but a few go again
    for (int k = 0; k < nc; ++k) if (k % 9 != 4) p.remove(p.c[k]);
    for (int k = 0; k < ng; ++k) if (k % 7 != 2) p.remove(p.g[k]);
    p.run(x, 0.125, 1, "second call, most removed");
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C28",
                   "both systems driven with user-defined linear solvers (with and without limits, three patterns of arbitrary answers), integrators of 1 to 257 stages, constraints of 0 to 3 rows on every combination of registered and unregistered bodies (one body on both sides too), and generators; every linear system, state and acceleration handed over is compared with an independent computation, at every evaluation, over two calls with a change between; all sequences of handing over other solvers and integrators; all sequences of 3 (4) calls of 1 to 10 (17) substeps with 0 to 12 constraints and 0 to 5 generators; up to 130 bodies, 200 constraints and 200 generators, most of them removed again",
                   {{"general", general, 0, 0, false}, {"stages", manyStages, 0, 0, false}, {"velocity", velocity, 0, 0, false}, {"exchange", exchange, 0, 0, false}, {"calls", calls, 0, 0, false}, {"crowd", crowd, 0, 0, false}},
                   {"a solver need not be asked about a system without rows", "the numbering of rows is left open", "values of user constraints are of order one"});
}
