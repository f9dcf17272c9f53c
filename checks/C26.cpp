// C26: every setting has its neutral default until set, and setting it changes
// exactly what it names.
#include "conenum.h"
#include <functional>
using namespace ref;
using namespace atg_scs;
using conenum::Out;

namespace {
// one setting of an object: where it is, its default, and another value
struct Field { const char *name; double *p; double def, other; };
struct Setter { const char *name; std::function<void()> call; std::vector<int> fields; };
struct Thing {
    const char *name = "";
    std::vector<Field> f;
    std::vector<Setter> s;       // ways to set some of the fields by a call
    std::function<void(mc::Ctx &)> rest;  // everything that is not a number
    std::function<void(mc::Ctx &)> behave; // what the object does with its settings
    std::function<void()> end;
};
double val(const Thing &t, const char *name) { for (auto &f : t.f) if (!strcmp(f.name, name)) return *f.p; return NAN; }

const double Q[6] = {0.4, -1.3, 0.35, 1.7, 0.6, -0.8}, V[6] = {0.6, -1.2, 0.8, -0.9, 0.45, -1.4};
struct Stage {
    RigidBody *b[2];
    SystemState *st;
    Stage() {
        st = new SystemState;
        st->resize(2, 3);
        for (int i = 0; i < 2; ++i) {
            b[i] = new RigidBody;
            b[i]->index = i; b[i]->m = 2 + i; b[i]->I = 1 + i;
            b[i]->p_x = Q[3 * i]; b[i]->p_y = Q[3 * i + 1]; b[i]->theta = Q[3 * i + 2];
            st->p_x[i] = Q[3 * i]; st->p_y[i] = Q[3 * i + 1]; st->theta[i] = Q[3 * i + 2];
            st->v_x[i] = V[3 * i]; st->v_y[i] = V[3 * i + 1]; st->v_theta[i] = V[3 * i + 2];
            st->a_x[i] = 0.3; st->a_y[i] = -0.2; st->a_theta[i] = 0.5 - i; st->m[i] = 2 + i;
            st->f_x[i] = st->f_y[i] = st->t[i] = 0;
        }
        st->dt = 0.01;
    }
    ~Stage() { delete b[0]; delete b[1]; st->destroy(); delete st; }
    State model() const {
        Scene sc;
        for (int i = 0; i < 2; ++i) { BodyD d; d.x = Q[3 * i]; d.y = Q[3 * i + 1]; d.th = Q[3 * i + 2]; d.vx = V[3 * i]; d.vy = V[3 * i + 1]; d.w = V[3 * i + 2]; sc.b.push_back(d); }
        State s = stateOf(sc);
        s.at[0] = 0.5; s.at[1] = -0.5;
        return s;
    }
};
void compareRows(mc::Ctx &x, const char *name, Constraint *c, const ConD &d, Stage *g, bool fresh) {
    for (int i = 0; i < c->m_bodyCount; ++i) c->m_bodies[i] = g->b[i];
    Out o(NAN);
    c->calculate(o.o, g->st);
    x.step();
    R q[6], v[6];
    for (int i = 0; i < 6; ++i) { q[i] = Q[i]; v[i] = V[i]; }
    for (int k = 0; k < conRows(d.kind); ++k) {
        Row w = conRow(d, k, q, v);
        x.near(o->C[k], (double)w.C, 1e-11, "%s row %d error with its settings", name, k);
        for (int i = 0; i < 3 * w.nb; ++i) x.near(o->J[k][i], (double)w.J[i], 1e-11, "%s row %d sensitivity %d with its settings", name, k, i);
        x.check(o->ks[k] == (double)w.ks && o->kd[k] == (double)w.kd, "%s row %d stiffness or damping with its settings", name, k);
        x.check(o->v_bias[k] == (double)w.vb, "%s row %d speed target with its settings", name, k);
        x.check(o->limits[k][0] == w.lo && o->limits[k][1] == w.hi, "%s row %d limits [%g, %g], expected [%g, %g]", name, k, o->limits[k][0], o->limits[k][1], w.lo, w.hi);
    }
    (void)fresh;
}
void compareForces(mc::Ctx &x, const char *name, ForceGenerator *f, const GenD &d, Stage *g) {
    for (int i = 0; i < 2; ++i) g->st->f_x[i] = g->st->f_y[i] = g->st->t[i] = 0;
    f->apply(g->st);
    x.step();
    Scene sc;
    for (int i = 0; i < 2; ++i) { BodyD b; b.m = 2 + i; b.I = 1 + i; b.x = Q[3 * i]; b.y = Q[3 * i + 1]; b.th = Q[3 * i + 2]; b.vx = V[3 * i]; b.vy = V[3 * i + 1]; b.w = V[3 * i + 2]; sc.b.push_back(b); }
    sc.g.push_back(d);
    std::vector<Load> want = forces(sc, g->model());
    for (int i = 0; i < 2; ++i) {
        x.near(g->st->f_x[i], (double)want[i].fx, 1e-11, "%s body %d f_x with its settings", name, i);
        x.near(g->st->f_y[i], (double)want[i].fy, 1e-11, "%s body %d f_y with its settings", name, i);
        x.near(g->st->t[i], (double)want[i].t, 1e-11, "%s body %d torque with its settings", name, i);
    }
}
void emptyConstraint(mc::Ctx &x, Constraint *c, int rows, int bodies) {
    x.check(c->getConstraintCount() == rows && c->m_bodyCount == bodies, "a new constraint has %d rows and %d bodies, expected %d and %d", c->getConstraintCount(), c->m_bodyCount, rows, bodies);
    x.check(c->m_index == -1, "a new constraint has slot %d", c->m_index);
    for (int b = 0; b < Constraint::MaxBodyCount; ++b) x.check(c->m_bodies[b] == nullptr, "a new constraint has a body");
    for (int r = 0; r < Constraint::MaxConstraintCount; ++r)
        for (int b = 0; b < Constraint::MaxBodyCount; ++b)
            x.check(c->F_x[r][b] == 0 && c->F_y[r][b] == 0 && c->F_t[r][b] == 0, "a new constraint reports a reaction in row %d", r);
}

enum { BODY, POS, ROTN, LIN, LNK, ROLLC, CLU, GR, CROT, RFR, STAT, SPR, MOT, GRAV, SYSN, SGS, SCG, THINGS };
Thing make(int kind, Stage *g) {
    Thing t;
    auto con = [&](auto *c, ConD d, std::function<void(ConD &)> read, std::vector<std::pair<const char *, std::function<void(RigidBody *)>>> bodySetters) {
        t.f.push_back({"m_ks", &c->m_ks, 10, 37.5});
        t.f.push_back({"m_kd", &c->m_kd, 1, 6.25});
        int rows = conRows(d.kind), bodies = conBodies(d.kind);
        t.rest = [=](mc::Ctx &x) {
            emptyConstraint(x, c, rows, bodies);
            // each body setter sets its own place only
            for (size_t i = 0; i < bodySetters.size(); ++i) {
                RigidBody *before[2] = {c->m_bodies[0], c->m_bodies[1]};
                bodySetters[i].second(g->b[i]);
                for (int k = 0; k < 2; ++k) x.check(c->m_bodies[k] == (k == (int)i ? g->b[i] : before[k]), "%s set the wrong body", bodySetters[i].first);
            }
            for (int k = 0; k < 2; ++k) c->m_bodies[k] = nullptr;
        };
        const char *name = conNames[d.kind];
        t.behave = [=](mc::Ctx &x) { ConD e = d; e.ks = c->m_ks; e.kd = c->m_kd; read(e); compareRows(x, name, c, e, g, true); };
        t.end = [=] { delete c; };
    };
    switch (kind) {
    case BODY: {
        auto *b = new RigidBody;
        t.name = "body";
        t.f = {{"p_x", &b->p_x, 0, 1.5}, {"p_y", &b->p_y, 0, -2.5}, {"theta", &b->theta, 0, 0.7}, {"v_x", &b->v_x, 0, 3}, {"v_y", &b->v_y, 0, -4}, {"v_theta", &b->v_theta, 0, 5}, {"m", &b->m, 0, 2}, {"I", &b->I, 0, 6}};
        t.rest = [=](mc::Ctx &x) { x.check(b->index == -1, "a new body has slot %d", b->index); };
        t.behave = [=](mc::Ctx &x) {
            // copying a body copies it, resetting it returns it to a new body's state
            RigidBody c = *b;
            x.check(c.p_x == b->p_x && c.p_y == b->p_y && c.theta == b->theta && c.v_x == b->v_x && c.v_y == b->v_y && c.v_theta == b->v_theta && c.m == b->m && c.I == b->I && c.index == b->index, "a copied body differs");
            c.index = 3;
            c.reset();
            x.step();
            x.check(c.p_x == 0 && c.p_y == 0 && c.theta == 0 && c.v_x == 0 && c.v_y == 0 && c.v_theta == 0 && c.m == 0 && c.I == 0, "a body that was reset is not like new");
            x.check(c.index == 3, "resetting a body changed its slot");
        };
        t.end = [=] { delete b; };
        break;
    }
    case POS: {
        auto *c = new FixedPositionConstraint;
        t.name = "fixed position";
        t.f = {{"m_local_x", &c->m_local_x, 0, -2.4}, {"m_local_y", &c->m_local_y, 0, 1.7}, {"m_world_x", &c->m_world_x, 0, -5}, {"m_world_y", &c->m_world_y, 0, 3.3}};
        t.s = {{"setLocalPosition", [=] { c->setLocalPosition(-2.4, 1.7); }, {0, 1}}, {"setWorldPosition", [=] { c->setWorldPosition(-5, 3.3); }, {2, 3}}};
        ConD d; d.kind = FIXPOS;
        con(c, d, [=](ConD &e) { e.lx = c->m_local_x; e.ly = c->m_local_y; e.wx = c->m_world_x; e.wy = c->m_world_y; }, {{"setBody", [=](RigidBody *b) { c->setBody(b); }}});
        break;
    }
    case ROTN: {
        auto *c = new FixedRotationConstraint;
        t.name = "fixed rotation";
        t.f = {{"m_rotation", &c->m_rotation, 0, -4}};
        ConD d; d.kind = FIXROT;
        con(c, d, [=](ConD &e) { e.r = c->m_rotation; }, {{"setBody", [=](RigidBody *b) { c->setBody(b); }}});
        break;
    }
    case LIN: {
        auto *c = new LineConstraint;
        t.name = "line";
        t.f = {{"m_local_x", &c->m_local_x, 0, -2.4}, {"m_local_y", &c->m_local_y, 0, 1.7}, {"m_p0_x", &c->m_p0_x, 0, -5}, {"m_p0_y", &c->m_p0_y, 0, 3.3}, {"m_dx", &c->m_dx, 0, 0.8}, {"m_dy", &c->m_dy, 0, -1.6}};
        ConD d; d.kind = LINE;
        con(c, d, [=](ConD &e) { e.lx = c->m_local_x; e.ly = c->m_local_y; e.wx = c->m_p0_x; e.wy = c->m_p0_y; e.dx = c->m_dx; e.dy = c->m_dy; }, {{"setBody", [=](RigidBody *b) { c->setBody(b); }}});
        break;
    }
    case LNK: {
        auto *c = new LinkConstraint;
        t.name = "link";
        t.f = {{"m_local_x_1", &c->m_local_x_1, 0, -2.4}, {"m_local_y_1", &c->m_local_y_1, 0, 1.7}, {"m_local_x_2", &c->m_local_x_2, 0, 0.9}, {"m_local_y_2", &c->m_local_y_2, 0, -3.1}, {"m_maxForce", &c->m_maxForce, DBL_MAX, 12.5}};
        t.s = {{"setLocalPosition1", [=] { c->setLocalPosition1(-2.4, 1.7); }, {0, 1}}, {"setLocalPosition2", [=] { c->setLocalPosition2(0.9, -3.1); }, {2, 3}}};
        ConD d; d.kind = LINK;
        con(c, d, [=](ConD &e) { e.lx = c->m_local_x_1; e.ly = c->m_local_y_1; e.lx2 = c->m_local_x_2; e.ly2 = c->m_local_y_2; e.hi = c->m_maxForce; }, {{"setBody1", [=](RigidBody *b) { c->setBody1(b); }}, {"setBody2", [=](RigidBody *b) { c->setBody2(b); }}});
        break;
    }
    case ROLLC: {
        auto *c = new RollingConstraint;
        t.name = "rolling";
        t.f = {{"m_local_x", &c->m_local_x, 0, -2.4}, {"m_local_y", &c->m_local_y, 0, 1.7}, {"m_radius", &c->m_radius, 0, 0.9}, {"m_dx", &c->m_dx, 0, 1}, {"m_dy", &c->m_dy, 0, 1}};
        ConD d; d.kind = ROLL;
        con(c, d, [=](ConD &e) { e.lx = c->m_local_x; e.ly = c->m_local_y; e.r = c->m_radius; e.dx = c->m_dx; e.dy = c->m_dy; }, {{"setBaseBody", [=](RigidBody *b) { c->setBaseBody(b); }}, {"setRollingBody", [=](RigidBody *b) { c->setRollingBody(b); }}});
        break;
    }
    case CLU: {
        auto *c = new ClutchConstraint;
        t.name = "clutch";
        t.f = {{"m_minTorque", &c->m_minTorque, -DBL_MAX, -20}, {"m_maxTorque", &c->m_maxTorque, DBL_MAX, 15}};
        ConD d; d.kind = CLUTCH;
        con(c, d, [=](ConD &e) { e.lo = c->m_minTorque; e.hi = c->m_maxTorque; }, {{"setBody1", [=](RigidBody *b) { c->setBody1(b); }}, {"setBody2", [=](RigidBody *b) { c->setBody2(b); }}});
        break;
    }
    case GR: {
        auto *c = new SimpleGearConstraint;
        t.name = "gear";
        t.f = {{"m_ratio", &c->m_ratio, 1, -0.6}};
        ConD d; d.kind = GEAR;
        con(c, d, [=](ConD &e) { e.r = c->m_ratio; e.neutral = c->m_neutral; }, {{"setBody1", [=](RigidBody *b) { c->setBody1(b); }}, {"setBody2", [=](RigidBody *b) { c->setBody2(b); }}});
        auto base = t.rest;
        t.rest = [=](mc::Ctx &x) { base(x); x.check(!c->m_neutral, "a new gear is in neutral"); c->m_neutral = x.choose(2, "neutral") == 1; };
        break;
    }
    case CROT: {
        auto *c = new ConstantRotationConstraint;
        t.name = "constant rotation";
        t.f = {{"m_rotationSpeed", &c->m_rotationSpeed, 0, 3.5}, {"m_minTorque", &c->m_minTorque, -DBL_MAX, -20}, {"m_maxTorque", &c->m_maxTorque, DBL_MAX, 15}};
        ConD d; d.kind = CONSTROT;
        con(c, d, [=](ConD &e) { e.r = c->m_rotationSpeed; e.lo = c->m_minTorque; e.hi = c->m_maxTorque; }, {{"setBody", [=](RigidBody *b) { c->setBody(b); }}});
        break;
    }
    case RFR: {
        auto *c = new RotationFrictionConstraint;
        t.name = "rotation friction";
        t.f = {{"m_minTorque", &c->m_minTorque, -DBL_MAX, -20}, {"m_maxTorque", &c->m_maxTorque, DBL_MAX, 15}};
        ConD d; d.kind = ROTFRIC;
        con(c, d, [=](ConD &e) { e.lo = c->m_minTorque; e.hi = c->m_maxTorque; }, {{"setBody", [=](RigidBody *b) { c->setBody(b); }}});
        break;
    }
    case STAT: {
        auto *f = new StaticForceGenerator;
        t.name = "static force";
        t.f = {{"m_f_x", &f->m_f_x, 0, 3}, {"m_f_y", &f->m_f_y, 0, -2}, {"m_p_x", &f->m_p_x, 0, 0.3}, {"m_p_y", &f->m_p_y, 0, -0.4}};
        t.s = {{"setForce", [=] { f->setForce(3, -2); }, {0, 1}}, {"setPosition", [=] { f->setPosition(0.3, -0.4); }, {2, 3}}};
        t.rest = [=](mc::Ctx &x) { x.check(f->m_body == nullptr && f->m_index == -1, "a new static force has a body or a slot"); };
        t.behave = [=](mc::Ctx &x) {
            int k = x.choose(2, "body");
            f->m_body = g->b[k];
            GenD d; d.kind = STATIC; d.b0 = k; d.fx = f->m_f_x; d.fy = f->m_f_y; d.px = f->m_p_x; d.py = f->m_p_y;
            compareForces(x, "static force", f, d, g);
        };
        t.end = [=] { delete f; };
        break;
    }
    case SPR: {
        auto *f = new Spring;
        t.name = "spring";
        t.f = {{"m_p1_x", &f->m_p1_x, 0, 0.3}, {"m_p1_y", &f->m_p1_y, 0, -0.4}, {"m_p2_x", &f->m_p2_x, 0, -0.2}, {"m_p2_y", &f->m_p2_y, 0, 0.6}, {"m_restLength", &f->m_restLength, 1, 0.8}, {"m_ks", &f->m_ks, 0, 20}, {"m_kd", &f->m_kd, 0, 0.5}};
        t.rest = [=](mc::Ctx &x) { x.check(f->m_body1 == nullptr && f->m_body2 == nullptr && f->m_index == -1, "a new spring has a body or a slot"); };
        t.behave = [=](mc::Ctx &x) {
            int k = x.choose(5, "ends"); // none, one or both of them set
            f->m_body1 = k == 1 || k == 3 ? g->b[0] : k == 4 ? g->b[1] : nullptr;
            f->m_body2 = k == 2 || k == 3 ? g->b[1] : k == 4 ? g->b[0] : nullptr;
            if (k < 3) {
                double end[4] = {1, 2, 3, 4};
                f->apply(g->st);
                f->getEnds(end, end + 1, end + 2, end + 3);
                x.step();
                for (int i = 0; i < 2; ++i) x.check(g->st->f_x[i] == 0 && g->st->f_y[i] == 0 && g->st->t[i] == 0, "a spring without both ends applies a force");
                x.check(f->energy() == 0, "a spring without both ends stores energy %g", f->energy());
                for (int i = 0; i < 4; ++i) x.check(end[i] == i + 1, "a spring without both ends reports one");
                return;
            }
            GenD d; d.kind = SPRING; d.b0 = k == 4; d.b1 = k == 3; d.px = f->m_p1_x; d.py = f->m_p1_y; d.px2 = f->m_p2_x; d.py2 = f->m_p2_y; d.rest = f->m_restLength; d.ks = f->m_ks; d.kd = f->m_kd;
            compareForces(x, "spring", f, d, g);
        };
        t.end = [=] { delete f; };
        break;
    }
    case MOT: {
        auto *f = new ConstantSpeedMotor;
        t.name = "motor";
        t.f = {{"m_ks", &f->m_ks, 1, 20}, {"m_kd", &f->m_kd, 1, 0.5}, {"m_maxTorque", &f->m_maxTorque, 500, 2.5}, {"m_speed", &f->m_speed, 1, -6}};
        t.rest = [=](mc::Ctx &x) { x.check(f->m_body0 == nullptr && f->m_body1 == nullptr && f->m_index == -1, "a new motor has a body or a slot"); };
        t.behave = [=](mc::Ctx &x) {
            f->m_body0 = g->b[0]; f->m_body1 = g->b[1];
            GenD d; d.kind = MOTOR; d.b0 = 0; d.b1 = 1; d.ks = f->m_ks; d.kd = f->m_kd; d.maxT = f->m_maxTorque; d.speed = f->m_speed;
            compareForces(x, "motor", f, d, g);
        };
        t.end = [=] { delete f; };
        break;
    }
    case GRAV: {
        auto *f = new GravityForceGenerator;
        t.name = "gravity";
        t.f = {{"m_g", &f->m_g, 9.81, -1.6}};
        t.rest = [=](mc::Ctx &x) { x.check(f->m_index == -1, "a new gravity generator has slot %d", f->m_index); };
        t.behave = [=](mc::Ctx &x) { GenD d; d.kind = GRAVITY; d.g = f->m_g; compareForces(x, "gravity", f, d, g); };
        t.end = [=] { delete f; };
        break;
    }
    case SYSN: {
        auto *s = new OptimizedNsvRigidBodySystem;
        t.name = "velocity-level system";
        t.f = {{"m_biasFactor", &s->m_biasFactor, 1, 0.25}};
        t.rest = [=](mc::Ctx &x) {
            x.check(s->timeElapsed() == 0, "a new system has run for %g", s->timeElapsed());
            x.check(s->getRigidBodyCount() == 0 && s->getConstraintCount() == 0 && s->getForceGeneratorCount() == 0 && s->getFullConstraintCount() == 0, "a new system is not empty");
            x.check(s->state()->n == 0 && s->state()->n_c == 0 && s->state()->dt == 0, "a new system publishes a state");
            GenericRigidBodySystem o;
            x.check(o.getRigidBodyCount() == 0 && o.getConstraintCount() == 0 && o.getForceGeneratorCount() == 0 && o.getFullConstraintCount() == 0 && o.state()->n == 0 && o.state()->n_c == 0, "a new system is not empty");
        };
        t.behave = [=](mc::Ctx &x) {
            // a position error of one is reduced by the bias factor
            GaussianEliminationSleSolver ge;
            RigidBody b; b.m = 2; b.I = 1;
            FixedPositionConstraint c;
            c.setBody(&b);
            c.setWorldPosition(1, 0);
            s->initialize(&ge);
            s->addRigidBody(&b); s->addConstraint(&c);
            s->process(0.5);
            x.step();
            x.near(b.p_x, s->m_biasFactor, 1e-12, "position after one step with bias factor %g", s->m_biasFactor);
            x.near(s->timeElapsed(), 0.5, 1e-15, "elapsed time");
        };
        t.end = [=] { delete s; };
        break;
    }
    case SGS: {
        auto *s = new GaussSeidelSleSolver;
        t.name = "Gauss-Seidel";
        t.f = {{"m_minDelta", &s->m_minDelta, 1e-1, 1e-6}};
        t.rest = [=](mc::Ctx &x) { x.check(s->m_maxIterations == 128, "a new Gauss-Seidel solver has a budget of %d", s->m_maxIterations); x.check(s->supportsLimits(), "Gauss-Seidel denies supporting limits"); };
        t.behave = [](mc::Ctx &) {};
        t.end = [=] { delete s; };
        break;
    }
    default: {
        auto *s = new ConjugateGradientSleSolver;
        t.name = "conjugate gradient";
        double *cell = new double[3];
        // properties behind accessors: mirrored before and after
        cell[0] = s->getMaxIterations(); cell[1] = s->getMaxError(); cell[2] = s->getMinError();
        t.f = {{"maxIterations", cell, 1000, 7}, {"maxError", cell + 1, 1e-2, 1e-5}, {"minError", cell + 2, 1e-3, 1e-7}};
        auto reread = [=] { cell[0] = s->getMaxIterations(); cell[1] = s->getMaxError(); cell[2] = s->getMinError(); };
        t.s = {{"setMaxIterations", [=] { s->setMaxIterations(7); reread(); }, {0}}, {"setMaxError", [=] { s->setMaxError(1e-5); reread(); }, {1}}, {"setMinError", [=] { s->setMinError(1e-7); reread(); }, {2}}};
        t.rest = [=](mc::Ctx &x) {
            x.check(!s->supportsLimits(), "conjugate gradient claims to support limits");
            GaussianEliminationSleSolver ge;
            x.check(!ge.supportsLimits(), "the direct solver claims to support limits");
        };
        t.behave = [](mc::Ctx &) {};
        t.end = [=] { delete s; delete[] cell; };
    }
    }
    return t;
}

struct Holder { Thing t; ~Holder() { if (t.end) t.end(); } };

void settings(mc::Ctx &x) {
    int kind = x.choose(THINGS, "class");
    mc::mem::fill(x.choose(mc::mem::patterns(), "fresh memory"));
    Stage g;
    Holder h;
    h.t = make(kind, &g);
    Thing &t = h.t;
    x.note("%s", t.name);
    int n = (int)t.f.size();
    std::vector<double> want;
    for (auto &f : t.f) { want.push_back(f.def); x.check(*f.p == f.def, "a new %s has %s = %g, expected %g", t.name, f.name, *f.p, f.def); }
    x.step();
    if (t.rest) t.rest(x);
    // every subset of the settings, directly or by calls, in either order
    auto verify = [&](const char *what) {
        for (int i = 0; i < n; ++i) x.check(*t.f[i].p == want[i], "%s: after %s, %s is %g, expected %g", t.name, what, t.f[i].name, *t.f[i].p, want[i]);
    };
    std::vector<int> chosen;
    int way = t.s.empty() ? 0 : x.choose(2, "by calls");
    int m = way ? (int)t.s.size() : n;
    if (kind == SCG && !way) { mc::mem::fill(0); return; } // its settings have no public members
    for (int i = 0; i < m; ++i) if (x.choose(2, way ? t.s[i].name : t.f[i].name)) chosen.push_back(i);
    if (chosen.size() > 1 && x.choose(2, "order")) std::reverse(chosen.begin(), chosen.end());
    for (int i : chosen) {
        if (way) { t.s[i].call(); for (int f : t.s[i].fields) want[f] = t.f[f].other; verify(t.s[i].name); }
        else { *t.f[i].p = t.f[i].other; want[i] = t.f[i].other; verify(t.f[i].name); }
        x.step();
    }
    t.behave(x);
    verify("use");
    mc::Hash hs;
    hs.i(kind);
    for (int i = 0; i < n; ++i) hs.d(*t.f[i].p);
    x.state(hs.h);
    mc::mem::fill(0);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C26",
                   "every class of object x contents of fresh memory x every subset of its settings assigned directly or by its setters, in either order: defaults, untouched settings, and what the object then does (rows, limits, forces, one step) against the reference model",
                   {{"settings", settings, 0, 0, false}},
                   {"defaults are those of the pinned tree"});
}
