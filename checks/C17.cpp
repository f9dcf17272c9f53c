// C17: body frames, point velocities and applied forces obey rigid-body kinematics.
#include "ref.h"
#include "scenes.h"
#include <memory>
using namespace ref;
using atg_scs::SystemState;
using atg_scs::RigidBody;

namespace {
const double angles[] = {0, 0.35, 1.5707963267948966, 3.141592653589793, -1.5707963267948966, -2.8, 6.283185307179586, 47.5, -1234.25, 1e-5};
struct Pt { double x, y; };
const Pt points[] = {{0.3, -0.7}, {0, 0}, {2.5, 0}, {0, -4}, {-130, 75}};
const Pt centres[] = {{0, 0}, {1.25, -3.5}, {-480, 260}};
struct Frame { long double c, s, x, y; };
Frame frame(double th, Pt p) { return {cosl(th), sinl(th), p.x, p.y}; }

// RigidBody: both directions, mutual inverse, energy; nothing else changes
void bodyFrames(mc::Ctx &x) {
    std::unique_ptr<RigidBody> b(new RigidBody);
    double th = x.pick(angles, "theta");
    Pt c = x.pick(centres, "centre"), p = x.pick(points, "point");
    b->p_x = c.x; b->p_y = c.y; b->theta = th;
    b->m = gen::var(x, "m", 2.5, {0, 40});
    b->I = gen::var(x, "I", 0.7, {0, 9});
    b->v_x = gen::var(x, "vx", -1.5, {0, 30});
    b->v_y = gen::var(x, "vy", 0.75, {0, -12});
    b->v_theta = gen::var(x, "w", 3.25, {0, -60});
    b->index = x.choose(3, "index") - 1;
    RigidBody old = *b;
    Frame f = frame(th, c);
    double wx = NAN, wy = NAN, lx = NAN, ly = NAN;
    double S = 1 + std::fabs(p.x) + std::fabs(p.y) + std::fabs(c.x) + std::fabs(c.y);
    b->localToWorld(p.x, p.y, &wx, &wy);
    x.step();
    x.nearScale(wx, (double)(f.x + f.c * p.x - f.s * p.y), 1e-13, S, "localToWorld x");
    x.nearScale(wy, (double)(f.y + f.s * p.x + f.c * p.y), 1e-13, S, "localToWorld y");
    b->worldToLocal(wx, wy, &lx, &ly);
    x.step();
    x.nearScale(lx, p.x, 1e-12, S, "worldToLocal(localToWorld) x");
    x.nearScale(ly, p.y, 1e-12, S, "worldToLocal(localToWorld) y");
    b->worldToLocal(p.x, p.y, &lx, &ly);
    x.step();
    long double dx = p.x - f.x, dy = p.y - f.y;
    x.nearScale(lx, (double)(f.c * dx + f.s * dy), 1e-13, S, "worldToLocal x");
    x.nearScale(ly, (double)(-f.s * dx + f.c * dy), 1e-13, S, "worldToLocal y");
    b->localToWorld(lx, ly, &wx, &wy);
    x.step();
    x.nearScale(wx, p.x, 1e-12, S, "localToWorld(worldToLocal) x");
    x.nearScale(wy, p.y, 1e-12, S, "localToWorld(worldToLocal) y");
    x.near(b->energy(), 0.5 * b->m * (b->v_x * b->v_x + b->v_y * b->v_y) + 0.5 * b->I * b->v_theta * b->v_theta, 1e-13, "kinetic energy");
    x.check(memcmp(&old, b.get(), offsetof(RigidBody, index)) == 0 && old.index == b->index, "a frame conversion or energy changed the body");
    x.state(mc::Hash().d(wx).d(wy).d(lx).d(ly).d(b->energy()).h);
}

// in and out may be the same variables
void inPlace(mc::Ctx &x) {
    std::unique_ptr<RigidBody> b(new RigidBody);
    b->theta = x.pick(angles, "theta");
    Pt c = x.pick(centres, "centre"), p = x.pick(points, "point");
    b->p_x = c.x; b->p_y = c.y;
    Frame f = frame(b->theta, c);
    double S = 1 + std::fabs(p.x) + std::fabs(p.y) + std::fabs(c.x) + std::fabs(c.y);
    double a = p.x, d = p.y;
    b->localToWorld(a, d, &a, &d);
    x.nearScale(a, (double)(f.x + f.c * p.x - f.s * p.y), 1e-13, S, "localToWorld in place x");
    x.nearScale(d, (double)(f.y + f.s * p.x + f.c * p.y), 1e-13, S, "localToWorld in place y");
    b->worldToLocal(a, d, &a, &d);
    x.nearScale(a, p.x, 1e-12, S, "worldToLocal in place x");
    x.nearScale(d, p.y, 1e-12, S, "worldToLocal in place y");
    x.step();
    x.state(mc::Hash().d(a).d(d).i(b->theta * 100).h);
}

struct StateBox {
    SystemState *s = new SystemState;
    ~StateBox() { s->destroy(); delete s; }
    SystemState *operator->() { return s; }
};

// SystemState: transform, velocity and force at a point, on any body of several
void stateFrames(mc::Ctx &x) {
    static const int ns[] = {1, 2, 5, 300};
    int n = x.pick(ns, "bodies");
    static const int where[] = {0, 1, 4, 255, 299};
    int k = where[x.choose(5, "body")];
    if (k >= n) x.discard();
    double th = x.pick(angles, "theta");
    Pt c = x.pick(centres, "centre"), p = x.pick(points, "point");
    double vx = gen::var(x, "vx", -1.5, {0, 300}), vy = gen::var(x, "vy", 0.75, {0, -120}), w = gen::var(x, "w", 3.25, {0, -60});
    double fx = gen::var(x, "fx", 7.5, {0, -400}), fy = gen::var(x, "fy", -2.25, {0, 900});
    StateBox s;
    s->resize(n, 3);
    double *all[] = {s->p_x, s->p_y, s->theta, s->v_x, s->v_y, s->v_theta, s->a_x, s->a_y, s->a_theta, s->m, s->f_x, s->f_y, s->t};
    for (double *q : all) for (int i = 0; i < n; ++i) q[i] = NAN;
    s->p_x[k] = c.x; s->p_y[k] = c.y; s->theta[k] = th; s->v_x[k] = vx; s->v_y[k] = vy; s->v_theta[k] = w;
    double pre = x.choose(2, "preloaded") ? 1 : 0;
    for (int i = 0; i < n; ++i) { s->f_x[i] = pre * (1 + i); s->f_y[i] = -pre * 2 * i; s->t[i] = pre * (0.5 - i); }
    std::vector<double> before;
    for (double *q : all) before.insert(before.end(), q, q + n);
    Frame f = frame(th, c);
    double S = 1 + std::fabs(p.x) + std::fabs(p.y) + std::fabs(c.x) + std::fabs(c.y);
    double wx = NAN, wy = NAN, ux = NAN, uy = NAN;
    s->localToWorld(p.x, p.y, &wx, &wy, k);
    x.step();
    long double ax = f.c * p.x - f.s * p.y, ay = f.s * p.x + f.c * p.y;
    x.nearScale(wx, (double)(f.x + ax), 1e-13, S, "state localToWorld x");
    x.nearScale(wy, (double)(f.y + ay), 1e-13, S, "state localToWorld y");
    s->velocityAtPoint(p.x, p.y, &ux, &uy, k);
    x.step();
    double VS = std::fabs(w) * S + std::fabs(vx) + std::fabs(vy);
    x.nearScale(ux, (double)(vx - w * ay), 1e-12, VS, "velocity of a point x");
    x.nearScale(uy, (double)(vy + w * ax), 1e-12, VS, "velocity of a point y");
    std::vector<double> mid;
    for (double *q : all) mid.insert(mid.end(), q, q + n);
    x.check(memcmp(mid.data(), before.data(), 8 * mid.size()) == 0, "localToWorld or velocityAtPoint changed the state");
    // the body agrees
    RigidBody b;
    b.p_x = c.x; b.p_y = c.y; b.theta = th;
    double bx, by;
    b.localToWorld(p.x, p.y, &bx, &by);
    x.nearScale(wx, bx, 1e-14, S, "state and body transforms agree, x");
    x.nearScale(wy, by, 1e-14, S, "state and body transforms agree, y");
    // two forces at different points add up
    for (int r = 0; r < 2; ++r) { s->applyForce(p.x, p.y, fx, fy, k); x.step(); }
    s->applyForce(p.y, p.x, -fy, fx, k);
    long double qx = f.c * p.y - f.s * p.x, qy = f.s * p.y + f.c * p.x;
    double F = S * (1 + std::fabs(fx) + std::fabs(fy)) + 2 * n;
    x.nearScale(s->f_x[k], pre * (1 + k) + 2 * fx - fy, 1e-12, F, "accumulated force x");
    x.nearScale(s->f_y[k], -pre * 2 * k + 2 * fy + fx, 1e-12, F, "accumulated force y");
    x.nearScale(s->t[k], (double)(pre * (0.5 - k) + 2 * (ax * fy - ay * fx) + (qx * fx + qy * fy)), 1e-12, F, "accumulated torque");
    std::vector<double> after;
    for (double *q : all) after.insert(after.end(), q, q + n);
    for (size_t i = 0; i < after.size(); ++i) {
        bool target = i >= (size_t)10 * n && (int)(i % n) == k;
        if (!target) x.check(memcmp(&after[i], &before[i], 8) == 0, "applying a force to body %d changed value %zu of body %zu", k, i / n, i % n);
    }
    x.state(mc::Hash().d(wx).d(wy).d(ux).d(uy).d(s->f_x[k]).d(s->t[k]).i(n).i(k).h);
}

// the point velocity is the time derivative of the world position along the motion
void derivative(mc::Ctx &x) {
    double th = x.pick(angles, "theta");
    Pt p = x.pick(points, "point");
    static const double ws[] = {0, 0.8, -3, 40};
    static const double us[] = {0, 1.5, -22};
    double w = x.pick(ws, "w"), vx = x.pick(us, "vx"), vy = x.pick(us, "vy");
    StateBox s;
    s->resize(2, 0);
    const double h = 1e-6;
    double pos[2][2];
    for (int k = 0; k < 2; ++k) {
        double t = k ? h : -h;
        for (int i = 0; i < 2; ++i) { s->p_x[i] = 3 + vx * t; s->p_y[i] = -2 + vy * t; s->theta[i] = th + w * t; s->v_x[i] = vx; s->v_y[i] = vy; s->v_theta[i] = w; }
        s->localToWorld(p.x, p.y, &pos[k][0], &pos[k][1], 1);
    }
    double ux, uy;
    s->p_x[1] = 3; s->p_y[1] = -2; s->theta[1] = th;
    s->velocityAtPoint(p.x, p.y, &ux, &uy, 1);
    double S = (1 + std::fabs(w)) * (1 + std::fabs(w)) * (1 + std::fabs(p.x) + std::fabs(p.y)) + std::fabs(vx) + std::fabs(vy);
    x.nearScale(ux, (pos[1][0] - pos[0][0]) / (2 * h), 1e-6, S, "point velocity against displacement, x");
    x.nearScale(uy, (pos[1][1] - pos[0][1]) / (2 * h), 1e-6, S, "point velocity against displacement, y");
    x.step();
    x.state(mc::Hash().d(ux).d(uy).h);
}
// every combination of magnitudes: what is computed is as precise as its inputs allow
void sizes(mc::Ctx &x) {
    static const double sz[] = {0, 3e-8, 1, 2.5e4, 7e9}, far[] = {0, 1e-6, 1, 3e5, 1e9, 1099511627776.0};
    static const double th[] = {0.7, -2.1, 300.25};
    int what = x.choose(3, "what");
    RigidBody b;
    b.theta = x.pick(th, "theta");
    long double c = cosl(b.theta), s = sinl(b.theta);
    double out[4] = {};
    if (what == 0) { // kinetic energy
        b.m = x.pick(sz, "m"); b.I = x.pick(sz, "I"); b.v_x = x.pick(sz, "vx"); b.v_y = -x.pick(sz, "vy"); b.v_theta = x.pick(sz, "w");
        long double want = 0.5L * b.m * ((long double)b.v_x * b.v_x + (long double)b.v_y * b.v_y) + 0.5L * b.I * ((long double)b.v_theta * b.v_theta);
        out[0] = b.energy();
        x.check(fabsl(out[0] - want) <= 1e-12L * want, "kinetic energy with m %g, I %g, v (%g, %g), w %g: %.17g, expected %.17g", b.m, b.I, b.v_x, b.v_y, b.v_theta, out[0], (double)want);
    } else if (what == 1) { // frames of the body
        b.p_x = x.pick(far, "centre x"); b.p_y = -x.pick(far, "centre y");
        double dx = x.pick(sz, "dx"), dy = -x.pick(sz, "dy");
        b.localToWorld(dx, dy, &out[0], &out[1]);
        long double wx = b.p_x + c * dx - s * dy, wy = b.p_y + s * dx + c * dy, d = fabsl(dx) + fabsl(dy);
        x.check(fabsl(out[0] - wx) <= 1e-12L * (d + fabs(b.p_x)) && fabsl(out[1] - wy) <= 1e-12L * (d + fabs(b.p_y)), "local (%g, %g) of a body at (%g, %g): world (%.17g, %.17g), expected (%.17g, %.17g)", dx, dy, b.p_x, b.p_y, out[0], out[1], (double)wx, (double)wy);
        // a point given in the world: only its distance from the body counts
        double px = b.p_x + dx, py = b.p_y + dy;
        b.worldToLocal(px, py, &out[2], &out[3]);
        long double ex = (long double)px - b.p_x, ey = (long double)py - b.p_y, e = fabsl(ex) + fabsl(ey);
        long double lx = c * ex + s * ey, ly = -s * ex + c * ey;
        x.check(fabsl(out[2] - lx) <= 1e-9L * e && fabsl(out[3] - ly) <= 1e-9L * e, "a point (%Lg, %Lg) away from a body at (%g, %g): local (%.17g, %.17g), expected (%.17Lg, %.17Lg)", ex, ey, b.p_x, b.p_y, out[2], out[3], lx, ly);
    } else { // point velocity and torque in a state
        StateBox t;
        t->resize(1, 0);
        double dx = x.pick(sz, "lx"), dy = -x.pick(sz, "ly"), w = x.pick(sz, "w"), vx = x.pick(sz, "vx"), fx = x.pick(sz, "fx"), fy = -x.pick(sz, "fy");
        t->p_x[0] = x.choose(2, "far") ? 300 : 0; t->p_y[0] = 0; t->theta[0] = b.theta; t->v_x[0] = vx; t->v_y[0] = 0; t->v_theta[0] = w;
        t->f_x[0] = t->f_y[0] = t->t[0] = 0;
        long double ax = c * dx - s * dy, ay = s * dx + c * dy, arm = fabsl(dx) + fabsl(dy) + t->p_x[0] * 1e-3L;
        t->velocityAtPoint(dx, dy, &out[0], &out[1], 0);
        x.check(fabsl(out[0] - (vx - w * ay)) <= 1e-12L * (fabs(vx) + w * arm) && fabsl(out[1] - w * ax) <= 1e-12L * (w * arm), "velocity of the point (%g, %g): (%.17g, %.17g), expected (%.17g, %.17g)", dx, dy, out[0], out[1], (double)(vx - w * ay), (double)(w * ax));
        t->applyForce(dx, dy, fx, fy, 0);
        x.check(t->f_x[0] == fx && t->f_y[0] == fy, "force (%g, %g) accumulated as (%.17g, %.17g)", fx, fy, t->f_x[0], t->f_y[0]);
        long double q = ax * fy - ay * fx;
        x.check(fabsl(t->t[0] - q) <= 1e-12L * arm * (fabs(fx) + fabs(fy)), "torque of (%g, %g) at (%g, %g): %.17g, expected %.17Lg", fx, fy, dx, dy, t->t[0], q);
        out[2] = t->t[0];
    }
    x.step();
    x.state(mc::Hash().i(what).d(out[0]).d(out[1]).d(out[2]).d(out[3]).h);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C17",
                   "all angles x centres x points x bounded deviations of velocities, mass, inertia and forces, for bodies and for every slot of states with up to 300 bodies; exact formulas in extended precision, mutual inverse, in-place use, agreement of body and state, finite-difference velocity; all combinations of magnitudes from 3e-8 to 7e9 (a trillion for places) with errors relative to the inputs; every other value of the state is checked unchanged",
                   {{"body", bodyFrames, 2, 5, false}, {"in_place", inPlace, 0, 0, false}, {"state", stateFrames, 1, 3, false}, {"derivative", derivative, 0, 0, false}, {"sizes", sizes, 0, 0, false}},
                   {"values outside the listed alphabets are not explored"});
}
