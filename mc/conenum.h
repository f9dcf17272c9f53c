// Enumerates one constraint of any kind with its parameters and the full state
// of its bodies, directly at the Constraint::calculate interface.
#ifndef CONENUM_H
#define CONENUM_H
#include "ref.h"
#include "scenes.h"
#include <memory>

namespace conenum {
using namespace ref;
typedef atg_scs::Constraint::Output Output;

struct Case {
    ConD d;
    double q[6], v[6];
    int slot[2], n;
    bool stat[2] = {false, false}; // body not registered (speed constraints only)
};
inline Case enumerate(mc::Ctx &x, int kind) {
    Case c;
    ConD &d = c.d;
    d.kind = kind; d.b0 = 0; d.b1 = 1;
    bool two = conBodies(kind) == 2;
    static const double angles[] = {0.35, 0, 1.9, -2.8, 3.141592653589793, -1.5707963267948966, 7.1, -53.4, 6.283185307179586, 2e-4};
    const int na = (int)(sizeof angles / sizeof *angles);
    double pos0[] = {0.4, -1.3, 1.7, 0.6};
    for (int b = 0; b < (two ? 2 : 1); ++b) {
        c.q[3 * b + 2] = b == 0 ? angles[x.choose(na, "theta1")] : angles[(x.choose(na, "theta2") + 3) % na];
        c.q[3 * b] = gen::var(x, "x", pos0[2 * b], {0, -7.5, 120});
        c.q[3 * b + 1] = gen::var(x, "y", pos0[2 * b + 1], {0, 4.2, -95});
        c.v[3 * b] = gen::var(x, "vx", b ? -0.9 : 0.6, {0, 25, -2e-4});
        c.v[3 * b + 1] = gen::var(x, "vy", b ? 0.45 : -1.2, {0, -18, 5e-4});
        c.v[3 * b + 2] = gen::var(x, "w", b ? -1.4 : 0.8, {0, 9, -31, 3e-4});
    }
    if (!two) for (int i = 3; i < 6; ++i) c.q[i] = c.v[i] = 0;
    d.ks = gen::var(x, "ks", 10, {0, 37.5, 4000});
    d.kd = gen::var(x, "kd", 1, {0, 6.25, 90});
    if (kind == FIXPOS || kind == LINE || kind == LINK || kind == ROLL) {
        d.lx = gen::var(x, "lx", d.lx, {0, -2.4, 11});
        d.ly = gen::var(x, "ly", d.ly, {0, 1.7, -8});
    }
    if (kind == LINK) {
        d.lx2 = gen::var(x, "lx2", d.lx2, {0, 2.2, -9});
        d.ly2 = gen::var(x, "ly2", d.ly2, {0, -1.1, 13});
        d.hi = gen::var(x, "maxForce", DBL_MAX, {12.5, 0});
    }
    if (kind == FIXPOS || kind == LINE) { d.wx = gen::var(x, "wx", d.wx, {0, -5, 60}); d.wy = gen::var(x, "wy", d.wy, {0, 3.3, -44}); }
    if (kind == LINE) { d.dx = gen::var(x, "dx", d.dx, {0, -2.5, 1}); d.dy = gen::var(x, "dy", d.dy, {1, -0.7, 4}); }
    if (kind == ROLL) {
        static const double dirs[][2] = {{0.8, 0.6}, {1, 0}, {0, 1}, {-0.6, -0.8}, {-0.28, 0.96}, {0.96, -0.28}};
        int k = x.deviate(6, "dir");
        d.dx = dirs[k][0]; d.dy = dirs[k][1];
        d.r = gen::var(x, "radius", 0.5, {1, 0, 3.2, 0.07});
    }
    if (kind == FIXROT) d.r = gen::var(x, "rotation", 0.6, {0, -4, 20});
    if (kind == GEAR) { d.r = gen::var(x, "ratio", 2.4, {1, -0.6, 0, 30}); d.neutral = x.deviate(2, "neutral") == 1; }
    if (kind == CONSTROT) d.r = gen::var(x, "speed", 3.5, {0, -2, 140});
    if (kind == CLUTCH || kind == ROTFRIC || kind == CONSTROT) {
        d.lo = gen::var(x, "minTorque", -DBL_MAX, {-20, 0, 3});
        d.hi = gen::var(x, "maxTorque", DBL_MAX, {15, 4});
    }
    // where the bodies sit among others
    static const int layouts[][3] = {{0, 1, 2}, {1, 0, 2}, {4, 2, 6}, {0, 5, 6}, {299, 256, 300}};
    const int *l = layouts[x.deviate(5, "layout")];
    c.slot[0] = l[0]; c.slot[1] = l[1]; c.n = l[2];
    if (!two) c.n = std::max(1, l[2] - (l[0] == 0 && l[1] == 1 ? 1 : 0));
    return c;
}

// the real constraint on real bodies in a state buffer
struct Rig {
    std::vector<atg_scs::RigidBody *> b;
    atg_scs::Constraint *con;
    atg_scs::SystemState *st;
    Case c;
    explicit Rig(const Case &k) : c(k) {
        for (int i = 0; i < 2; ++i) { b.push_back(new atg_scs::RigidBody); b[i]->m = 2 + i; b[i]->I = 1 + i; b[i]->index = k.slot[i]; }
        con = real::makeConstraint(k.d, b);
        st = new atg_scs::SystemState;
        st->resize(k.n, 6);
        for (int i = 0; i < k.n; ++i) put(i, nullptr, nullptr);
        for (int i = 0; i < conBodies(k.d.kind); ++i) put(k.slot[i], k.q + 3 * i, k.v + 3 * i);
    }
    void put(int i, const double *q, const double *v) {
        const double bad = NAN;
        st->p_x[i] = q ? q[0] : bad; st->p_y[i] = q ? q[1] : bad; st->theta[i] = q ? q[2] : bad;
        st->v_x[i] = v ? v[0] : bad; st->v_y[i] = v ? v[1] : bad; st->v_theta[i] = v ? v[2] : bad;
        st->a_x[i] = st->a_y[i] = st->a_theta[i] = bad;
        st->f_x[i] = st->f_y[i] = st->t[i] = bad;
        st->m[i] = q ? 2 : bad;
    }
    void set(const double *q, const double *v) { for (int i = 0; i < conBodies(c.d.kind); ++i) put(c.slot[i], q + 3 * i, v + 3 * i); }
    void eval(Output *o) { con->calculate(o, st); }
    ~Rig() { delete con; for (auto *p : b) delete p; st->destroy(); delete st; }
};
inline void fill(Output *o, double v) {
    double *p = (double *)o;
    for (size_t i = 0; i < sizeof(Output) / sizeof(double); ++i) p[i] = v;
}
// all but one (or two) numbers of the configuration zero: what is reported is
// then as small or large as that number, and rounding has nothing to hide in
inline Case lone(mc::Ctx &x, int kind, double *size) {
    static const double sizes[] = {1e-3, 1e-5, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 1e-14, 1e-20, 1e-60, 1e-150, 1, 30, 1e3, 1e5, 1e7, 1e9};
    Case c;
    c.d.kind = kind; c.d.b0 = 0; c.d.b1 = 1;
    ConD &d = c.d;
    d.lx = d.ly = d.lx2 = d.ly2 = d.wx = d.wy = d.r = 0;
    bool two = conBodies(kind) == 2;
    static const double dirs[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0.8, 0.6}};
    const double *dir = dirs[kind == LINE || kind == ROLL ? x.choose(4, "direction") : 0];
    d.dx = dir[0]; d.dy = dir[1];
    if (kind == GEAR) d.r = 2;
    for (int i = 0; i < 6; ++i) c.q[i] = c.v[i] = 0;
    c.slot[0] = x.choose(2, "slot"); c.slot[1] = 1 - c.slot[0]; c.n = 2;
    double *at[16];
    int n = 0;
    for (int i = 0; i < (two ? 6 : 3); ++i) at[n++] = c.q + i;
    if (kind == FIXPOS || kind == LINE || kind == LINK || kind == ROLL) { at[n++] = &d.lx; at[n++] = &d.ly; }
    if (kind == LINK) { at[n++] = &d.lx2; at[n++] = &d.ly2; }
    if (kind == FIXPOS || kind == LINE) { at[n++] = &d.wx; at[n++] = &d.wy; }
    if (kind == FIXROT || kind == ROLL || kind == GEAR || kind == CONSTROT) at[n++] = &d.r;
    int k = x.choose(n, "which");
    *size = x.pick(sizes, "size");
    *at[k] = x.choose(2, "sign") ? -*size : *size;
    int v = x.choose(two ? 7 : 4, "moving");
    if (v) c.v[v - 1] = x.choose(2, "rate") ? 1e-7 : -2.5;
    return c;
}
// heap output, so that writes outside it are caught
struct Out {
    Output *o;
    explicit Out(double v) : o(new Output) { fill(o, v); }
    ~Out() { delete o; }
    Output *operator->() { return o; }
};
inline uint64_t hashOut(const Output &o, const ConD &d) {
    mc::Hash h;
    h.i(d.kind);
    for (int k = 0; k < conRows(d.kind); ++k) { h.d(o.C[k]).d(o.v_bias[k]).d(o.ks[k]).d(o.kd[k]); for (int i = 0; i < 3 * conBodies(d.kind); ++i) h.d(o.J[k][i]).d(o.J_dot[k][i]); }
    return h.h;
}
} // namespace conenum
#endif
