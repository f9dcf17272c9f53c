// C14: constraint sensitivities are the true derivatives of the constraint.
#include "conenum.h"
using namespace conenum;

namespace {
template <int KIND> void derivatives(mc::Ctx &x) {
    Case c = enumerate(x, KIND);
    const ConD &d = c.d;
    Rig r(c);
    const int rows = conRows(KIND), nv = 3 * conBodies(KIND);
    Out o(NAN), p(-7.25e301);
    r.eval(o.o);
    r.eval(p.o);
    x.step();
    double scale = 1;
    for (int i = 0; i < 6; ++i) scale = std::max(scale, std::fabs(c.q[i]));
    scale += std::fabs(d.lx) + std::fabs(d.ly) + std::fabs(d.lx2) + std::fabs(d.ly2) + std::fabs(d.wx) + std::fabs(d.wy);
    double len = 1;
    if (KIND == LINE) len = 1 + std::fabs(d.dx) + std::fabs(d.dy);
    double vs = 1;
    for (int i = 0; i < 6; ++i) vs = std::max(vs, std::fabs(c.v[i]));
    R rq[6], rv[6];
    for (int i = 0; i < 6; ++i) { rq[i] = c.q[i]; rv[i] = c.v[i]; }
    for (int k = 0; k < rows; ++k) {
        Row want = conRow(d, k, rq, rv);
        const char *nm = conNames[KIND];
        for (int i = 0; i < nv; ++i) {
            x.check(std::isfinite(o->J[k][i]) && std::isfinite(o->J_dot[k][i]), "%s row %d: sensitivity %d or its rate was not written", nm, k, i);
            x.check(o->J[k][i] == p->J[k][i] && o->J_dot[k][i] == p->J_dot[k][i], "%s row %d: sensitivity %d depends on the previous content of the output", nm, k, i);
        }
        x.check(std::isfinite(o->C[k]) && o->C[k] == p->C[k], "%s row %d: error not written on every evaluation", nm, k);
        x.near(o->ks[k], (double)want.ks, 1e-12, "%s row %d stiffness", nm, k);
        x.near(p->ks[k], (double)want.ks, 1e-12, "%s row %d stiffness (second evaluation)", nm, k);
        x.near(o->kd[k], (double)want.kd, 1e-12, "%s row %d damping", nm, k);
        x.near(p->kd[k], (double)want.kd, 1e-12, "%s row %d damping (second evaluation)", nm, k);
        x.near(o->v_bias[k], (double)want.vb, 1e-12, "%s row %d speed target", nm, k);
        x.near(p->v_bias[k], (double)want.vb, 1e-12, "%s row %d speed target (second evaluation)", nm, k);
        for (int l = 0; l < 2; ++l) x.check(o->limits[k][l] == p->limits[k][l], "%s row %d: limit not written on every evaluation", nm, k);
    }
    x.state(hashOut(*o.o, d));
    // partial derivatives of the reported error, by a fourth-order difference
    const double e = 4e-3;
    R sp[6];
    bool speed = speedRow(d, sp);
    auto at = [&](int i, double dq, double along, Output *out) {
        double q[6];
        for (int j = 0; j < 6; ++j) q[j] = c.q[j] + along * c.v[j];
        if (i >= 0) q[i] += dq;
        r.set(q, c.v);
        r.eval(out);
        x.step();
    };
    Out m2(0), m1(0), p1(0), p2(0);
    for (int i = 0; i < nv; ++i) {
        at(i, -2 * e, 0, m2.o); at(i, -e, 0, m1.o); at(i, e, 0, p1.o); at(i, 2 * e, 0, p2.o);
        for (int k = 0; k < rows; ++k) {
            double want = speed ? (double)sp[i] : (m2->C[k] - 8 * m1->C[k] + 8 * p1->C[k] - p2->C[k]) / (12 * e);
            x.nearScale(o->J[k][i], want, 2e-9, scale * len, "%s row %d: sensitivity to coordinate %d", conNames[KIND], k, i);
        }
    }
    // rate of change of the reported sensitivities along the motion
    const double te = 4e-3 / vs;
    at(-1, 0, -2 * te, m2.o); at(-1, 0, -te, m1.o); at(-1, 0, te, p1.o); at(-1, 0, 2 * te, p2.o);
    for (int k = 0; k < rows; ++k)
        for (int i = 0; i < nv; ++i) {
            double want = (m2->J[k][i] - 8 * m1->J[k][i] + 8 * p1->J[k][i] - p2->J[k][i]) / (12 * te);
            x.nearScale(o->J_dot[k][i], want, 4e-9, scale * len * vs, "%s row %d: rate of sensitivity %d", conNames[KIND], k, i);
        }
    // back at the original state the same object reports the same again
    r.set(c.q, c.v);
    Out back(NAN);
    r.eval(back.o);
    for (int k = 0; k < rows; ++k)
        for (int i = 0; i < nv; ++i)
            x.check(back->J[k][i] == o->J[k][i] && back->J_dot[k][i] == o->J_dot[k][i] && back->C[k] == o->C[k], "%s row %d: evaluation depends on earlier evaluations", conNames[KIND], k);
}
// one number at a time, of any size, everything else zero
void lonely(mc::Ctx &x) {
    static const int kinds[] = {FIXPOS, FIXROT, LINE, LINK, ROLL};
    int kind = x.pick(kinds, "kind");
    double size;
    Case c = lone(x, kind, &size);
    const ConD &d = c.d;
    Rig r(c);
    Out o(NAN);
    r.eval(o.o);
    x.step();
    x.state(hashOut(*o.o, d));
    R q[6], v[6];
    double fast = 0;
    for (int i = 0; i < 6; ++i) { q[i] = c.q[i]; v[i] = c.v[i]; fast = std::max(fast, std::fabs(c.v[i])); }
    for (int k = 0; k < conRows(kind); ++k) {
        Row w = conRow(d, k, q, v);
        for (int i = 0; i < 3 * conBodies(kind); ++i) {
            double j = (double)w.J[i], t = (double)w.Jd[i];
            x.check(std::fabs(o->J[k][i] - j) <= 1e-12 * (std::fabs(j) + size), "%s row %d: sensitivity %d is %.17g, expected %.17g", conNames[kind], k, i, o->J[k][i], j);
            x.check(std::fabs(o->J_dot[k][i] - t) <= 1e-12 * (std::fabs(t) + size * fast), "%s row %d: rate of sensitivity %d is %.17g, expected %.17g", conNames[kind], k, i, o->J_dot[k][i], t);
        }
    }
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C14",
                   "every constraint kind x 10 (100 for two bodies) angle combinations x bounded deviations of every coordinate, velocity, parameter and body slot; reported sensitivities and their rates against fourth-order differences of the reported error and sensitivities; outputs prefilled with two different patterns; repeated evaluation; one coordinate or parameter at a time from 1e-150 to 1e9 with all others zero",
                   {{"fixpos", derivatives<FIXPOS>, 3, 4, false}, {"fixrot", derivatives<FIXROT>, 3, 4, false}, {"line", derivatives<LINE>, 3, 4, false},
                    {"link", derivatives<LINK>, 2, 3, false}, {"roll", derivatives<ROLL>, 2, 3, false}, {"clutch", derivatives<CLUTCH>, 2, 3, false},
                    {"gear", derivatives<GEAR>, 2, 3, false}, {"constrot", derivatives<CONSTROT>, 3, 4, false}, {"rotfric", derivatives<ROTFRIC>, 3, 4, false}, {"lone", lonely, 0, 0, false}},
                   {"the first row of a rolling constraint carries no stiffness or damping", "rolling directions are unit vectors"});
}
