// C15: each constraint's position error measures the geometry it is named for.
#include "conenum.h"
using namespace conenum;

namespace {
template <int KIND> void geometry(mc::Ctx &x) {
    Case c = enumerate(x, KIND);
    const ConD &d = c.d;
    Rig r(c);
    Out o(NAN);
    r.eval(o.o);
    x.step();
    x.state(hashOut(*o.o, d));
    double scale = 1;
    for (int i = 0; i < 6; ++i) scale = std::max(scale, std::fabs(c.q[i]));
    scale += std::fabs(d.lx) + std::fabs(d.ly) + std::fabs(d.lx2) + std::fabs(d.ly2) + std::fabs(d.wx) + std::fabs(d.wy);
    if (KIND == LINE) scale *= 1 + std::fabs(d.dx) + std::fabs(d.dy);
    if (KIND == ROLL) scale *= 1 + d.r;
    R q[6], v[6], sp[6];
    for (int i = 0; i < 6; ++i) { q[i] = c.q[i]; v[i] = c.v[i]; }
    for (int k = 0; k < conRows(KIND); ++k) {
        Row w = conRow(d, k, q, v);
        x.nearScale(o->C[k], (double)w.C, 1e-12, scale, "%s row %d position error", conNames[KIND], k);
        if (speedRow(d, sp)) {
            for (int i = 0; i < 3 * conBodies(KIND); ++i) x.near(o->J[k][i], (double)sp[i], 1e-12, "%s: coefficient %d of the constrained speed", conNames[KIND], i);
            x.near(o->v_bias[k], (double)w.vb, 1e-12, "%s: speed target", conNames[KIND]);
        } else x.check(o->v_bias[k] == 0, "%s row %d: unexpected speed target %g", conNames[KIND], k, o->v_bias[k]);
        // speed constraints measure that speed: no acceleration bias of their own
        if (speedRow(d, sp)) for (int i = 0; i < 3 * conBodies(KIND); ++i) x.check(o->J_dot[k][i] == 0, "%s: constrained speed has a varying coefficient", conNames[KIND]);
    }
}

// however small or large an error, it is reported in full
void lonely(mc::Ctx &x) {
    static const int kinds[] = {FIXPOS, FIXROT, LINE, LINK, ROLL, CLUTCH, GEAR, CONSTROT, ROTFRIC};
    int kind = x.pick(kinds, "kind");
    double size;
    Case c = lone(x, kind, &size);
    const ConD &d = c.d;
    Rig r(c);
    Out o(NAN);
    r.eval(o.o);
    x.step();
    x.state(hashOut(*o.o, d));
    R q[6], v[6], sp[6];
    for (int i = 0; i < 6; ++i) { q[i] = c.q[i]; v[i] = c.v[i]; }
    for (int k = 0; k < conRows(kind); ++k) {
        Row w = conRow(d, k, q, v);
        x.check(std::fabs(o->C[k] - (double)w.C) <= 1e-12 * size, "%s row %d position error is %.17g, expected %.17g", conNames[kind], k, o->C[k], (double)w.C);
        if (!speedRow(d, sp)) continue;
        for (int i = 0; i < 3 * conBodies(kind); ++i) x.check(std::fabs(o->J[k][i] - (double)sp[i]) <= 1e-12 * std::fabs((double)sp[i]), "%s: coefficient %d of the constrained speed is %.17g, expected %.17g", conNames[kind], i, o->J[k][i], (double)sp[i]);
        x.check(std::fabs(o->v_bias[k] - (double)w.vb) <= 1e-12 * std::fabs((double)w.vb), "%s: speed target is %.17g, expected %.17g", conNames[kind], o->v_bias[k], (double)w.vb);
    }
}

// A body that rolls without slipping keeps the error at zero; slipping, lifting
// or sinking by any amount shows with exactly that amount.
void rolling(mc::Ctx &x) {
    static const double dirs[][2] = {{1, 0}, {0.8, 0.6}, {0, 1}, {-0.6, -0.8}, {-0.28, 0.96}};
    static const double angles[] = {0, 0.35, -2.2, 3.141592653589793, 21.7};
    static const double turns[] = {0, 0.3, -1.1, 4.5};
    static const double arcs[] = {0, 0.7, -2.9, 12.6};
    static const double radii[] = {1, 0.25, 3.5};
    static const double offs[] = {0, 0.13, -0.6};
    const double *dir = x.pick(dirs, "direction");
    double phi0 = x.pick(angles, "base angle"), turn = x.pick(turns, "base turn"), arc = x.pick(arcs, "rolled angle"), rad = x.pick(radii, "radius");
    double slip = x.pick(offs, "slip"), lift = x.pick(offs, "lift");
    double bx = x.deviate(2, "base position") ? -30 : 1.5, by = 0.75;
    ConD d;
    d.kind = ROLL; d.lx = 0.4; d.ly = -0.9; d.dx = dir[0]; d.dy = dir[1]; d.r = rad;
    Case c;
    c.d = d; c.slot[0] = 1; c.slot[1] = 0; c.n = 2;
    // the base turned by `turn` from phi0; the wheel's angle relative to the base is `arc`
    double phi = phi0 + turn;
    double rel = arc;                  // wheel angle relative to the base
    double s = -rel * rad - slip;      // counter-clockwise rolling travels backwards along the line
    double nrm = rad + lift;
    double ca = std::cos(phi), sa = std::sin(phi);
    double ox = bx + ca * d.lx - sa * d.ly, oy = by + sa * d.lx + ca * d.ly;
    double ex = ca * d.dx - sa * d.dy, ey = sa * d.dx + ca * d.dy;
    double cx = ox + s * ex - nrm * ey, cy = oy + s * ey + nrm * ex;
    const double q[6] = {bx, by, phi, cx, cy, phi + rel};
    for (int i = 0; i < 6; ++i) { c.q[i] = q[i]; c.v[i] = 0; }
    Rig r(c);
    Out o(NAN);
    r.eval(o.o);
    x.step();
    x.state(hashOut(*o.o, d));
    x.nearScale(o->C[0], slip, 1e-11, 50, "slip between rolled arc and travel");
    x.nearScale(o->C[1], -lift, 1e-11, 50, "normal gap");
}

// a link measures world separation whichever body is which, wherever they are
void linkMeets(mc::Ctx &x) {
    static const double angles[] = {0, 0.35, -2.2, 3.141592653589793, 21.7};
    static const double pts[][2] = {{0, 0}, {0.5, -0.2}, {-3, 4}};
    static const double offs[][2] = {{0, 0}, {0.25, 0}, {0, -2}};
    double a1 = x.pick(angles, "angle1"), a2 = x.pick(angles, "angle2");
    const double *l1 = x.pick(pts, "local1"), *l2 = x.pick(pts, "local2"), *off = x.pick(offs, "separation");
    const double *w = x.pick(pts, "meeting point");
    Case c;
    c.d.kind = LINK; c.d.lx = l1[0]; c.d.ly = l1[1]; c.d.lx2 = l2[0]; c.d.ly2 = l2[1];
    c.slot[0] = x.choose(2, "slots"); c.slot[1] = 1 - c.slot[0]; c.n = 2;
    // bodies placed so that both points are at the meeting point, the first displaced by `off`
    c.q[0] = w[0] + off[0] - (std::cos(a1) * l1[0] - std::sin(a1) * l1[1]); c.q[1] = w[1] + off[1] - (std::sin(a1) * l1[0] + std::cos(a1) * l1[1]); c.q[2] = a1;
    c.q[3] = w[0] - (std::cos(a2) * l2[0] - std::sin(a2) * l2[1]); c.q[4] = w[1] - (std::sin(a2) * l2[0] + std::cos(a2) * l2[1]); c.q[5] = a2;
    for (int i = 0; i < 6; ++i) c.v[i] = 0.1 * i;
    Rig r(c);
    Out o(NAN);
    r.eval(o.o);
    x.step();
    x.state(hashOut(*o.o, c.d));
    x.nearScale(o->C[0], off[0], 1e-12, 10, "link separation x");
    x.nearScale(o->C[1], off[1], 1e-12, 10, "link separation y");
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C15",
                   "every constraint kind x 10 (100) angle combinations x bounded deviations of all coordinates and parameters, error and constrained speed against an independent geometric model; one coordinate or parameter at a time from 1e-150 to 1e9 with all others zero; all rolling configurations of a direction/angle/turn/arc/radius/slip/lift grid; all link placements of an angle/point/offset grid",
                   {{"fixpos", geometry<FIXPOS>, 3, 4, false}, {"fixrot", geometry<FIXROT>, 3, 4, false}, {"line", geometry<LINE>, 3, 4, false},
                    {"link", geometry<LINK>, 2, 3, false}, {"roll", geometry<ROLL>, 2, 3, false}, {"clutch", geometry<CLUTCH>, 2, 3, false},
                    {"gear", geometry<GEAR>, 2, 3, false}, {"constrot", geometry<CONSTROT>, 2, 3, false}, {"rotfric", geometry<ROTFRIC>, 2, 3, false},
                    {"lone", lonely, 0, 0, false}, {"rolling-contact", rolling, 1, 1, false}, {"link-placement", linkMeets, 0, 0, false}},
                   {"rolling directions are unit vectors"});
}
