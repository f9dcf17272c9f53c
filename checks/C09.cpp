// C09: force and torque limits are respected and bind only when they must.
#include "sys.h"
using namespace sys;

namespace {
const double big = DBL_MAX;
const double limitPairs[][2] = {{-big, big}, {-6, 6}, {0, 0}, {-30, 4}, {2, 9}, {0, big}, {-big, 0}, {-0.01, 0.01}, {3, 3}, {-big, -1}, {-1e5, 1e5}};
const int nLimits = 11;

void limit(ConD &c, int k) {
    const double *l = limitPairs[k];
    c.lo = l[0]; c.hi = l[1];
    if (c.kind == LINK) c.hi = l[1] > 0 ? l[1] : 0; // symmetric, per component
    if (c.kind == GEAR) c.neutral = k == 2;
}
bool limitable(int k) { return k == LINK || k == CLUTCH || k == CONSTROT || k == ROTFRIC || k == GEAR || k == WELD; }

// every row of the last substep, straight from the real objects: start is the
// state at the beginning of the substep
void judge(mc::Ctx &x, const Scene &sc, const State &start, const std::vector<atg_scs::RigidBody *> &b, const std::vector<atg_scs::Constraint *> &c, double h, double bias, double tol, double scale, const char *when) {
    std::vector<Row> rows = rowsOf(sc, start);
    for (const Row &r : rows) {
        // the row's force from the reaction on the row's bodies
        R jj = 0, rj = 0, got = (R)r.vb + bias / h * r.C, diag = 0;
        double fm = 1;
        for (int e = 0; e < r.nb; ++e) {
            if (r.b[e] < 0) continue;
            double F[3] = {c[r.con]->F_x[r.row][e], c[r.con]->F_y[r.row][e], c[r.con]->F_t[r.row][e]};
            double V[3] = {b[r.b[e]]->v_x, b[r.b[e]]->v_y, b[r.b[e]]->v_theta};
            for (int k = 0; k < 3; ++k) {
                jj += r.J[3 * e + k] * r.J[3 * e + k]; rj += r.J[3 * e + k] * F[k];
                got += r.J[3 * e + k] * V[k];
                diag += r.J[3 * e + k] * r.J[3 * e + k] * invMass(sc, r.b[e], k);
            }
        }
        R f = rj / jj;
        fm = std::max(1.0, (double)fabsl(f));
        for (int e = 0; e < r.nb; ++e) {
            if (r.b[e] < 0) continue;
            double F[3] = {c[r.con]->F_x[r.row][e], c[r.con]->F_y[r.row][e], c[r.con]->F_t[r.row][e]};
            for (int k = 0; k < 3; ++k) x.check(std::fabs(F[k] - (double)(f * r.J[3 * e + k])) <= 1e-8 * fm * std::max(1.0, std::fabs((double)r.J[3 * e + k])), "%s: constraint %d (%s) row %d: reaction on body %d is not along the row", when, r.con, conNames[sc.c[r.con].kind], r.row, e);
        }
        double ftol = 1e-9 * fm;
        x.check((double)f >= r.lo - ftol && (double)f <= r.hi + ftol, "%s: constraint %d (%s) row %d carries %.10g, limits %g..%g", when, r.con, conNames[sc.c[r.con].kind], r.row, (double)f, r.lo, r.hi);
        // how near a limit counts as held there: what the solver's tolerance can hide
        double hold = 1e-6 * fm;
        bool atLo = r.lo > -1e300 && f <= r.lo + hold, atHi = r.hi < 1e300 && f >= r.hi - hold;
        double vt = tol * std::max(1.0, scale);
        double g = (double)got; // velocity still missing is -got
        if (atLo && atHi) continue;
        if (atHi) x.check(g <= vt, "%s: constraint %d (%s) row %d is held at its maximum %g although less force was wanted (velocity error %g)", when, r.con, conNames[sc.c[r.con].kind], r.row, r.hi, g);
        else if (atLo) x.check(g >= -vt, "%s: constraint %d (%s) row %d is held at its minimum %g although more force was wanted (velocity error %g)", when, r.con, conNames[sc.c[r.con].kind], r.row, r.lo, g);
        else x.check(std::fabs(g) <= vt, "%s: constraint %d (%s) row %d is inside its limits (%.6g in %g..%g) but misses its velocity equation by %g", when, r.con, conNames[sc.c[r.con].kind], r.row, (double)f, r.lo, r.hi, g);
        (void)diag;
    }
}
State now(const std::vector<atg_scs::RigidBody *> &b) {
    State s;
    for (auto *r : b) { s.x.push_back(r->p_x); s.y.push_back(r->p_y); s.th.push_back(r->theta); s.vx.push_back(r->v_x); s.vy.push_back(r->v_y); s.w.push_back(r->v_theta); s.at.push_back(0); }
    return s;
}
void play(mc::Ctx &x, const Scene &sc, double dt, int steps, double bias, int calls) {
    Run r(sc, {SYS_NSV, GS, NSV});
    r.s.boxed = true;
    for (int k = 0; k < calls; ++k) {
        State start = now(r.w.b);
        if (!r.step(x, dt, steps, bias)) { if (!k) x.discard(); return; }
        double scale = (double)r.s.scale;
        const char *when = k ? "after a further step" : "after the first step";
        if (steps == 1) judge(x, sc, start, r.w.b, r.w.c, dt, bias, 1e-5, scale, when);
        else {
            // several substeps: the projected equations determine motion and forces
            real::compareMotion(x, r.w.b, r.s, 1e-5, when);
            r.s.forceScale = std::max(r.s.forceScale, r.s.scale);
            real::compareReactions(x, r.w.c, r.s, 1e-4, when);
        }
        x.state(real::hashReactions(r.w.c));
    }
}
double biasOf(mc::Ctx &x) { return gen::var(x, "bias", 1, {0, 0.25}); }
// every pair of limited kinds, with every limit on the first and second
void pairs(mc::Ctx &x) {
    static const gen::Option o[] = {{WELD, 2, 1}, {LINK, 0, 1}, {LINK, 2, 0}, {CLUTCH, 0, 1}, {CLUTCH, 2, 0}, {CLUTCH, 1, 2}, {GEAR, 0, 1}, {GEAR, 1, 2}, {CONSTROT, 0, -1}, {CONSTROT, 2, -1}, {ROTFRIC, 1, -1}, {ROTFRIC, 0, -1},
                                    {FIXPOS, 0, -1}, {LINE, 1, -1}, {FIXROT, 2, -1}, {ROLL, 0, 1}};
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::body(x, i));
    for (int k = 0; k < 2; ++k) {
        const gen::Option &p = o[x.choose(k ? 16 : 12, "constraint")];
        ConD c = gen::constraint(x, p.kind, p.b0, p.b1, k);
        int l = limitable(p.kind) ? x.choose(p.kind == GEAR ? 3 : nLimits, "limits") : 0;
        if (p.kind == GEAR && l == 1) x.discard();
        limit(c, l);
        if (x.tracing()) x.note("%s(%d,%d) %g..%g", conNames[p.kind], p.b0, p.b1, limitPairs[l][0], limitPairs[l][1]);
        sc.c.push_back(c);
    }
    loads(x, sc, 3);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    play(x, sc, dt, steps, biasOf(x), 2);
}
// chains of clutches and gears between shafts, every limit assignment
void shafts(mc::Ctx &x) {
    int n = 2 + x.choose(x.thorough() ? 4 : 3, "shafts");
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::defaultBody(i));
    for (int i = 0; i + 1 < n; ++i) {
        bool gear = x.choose(2, "gear") == 1;
        ConD c;
        c.kind = gear ? GEAR : CLUTCH; c.b0 = i; c.b1 = i + 1;
        if (gear) { c.r = 1.5 + 0.5 * i; limit(c, x.choose(2, "neutral") * 2); }
        else limit(c, x.choose(nLimits, "limits"));
        sc.c.push_back(c);
    }
    ConD c;
    c.kind = x.choose(2, "drive") ? ROTFRIC : CONSTROT; c.b0 = 0; c.r = 7;
    limit(c, x.choose(nLimits, "limits"));
    sc.c.push_back(c);
    loads(x, sc, n);
    static const int counts[] = {1, 3};
    int steps = x.pick(counts, "steps");
    play(x, sc, gen::dtOf(x), steps, 1, 3);
}
// limited and unlimited triples on two bodies
void triples(mc::Ctx &x) {
    static const gen::Option o[] = {{LINK, 0, 1}, {CLUTCH, 0, 1}, {WELD, 1, 0}, {GEAR, 1, 0}, {CONSTROT, 0, -1}, {ROTFRIC, 1, -1}, {ROTFRIC, 0, -1}, {FIXPOS, 0, -1}, {LINE, 1, -1}, {FIXPOS, 1, -1}};
    Scene sc;
    for (int i = 0; i < 2; ++i) sc.b.push_back(gen::defaultBody(i));
    static const int lim[] = {0, 1, 2, 3, 4, 7};
    for (int k = 0; k < 3; ++k) {
        const gen::Option &p = x.pick(o, "constraint");
        ConD c = gen::constraint(x, p.kind, p.b0, p.b1, k);
        int l = limitable(p.kind) ? x.pick(lim, "limits") : 0;
        limit(c, l);
        if (x.tracing()) x.note("%s(%d,%d) %g..%g", conNames[p.kind], p.b0, p.b1, limitPairs[l][0], limitPairs[l][1]);
        sc.c.push_back(c);
    }
    loads(x, sc, 2);
    play(x, sc, 1 / 64.0, 1, 1, 2);
}
// many limited rows, each with limits of its own
void many(mc::Ctx &x) {
    static const int ns[] = {8, 9, 16, 17, 31, 32, 33, 48, 49, 63, 64, 65, 100, 128, 129};
    int n = x.pick(ns, "bodies");
    if (!x.thorough() && n > 65) x.discard();
    int mix = x.choose(3, "constraints"), kind = x.choose(3, "limits");
    Scene sc;
    for (int i = 0; i < n; ++i) { BodyD b = gen::defaultBody(i % 7); b.x += 3 * i; b.w = 0.5 * ((i * 29) % 23 - 11); sc.b.push_back(b); }
    for (int i = 0; i < n; ++i) {
        ConD c;
        c.b0 = i; c.b1 = (i + 1) % n;
        c.kind = mix == 0 ? ROTFRIC : mix == 1 ? (i % 3 == 2 && i % 6 != 5 ? CLUTCH : ROTFRIC) : i % 4 == 1 ? LINK : i % 4 == 2 ? FIXPOS : i % 4 == 3 ? CONSTROT : ROTFRIC;
        c.r = 2 + 0.1 * (i % 9);
        if (c.kind == LINK) c.b1 = (i + 2) % n;
        double a = 1 + 0.25 * ((i * 31) % 41), b = 1 + 0.25 * ((i * 17) % 43);
        if (limitable(c.kind)) { if (kind == 0) { c.lo = -a; c.hi = b; } if (kind == 1) { c.lo = 0.1 * a; c.hi = 0.1 * a + 0.05 * b; } if (kind == 2) { c.lo = i % 2 ? -big : -a; c.hi = i % 3 ? big : b; } }
        if (c.kind == LINK) c.hi = b;
        sc.c.push_back(c);
    }
    GenD g; g.kind = STATIC; g.b0 = n / 2; sc.g.push_back(g);
    real::World w(sc, SYS_NSV, GS, NSV);
    for (int k = 0; k < 2; ++k) {
        State start = now(w.b);
        double scale = 30;
        for (auto *b : w.b) scale = std::max(scale, std::fabs(b->v_theta) + std::fabs(b->v_x) + std::fabs(b->v_y));
        w.process(1 / 64.0, 1);
        x.step();
        judge(x, sc, start, w.b, w.c, 1 / 64.0, 1, 1e-5, scale, k ? "after a further step" : "after the first step");
        x.state(real::hashReactions(w.c));
    }
}
// one end on an unregistered body, with every limit
void anchors(mc::Ctx &x) {
    Scene sc = anchoredScene(x, 1);
    for (auto &c : sc.c) if (limitable(c.kind)) {
        int l = x.choose(c.kind == GEAR ? 2 : nLimits, "limits");
        limit(c, c.kind == GEAR ? 2 * l : l);
        if (x.tracing()) x.note("%g..%g", c.lo, c.hi);
    }
    play(x, sc, gen::dtOf(x), 1 + x.choose(2, "steps"), 1, 2);
}
// defaults of a freshly constructed constraint: only rotation friction and
// constant rotation / clutch as documented by their members, changed between steps
void changes(mc::Ctx &x) {
    Scene sc;
    for (int i = 0; i < 2; ++i) sc.b.push_back(gen::defaultBody(i));
    ConD c; c.kind = x.choose(2, "kind") ? CLUTCH : ROTFRIC; c.b0 = 0; c.b1 = 1;
    sc.c.push_back(c);
    ConD d; d.kind = CONSTROT; d.b0 = 1; d.r = 3;
    sc.c.push_back(d);
    GenD g; g.kind = STATIC; sc.g.push_back(g);
    real::World w(sc, SYS_NSV, GS, NSV);
    int depth = x.thorough() ? 3 : 2;
    for (int k = 0; k < depth; ++k) {
        int a = x.choose(nLimits, "limits"), b = x.choose(nLimits, "limits");
        limit(sc.c[0], a); limit(sc.c[1], b);
        auto put = [](double *lo, double *hi, const ConD &q) { *lo = q.lo; *hi = q.hi; };
        if (c.kind == CLUTCH) { auto *q = (atg_scs::ClutchConstraint *)w.c[0]; put(&q->m_minTorque, &q->m_maxTorque, sc.c[0]); }
        else { auto *q = (atg_scs::RotationFrictionConstraint *)w.c[0]; put(&q->m_minTorque, &q->m_maxTorque, sc.c[0]); }
        auto *q = (atg_scs::ConstantRotationConstraint *)w.c[1];
        put(&q->m_minTorque, &q->m_maxTorque, sc.c[1]);
        State start = now(w.b);
        Sim s(sc);
        s.s = start; s.boxed = true; s.countSweeps = true;
        s.process(SYS_NSV, NSV, 1 / 32.0, 1, 1);
        if (!s.inDomain(GS)) return;
        w.process(1 / 32.0, 1);
        x.step();
        judge(x, sc, start, w.b, w.c, 1 / 32.0, 1, 1e-5, (double)s.scale, "after changing limits");
        x.state(real::hashReactions(w.c));
    }
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C09",
                   "velocity-level system with Gauss-Seidel x all pairs and triples of limited and unlimited constraints sharing bodies x 11 limit pairs each (none, symmetric, zero, asymmetric, one-sided, forced, tiny, equal), drive trains of up to 5 shafts with every limit assignment, clutches and gears to an unregistered body, up to 129 bodies each with limits of its own, limits changed between steps, with bounded deviations of bodies, parameters, loads, step length, substeps and bias factor",
                   {{"pairs", pairs, 1, 2, false}, {"shafts", shafts, 0, 1, false}, {"triples", triples, 0, 1, false}, {"anchors", anchors, 0, 1, false}, {"many", many, 0, 0, false}, {"changes", changes, 0, 0, false}},
                   {"rows linearly independent and Gauss-Seidel converging within 3000 sweeps in an independent computation"});
}
