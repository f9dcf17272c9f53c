// C10: reported reaction forces are the ones that actually acted.
#include "sys.h"
using namespace sys;

namespace {
struct Before { std::vector<std::array<double, 3>> v; State s; };
Before before(const std::vector<atg_scs::RigidBody *> &b) {
    Before o;
    for (auto *r : b) {
        o.v.push_back({r->v_x, r->v_y, r->v_theta});
        o.s.x.push_back(r->p_x); o.s.y.push_back(r->p_y); o.s.th.push_back(r->theta);
        o.s.vx.push_back(r->v_x); o.s.vy.push_back(r->v_y); o.s.w.push_back(r->v_theta); o.s.at.push_back(0);
    }
    return o;
}
// momentum balance of every body over one substep of length h, straight from
// the real objects: m dv / h = applied + sum of reported reactions
void balance(mc::Ctx &x, const Scene &sc, const std::vector<atg_scs::RigidBody *> &b, const std::vector<atg_scs::Constraint *> &c, const Before &t, double h, double tol, const char *when) {
    std::vector<Load> f = forces(sc, t.s);
    for (size_t i = 0; i < b.size(); ++i) {
        if (!sc.b[i].reg) continue;
        R s[3] = {f[i].fx, f[i].fy, f[i].t}, mag = 1;
        for (size_t k = 0; k < c.size(); ++k)
            for (int e = 0; e < conBodies(sc.c[k].kind); ++e) {
                if ((e ? sc.c[k].b1 : sc.c[k].b0) != (int)i) continue;
                for (int r = 0; r < conRows(sc.c[k].kind); ++r) {
                    s[0] += c[k]->F_x[r][e]; s[1] += c[k]->F_y[r][e]; s[2] += c[k]->F_t[r][e];
                    mag = std::max(mag, std::max(fabsl((R)c[k]->F_x[r][e]), std::max(fabsl((R)c[k]->F_y[r][e]), fabsl((R)c[k]->F_t[r][e]))));
                }
            }
        double vel = std::max(1.0, std::max(std::fabs(t.v[i][0]), std::max(std::fabs(t.v[i][1]), std::fabs(t.v[i][2]))));
        double g[3] = {(b[i]->v_x - t.v[i][0]) / h * sc.b[i].m, (b[i]->v_y - t.v[i][1]) / h * sc.b[i].m, (b[i]->v_theta - t.v[i][2]) / h * sc.b[i].I};
        static const char *const what[] = {"mass x dv_x / h", "mass x dv_y / h", "inertia x dw / h"};
        double sca = std::max((double)mag, vel / h * std::max(sc.b[i].m, sc.b[i].I) * 1e-3);
        for (int k = 0; k < 3; ++k) x.nearScale(g[k], (double)s[k], tol, sca, "%s: body %zu: %s against applied plus reported forces", when, i, what[k]);
    }
}
void opposite(mc::Ctx &x, const Scene &sc, const std::vector<atg_scs::Constraint *> &c) {
    for (size_t k = 0; k < c.size(); ++k) {
        if (conBodies(sc.c[k].kind) != 2 || !sc.b[sc.c[k].b0].reg || !sc.b[sc.c[k].b1].reg) continue;
        for (int r = 0; r < conRows(sc.c[k].kind); ++r) {
            x.check(std::fabs(c[k]->F_x[r][0] + c[k]->F_x[r][1]) <= 1e-9 * std::max(1.0, std::fabs(c[k]->F_x[r][0])) && std::fabs(c[k]->F_y[r][0] + c[k]->F_y[r][1]) <= 1e-9 * std::max(1.0, std::fabs(c[k]->F_y[r][0])),
                    "constraint %zu (%s) row %d: forces on its bodies are (%g, %g) and (%g, %g)", k, conNames[sc.c[k].kind], r, c[k]->F_x[r][0], c[k]->F_y[r][0], c[k]->F_x[r][1], c[k]->F_y[r][1]);
        }
    }
}
void play(mc::Ctx &x, const Scene &sc, const Config &c, double dt, int steps, int calls) {
    Run r(sc, c);
    double tol = real::tolOf(c.solver);
    for (int k = 0; k < calls; ++k) {
        Before t = before(r.w.b);
        r.s.forceScale = 1;
        if (!r.step(x, dt, steps, 1)) { if (!k) x.discard(); return; }
        const char *when = k ? "after a further step" : "after the first step";
        r.s.forceScale = std::max(r.s.forceScale, r.s.scale);
        real::compareReactions(x, r.w.c, r.s, tol * 10, when);
        if (steps == 1 && c.integ != RK4) balance(x, sc, r.w.b, r.w.c, t, dt, tol, when);
        opposite(x, sc, r.w.c);
        x.state(real::hashReactions(r.w.c));
    }
}
void pairs(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<gen::Option> o = gen::options(3);
    Scene sc = scene(x, 3, 2, o);
    static const int counts[] = {1, 2, 5};
    int steps = x.pick(counts, "steps");
    play(x, sc, c, 1 / 64.0, steps, 2);
}
void singles(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<gen::Option> o = gen::options(3);
    Scene sc = scene(x, 3, 1, o);
    double dt = gen::dtOf(x);
    int steps = gen::stepsOf(x);
    play(x, sc, c, dt, steps, 2);
}
void triples(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<gen::Option> o2 = gen::options(2), o3 = gen::options(3);
    bool three = x.thorough() && x.choose(2, "bodies") == 1;
    Scene sc = scene(x, three ? 3 : 2, 3, three ? o3 : o2);
    play(x, sc, c, 1 / 64.0, 1, 1);
}
void longer(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    int shape = x.choose(SHAPES, "shape"), n = x.pick(longSizes, "bodies");
    Scene sc = longScene(shape, n);
    int steps = 1 + x.choose(2, "steps");
    play(x, sc, c, 1 / 64.0, steps, n > 12 ? 1 : 2);
}
// limits binding or not: the balance still holds
void limited(mc::Ctx &x) {
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::body(x, i));
    static const gen::Option o[] = {{LINK, 0, 1}, {LINK, 2, 1}, {CLUTCH, 0, 2}, {CLUTCH, 1, 0}, {GEAR, 1, 2}, {GEAR, 2, 0}, {CONSTROT, 0, -1}, {CONSTROT, 2, -1}, {ROTFRIC, 1, -1}, {ROTFRIC, 0, -1}, {FIXPOS, 1, -1}, {ROLL, 0, 2}};
    static const double lims[][2] = {{-0.5, 0.5}, {0, 0}, {-30, 4}, {2, 9}, {-DBL_MAX, DBL_MAX}};
    for (int k = 0; k < 2; ++k) {
        const gen::Option &p = x.pick(o, "constraint");
        ConD c = gen::constraint(x, p.kind, p.b0, p.b1, k);
        const double *l = x.pick(lims, "limits");
        c.lo = l[0]; c.hi = l[1];
        if (c.kind == LINK && c.hi < 0.1) c.hi = 0.1;
        if (c.kind == GEAR) c.neutral = l[1] == 0;
        if (x.tracing()) x.note("%s(%d,%d) %g..%g", conNames[p.kind], p.b0, p.b1, l[0], l[1]);
        sc.c.push_back(c);
    }
    loads(x, sc, 3);
    Run r(sc, {SYS_NSV, GS, NSV});
    r.s.boxed = true;
    for (int k = 0; k < 3; ++k) {
        Before t = before(r.w.b);
        if (!r.step(x, 1 / 64.0, 1, 1)) { if (!k) x.discard(); return; }
        balance(x, sc, r.w.b, r.w.c, t, 1 / 64.0, 1e-9, "limited");
        opposite(x, sc, r.w.c);
        x.state(real::hashReactions(r.w.c));
    }
}
// joints both of whose ends are on one body
void selfs(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<gen::Option> o = gen::options(2);
    Scene sc;
    for (int i = 0; i < 2; ++i) sc.b.push_back(gen::body(x, i));
    static const int kinds[] = {GEAR, WELD, LINK, ROLL, CLUTCH};
    int kind = x.pick(kinds, "kind"), on = x.choose(2, "body");
    ConD d = gen::constraint(x, kind, on, on, 0);
    int k = x.choose((int)o.size() + 1, "other");
    bool first = k && x.choose(2, "order") == 1;
    if (first) sc.c.push_back(gen::constraint(x, o[k - 1].kind, o[k - 1].b0, o[k - 1].b1, 1));
    sc.c.push_back(d);
    if (k && !first) sc.c.push_back(gen::constraint(x, o[k - 1].kind, o[k - 1].b0, o[k - 1].b1, 1));
    loads(x, sc, 2);
    int steps = 1 + x.choose(2, "steps");
    play(x, sc, c, 1 / 64.0, steps, 2);
}
// joints to an unregistered body
void anchors(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    Scene sc = anchoredScene(x, x.thorough() ? 2 : 1);
    int steps = 1 + x.choose(2, "steps");
    play(x, sc, c, 1 / 64.0, steps, 2);
}
// one end on a static body; constraints added and removed between steps
void edits(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const gen::Option pool[] = {{FIXPOS, 0, -1}, {LINK, 1, 2}, {CLUTCH, 0, 1}, {GEAR, 3, 2}, {LINE, 2, -1}, {WELD, 0, 2}, {CLUTCH, 1, 3}};
    const int np = 7;
    Scene sc;
    for (int i = 0; i < 4; ++i) { sc.b.push_back(gen::defaultBody(i)); sc.b[i].reg = i < 3; }
    GenD g; sc.g.push_back(g);
    for (int k = 0; k < np; ++k) {
        ConD d; d.kind = pool[k].kind; d.b0 = pool[k].b0; d.b1 = pool[k].b1;
        d.lx += 0.1 * k; d.wy -= 0.2 * k; d.r = 0.6 + 0.3 * k; d.ks = 10 + k;
        sc.c.push_back(d);
    }
    real::System w(c.kind, c.solver, c.integ);
    real::Objects ob(sc);
    for (int i = 0; i < 3; ++i) w.sys->addRigidBody(ob.b[i]);
    w.sys->addForceGenerator(ob.g[0]);
    std::vector<int> in;
    int depth = x.thorough() ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(np + 1, "toggle");
        if (k == np) break;
        bool had = false;
        for (size_t i = 0; i < in.size(); ++i) if (in[i] == k) { in.erase(in.begin() + i); had = true; break; }
        x.note("%s %s", had ? "remove" : "add", conNames[pool[k].kind]);
        if (had) w.sys->removeConstraint(ob.c[k]);
        else { w.sys->addConstraint(ob.c[k]); in.push_back(k); }
        Scene cur;
        cur.b = sc.b; cur.g = sc.g;
        std::vector<atg_scs::Constraint *> cc;
        for (int i : in) { cur.c.push_back(sc.c[i]); cc.push_back(ob.c[i]); }
        for (size_t i = 0; i < ob.b.size(); ++i) { BodyD &t = cur.b[i]; auto *r = ob.b[i]; t.x = r->p_x; t.y = r->p_y; t.th = r->theta; t.vx = r->v_x; t.vy = r->v_y; t.w = r->v_theta; }
        Sim s(cur);
        s.countSweeps = c.solver == GS;
        s.process(c.kind, c.integ, 1 / 64.0, 1, 1);
        if (!s.inDomain(c.solver)) x.discard();
        Before t = before(ob.b);
        w.sys->process(1 / 64.0, 1);
        x.step();
        s.forceScale = std::max(s.forceScale, s.scale);
        double tol = real::tolOf(c.solver);
        for (size_t i = 0; i < cc.size(); ++i)
            for (int r = 0; r < conRows(cur.c[i].kind); ++r)
                for (int b = 0; b < conBodies(cur.c[i].kind); ++b) {
                    if (!cur.b[b ? cur.c[i].b1 : cur.c[i].b0].reg) continue;
                    x.nearScale(cc[i]->F_x[r][b], (double)s.react[i].fx[r][b], tol * 10, (double)s.forceScale, "%s row %d body %d F_x", conNames[cur.c[i].kind], r, b);
                    x.nearScale(cc[i]->F_y[r][b], (double)s.react[i].fy[r][b], tol * 10, (double)s.forceScale, "%s row %d body %d F_y", conNames[cur.c[i].kind], r, b);
                    x.nearScale(cc[i]->F_t[r][b], (double)s.react[i].ft[r][b], tol * 10, (double)s.forceScale, "%s row %d body %d F_t", conNames[cur.c[i].kind], r, b);
                }
        if (c.integ != RK4) {
            std::vector<atg_scs::RigidBody *> reg(ob.b.begin(), ob.b.begin() + 3);
            balance(x, cur, reg, cc, t, 1 / 64.0, tol, "after an edit");
        }
        x.state(real::hashReactions(cc));
    }
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C10",
                   "both systems x all integrators x all linear solvers x all ordered pairs of (constraint kind, attachment) on 3 bodies x substep counts, triples on 2 bodies, single constraints with bounded deviations of every parameter, long compositions, binding limits, joints with both ends on one body, clutches and gears to an unregistered body with further constraints, and all add/remove sequences of 7 constraints with a step after each",
                   {{"pairs", pairs, 0, 1, false}, {"singles", singles, 1, 2, false}, {"triples", triples, 0, 0, false}, {"longer", longer, 0, 1, false}, {"limited", limited, 1, 2, false}, {"selfs", selfs, 0, 1, false}, {"anchors", anchors, 0, 1, false}, {"edits", edits, 0, 0, false}},
                   {"rows linearly independent (pivot ratio of an extended-precision elimination at least 1e-5)"});
}
