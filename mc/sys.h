// Scenes with constraints, shared by the system-level checks.
#ifndef SYS_H
#define SYS_H
#include "scenes.h"

namespace sys {
using namespace ref;
struct Config { int kind, solver, integ; };
inline std::string name(const Config &c) { return mc::format("%s/%s%s%s", sysNames[c.kind], solverNames[c.solver], c.kind == SYS_GEN ? "/" : "", c.kind == SYS_GEN ? integNames[c.integ] : ""); }
inline std::vector<Config> configs(bool nsv, bool gen) {
    std::vector<Config> o;
    for (int s = 0; s < SOLVERS; ++s) {
        if (nsv) o.push_back({SYS_NSV, s, NSV});
        if (gen) for (int i = 0; i < INTEGS; ++i) o.push_back({SYS_GEN, s, i});
    }
    return o;
}
inline const Config &config(mc::Ctx &x, bool nsv, bool gen) {
    static std::vector<Config> a = configs(true, false), b = configs(false, true), c = configs(true, true);
    const std::vector<Config> &o = nsv && gen ? c : nsv ? a : b;
    const Config &k = o[x.choose((int)o.size(), "configuration")];
    if (x.tracing()) x.note("%s", name(k).c_str());
    return k;
}
// up to `cons` constraints of every kind and attachment on n bodies; earlier
// slots may be empty only if all later ones are
inline void constraints(mc::Ctx &x, Scene &sc, int n, int cons, const std::vector<gen::Option> &o) {
    for (int k = 0; k < cons; ++k) {
        int q = x.choose((int)o.size() + 1, "constraint");
        if (!q) break;
        const gen::Option &p = o[q - 1];
        if (x.tracing()) x.note("%s(%d,%d)", conNames[p.kind], p.b0, p.b1);
        sc.c.push_back(gen::constraint(x, p.kind, p.b0, p.b1, k));
    }
    (void)n;
}
// the applied forces: always something on every body
inline void loads(mc::Ctx &x, Scene &sc, int n) {
    auto add = [&](int kind, int a, int b) { GenD g; g.kind = kind; g.b0 = a; g.b1 = b; if (kind == MOTOR) g.kd = 0; if (kind == MOTOR) g.ks = 4; sc.g.push_back(g); };
    int k = x.deviate(6, "loads");
    if (k == 1) return;
    if (k == 3 && n > 1) { add(SPRING, 0, n - 1); add(FIELD, 0, 0); return; }
    if (k == 4 && n > 1) { add(MOTOR, 0, n - 1); add(STATIC, n - 1, 0); return; }
    if (k == 5) { for (int i = 0; i < n; ++i) add(FIELD, i, i); return; }
    add(GRAVITY, 0, 0);
    if (k == 2) return;
    add(STATIC, 0, 0);
}
inline Scene scene(mc::Ctx &x, int n, int cons, const std::vector<gen::Option> &o) {
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::body(x, i));
    constraints(x, sc, n, cons, o);
    loads(x, sc, n);
    return sc;
}
// clutches and gears with one end on an unregistered body, alone and with one
// or two further constraints; the unregistered body may stand first or last
inline Scene anchoredScene(mc::Ctx &x, int more) {
    static const std::vector<gen::Option> o[] = {gen::anchored(3, 0), gen::anchored(3, 2)};
    int where = x.choose(2, "unregistered body");
    Scene sc;
    for (int i = 0; i < 3; ++i) { sc.b.push_back(gen::body(x, i)); }
    sc.b[where ? 2 : 0].reg = false;
    const gen::Option &p = o[where][x.choose(8, "anchored constraint")];
    if (x.tracing()) x.note("%s(%d,%d)", conNames[p.kind], p.b0, p.b1);
    sc.c.push_back(gen::constraint(x, p.kind, p.b0, p.b1, 0));
    constraints(x, sc, 3, more, o[where]);
    if (x.choose(2, "anchored last")) std::reverse(sc.c.begin(), sc.c.end());
    GenD g; sc.g.push_back(g);
    g.kind = STATIC; g.b0 = 1; sc.g.push_back(g);
    g.kind = SPRING; g.b0 = 0; g.b1 = 2; sc.g.push_back(g);
    return sc;
}
// long compositions: chains, stars, ladders of mixed kinds over n bodies
enum Shape { CHAIN, STAR, PINS, MIXED, RING, SHAPES };
inline Scene longScene(int shape, int n) {
    Scene sc;
    for (int i = 0; i < n; ++i) {
        BodyD b = gen::defaultBody(i);
        if (i >= 6) { b.th = 0.35 + 0.7 * (i % 9); }
        sc.b.push_back(b);
    }
    auto con = [&](int kind, int a, int b) {
        ConD c; c.kind = kind; c.b0 = a; c.b1 = b;
        int i = (int)sc.c.size();
        c.lx += 0.05 * (i % 7); c.ly2 -= 0.04 * (i % 5); c.ks = 10 + i % 4; c.kd = 1 + 0.25 * (i % 3); c.r = 0.5 + 0.3 * (i % 4);
        c.wx = sc.b[a].x + 0.2; c.wy = sc.b[a].y - 0.3;
        if (i % 2) { c.dx = -0.28; c.dy = 0.96; }
        sc.c.push_back(c);
    };
    switch (shape) {
    case CHAIN: con(FIXPOS, 0, -1); for (int i = 1; i < n; ++i) con(LINK, i - 1, i); break;
    case STAR: con(FIXROT, 0, -1); for (int i = 1; i < n; ++i) con(i % 3 == 0 ? ROLL : LINK, 0, i); break;
    case PINS: for (int i = 0; i < n; ++i) con(i % 3 == 0 ? FIXPOS : i % 3 == 1 ? LINE : FIXROT, i, -1); break;
    case MIXED: {
        static const int k[] = {LINE, CLUTCH, LINK, ROTFRIC, GEAR, FIXROT, ROLL, CONSTROT, WELD, FIXPOS};
        for (int i = 0; i < n; ++i) { int q = k[i % 10]; if (conBodies(q) == 2) { if (i + 1 < n) con(q, i, i + 1); } else con(q, i, -1); }
        break;
    }
    case RING: for (int i = 0; i < n; ++i) if (n > 2) con(LINK, i, (i + 1) % n); break;
    }
    GenD g; g.kind = GRAVITY; sc.g.push_back(g);
    g.kind = STATIC; g.b0 = n / 2; sc.g.push_back(g);
    g.kind = FIELD; g.b0 = n - 1; sc.g.push_back(g);
    return sc;
}
const int longSizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24};
// runs `calls` process calls, comparing after each with the reference (which
// restarts from the real bodies, so rounding does not accumulate over calls)
struct Run {
    real::World w;
    Sim s;
    const Config c;
    Run(const Scene &sc, const Config &cfg) : w(sc, cfg.kind, cfg.solver, cfg.integ), s(sc), c(cfg) { s.countSweeps = cfg.solver == GS; }
    // false if outside the domain
    bool step(mc::Ctx &x, double dt, int steps, double bias) {
        for (size_t i = 0; i < w.b.size(); ++i) {
            const atg_scs::RigidBody *b = w.b[i];
            s.s.x[i] = b->p_x; s.s.y[i] = b->p_y; s.s.th[i] = b->theta; s.s.vx[i] = b->v_x; s.s.vy[i] = b->v_y; s.s.w[i] = b->v_theta;
        }
        s.process(c.kind, c.integ, dt, steps, bias);
        if (!s.inDomain(c.solver)) return false;
        if (w.nsv) w.nsv->m_biasFactor = bias;
        w.process(dt, steps);
        x.step();
        x.state(real::hashBodies(w.b));
        return true;
    }
};
} // namespace sys
#endif
