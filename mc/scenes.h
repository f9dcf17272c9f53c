// Scene enumeration shared by the system-level checks: free choices decide the
// composition (which bodies, constraints, generators, attached where), bounded
// deviations change individual parameters away from generic defaults.
#ifndef SCENES_H
#define SCENES_H
#include "ref.h"
#include <initializer_list>

namespace gen {
using namespace ref;
inline double var(mc::Ctx &x, const char *name, double def, std::initializer_list<double> alts) {
    int k = x.deviate((int)alts.size() + 1, name);
    double v = k ? *(alts.begin() + (k - 1)) : def;
    if (k) x.note("%s:=%g", name, v);
    return v;
}
inline BodyD defaultBody(int i) {
    static const BodyD t[] = {
        {2.0, 0.7, 0.4, -0.3, 0.35, 0.6, -0.5, 0.8, true},
        {1.3, 1.9, 1.7, 0.6, -0.8, -0.4, 0.9, -1.1, true},
        {0.6, 0.25, -1.1, 1.4, 2.1, 0.2, 0.3, 0.5, true},
        {3.1, 2.4, 0.9, 2.2, -2.6, -0.7, -0.2, 1.3, true},
        {1.1, 0.9, -1.9, -0.8, 0.9, 0.35, 0.65, -0.4, true},
        {0.8, 1.6, 2.8, -1.5, 1.2, -0.9, 0.1, 0.25, true},
    };
    BodyD b = t[i % 6];
    if (i >= 6) { b.x += 0.37 * i; b.y -= 0.21 * i; b.th += 0.13 * i; b.vx += 0.05 * (i % 7); b.w -= 0.04 * (i % 5); b.m += 0.1 * (i % 4); }
    return b;
}
inline BodyD body(mc::Ctx &x, int i) {
    BodyD b = defaultBody(i);
    b.m = var(x, "m", b.m, {7.5, 0.08, 6e4});
    b.I = var(x, "I", b.I, {12, 0.05, 4e4});
    b.x = var(x, "x", b.x, {0, -9.5, 1500});
    b.y = var(x, "y", b.y, {0, 14, -2300});
    b.th = var(x, "theta", b.th, {0, -1.3, 3.9, 57.5, 8e-4});
    b.vx = var(x, "vx", b.vx, {0, -8, 700});
    b.vy = var(x, "vy", b.vy, {0, 11, 1e-7});
    b.w = var(x, "w", b.w, {0, -7, 160});
    if (i > 0) { // coincidences with the body before
        BodyD o = defaultBody(i - 1);
        int k = x.deviate(5, "as previous");
        if (k) x.note("as previous:=%d", k);
        if (k == 1) b.m = o.m;
        if (k == 2) b.I = o.I;
        if (k == 3) { b.x = o.x; b.y = o.y; b.th = o.th; }
        if (k == 4) { b.vx = o.vx; b.vy = o.vy; b.w = o.w; }
    }
    return b;
}
// constraint of a kind on given bodies, parameters near the defaults
inline ConD constraint(mc::Ctx &x, int kind, int b0, int b1, int salt) {
    ConD c;
    c.kind = kind; c.b0 = b0; c.b1 = b1;
    c.lx += 0.17 * salt; c.ly -= 0.09 * salt; c.lx2 += 0.11 * salt; c.ly2 -= 0.19 * salt;
    c.wx -= 0.45 * salt; c.wy += 0.35 * salt;
    if (salt % 2) { c.dx = -0.28; c.dy = 0.96; }
    c.r = 0.5 + 0.4 * salt;
    c.ks = 10 + 7 * salt; c.kd = 1 + 1.5 * salt;
    if (kind == GEAR) c.r = 1.7 + salt;
    c.ks = var(x, "ks", c.ks, {0, 150, 2e4});
    c.kd = var(x, "kd", c.kd, {0, 12, 900});
    if (kind == FIXPOS || kind == LINE || kind == LINK || kind == ROLL || kind == WELD) {
        c.lx = var(x, "lx", c.lx, {0, -1.6, 70});
        c.ly = var(x, "ly", c.ly, {0, 2.1, 3e-5});
    }
    if (kind == LINK || kind == WELD) {
        c.lx2 = var(x, "lx2", c.lx2, {0, 1.9, -45});
        c.ly2 = var(x, "ly2", c.ly2, {0, -1.4, 33});
    }
    if (kind == FIXPOS || kind == LINE) {
        c.wx = var(x, "wx", c.wx, {0, 6, -1200});
        c.wy = var(x, "wy", c.wy, {0, -7, 2e-4});
    }
    if (kind == LINE) { c.dx = var(x, "dx", c.dx, {0, -3}); c.dy = var(x, "dy", c.dy, {2.5, -0.4}); }
    if (kind == ROLL) { int k = x.deviate(3, "dir"); if (k == 1) { c.dx = 1; c.dy = 0; } if (k == 2) { c.dx = -0.6; c.dy = -0.8; } }
    if (kind == FIXROT || kind == ROLL || kind == GEAR || kind == CONSTROT || kind == WELD) c.r = var(x, "r", c.r, {1, -2.5, 0.05, 64});
    return c;
}
// picks an attachment for one constraint kind on n bodies; returns number of
// possible (kind, attachment) combinations through a single free choice
struct Option { int kind, b0, b1; };
inline std::vector<Option> options(int n, bool speedPairsOnce = true) {
    std::vector<Option> o;
    for (int k = 0; k < CON_KINDS; ++k) {
        if (conBodies(k) == 1) for (int a = 0; a < n; ++a) o.push_back({k, a, -1});
        else for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) o.push_back({k, a, b});
    }
    (void)speedPairsOnce;
    return o;
}
// the same with body `fixed` unregistered: only clutches and gears may hold it,
// by either end, listed first
inline std::vector<Option> anchored(int n, int fixed) {
    std::vector<Option> o, p;
    for (auto &k : options(n)) {
        bool holds = k.b0 == fixed || k.b1 == fixed;
        if (!holds) p.push_back(k);
        else if (k.kind == CLUTCH || k.kind == GEAR) o.push_back(k);
    }
    o.insert(o.end(), p.begin(), p.end());
    return o;
}
inline GenD generator(mc::Ctx &x, int kind, int b0, int b1, bool velocityOnly) {
    GenD g;
    g.kind = kind; g.b0 = b0; g.b1 = b1;
    if (kind == MOTOR) {
        g.ks = var(x, "motor ks", 4, {0, 30}); g.kd = velocityOnly ? 0 : var(x, "motor kd", 0, {0.3});
        g.speed = var(x, "speed", 2, {0, -5, 400}); g.maxT = var(x, "maxT", 500, {1.5, 0, 1e6});
    } else if (kind == SPRING) {
        g.ks = var(x, "spring ks", 20, {0, 90, 5e3}); g.kd = var(x, "spring kd", 0.5, {0, 4}); g.rest = var(x, "rest", 0.8, {0, 6, 900});
        g.px = var(x, "px", g.px, {0, 1.5}); g.py2 = var(x, "py2", g.py2, {0, -1.2});
    } else if (kind == STATIC) {
        g.fx = var(x, "fx", g.fx, {0, -40, 3e5}); g.fy = var(x, "fy", g.fy, {0, 25});
        g.px = var(x, "px", g.px, {0, -2, 150}); g.py = var(x, "py", g.py, {0, 1.7});
    } else if (kind == GRAVITY) g.g = var(x, "g", 9.81, {0, -3, 270});
    return g;
}
inline double dtOf(mc::Ctx &x) { return var(x, "dt", 1 / 64.0, {1 / 1024.0, 0.1, 0.0137, 1e-5, 2.5}); }
inline int stepsOf(mc::Ctx &x) { static const int s[] = {1, 2, 3, 7}; int k = x.deviate(4, "steps"); if (k) x.note("steps:=%d", s[k]); return s[k]; }
} // namespace gen
#endif
