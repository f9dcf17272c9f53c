// C16: force generators apply their physical law, add up, and act on both ends.
#include "ref.h"
#include "scenes.h"
using namespace ref;
using atg_scs::SystemState;

namespace {
// Real bodies and generators on a hand-made state; slots may be permuted.
struct Rig {
    Scene sc;
    std::vector<int> slot; // scene body -> state slot, -1: unregistered
    std::vector<atg_scs::RigidBody *> b;
    std::vector<atg_scs::ForceGenerator *> g;
    SystemState *st = new SystemState;
    int n;
    std::vector<double> at, pre;
    Rig(const Scene &s, const std::vector<int> &slots, int n_, const std::vector<double> &a) : sc(s), slot(slots), n(n_), at(a) {
        for (auto &d : sc.b) { auto *r = new atg_scs::RigidBody; real::setBody(r, d); b.push_back(r); }
        for (size_t i = 0; i < b.size(); ++i) b[i]->index = slot[i];
        for (auto &d : sc.g) g.push_back(real::makeGenerator(d, b));
        st->resize(n, 2);
        fillState();
    }
    ~Rig() { for (auto *p : g) delete p; for (auto *p : b) delete p; st->destroy(); delete st; }
    Rig(const Rig &) = delete;
    void fillState() {
        const double bad = NAN;
        pre.clear();
        for (int i = 0; i < n; ++i) {
            st->p_x[i] = st->p_y[i] = st->theta[i] = st->v_x[i] = st->v_y[i] = st->v_theta[i] = bad;
            st->a_x[i] = st->a_y[i] = st->a_theta[i] = st->m[i] = bad;
            st->f_x[i] = 0.25 + i; st->f_y[i] = -1.5 * i; st->t[i] = 3 - i;
            pre.insert(pre.end(), {st->f_x[i], st->f_y[i], st->t[i]});
        }
        for (size_t i = 0; i < b.size(); ++i) {
            int k = slot[i];
            if (k < 0) continue;
            const BodyD &d = sc.b[i];
            st->p_x[k] = d.x; st->p_y[k] = d.y; st->theta[k] = d.th; st->v_x[k] = d.vx; st->v_y[k] = d.vy; st->v_theta[k] = d.w;
            st->m[k] = d.m; st->a_theta[k] = at[i]; st->a_x[k] = 0.7; st->a_y[k] = -0.4;
        }
        st->dt = 0.01;
    }
    State model() const {
        State s = stateOf(sc);
        for (size_t i = 0; i < at.size(); ++i) s.at[i] = at[i];
        return s;
    }
    // applies every generator once and compares the accumulators with the law
    void verify(mc::Ctx &x, bool massRead, const char *what) {
        std::vector<double> before;
        if (massRead) for (int i = 0; i < n; ++i) if (!(st->m[i] == st->m[i])) st->m[i] = 4.5;
        auto snap = [&]() {
            std::vector<double> v;
            for (int i = 0; i < n; ++i) v.insert(v.end(), {st->p_x[i], st->p_y[i], st->theta[i], st->v_x[i], st->v_y[i], st->v_theta[i], st->a_x[i], st->a_y[i], st->a_theta[i], st->m[i]});
            v.push_back(st->dt); v.push_back(st->n); v.push_back(st->n_c);
            return v;
        };
        before = snap();
        for (auto *k : g) { k->apply(st); x.step(); }
        std::vector<double> after = snap();
        for (size_t i = 0; i < before.size(); ++i) x.check(memcmp(&before[i], &after[i], 8) == 0, "%s: applying a force changed something else in the state (value %zu: %g to %g)", what, i, before[i], after[i]);
        std::vector<Load> L = forces(sc, model());
        std::vector<double> want = pre;
        double size = 1;
        for (size_t i = 0; i < b.size(); ++i) {
            int k = slot[i];
            if (k < 0) continue;
            want[3 * k] += (double)L[i].fx; want[3 * k + 1] += (double)L[i].fy; want[3 * k + 2] += (double)L[i].t;
            size = std::max({size, std::fabs((double)L[i].fx), std::fabs((double)L[i].fy)});
        }
        // equal and opposite forces may cancel: what counts is their own size
        for (auto &k : sc.g) {
            if (k.kind == MOTOR) size = std::max(size, std::min(std::fabs(k.ks) * 1e3, std::fabs(k.maxT)));
            if (k.kind != SPRING) continue;
            const BodyD &p = sc.b[k.b0], &q = sc.b[k.b1];
            double l = std::hypot(p.x - q.x, p.y - q.y) + std::hypot(k.px, k.py) + std::hypot(k.px2, k.py2) + std::fabs(k.rest);
            double v = std::hypot(p.vx - q.vx, p.vy - q.vy) + std::fabs(p.w) * std::hypot(k.px, k.py) + std::fabs(q.w) * std::hypot(k.px2, k.py2);
            size = std::max(size, std::fabs(k.ks) * l + std::fabs(k.kd) * v);
        }
        mc::Hash h;
        for (int i = 0; i < n; ++i) {
            bool mine = false;
            for (size_t q = 0; q < slot.size(); ++q) if (slot[q] == i) mine = true;
            double m9 = massRead && !mine ? -4.5 * gravity() : 0;
            x.nearScale(st->f_x[i], want[3 * i], 1e-11, size, "%s: slot %d force x", what, i);
            x.nearScale(st->f_y[i], want[3 * i + 1] + m9, 1e-11, size, "%s: slot %d force y", what, i);
            x.nearScale(st->t[i], want[3 * i + 2], 1e-11, 10 * size, "%s: slot %d torque", what, i);
            if (!mine && !massRead) x.check(st->f_x[i] == want[3 * i] && st->f_y[i] == want[3 * i + 1] && st->t[i] == want[3 * i + 2], "%s: slot %d belongs to a body the generator does not act on, but its accumulators changed", what, i);
            h.d(st->f_x[i]).d(st->f_y[i]).d(st->t[i]);
        }
        x.state(h.h);
    }
    double gravity() const { double s = 0; for (auto &k : sc.g) if (k.kind == GRAVITY) s += k.g; return s; }
};

BodyD bodyFull(mc::Ctx &x, int i) {
    BodyD b = gen::defaultBody(i);
    b.m = gen::var(x, "m", b.m, {1, 250, 0.004, 3e7, 2e-9});
    b.x = gen::var(x, "x", b.x, {0, -9.5, 300});
    b.y = gen::var(x, "y", b.y, {0, 14, -200});
    b.th = gen::var(x, "theta", b.th, {0, 1.5707963267948966, 3.141592653589793, -2.2, 71.3});
    b.vx = gen::var(x, "vx", b.vx, {0, -8, 1e-3, 2e5});
    b.vy = gen::var(x, "vy", b.vy, {0, 11, -2e-3});
    b.w = gen::var(x, "w", b.w, {0, -7, 120, -4e4});
    return b;
}
const int layouts[][4] = {{0, 1, 2, 2}, {1, 0, 2, 3}, {4, 2, 0, 6}, {0, 5, 3, 6}};

// one generator of each kind, all attachments, all parameters one or two at a time
void single(mc::Ctx &x) {
    int kind = x.choose(4, "kind"); // gravity, static, spring, motor
    int nb = kind == SPRING || kind == MOTOR ? 2 : 1;
    const int *lay = layouts[x.choose(4, "layout")];
    std::vector<int> slot(lay, lay + nb);
    int n = std::max(lay[3], nb);
    Scene sc;
    std::vector<double> at;
    for (int i = 0; i < nb; ++i) { sc.b.push_back(bodyFull(x, i)); at.push_back(gen::var(x, "a_theta", i ? -3.5 : 1.25, {0, 40})); }
    GenD g;
    g.kind = kind;
    if (nb == 2) {
        int a = x.choose(kind == SPRING ? 6 : 3, "attach"); // 0: 0-1, 1: 1-0, 2: end 1 static, 3: end 2 static, 4: both on body 0, 5: both static
        g.b0 = a == 1 ? 1 : 0; g.b1 = a == 1 || a == 4 ? 0 : 1;
        if (a == 2 || a == 5) { slot[0] = -1; sc.b[0].reg = false; }
        if (a == 3 || a == 5) { slot[1] = -1; sc.b[1].reg = false; }
        if (kind == MOTOR && a == 2) { g.b0 = 0; g.b1 = 1; }
    }
    if (kind == GRAVITY) g.g = gen::var(x, "g", 9.81, {0, -3, 120, 2e6, 1e-8});
    if (kind == STATIC || kind == SPRING) {
        g.px = gen::var(x, "px", g.px, {0, -2.5}); g.py = gen::var(x, "py", g.py, {0, 1.75});
    }
    if (kind == STATIC) { g.fx = gen::var(x, "fx", g.fx, {0, -40, 5e5, 7e13, 1e-9}); g.fy = gen::var(x, "fy", g.fy, {0, 25, -3e5, -6e13, 1e-9}); }
    if (kind == SPRING) {
        g.px2 = gen::var(x, "px2", g.px2, {0, 3}); g.py2 = gen::var(x, "py2", g.py2, {0, -1.2});
        g.ks = gen::var(x, "ks", 20, {0, 900, 5e10, 1e-6}); g.kd = gen::var(x, "kd", 0.5, {0, 40, 3e9, 1e-6}); g.rest = gen::var(x, "rest", 0.8, {0, 1, 60, 1e5});
    }
    if (kind == MOTOR) {
        g.ks = gen::var(x, "ks", 4, {0, 1, 300, 4e9, 1e-7}); g.kd = gen::var(x, "kd", 0.3, {0, 1, 50}); g.speed = gen::var(x, "speed", 2, {0, -5, 1, 3e4, 1e-6}); g.maxT = gen::var(x, "maxT", 500, {1.5, 0, 9, 1e15});
    }
    sc.g.push_back(g);
    x.note("%s layout %d,%d of %d", genNames[kind], slot[0], nb > 1 ? slot[1] : -9, n);
    Rig r(sc, slot, n, at);
    // ends closer than the coincidence threshold but not coincident are left open
    if (kind == SPRING) {
        double a, b, c, d;
        ((atg_scs::Spring *)r.g[0])->getEnds(&a, &b, &c, &d);
        double l = std::hypot(c - a, d - b);
        if (l < 0.0102 && l > 0) x.discard();
    }
    r.verify(x, kind == GRAVITY, "one generator");
}

// spring ends, energy and coincidence
void spring(mc::Ctx &x) {
    static const double angles[] = {0, 0.35, 1.5707963267948966, -2.8, 50};
    static const double gaps[] = {0, 0.1, 0.8, 3, 0.0102, 0.0125, 0.03};
    static const double dirs[][2] = {{1, 0}, {0, 1}, {-0.6, 0.8}, {0.28, -0.96}};
    Scene sc;
    sc.b.push_back(gen::defaultBody(0)); sc.b.push_back(gen::defaultBody(1));
    sc.b[0].th = x.pick(angles, "theta1"); sc.b[1].th = x.pick(angles, "theta2");
    GenD g;
    g.kind = SPRING;
    int p = x.choose(3, "points");
    if (p == 1) g.px = g.py = g.px2 = g.py2 = 0;
    if (p == 2) { g.px = -1.5; g.py = 2; g.px2 = 0.75; g.py2 = 0; }
    double gap = x.pick(gaps, "gap");
    const double *d = x.pick(dirs, "direction");
    g.ks = gen::var(x, "ks", 20, {0, 900}); g.kd = gen::var(x, "kd", 0.5, {0, 40}); g.rest = gen::var(x, "rest", 0.8, {0, 60});
    // place the second body so that the ends are exactly `gap` apart along d
    BodyD &A = sc.b[0], &B = sc.b[1];
    if (gap == 0 && p != 1) { // exactly coincident: the same point of one frame
        B.th = A.th; g.px2 = g.px; g.py2 = g.py; B.x = A.x; B.y = A.y;
    } else {
        R c1 = cosl(A.th), s1 = sinl(A.th), c2 = cosl(B.th), s2 = sinl(B.th);
        B.x = (double)(A.x + c1 * g.px - s1 * g.py + gap * d[0] - (c2 * g.px2 - s2 * g.py2));
        B.y = (double)(A.y + s1 * g.px + c1 * g.py + gap * d[1] - (s2 * g.px2 + c2 * g.py2));
    }
    std::vector<int> slot{0, 1};
    int a = x.choose(3, "static end");
    if (a) { slot[a - 1] = -1; slot[2 - a] = 0; sc.b[a - 1].reg = false; }
    sc.g.push_back(g);
    Rig r(sc, slot, 2, {0, 0});
    auto *s = (atg_scs::Spring *)r.g[0];
    double e[4];
    s->getEnds(e, e + 1, e + 2, e + 3);
    auto end = [&](const BodyD &b, double px, double py, double *o) { R c = cosl(b.th), n = sinl(b.th); o[0] = (double)(b.x + c * px - n * py); o[1] = (double)(b.y + n * px + c * py); };
    double w[4];
    end(A, g.px, g.py, w); end(B, g.px2, g.py2, w + 2);
    for (int i = 0; i < 4; ++i) x.near(e[i], w[i], 1e-12, "getEnds coordinate %d", i);
    double l = std::hypot(w[2] - w[0], w[3] - w[1]);
    x.nearScale(s->energy(), 0.5 * g.ks * (l - g.rest) * (l - g.rest), 1e-12, g.ks, "stored energy");
    // querying changes nothing, and the force is the derivative of the energy
    x.check(A.x == r.b[0]->p_x && B.x == r.b[1]->p_x && A.th == r.b[0]->theta, "energy or getEnds moved a body");
    if (l > 0.05) {
        const double h = 1e-5;
        for (int k = 0; k < 2; ++k) {
            double *c = k ? &r.b[0]->p_y : &r.b[0]->p_x, c0 = *c;
            *c = c0 + h; double ep = s->energy();
            *c = c0 - h; double em = s->energy();
            *c = c0;
            double elastic = g.ks * (l - g.rest) * (w[2 + k] - w[k]) / l;
            x.nearScale((em - ep) / (2 * h), elastic, 1e-5, g.ks * (1 + g.rest), "energy gradient against the elastic force, axis %d", k);
        }
    }
    r.verify(x, false, "spring");
}

// every ordered pair (and triple) of generators over two bodies adds up
// ends that almost coincide: whether the elastic force has faded there or not, it
// acts along the axis, never more than the law, equal and opposite
void close(mc::Ctx &x) {
    static const double gaps[] = {0.0098, 0.004, 1e-4, 1e-9}, dirs[][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {0.6, 0.8}, {-0.6, 0.8}, {0.96, -0.28}, {-0.28, -0.96}};
    static const double angles[] = {0, 0.35, -2.8};
    Scene sc;
    sc.b.push_back(gen::defaultBody(0)); sc.b.push_back(gen::defaultBody(1));
    GenD g;
    g.kind = SPRING; g.kd = 0;
    static const double ks[] = {20, 900}, rest[] = {0.8, 0, 60};
    g.ks = x.pick(ks, "ks"); g.rest = x.pick(rest, "rest");
    int p = x.choose(3, "points");
    if (p == 1) g.px = g.py = g.px2 = g.py2 = 0;
    if (p == 2) { g.px = -1.5; g.py = 2; g.px2 = 0.75; g.py2 = 0; }
    double gap = x.pick(gaps, "gap");
    const double *d = x.pick(dirs, "direction");
    BodyD &A = sc.b[0], &B = sc.b[1];
    A.th = x.pick(angles, "theta1"); B.th = x.pick(angles, "theta2");
    R c1 = cosl(A.th), s1 = sinl(A.th), c2 = cosl(B.th), s2 = sinl(B.th);
    R r1x = c1 * g.px - s1 * g.py, r1y = s1 * g.px + c1 * g.py, r2x = c2 * g.px2 - s2 * g.py2, r2y = s2 * g.px2 + c2 * g.py2;
    B.x = (double)(A.x + r1x + gap * d[0] - r2x); B.y = (double)(A.y + r1y + gap * d[1] - r2y);
    std::vector<int> slot{0, 1};
    int a = x.choose(3, "static end");
    if (a) { slot[a - 1] = -1; slot[2 - a] = 0; sc.b[a - 1].reg = false; }
    sc.g.push_back(g);
    Rig r(sc, slot, 2, {0, 0});
    r.g[0]->apply(r.st);
    x.step();
    double law = g.ks * (gap - g.rest), share[2] = {0, 0};
    // the direction is known to rounding of the coordinates only
    double tol = 1e-9 * (1 + std::fabs(law)) + std::fabs(law) * 1e-14 / gap;
    for (int e = 0; e < 2; ++e) {
        int k = slot[e];
        if (k < 0) continue;
        double fx = r.st->f_x[k] - r.pre[3 * k], fy = r.st->f_y[k] - r.pre[3 * k + 1], t = r.st->t[k] - r.pre[3 * k + 2], sgn = e ? -1 : 1;
        share[e] = sgn * (fx * d[0] + fy * d[1]);
        x.check(std::fabs(fx * d[1] - fy * d[0]) <= tol, "end %d: force %g, %g is not along the axis %g, %g", e, fx, fy, d[0], d[1]);
        x.check(law >= 0 ? share[e] >= -tol && share[e] <= law + tol : share[e] <= tol && share[e] >= law - tol, "end %d: elastic force %g, the law says %g", e, share[e], law);
        x.near(t, (double)((e ? r2x : r1x) * fy - (e ? r2y : r1y) * fx), 1e-9 * (1 + std::fabs(law)), "end %d: torque", e);
    }
    if (!a) x.near(share[0], share[1], tol, "the two ends' forces");
    x.state(mc::Hash().d(share[0]).d(share[1]).h);
}
void pairs(mc::Ctx &x) {
    struct O { int kind, b0, b1; };
    static const O opts[] = {{GRAVITY, 0, 0}, {STATIC, 0, 0}, {STATIC, 1, 0}, {SPRING, 0, 1}, {SPRING, 1, 0}, {SPRING, 0, 2}, {SPRING, 2, 1}, {SPRING, 0, 0}, {MOTOR, 0, 1}, {MOTOR, 1, 0}, {MOTOR, 2, 0}};
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::defaultBody(i));
    sc.b[2].reg = false;
    const int count = x.thorough() ? 4 : 3;
    bool grav = false;
    for (int k = 0; k < count; ++k) {
        const O &o = x.pick(opts, "generator");
        GenD g;
        g.kind = o.kind; g.b0 = o.b0; g.b1 = o.b1;
        g.px += 0.2 * k; g.fy -= k; g.ks += 3 * k; g.speed -= k; g.kd += 0.1 * k; g.g += k;
        if (o.kind == MOTOR && k == 1) g.maxT = 2.5;
        sc.g.push_back(g);
        grav = grav || o.kind == GRAVITY;
        x.note("%s(%d,%d)", genNames[o.kind], o.b0, o.b1);
    }
    int l = x.choose(2, "layout");
    Rig r(sc, l ? std::vector<int>{3, 1, -1} : std::vector<int>{0, 1, -1}, l ? 5 : 2, {1.5, -0.75, 0});
    r.verify(x, grav, "several generators");
}
// many generators of every kind on a few bodies
void crowd(mc::Ctx &x) {
    static const struct { int sys, integ; } every[] = {{SYS_NSV, NSV}, {SYS_GEN, EULER}, {SYS_GEN, NSV}};
    const auto &cb = x.pick(every, "integrator");
    static const int counts[] = {4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025};
    int n = 1 + x.choose(3, "bodies"), ng = x.pick(counts, "generators"), mix = x.choose(6, "mix");
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::defaultBody(i));
    static const int kinds[] = {STATIC, GRAVITY, SPRING, MOTOR};
    for (int k = 0; k < ng; ++k) {
        GenD g;
        g.kind = mix < 4 ? kinds[mix] : mix == 4 ? kinds[k % 4] : kinds[k * 4 / ng];
        if (n == 1 && (g.kind == SPRING || g.kind == MOTOR)) g.kind = STATIC;
        g.b0 = k % n; g.b1 = (k + 1) % n;
        g.g = 0.01 * (1 + k % 5); g.fx = 0.1 * (k % 13 - 6) + 0.01; g.fy = 0.07 * (k % 17 - 7); g.ks = 0.02 * (1 + k % 3); g.kd = g.kind == MOTOR ? 0 : 0.001 * (k % 4); g.rest = 0.5 + 0.125 * (k % 5); g.speed = 1 + k % 7; g.maxT = 0.1;
        sc.g.push_back(g);
    }
    real::World w(sc, cb.sys, GE, cb.integ);
    Sim s(sc);
    for (int p = 0; p < 2; ++p) {
        s.process(cb.sys, cb.integ, 1 / 32.0, 1 + p, 1);
        w.process(1 / 32.0, 1 + p);
        x.step();
        real::compareMotion(x, w.b, s, 1e-9, "many generators");
    }
    // all but the last few go again: only those act
    while ((int)sc.g.size() > 3) { w.sys->removeForceGenerator(w.g[0]); w.g.erase(w.g.begin()); sc.g.erase(sc.g.begin()); }
    Sim t(sc);
    t.s = s.s;
    t.process(cb.sys, cb.integ, 1 / 32.0, 1, 1);
    w.process(1 / 32.0, 1);
    x.step();
    real::compareMotion(x, w.b, t, 1e-9, "most generators removed");
    x.state(mc::Hash().u(real::hashBodies(w.b)).i(ng).i(mix).h);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C16",
                   "every generator kind x attachment (either order, static ends, both ends on one body) x slot layout x bounded parameter deviations on preloaded accumulators, with every value the generator must not read set to NaN; spring gap/direction/angle grid with energy and end points; every ordered triple of generators; up to 1025 generators on one to three bodies of a running system, most of them removed again",
                   {{"single", single, 2, 3, false}, {"spring", spring, 1, 3, false}, {"close", close, 0, 0, false}, {"several", pairs, 0, 0, false}, {"crowd", crowd, 0, 0, false}},
                   {"spring ends closer than 0.0102 but not coincident may or may not have an elastic force (the library treats ends closer than 0.01 as coincident)"});
}
