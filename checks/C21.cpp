// C21: results do not depend on registration order or on unrelated bodies.
#include "sys.h"
#include <map>
#include <numeric>
using namespace sys;

namespace {
std::vector<int> permutation(mc::Ctx &x, int n, const char *label) {
    std::vector<int> left(n), out;
    std::iota(left.begin(), left.end(), 0);
    while (!left.empty()) { int k = left.size() > 1 ? x.choose((int)left.size(), label) : 0; out.push_back(left[k]); left.erase(left.begin() + k); }
    return out;
}
// the scene alone, in its own order
struct Alone {
    std::vector<std::array<double, 6>> b;
    std::vector<double> react;
    double scale = 1, fscale = 1;
    bool ok = true;
};
void collect(const std::vector<atg_scs::RigidBody *> &b, const std::vector<atg_scs::Constraint *> &c, Alone &a) {
    a.b.clear(); a.react.clear();
    for (auto *r : b) a.b.push_back({r->p_x, r->p_y, r->theta, r->v_x, r->v_y, r->v_theta});
    for (auto *k : c) for (int r = 0; r < k->getConstraintCount(); ++r) for (int e = 0; e < k->m_bodyCount; ++e) { a.react.push_back(k->F_x[r][e]); a.react.push_back(k->F_y[r][e]); a.react.push_back(k->F_t[r][e]); }
}
void compare(mc::Ctx &x, const Alone &want, const Alone &got, double tol, const char *what) {
    static const char *const n[] = {"p_x", "p_y", "theta", "v_x", "v_y", "v_theta"};
    for (size_t i = 0; i < want.b.size(); ++i) for (int k = 0; k < 6; ++k) x.nearScale(got.b[i][k], want.b[i][k], tol, want.scale, "%s: body %zu %s", what, i, n[k]);
    for (size_t i = 0; i < want.react.size(); ++i) x.nearScale(got.react[i], want.react[i], tol * 10, want.fscale, "%s: reaction value %zu", what, i);
}
Alone runAlone(const Scene &sc, const Config &c, double dt, int steps, int calls) {
    Alone a;
    Sim s(sc);
    s.countSweeps = c.solver == GS;
    for (int k = 0; k < calls; ++k) s.process(c.kind, c.integ, dt, steps, 1);
    a.ok = s.inDomain(c.solver);
    if (!a.ok) return a;
    a.scale = (double)s.scale; a.fscale = std::max((double)s.forceScale, (double)s.scale);
    real::World w(sc, c.kind, c.solver, c.integ);
    for (int k = 0; k < calls; ++k) w.process(dt, steps);
    collect(w.b, w.c, a);
    return a;
}
double tolOf(const Config &c) { return c.solver == GE ? 1e-8 : real::tolOf(c.solver); }

void orders(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    int shape = x.choose(SHAPES, "shape"), n = 2 + x.choose(x.thorough() ? 3 : 2, "bodies");
    if (shape == MIXED) n = 4;
    Scene sc = longScene(shape, n);
    if (shape == MIXED) { GenD g; g.kind = MOTOR; g.kd = 0; g.b0 = 0; g.b1 = 3; sc.g.push_back(g); }
    std::vector<int> pb = permutation(x, (int)sc.b.size(), "body order"), pc = permutation(x, (int)sc.c.size(), "constraint order");
    std::vector<int> pg = x.thorough() || n < 4 ? permutation(x, (int)sc.g.size(), "generator order") : std::vector<int>{2, 0, 1};
    if (pg.size() != sc.g.size()) { pg.resize(sc.g.size()); std::iota(pg.begin(), pg.end(), 0); std::reverse(pg.begin(), pg.end()); }
    Alone want = runAlone(sc, c, 1 / 64.0, 2, 2), got;
    if (!want.ok) x.discard();
    real::System w(c.kind, c.solver, c.integ);
    real::Objects ob(sc);
    for (int i : pb) w.sys->addRigidBody(ob.b[i]);
    for (int i : pc) w.sys->addConstraint(ob.c[i]);
    for (int i : pg) w.sys->addForceGenerator(ob.g[i]);
    for (int k = 0; k < 2; ++k) { w.sys->process(1 / 64.0, 2); x.step(); }
    x.state(real::hashBodies(ob.b));
    collect(ob.b, ob.c, got);
    compare(x, want, got, tolOf(c), "another registration order");
}
// pairs of constraints in both orders, bodies in all orders
void pairs(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const std::vector<gen::Option> o = gen::options(3);
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::defaultBody(i));
    int a = x.choose((int)o.size(), "constraint"), b = x.choose((int)o.size(), "constraint");
    if (b < a) x.discard();
    const gen::Option q[] = {o[a], o[b]};
    for (int k = 0; k < 2; ++k) sc.c.push_back(gen::constraint(x, q[k].kind, q[k].b0, q[k].b1, k));
    loads(x, sc, 3);
    std::vector<int> pb = permutation(x, 3, "body order");
    bool swap = x.choose(2, "constraints swapped");
    Alone want = runAlone(sc, c, 1 / 64.0, 1, 1), got;
    if (!want.ok) x.discard();
    real::System w(c.kind, c.solver, c.integ);
    real::Objects ob(sc);
    for (int i : pb) w.sys->addRigidBody(ob.b[i]);
    w.sys->addConstraint(ob.c[swap]); w.sys->addConstraint(ob.c[!swap]);
    for (size_t i = ob.g.size(); i-- > 0;) w.sys->addForceGenerator(ob.g[i]);
    w.sys->process(1 / 64.0, 1);
    x.step();
    x.state(real::hashBodies(ob.b));
    collect(ob.b, ob.c, got);
    compare(x, want, got, tolOf(c), "another registration order");
}
// one constraint of any kind between any two of several bodies, and a fixed chain
// among the rest: any rotation of the order of registration, either way round
void many(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const int sizes[] = {5, 6, 9};
    int n = x.thorough() ? x.pick(sizes, "bodies") : 5;
    static std::map<int, std::vector<gen::Option>> all;
    if (all[n].empty()) all[n] = gen::options(n);
    const std::vector<gen::Option> &o = all[n];
    const gen::Option &q = o[x.choose((int)o.size(), "constraint")];
    if (x.tracing()) x.note("%s(%d,%d)", conNames[q.kind], q.b0, q.b1);
    Scene sc;
    for (int i = 0; i < n; ++i) sc.b.push_back(gen::defaultBody(i));
    sc.c.push_back(gen::constraint(x, q.kind, q.b0, q.b1, 0));
    if (x.choose(2, "more constraints")) {
        int a = (q.b0 + 1) % n, b = (q.b0 + 3) % n;
        sc.c.push_back(gen::constraint(x, LINK, a, b, 1));
        sc.c.push_back(gen::constraint(x, GEAR, b, (q.b0 + 2) % n, 2));
    }
    loads(x, sc, n);
    int turn = x.choose(n, "first body"), back = x.choose(2, "backwards");
    Alone want = runAlone(sc, c, 1 / 64.0, 1, 1), got;
    if (!want.ok) x.discard();
    real::System w(c.kind, c.solver, c.integ);
    real::Objects ob(sc);
    for (int i = 0; i < n; ++i) w.sys->addRigidBody(ob.b[(turn + (back ? n - i : i)) % n]);
    for (size_t i = ob.c.size(); i-- > 0;) w.sys->addConstraint(ob.c[i]);
    for (auto *g : ob.g) w.sys->addForceGenerator(g);
    w.sys->process(1 / 64.0, 1);
    x.step();
    x.state(real::hashBodies(ob.b));
    collect(ob.b, ob.c, got);
    compare(x, want, got, tolOf(c), "another registration order");
}
// removing and re-adding changes the slots, not the motion
void readded(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    Scene sc = longScene(MIXED, 4);
    real::System w(c.kind, c.solver, c.integ);
    real::Objects ob(sc);
    ob.registerAll(w.sys);
    int depth = x.thorough() ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(1 + (int)(sc.b.size() + sc.c.size()), "re-add");
        if (!k) break;
        --k;
        if (k < (int)sc.b.size()) { w.sys->removeRigidBody(ob.b[k]); w.sys->addRigidBody(ob.b[k]); }
        else { k -= (int)sc.b.size(); w.sys->removeConstraint(ob.c[k]); w.sys->addConstraint(ob.c[k]); }
        x.step();
    }
    Alone want = runAlone(sc, c, 1 / 64.0, 2, 1), got;
    if (!want.ok) x.discard();
    w.sys->process(1 / 64.0, 2);
    x.state(real::hashBodies(ob.b));
    collect(ob.b, ob.c, got);
    compare(x, want, got, tolOf(c), "after removing and re-adding");
}
// unrelated bodies, some with constraints of their own, before, between and after
void crowd(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const int counts[] = {1, 2, 3, 4, 5, 6, 7, 8, 13, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 100, 124, 125, 126, 127, 128, 129, 130, 200, 251, 252, 253, 254, 255, 256, 257, 258, 259, 300, 400, 509, 510, 511, 512, 513, 514, 640, 766, 767, 768, 1021, 1022, 1023, 1024, 1025};
    int m = x.pick(counts, "unrelated bodies");
    int before = x.choose(5, "scene bodies before them"); // 4: spread out
    int own = x.choose(3, "their constraints");            // none, three before, three after
    Scene sc = longScene(x.choose(2, "scene") ? MIXED : CHAIN, 3);
    Alone want = runAlone(sc, c, 1 / 64.0, 1, 2), got;
    if (!want.ok) x.discard();
    // gravity acts on unrelated bodies too; the others stay where they are
    Scene other;
    for (int i = 0; i < m; ++i) { BodyD b = gen::defaultBody(i + 3); b.x = 50 + i; b.th = 0.1 * (i % 60); other.b.push_back(b); }
    static const int kinds[] = {FIXPOS, LINK, FIXROT};
    if (own) for (int k = 0; k < 3; ++k) {
        ConD d; d.kind = kinds[k]; d.b0 = k == 1 ? 0 : m - 1; d.b1 = m - 1;
        if (k == 1 && m == 1) continue;
        d.wx = other.b[d.b0].x; d.wy = other.b[d.b0].y;
        if (k == 2) { d.b0 = m / 2; if (m < 3) continue; }
        other.c.push_back(d);
    }
    // their own solution must be within every solver's reach as well
    Scene all = sc;
    int base = (int)sc.b.size();
    if (!other.c.empty()) {
        Scene few;
        few.b = {other.b[0], other.b[m / 2], other.b[m - 1]};
        for (ConD d : other.c) { d.b0 = d.b0 == 0 ? 0 : d.b0 == m - 1 ? 2 : 1; d.b1 = 2; few.c.push_back(d); }
        Sim s(few);
        s.countSweeps = c.solver == GS;
        s.process(c.kind, c.integ, 1 / 64.0, 1, 1); s.process(c.kind, c.integ, 1 / 64.0, 1, 1);
        if (!s.inDomain(c.solver)) x.discard();
    }
    (void)all; (void)base;
    real::System w(c.kind, c.solver, c.integ);
    real::Objects ob(sc), ot(other);
    int done = 0;
    for (int i = 0; i < m; ++i) {
        while (done < 3 && (before < 4 ? done < before : i >= m * (done + 1) / 4)) w.sys->addRigidBody(ob.b[done++]);
        w.sys->addRigidBody(ot.b[i]);
    }
    while (done < 3) w.sys->addRigidBody(ob.b[done++]);
    if (own == 1) for (auto *k : ot.c) w.sys->addConstraint(k);
    for (auto *k : ob.c) w.sys->addConstraint(k);
    if (own == 2) for (auto *k : ot.c) w.sys->addConstraint(k);
    for (auto *g : ob.g) w.sys->addForceGenerator(g);
    for (int k = 0; k < 2; ++k) { w.sys->process(1 / 64.0, 1); x.step(); }
    x.state(mc::Hash().u(real::hashBodies(ob.b)).i(m).i(before).h);
    collect(ob.b, ob.c, got);
    compare(x, want, got, tolOf(c), "among unrelated bodies");
}
// many unrelated constraints: one per unrelated body
void rows(mc::Ctx &x) {
    const Config &c = config(x, true, true);
    static const int counts[] = {1, 2, 4, 7, 9, 15, 30, 42, 62, 63, 64, 84, 85, 86, 100, 126, 127, 128, 129, 170, 260};
    int m = x.pick(counts, "unrelated bodies");
    if (!x.thorough() && m > 64 && c.integ == RK4) x.discard();
    // the scene's k-th constraint comes before them if bit k is set
    int before = x.choose(16, "scene constraints before them");
    if (!x.thorough() && m > 30 && before != 0 && before != 15 && before != 5 && before != 1) x.discard();
    if (!x.thorough() && m > 200 && c.solver == GS) x.discard();
    Scene sc = longScene(CHAIN, 3);
    ConD extra; extra.kind = FIXROT; extra.b0 = 1; extra.r = 0.3; // four constraints, coupled all along
    sc.c.push_back(extra);
    Alone want = runAlone(sc, c, 1 / 64.0, 1, 1), got;
    if (!want.ok) x.discard();
    Scene other;
    for (int i = 0; i < m; ++i) {
        BodyD b = gen::defaultBody(i + 3);
        b.x = 0.5 * i;
        other.b.push_back(b);
        ConD d; d.kind = i % 3 ? FIXPOS : FIXROT; d.b0 = i; d.wx = b.x + 0.2; d.wy = b.y - 0.2; d.r = b.th + 0.1;
        other.c.push_back(d);
    }
    real::System w(c.kind, c.solver, c.integ);
    real::Objects ob(sc), ot(other);
    bool bodiesFirst = x.choose(2, "bodies first");
    if (bodiesFirst) for (auto *b : ot.b) w.sys->addRigidBody(b);
    for (auto *b : ob.b) w.sys->addRigidBody(b);
    if (!bodiesFirst) for (auto *b : ot.b) w.sys->addRigidBody(b);
    for (size_t i = 0; i < ob.c.size(); ++i) if (before >> i & 1) w.sys->addConstraint(ob.c[i]);
    for (auto *k : ot.c) w.sys->addConstraint(k);
    for (size_t i = 0; i < ob.c.size(); ++i) if (!(before >> i & 1)) w.sys->addConstraint(ob.c[i]);
    for (auto *g : ob.g) w.sys->addForceGenerator(g);
    w.sys->process(1 / 64.0, 1);
    x.step();
    x.state(mc::Hash().u(real::hashBodies(ob.b)).i(m).i(before).h);
    collect(ob.b, ob.c, got);
    compare(x, want, got, tolOf(c), "among unrelated constraints");
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C21",
                   "both systems x all integrators x all linear solvers: all registration orders of the bodies, constraints and generators of 5 scene shapes, all body orders for every pair of (constraint kind, attachment), all rotations and reflections of the order of 5 (9) bodies for every constraint between any two of them, all remove/re-add sequences, 1 to 1025 unrelated bodies (around every power of two) at every placement relative to the scene, with and without constraints of their own, and up to 260 unrelated constraints (436 rows) registered before, between and after the scene's own",
                   {{"orders", orders, 0, 0, false}, {"pairs", pairs, 0, 0, false}, {"many", many, 0, 0, false}, {"readded", readded, 0, 0, false}, {"crowd", crowd, 0, 0, false}, {"rows", rows, 0, 0, false}},
                   {"rows linearly independent (pivot ratio at least 1e-5)"});
}
