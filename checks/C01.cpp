// C01: registration is exact under any history of add, remove and clear.
#include "ref.h"
#include <memory>
#include <set>
using namespace atg_scs;

namespace {
// a linear solver that applies no forces, so that any registered set can be stepped
class NullSolver : public SleSolver {
  public:
    int rows = -1, calls = 0;
    explicit NullSolver(bool limits) : SleSolver(limits) {}
    bool go(SparseMatrix<3> &J, Matrix &right, Matrix *a, Matrix *b) {
        ++calls;
        rows = right.getHeight();
        (void)J;
        a->initialize(1, rows);
        b->initialize(1, rows);
        return true;
    }
    virtual bool solve(SparseMatrix<3> &J, Matrix &, Matrix &right, Matrix *a, Matrix *b) { return go(J, right, a, b); }
    virtual bool solveWithLimits(SparseMatrix<3> &J, Matrix &, Matrix &right, Matrix &, Matrix *a, Matrix *b) { return go(J, right, a, b); }
};
class ProbeC : public Constraint {
  public:
    int calls = 0;
    ProbeC(int rows, int bodies) : Constraint(rows, bodies) {}
    virtual void calculate(Output *o, SystemState *) { ++calls; memset(o, 0, sizeof *o); }
};
class ProbeG : public ForceGenerator {
  public:
    int calls = 0, n = -1;
    virtual void apply(SystemState *s) { ++calls; n = s->n; for (int i = 0; i < s->n; ++i) s->f_x[i] += 1; }
};

struct Rig {
    std::unique_ptr<NullSolver> sle;
    std::unique_ptr<EulerOdeSolver> ode;
    std::unique_ptr<RigidBodySystem> sys;
    std::vector<std::unique_ptr<RigidBody>> b;
    std::vector<std::unique_ptr<ProbeC>> c;
    std::vector<std::unique_ptr<ProbeG>> g;
    std::vector<bool> inB, inC, inG;
    Rig(int kind, int nb, int nc, int ng) : sle(new NullSolver(kind == 1)), ode(new EulerOdeSolver) {
        if (kind == 2) { auto *s = new GenericRigidBodySystem; s->initialize(sle.get(), ode.get()); sys.reset(s); }
        else { auto *s = new OptimizedNsvRigidBodySystem; s->initialize(sle.get()); sys.reset(s); }
        for (int i = 0; i < nb; ++i) { b.emplace_back(new RigidBody); b[i]->m = 1 + i; b[i]->I = 2 + i; b[i]->v_x = 1 + i; }
        for (int i = 0; i < nc; ++i) {
            c.emplace_back(new ProbeC(1 + i % 3, 1 + i % 2));
            for (int k = 0; k < c[i]->m_bodyCount; ++k) c[i]->m_bodies[k] = b[(i + k) % nb].get();
        }
        for (int i = 0; i < ng; ++i) g.emplace_back(new ProbeG);
        inB.assign(nb, false); inC.assign(nc, false); inG.assign(ng, false);
    }
    void toggleB(int i) { if (inB[i]) sys->removeRigidBody(b[i].get()); else sys->addRigidBody(b[i].get()); inB[i] = !inB[i]; }
    void toggleC(int i) { if (inC[i]) sys->removeConstraint(c[i].get()); else sys->addConstraint(c[i].get()); inC[i] = !inC[i]; }
    void toggleG(int i) { if (inG[i]) sys->removeForceGenerator(g[i].get()); else sys->addForceGenerator(g[i].get()); inG[i] = !inG[i]; }
    static int count(const std::vector<bool> &v) { int n = 0; for (bool k : v) n += k; return n; }
    uint64_t hash() {
        mc::Hash h;
        for (auto &p : b) h.i(p->index);
        for (auto &p : c) h.i(p->m_index);
        for (auto &p : g) h.i(p->m_index);
        return h.h;
    }
    void verify(mc::Ctx &x, const char *when) {
        int nb = count(inB), nc = count(inC), ng = count(inG), rows = 0;
        for (size_t i = 0; i < c.size(); ++i) if (inC[i]) rows += 1 + (int)i % 3;
        x.check(sys->getRigidBodyCount() == nb, "%s: body count %d, expected %d", when, sys->getRigidBodyCount(), nb);
        x.check(sys->getConstraintCount() == nc, "%s: constraint count %d, expected %d", when, sys->getConstraintCount(), nc);
        x.check(sys->getForceGeneratorCount() == ng, "%s: generator count %d, expected %d", when, sys->getForceGeneratorCount(), ng);
        x.check(sys->getFullConstraintCount() == rows, "%s: constraint row count %d, expected %d", when, sys->getFullConstraintCount(), rows);
        std::set<RigidBody *> seen;
        for (int i = 0; i < nb; ++i) {
            RigidBody *p = sys->getRigidBody(i);
            int which = -1;
            for (size_t k = 0; k < b.size(); ++k) if (b[k].get() == p) which = (int)k;
            x.check(which >= 0 && inB[which], "%s: position %d holds a body that is not registered (%d)", when, i, which);
            x.check(seen.insert(p).second, "%s: body %d is held twice", when, which);
            x.check(p->index == i, "%s: body %d at position %d reports slot %d", when, which, i, p->index);
        }
        std::set<int> cs, gs;
        for (size_t i = 0; i < c.size(); ++i) if (inC[i]) x.check(c[i]->m_index >= 0 && c[i]->m_index < nc && cs.insert(c[i]->m_index).second, "%s: constraint %zu reports slot %d of %d (out of range or shared)", when, i, c[i]->m_index, nc);
        for (size_t i = 0; i < g.size(); ++i) if (inG[i]) x.check(g[i]->m_index >= 0 && g[i]->m_index < ng && gs.insert(g[i]->m_index).second, "%s: generator %zu reports slot %d of %d (out of range or shared)", when, i, g[i]->m_index, ng);
    }
    void step(mc::Ctx &x, const char *when) {
        std::vector<double> px;
        for (auto &p : b) { px.push_back(p->p_x); }
        for (auto &p : c) p->calls = 0;
        for (auto &p : g) p->calls = 0;
        sle->calls = 0;
        const double dt = 0.25;
        std::vector<double> vx;
        for (auto &p : b) vx.push_back(p->v_x);
        sys->process(dt, 2);
        x.step();
        int ng = count(inG), rows = 0;
        for (size_t i = 0; i < c.size(); ++i) if (inC[i]) rows += 1 + (int)i % 3;
        for (size_t i = 0; i < b.size(); ++i) {
            if (inB[i]) {
                x.near(b[i]->v_x, vx[i] + dt * ng / b[i]->m, 1e-12, "%s: velocity of registered body %zu after a step", when, i);
                x.check(b[i]->p_x != px[i], "%s: registered body %zu did not move", when, i);
            } else x.check(b[i]->p_x == px[i] && b[i]->v_x == vx[i], "%s: unregistered body %zu was moved by a step", when, i);
        }
        for (size_t i = 0; i < c.size(); ++i) x.check(c[i]->calls == (inC[i] ? 2 : 0), "%s: constraint %zu (%s) evaluated %d times in 2 substeps", when, i, inC[i] ? "registered" : "unregistered", c[i]->calls);
        for (size_t i = 0; i < g.size(); ++i) {
            x.check(g[i]->calls == (inG[i] ? 2 : 0), "%s: generator %zu (%s) applied %d times in 2 substeps", when, i, inG[i] ? "registered" : "unregistered", g[i]->calls);
            if (inG[i]) x.check(g[i]->n == count(inB), "%s: generator saw %d bodies, %d are registered", when, g[i]->n, count(inB));
        }
        x.check(sle->rows == rows, "%s: %d constraint rows solved, %d registered", when, sle->rows, rows);
    }
};

// all interleavings of add / remove / clear / step on a few objects of each sort
void mixed(mc::Ctx &x) {
    int kind = x.choose(3, "system");
    Rig r(kind, 3, 3, 2);
    int depth = x.thorough() ? 7 : 5;
    // start from a non-empty system or from an empty one
    int start = x.choose(3, "start");
    if (start == 1) { for (int i = 0; i < 3; ++i) { r.toggleB(i); r.toggleC(2 - i); } r.toggleG(1); r.toggleG(0); }
    if (start == 2) { r.toggleB(2); r.toggleB(0); r.toggleC(1); r.toggleG(1); }
    for (int d = 0; d < depth; ++d) {
        int op = x.choose(11, "op");
        if (op == 0) break;
        if (op <= 3) { r.toggleB(op - 1); x.note("%s body %d", r.inB[op - 1] ? "add" : "remove", op - 1); if (!r.inB[op - 1]) x.check(r.b[op - 1]->index == -1, "removed body reports slot %d", r.b[op - 1]->index); }
        else if (op <= 6) { r.toggleC(op - 4); x.note("%s constraint %d", r.inC[op - 4] ? "add" : "remove", op - 4); if (!r.inC[op - 4]) x.check(r.c[op - 4]->m_index == -1, "removed constraint reports slot %d", r.c[op - 4]->m_index); }
        else if (op <= 8) { r.toggleG(op - 7); x.note("%s generator %d", r.inG[op - 7] ? "add" : "remove", op - 7); if (!r.inG[op - 7]) x.check(r.g[op - 7]->m_index == -1, "removed generator reports slot %d", r.g[op - 7]->m_index); }
        else if (op == 9) {
            r.sys->reset();
            r.inB.assign(3, false); r.inC.assign(3, false); r.inG.assign(2, false);
            for (auto &p : r.b) p->index = -1; // probes only: an unregistered attachment
            x.note("clear");
        } else { x.note("step"); r.step(x, "mid-history"); }
        x.step();
        r.verify(x, "history");
        x.state(r.hash());
    }
    x.state(r.hash());
    r.step(x, "final step");
    r.verify(x, "after the step");
}

// one sort of object at a time, deeper: every order of adding 4 and removing them
template <int SORT> void oneSort(mc::Ctx &x) {
    int kind = x.choose(2, "system") * 2;
    Rig r(kind, 5, 5, 5);
    if (SORT == 1) for (int i = 0; i < 5; ++i) r.toggleB(i);
    int depth = x.thorough() ? 9 : 7;
    for (int d = 0; d < depth; ++d) {
        int op = x.choose(5, "toggle");
        if (SORT == 0) { r.toggleB(op); if (!r.inB[op]) x.check(r.b[op]->index == -1, "removed body reports slot %d", r.b[op]->index); }
        if (SORT == 1) { r.toggleC(op); if (!r.inC[op]) x.check(r.c[op]->m_index == -1, "removed constraint reports slot %d", r.c[op]->m_index); }
        if (SORT == 2) { r.toggleG(op); if (!r.inG[op]) x.check(r.g[op]->m_index == -1, "removed generator reports slot %d", r.g[op]->m_index); }
        x.step();
        r.verify(x, "toggle");
        x.state(r.hash());
    }
    r.step(x, "final step");
}

// many objects: every (first, second, third) removal among a large population
void large(mc::Ctx &x) {
    static const int sizes[] = {6, 17, 40, 300};
    int n = sizes[x.choose(x.thorough() ? 4 : 3, "size")];
    int sort = x.choose(3, "sort");
    Rig r(2, n, n, n);
    for (int i = 0; i < n; ++i) { r.toggleB(i); if (sort == 1) r.toggleC(i); if (sort == 2) r.toggleG(i); }
    r.verify(x, "filled");
    auto toggle = [&](int i) { if (sort == 0) r.toggleB(i); else if (sort == 1) r.toggleC(i); else r.toggleG(i); };
    int a = x.choose(n, "first"), b = n <= 40 ? x.choose(n, "second") : x.choose(3, "second") * (n - 1) / 2;
    toggle(a);
    r.verify(x, "first removed");
    toggle(b); // may be a itself: added again
    r.verify(x, "second removed");
    toggle(n / 2);
    r.verify(x, "third removed");
    toggle(a);
    r.verify(x, "added again");
    x.step();
    x.state(r.hash());
    if (a % 7 == 0) r.step(x, "step");
    // clearing the system leaves nothing behind and it can be filled again
    r.sys->reset();
    r.inB.assign(n, false); r.inC.assign(n, false); r.inG.assign(n, false);
    r.verify(x, "cleared");
    for (int i = 0; i < n; i += 3) r.toggleB((i + a) % n);
    r.verify(x, "filled again");
}

// large populations emptied almost or completely in several orders and refilled
void drained(mc::Ctx &x) {
    static const int sizes[] = {9, 33, 65, 100, 129, 257, 513, 1000};
    int n = sizes[x.choose(x.thorough() ? 8 : 7, "size")];
    int sort = x.choose(3, "sort"), order = x.choose(5, "order");
    static const int keeps[] = {0, 1, 2, 3, 7, 8, 9, 24, 25, 31, 33};
    int keep = x.pick(keeps, "kept");
    if (keep >= n) x.discard();
    Rig r(2, sort == 0 ? n : 4, sort == 1 ? n : 1, sort == 2 ? n : 1);
    if (sort != 0) for (int i = 0; i < 4; ++i) r.toggleB(i);
    auto toggle = [&](int i) { if (sort == 0) r.toggleB(i); else if (sort == 1) r.toggleC(i); else r.toggleG(i); };
    auto slot = [&](int i) { return sort == 0 ? r.b[i]->index : sort == 1 ? r.c[i]->m_index : r.g[i]->m_index; };
    for (int i = 0; i < n; ++i) toggle(i);
    std::vector<int> o;
    for (int i = 0; i < n; ++i) o.push_back(order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : order == 3 ? (n / 2 + (i % 2 ? -(i + 1) / 2 : i / 2) + n) % n : 0);
    if (order == 4) { std::vector<bool> had(n); int a = 0; for (int i = 0; i < n; ++i) { a = (a + 37) % n; while (had[a]) a = (a + 1) % n; had[a] = true; o[i] = a; } }
    if (order == 3) { std::vector<bool> had(n); std::vector<int> q; for (int i : o) if (!had[i]) { had[i] = true; q.push_back(i); } for (int i = 0; i < n; ++i) if (!had[i]) q.push_back(i); o = q; }
    for (int i = 0; i < n - keep; ++i) {
        toggle(o[i]);
        x.check(slot(o[i]) == -1, "removed object reports slot %d", slot(o[i]));
        int left = n - i - 1;
        if (left < 40 && n < 300 ? true : left % 64 == 0) r.verify(x, "emptying");
    }
    r.verify(x, "emptied");
    x.step();
    x.state(r.hash());
    if (n < 130) r.step(x, "step when emptied");
    for (int i = n - keep; i-- > 0;) toggle(o[i]);
    r.verify(x, "filled again");
    for (int i = 0; i < n; i += 3) toggle(o[i]);
    r.verify(x, "every third removed");
    if (n < 130) r.step(x, "step");
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C01",
                   "every sequence of add/remove/clear/step over 3 bodies, 3 constraints (1-3 rows) and 2 generators up to the depth bound from three start states; every toggle sequence over 5 objects of one sort; every pair of removals from populations of up to 40; populations of up to 1000 emptied in 5 orders down to 11 sizes and refilled; after each operation all counts, lookups and slots against a set model and a step with call-counting probes",
                   {{"mixed", mixed, 0, 0, false}, {"bodies", oneSort<0>, 0, 0, false}, {"constraints", oneSort<1>, 0, 0, false}, {"generators", oneSort<2>, 0, 0, false}, {"large", large, 0, 0, false}, {"drained", drained, 0, 0, false}},
                   {"objects are added only while unregistered and removed only while registered", "slots of objects left over after clearing a system are not constrained"});
}
