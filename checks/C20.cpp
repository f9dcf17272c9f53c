// C20: state buffers copy faithfully and take any sequence of sizes.
#include "ref.h"
#include "scenes.h"
#include <memory>
using atg_scs::SystemState;
using namespace ref;

namespace {
const int kBody = 13, kRow = 3;
void arrays(SystemState *s, double **b, double **r) {
    double *bb[kBody] = {s->a_theta, s->v_theta, s->theta, s->a_x, s->a_y, s->v_x, s->v_y, s->p_x, s->p_y, s->f_x, s->f_y, s->t, s->m};
    double *rr[kRow] = {s->r_x, s->r_y, s->r_t};
    for (int i = 0; i < kBody; ++i) b[i] = bb[i];
    for (int i = 0; i < kRow; ++i) r[i] = rr[i];
}
const char *const bodyNames[] = {"a_theta", "v_theta", "theta", "a_x", "a_y", "v_x", "v_y", "p_x", "p_y", "f_x", "f_y", "t", "m"};
const char *const rowNames[] = {"r_x", "r_y", "r_t"};
struct Model {
    int n = 0, nc = 0;
    double dt = 0;
    std::vector<double> body[kBody], row[kRow];
    std::vector<int> map;
};
struct Box {
    SystemState *s = new SystemState;
    Model m;
    Box() {}
    Box(const Box &) = delete;
    ~Box() { s->destroy(); delete s; }
    void fill(int salt) {
        double *b[kBody], *r[kRow];
        arrays(s, b, r);
        m.n = s->n; m.nc = s->n_c;
        for (int k = 0; k < kBody; ++k) { m.body[k].assign(m.n, 0); for (int i = 0; i < m.n; ++i) b[k][i] = m.body[k][i] = salt * 1000 + k * 20 + i + 0.5; }
        for (int k = 0; k < kRow; ++k) { m.row[k].assign(2 * m.nc, 0); for (int i = 0; i < 2 * m.nc; ++i) r[k][i] = m.row[k][i] = -(salt * 1000 + k * 40 + i + 0.25); }
        m.map.assign(m.nc, 0);
        for (int i = 0; i < m.nc; ++i) s->indexMap[i] = m.map[i] = salt * 100 + i;
        s->dt = m.dt = salt + 0.125;
    }
    void verify(mc::Ctx &x, const char *who, const char *when) {
        x.check(s->n == m.n && s->n_c == m.nc, "%s after %s: %d bodies and %d rows, expected %d and %d", who, when, s->n, s->n_c, m.n, m.nc);
        double *b[kBody], *r[kRow];
        arrays(s, b, r);
        for (int k = 0; k < kBody; ++k) for (int i = 0; i < m.n; ++i) x.check(b[k][i] == m.body[k][i], "%s after %s: %s[%d] is %g, expected %g", who, when, bodyNames[k], i, b[k][i], m.body[k][i]);
        for (int k = 0; k < kRow; ++k) for (int i = 0; i < 2 * m.nc; ++i) x.check(r[k][i] == m.row[k][i], "%s after %s: %s[%d] is %g, expected %g", who, when, rowNames[k], i, r[k][i], m.row[k][i]);
        for (int i = 0; i < m.nc; ++i) x.check(s->indexMap[i] == m.map[i], "%s after %s: indexMap[%d] is %d, expected %d", who, when, i, s->indexMap[i], m.map[i]);
    }
};

// a new state takes its first size, or the contents of another, whatever its storage held before
void constructed(mc::Ctx &x) {
    int n = x.choose(5, "bodies"), nc = x.choose(5, "rows");
    const unsigned words[] = {(unsigned)n, (unsigned)nc, 0u, 9u, ~0u};
    unsigned a = words[x.choose(5, "even words of fresh memory")], b = words[x.choose(5, "odd words of fresh memory")];
    bool byCopy = x.choose(2, "by copying") == 1;
    mc::mem::fillWords(a, b);
    std::string bad;
    try {
        Box s, from;
        x.check(s.s->n == 0 && s.s->n_c == 0 && s.s->dt == 0, "a new state has %d bodies, %d rows, dt %g", s.s->n, s.s->n_c, s.s->dt);
        Box *t = byCopy ? &from : &s;
        t->s->resize(n, nc);
        x.check(t->s->n == n && t->s->n_c == nc, "the first resize to (%d, %d) gives (%d, %d)", n, nc, t->s->n, t->s->n_c);
        t->fill(1);
        if (byCopy) { s.s->copy(from.s); s.m = from.m; x.check(s.s->dt == from.m.dt, "a copy has dt %g, expected %g", s.s->dt, from.m.dt); }
        s.verify(x, "state", "its first use");
        t->verify(x, "source", "its first use");
    } catch (mc::Violation &v) { bad = v.msg; }
    mc::mem::fill(-1);
    x.step();
    x.state(mc::Hash().i(n).i(nc).i(byCopy).h);
    if (!bad.empty()) x.fail("%s", bad.c_str());
}
// all sequences of resize / copy / modify / destroy over two (three) states
void sequences(mc::Ctx &x) {
    static const int ns[] = {0, 1, 2, 5}, ncs[] = {0, 1, 4};
    long before = mc::mem::live();
    {
        mc::mem::fill(x.choose(2, "fresh memory") ? 3 : 0);
        std::unique_ptr<Box> box[2];
        for (auto &b : box) b.reset(new Box);
        int depth = x.thorough() ? 5 : 4;
        for (int d = 1; d <= depth; ++d) {
            int who = x.choose(2, "state"), op = x.choose(15, "op");
            Box &a = *box[who], &o = *box[1 - who];
            const char *what = "";
            if (op < 12) { a.s->resize(ns[op % 4], ncs[op / 4]); x.check(a.s->n == ns[op % 4] && a.s->n_c == ncs[op / 4], "resize(%d,%d) gave %d,%d", ns[op % 4], ncs[op / 4], a.s->n, a.s->n_c); a.fill(d); what = "resize"; x.note("%d: resize %d,%d", who, ns[op % 4], ncs[op / 4]); }
            else if (op == 12) { a.s->copy(o.s); a.m = o.m; what = "copy"; x.note("%d: copy", who); x.check(a.s->dt == o.m.dt || a.m.n + a.m.nc == 0, "copy: dt %g, expected %g", a.s->dt, o.m.dt); }
            else if (op == 13) { a.s->destroy(); a.m = Model(); a.m.dt = a.s->dt; what = "destroy"; x.note("%d: destroy", who); }
            else { a.fill(d + 50); what = "overwrite"; x.note("%d: overwrite", who); }
            x.step();
            a.verify(x, "the state", what);
            o.verify(x, "the other state", what);
            x.state(mc::Hash().i(box[0]->m.n).i(box[0]->m.nc).i(box[1]->m.n).i(box[1]->m.nc).d(box[0]->m.dt).d(box[1]->m.dt).h);
        }
        mc::mem::fill(-1);
    }
    x.check(mc::mem::live() == before, "%ld heap blocks left after destroying the states", mc::mem::live() - before);
}

// chains of copies through every pair of sizes, up to large ones
void chains(mc::Ctx &x) {
    static const int sz[][2] = {{0, 0}, {1, 0}, {0, 3}, {3, 1}, {1, 6}, {17, 40}, {300, 9}, {2, 600}, {9000, 3}, {5, 70000}};
    Box a, b, c;
    const int *p = sz[x.choose(10, "first")], *q = sz[x.choose(10, "second")], *r = sz[x.choose(10, "third")];
    if (!x.thorough() && (p - sz[0] >= 16) + (q - sz[0] >= 16) + (r - sz[0] >= 16) > 1) x.discard();
    a.s->resize(p[0], p[1]); a.fill(1);
    b.s->resize(q[0], q[1]); b.fill(2);
    c.s->resize(r[0], r[1]); c.fill(3);
    b.s->copy(a.s); b.m = a.m; x.step();
    a.verify(x, "source", "copy"); b.verify(x, "destination", "copy");
    a.fill(4); // independence
    b.verify(x, "destination", "a change of the source");
    c.s->copy(b.s); c.m = b.m; x.step();
    b.fill(5);
    c.verify(x, "second destination", "a change of its source");
    a.s->destroy(); a.m = Model(); a.m.dt = a.s->dt;
    c.verify(x, "second destination", "destroying the original");
    a.s->copy(c.s); a.m = c.m; x.step();
    a.verify(x, "recreated", "copying back");
    a.s->resize(q[0], q[1]); a.fill(6);
    a.verify(x, "recreated", "resizing");
    c.verify(x, "second destination", "the end");
    x.state(mc::Hash().i(p[0]).i(p[1]).i(q[0]).i(q[1]).i(r[0]).i(r[1]).h);
}

// the state a system publishes has its current numbers of bodies and rows
void published(mc::Ctx &x) {
    static const struct { int sys, integ; } combos[] = {{SYS_NSV, NSV}, {SYS_GEN, EULER}, {SYS_GEN, NSV}, {SYS_GEN, RK4}};
    auto cb = x.pick(combos, "system");
    int solver = x.choose(SOLVERS, "solver");
    Scene sc;
    for (int i = 0; i < 3; ++i) sc.b.push_back(gen::defaultBody(i));
    ConD c;
    c.kind = FIXPOS; c.b0 = 0; sc.c.push_back(c);
    c.kind = WELD; c.b0 = 1; c.b1 = 0; sc.c.push_back(c);
    c.kind = CLUTCH; c.b0 = 2; c.b1 = 0; sc.c.push_back(c);
    real::System s(cb.sys, solver, cb.integ);
    real::Objects ob(sc);
    bool in[3] = {false, false, false}, con[3] = {false, false, false};
    int depth = x.thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d) {
        int op = x.choose(8, "op");
        if (op == 0) break;
        if (op <= 3) {
            int i = op - 1;
            bool used = false;
            for (int k = 0; k < 3; ++k) if (con[k] && (sc.c[k].b0 == i || (conBodies(sc.c[k].kind) == 2 && sc.c[k].b1 == i))) used = true;
            if (in[i] && used) x.discard();
            if (in[i]) s.sys->removeRigidBody(ob.b[i]); else s.sys->addRigidBody(ob.b[i]);
            in[i] = !in[i];
            x.note("%s body %d", in[i] ? "add" : "remove", i);
        } else if (op <= 6) {
            int k = op - 4;
            if (!con[k] && (!in[sc.c[k].b0] || (conBodies(sc.c[k].kind) == 2 && !in[sc.c[k].b1]))) x.discard();
            if (con[k]) s.sys->removeConstraint(ob.c[k]); else s.sys->addConstraint(ob.c[k]);
            con[k] = !con[k];
            x.note("%s constraint %d", con[k] ? "add" : "remove", k);
        } else {
            s.sys->reset();
            for (int i = 0; i < 3; ++i) { in[i] = con[i] = false; ob.b[i]->index = -1; ob.c[i]->m_index = -1; }
            x.note("clear");
        }
        if (d + 1 < depth && x.choose(2, "step") == 0) continue;
        s.sys->process(1 / 64.0, 1 + d % 2);
        x.step();
        int n = 0, rows = 0;
        for (int i = 0; i < 3; ++i) { n += in[i]; if (con[i]) rows += conRows(sc.c[i].kind); }
        SystemState *t = const_cast<SystemState *>(s.sys->state());
        x.check(t->n == n && t->n_c == rows, "published state has %d bodies and %d rows, the system %d and %d", t->n, t->n_c, n, rows);
        double *b[kBody], *r[kRow];
        arrays(t, b, r);
        double sum = 0;
        for (int k = 0; k < kBody; ++k) for (int i = 0; i < n; ++i) sum += std::isfinite(b[k][i]) ? 0 : 1;
        for (int k = 0; k < kRow; ++k) for (int i = 0; i < 2 * rows; ++i) sum += std::isfinite(r[k][i]) ? 0 : 1;
        x.check(sum == 0, "%g values of the published state are not finite", sum);
        for (int i = 0; i < 3; ++i) if (in[i]) {
            int k = ob.b[i]->index;
            x.check(t->p_x[k] == ob.b[i]->p_x && t->p_y[k] == ob.b[i]->p_y && t->theta[k] == ob.b[i]->theta && t->v_x[k] == ob.b[i]->v_x && t->v_y[k] == ob.b[i]->v_y && t->v_theta[k] == ob.b[i]->v_theta && t->m[k] == ob.b[i]->m, "published state of body %d differs from the body", i);
        }
        // a copy of it is faithful too
        SystemState cp;
        cp.copy(t);
        bool same = cp.n == n && cp.n_c == rows;
        if (same) {
            double *b2[kBody], *r2[kRow];
            arrays(&cp, b2, r2);
            for (int k = 0; k < kBody; ++k) for (int i = 0; i < n; ++i) same = same && b2[k][i] == b[k][i];
            for (int k = 0; k < kRow; ++k) for (int i = 0; i < 2 * rows; ++i) same = same && r2[k][i] == r[k][i];
            for (int i = 0; i < rows; ++i) same = same && cp.indexMap[i] == t->indexMap[i];
        }
        cp.destroy();
        x.check(same, "copy of the published state differs");
        x.state(mc::Hash().i(n).i(rows).u(real::hashBodies(ob.b)).h);
    }
    x.state(0);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C20",
                   "all sequences of resize/copy/overwrite/destroy over two states to the depth bound against a value model with heap accounting; copies through every triple of sizes up to 600; all histories of adding, removing, clearing and stepping a system, checking the published state's extent and contents",
                   {{"sequences", sequences, 0, 0, false}, {"chains", chains, 0, 0, false}, {"constructed", constructed, 0, 0, false}, {"published", published, 0, 0, false}},
                   {"a state is not copied onto itself"});
}
