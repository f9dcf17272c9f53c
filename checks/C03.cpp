// C03: no valid history of calls crashes, strays outside its memory or leaks.
// Every history is run once per content of fresh memory, under address
// sanitizer; everything observable must be the same each time, and all heap
// blocks must be gone after the teardown.
#include "scenes.h"
#include <algorithm>
#include <memory>
using namespace atg_scs;
using namespace ref;

namespace {
struct Log {
    std::vector<double> v;
    std::vector<const char *> what;
    Log() { v.reserve(4096); what.reserve(4096); }
    void add(double d, const char *w) { if (v.size() < v.capacity()) { v.push_back(d); what.push_back(w); } }
};
bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
// runs a history under each of `n` contents of fresh memory
template <class F> void everyMemory(mc::Ctx &x, int n, F run) {
    Log first, other;
    for (int k = 0; k < n; ++k) {
        Log &l = k ? other : first;
        l.v.clear(); l.what.clear();
        long before = mc::mem::live();
        mc::mem::fill(k);
        run(l);
        mc::mem::fill(-1);
        x.check(mc::mem::live() == before, "%ld heap blocks left after the teardown", mc::mem::live() - before);
        if (!k) continue;
        x.check(first.v.size() == other.v.size(), "%zu values with fresh memory %s, %zu with %s", first.v.size(), mc::mem::patternName(0), other.v.size(), mc::mem::patternName(k));
        for (size_t i = 0; i < first.v.size(); ++i)
            x.check(same(first.v[i], other.v[i]), "%s is %.17g when fresh memory contains %s and %.17g when it contains %s", first.what[i], first.v[i], mc::mem::patternName(0), other.v[i], mc::mem::patternName(k));
    }
    mc::Hash h;
    for (double d : first.v) h.d(d);
    x.state(h.h);
}

// ---------------------------------------------------------------- matrices
const int mSizes[][2] = {{0, 0}, {1, 1}, {3, 1}, {1, 3}, {2, 2}, {0, 2}, {5, 2}, {2, 5}, {2, 0}};
struct MOp { int op, who, size; };
void logMatrix(Log &l, Matrix *m) {
    l.add(m->getWidth(), "matrix width"); l.add(m->getHeight(), "matrix height");
    for (int r = 0; r < m->getHeight(); ++r) for (int c = 0; c < m->getWidth(); ++c) l.add(m->get(c, r), "matrix entry");
}
void matrices(mc::Ctx &x) {
    std::vector<MOp> ops;
    const int S = sizeof mSizes / sizeof *mSizes, per = 4 * S + 3;
    int depth = x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(2 * per + 1, "op");
        if (k == 2 * per) break;
        MOp o{k % per < 4 * S ? (k % per) / S : 4 + k % per - 4 * S, k / per, (k % per) % S};
        static const char *const n[] = {"resize and fill", "initialize", "initialize with value", "constructed with", "destroy", "recreate", "set from the other"};
        if (o.op < 4) x.note("%d: %s %dx%d", o.who, n[o.op], mSizes[o.size][0], mSizes[o.size][1]); else x.note("%d: %s", o.who, n[o.op]);
        ops.push_back(o);
    }
    everyMemory(x, mc::mem::patterns(), [&](Log &l) {
        Matrix *m[3] = {new Matrix, new Matrix, new Matrix};
        for (size_t d = 0; d < ops.size(); ++d) {
            const MOp &o = ops[d];
            Matrix *&a = m[o.who], *b = m[1 - o.who], *t = m[2];
            int w = mSizes[o.size][0], h = mSizes[o.size][1];
            switch (o.op) {
            case 0: a->resize(w, h); for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) a->set(c, r, 1 + c + 10 * r + 100 * (int)d); break;
            case 1: a->initialize(w, h); break;
            case 2: a->initialize(w, h, 0.5 + d); break;
            case 3: a->destroy(); delete a; a = new Matrix(w, h, 2.5 + d); break;
            case 4: a->destroy(); break;
            case 5: a->destroy(); delete a; a = new Matrix; break;
            case 6: a->set(b); break;
            }
            x.step();
            logMatrix(l, a); logMatrix(l, b);
            int aw = a->getWidth(), ah = a->getHeight(), bw = b->getWidth(), bh = b->getHeight();
            if (aw == bh) { a->multiply(*b, t); logMatrix(l, t); }
            if (ah == bh) { a->transposeMultiply(*b, t); logMatrix(l, t); }
            if (aw == bw && ah == bh) {
                a->componentMultiply(*b, t); logMatrix(l, t);
                a->add(*b, t); logMatrix(l, t); a->subtract(*b, t); logMatrix(l, t);
                l.add(a->equals(*b), "equals");
                t->set(a); t->madd(*b, 0.5); logMatrix(l, t); t->pmadd(*b, 0.5); logMatrix(l, t);
                if (aw == 1) l.add(a->dot(*b), "dot product");
            }
            a->transpose(t); logMatrix(l, t); a->negate(t); logMatrix(l, t); a->scale(3, t); logMatrix(l, t);
            if (aw == 1) l.add(a->vectorMagnitudeSquared(), "magnitude");
            if (bw == 1 && bh == ah) { a->leftScale(*b, t); logMatrix(l, t); }
            if (bw == 1 && bh == aw) { a->rightScale(*b, t); logMatrix(l, t); }
            if (ah > 1) { a->fastRowSwap(0, ah - 1); logMatrix(l, a); }
        }
        for (Matrix *p : m) { p->destroy(); delete p; }
    });
}

// ---------------------------------------------------------------- sparse
template <int S, int E> void sparseHistory(mc::Ctx &x) {
    static const int sz[][2] = {{1, 1}, {4, 3}, {2, 6}, {9, 2}, {1, 0}, {3, 3}, {4, 5}};
    const int K = 7, per = 2 * K * 3 + 2;
    std::vector<MOp> ops;
    int depth = x.thorough() ? 3 : 2;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(2 * per + 1, "op");
        if (k == 2 * per) break;
        MOp o{k % per < 6 * K ? (k % per) / K : 6 + k % per - 6 * K, k / per, (k % per) % K};
        if (o.op < 6) x.note("%d: %s %dx%d fill %d", o.who, o.op % 2 ? "resize" : "initialize", S * sz[o.size][0], sz[o.size][1], o.op / 2); else x.note("%d: %s", o.who, o.op == 6 ? "destroy" : "recreate");
        ops.push_back(o);
    }
    everyMemory(x, mc::mem::patterns(), [&](Log &l) {
        typedef SparseMatrix<S, E> M;
        M *m[3] = {new M, new M, new M};
        Matrix *t = new Matrix, *v = new Matrix, *wd = new Matrix;
        for (size_t d = 0; d < ops.size(); ++d) {
            const MOp &o = ops[d];
            M *&a = m[o.who], *b = m[1 - o.who];
            int w = S * sz[o.size][0], h = sz[o.size][1];
            if (o.op < 6) {
                if (o.op % 2) a->resize(w, h); else a->initialize(w, h);
                bool all = o.op % 2; // after resize alone every block has to be written
                for (int r = 0; r < h; ++r)
                    for (int e = 0; e < E; ++e) {
                        bool put = o.op / 2 == 0 || (o.op / 2 == 1 && (r + e) % 2);
                        if (put) { a->setBlock(r, e, (r * E + e) % sz[o.size][0]); for (int s = 0; s < S; ++s) a->set(r, e, s, 1 + r + 0.1 * e + 0.01 * s); }
                        else if (all || (r + e) % 3 == 0) a->setEmpty(r, e);
                    }
            } else { a->destroy(); if (o.op == 7) { delete a; a = new M; } }
            x.step();
            for (M *p : {a, b}) {
                l.add(p->getWidth(), "width"); l.add(p->getHeight(), "height");
                if (!p->getHeight() || !p->getWidth()) continue;
                int pw = p->getWidth(), ph = p->getHeight();
                for (int r = 0; r < ph; ++r) for (int e = 0; e < E; ++e) for (int s = 0; s < S; ++s) l.add(p->get(r, e, s), "sparse entry");
                p->expand(t); logMatrix(l, t);
                p->expandTransposed(t); logMatrix(l, t);
                p->multiplyTranspose(*p, t); logMatrix(l, t);
                wd->initialize(1, pw, 1.5); p->multiply(*wd, t); logMatrix(l, t);
                p->rightScale(*wd, m[2]); m[2]->expand(t); logMatrix(l, t);
                v->initialize(1, ph, -2); p->transposeMultiplyVector(*v, t); logMatrix(l, t);
                p->leftScale(*v, m[2]); m[2]->expand(t); logMatrix(l, t);
            }
            if (a->getWidth() == b->getWidth() && a->getHeight() && b->getHeight()) { a->multiplyTranspose(*b, t); logMatrix(l, t); }
        }
        for (M *p : m) { p->destroy(); delete p; }
        for (Matrix *p : {t, v, wd}) { p->destroy(); delete p; }
    });
}
void sparse(mc::Ctx &x) {
    switch (x.choose(3, "shape")) {
    case 0: sparseHistory<3, 2>(x); break;
    case 1: sparseHistory<2, 1>(x); break;
    default: sparseHistory<1, 4>(x);
    }
}

// ---------------------------------------------------------------- state buffers
void states(mc::Ctx &x) {
    static const int sz[][2] = {{0, 0}, {1, 0}, {0, 1}, {3, 1}, {1, 4}, {6, 6}};
    struct Op { int op, who, size; };
    std::vector<Op> ops;
    int depth = x.thorough() ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(19, "op");
        if (k == 18) break;
        Op o{k % 9 < 6 ? 0 : k % 9 - 5, k / 9, k % 9 < 6 ? k % 9 : 0};
        static const char *const n[] = {"resize", "copy", "destroy", "recreate"};
        x.note("%d: %s %d,%d", o.who, n[o.op], sz[o.size][0], sz[o.size][1]);
        ops.push_back(o);
    }
    everyMemory(x, 2, [&](Log &l) {
        SystemState *s[2] = {new SystemState, new SystemState};
        s[0]->dt = s[1]->dt = 0;
        for (size_t d = 0; d < ops.size(); ++d) {
            SystemState *&a = s[ops[d].who], *b = s[1 - ops[d].who];
            switch (ops[d].op) {
            case 0: {
                a->resize(sz[ops[d].size][0], sz[ops[d].size][1]);
                double *bb[] = {a->a_theta, a->v_theta, a->theta, a->a_x, a->a_y, a->v_x, a->v_y, a->p_x, a->p_y, a->f_x, a->f_y, a->t, a->m};
                double *rr[] = {a->r_x, a->r_y, a->r_t};
                for (double *p : bb) for (int i = 0; i < a->n; ++i) p[i] = 1 + i + 0.01 * d;
                for (double *p : rr) for (int i = 0; i < 2 * a->n_c; ++i) p[i] = 100 + i + 0.01 * d;
                for (int i = 0; i < a->n_c; ++i) a->indexMap[i] = i;
                break;
            }
            case 1: a->copy(b); break;
            case 2: a->destroy(); break;
            case 3: a->destroy(); delete a; a = new SystemState; a->dt = 0; break;
            }
            x.step();
            for (SystemState *p : s) {
                l.add(p->n, "bodies"); l.add(p->n_c, "rows");
                double *bb[] = {p->a_theta, p->v_theta, p->theta, p->a_x, p->a_y, p->v_x, p->v_y, p->p_x, p->p_y, p->f_x, p->f_y, p->t, p->m};
                double *rr[] = {p->r_x, p->r_y, p->r_t};
                for (double *q : bb) for (int i = 0; i < p->n; ++i) l.add(q[i], "state entry");
                for (double *q : rr) for (int i = 0; i < 2 * p->n_c; ++i) l.add(q[i], "state reaction entry");
                for (int i = 0; i < p->n; ++i) {
                    double u, w; p->localToWorld(0.3, -0.2, &u, &w, i); l.add(u, "world x"); l.add(w, "world y");
                    p->velocityAtPoint(0.3, -0.2, &u, &w, i); l.add(u, "point velocity"); p->applyForce(0.1, 0.2, 1, -1, i); l.add(p->t[i], "torque");
                }
            }
        }
        for (SystemState *p : s) { p->destroy(); delete p; }
    });
}

// ---------------------------------------------------------------- solvers
struct Sys { SparseMatrix<3> J; Matrix W, right, limits; ~Sys() { J.destroy(); W.destroy(); right.destroy(); limits.destroy(); } };
void build(Sys *s, int bodies, int rows) {
    s->J.initialize(3 * bodies, rows); s->W.initialize(1, 3 * bodies, 0.5); s->right.initialize(1, rows); s->limits.initialize(2, rows);
    for (int r = 0; r < rows; ++r) {
        s->J.setBlock(r, 0, r % bodies);
        s->J.set(r, 0, (r / bodies) % 3, 2); // each row on a freedom of its own
        if (bodies > 1 && r) { s->J.setBlock(r, 1, (r + 1) % bodies); s->J.set(r, 1, 2, 0.25); }
        s->right.set(0, r, 1 + 0.5 * r);
        s->limits.set(0, r, r % 2 ? -0.4 : -DBL_MAX); s->limits.set(1, r, r % 2 ? 0.4 : DBL_MAX);
    }
}
void solvers(mc::Ctx &x) {
    static const int sz[][2] = {{0, 0}, {1, 0}, {1, 1}, {1, 3}, {2, 2}, {5, 1}, {3, 7}, {5, 12}};
    int kind = x.choose(SOLVERS, "solver");
    bool keep = x.choose(2, "keep result");
    std::vector<int> ops;
    int depth = x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int n = kind == GS ? 26 : 18, k = x.choose(n, "op");
        if (k == 0) break;
        ops.push_back(k);
        int s = (k - 2) % 8;
        if (k == 1) x.note("recreate solver"); else x.note("%s %d bodies %d rows", k < 10 ? "solve" : k < 18 ? "solve from the last result" : "solve with limits", sz[s][0], sz[s][1]);
    }
    everyMemory(x, mc::mem::patterns(), [&](Log &l) {
        SleSolver *s = real::makeSolver(kind);
        Matrix *result = new Matrix;
        for (int op : ops) {
            if (op == 1) { delete s; s = real::makeSolver(kind); continue; }
            const int *z = sz[(op - 2) % 8];
            if (!keep) { result->destroy(); delete result; result = new Matrix; }
            Sys *q = new Sys;
            build(q, z[0], z[1]);
            bool ok = op < 10 ? s->solve(q->J, q->W, q->right, nullptr, result)
                    : op < 18 ? s->solve(q->J, q->W, q->right, result, result)
                              : s->solveWithLimits(q->J, q->W, q->right, q->limits, result, result);
            x.step();
            l.add(ok, "solver's return value");
            if (ok) logMatrix(l, result);
            delete q;
        }
        result->destroy(); delete result; delete s;
    });
}

// ---------------------------------------------------------------- systems
struct Config { int kind, solver, integ; };
const std::vector<Config> &configs() {
    static std::vector<Config> c;
    if (c.empty()) for (int s = 0; s < SOLVERS; ++s) { c.push_back({SYS_NSV, s, NSV}); for (int i = 0; i < INTEGS; ++i) c.push_back({SYS_GEN, s, i}); }
    return c;
}
Scene pool() {
    Scene s;
    for (int i = 0; i < 4; ++i) s.b.push_back(gen::defaultBody(i));
    auto con = [&](int k, int a, int b) { ConD c; c.kind = k; c.b0 = a; c.b1 = b; c.r = 1.7; s.c.push_back(c); };
    con(FIXPOS, 0, -1); con(LINK, 0, 1); con(CLUTCH, 2, 1); con(GEAR, 1, 2); con(FIXROT, 3, -1);
    auto gen = [&](int k, int a, int b) { GenD g; g.kind = k; g.b0 = a; g.b1 = b; if (k == MOTOR) { g.ks = 3; g.kd = 0.1; } s.g.push_back(g); };
    gen(GRAVITY, 0, 0); gen(SPRING, 0, 3); gen(MOTOR, 2, 1);
    return s;
}
// what the current membership allows
struct Members {
    bool b[4] = {}, c[5] = {}, g[3] = {};
    bool ok() const {
        if (c[0] && !b[0]) return false;
        if (c[1] && !(b[0] && b[1])) return false;
        if ((c[2] || c[3]) && !(b[1] || b[2])) return false;
        if (c[2] && c[3] && !(b[1] && b[2])) return false;
        if (c[4] && !b[3]) return false;
        if (g[2] && !b[1]) return false;
        return true;
    }
};
enum { TOG = 0, PROC1 = 12, PROC3, RESET, NEWSYS, NEWOBJ, REINIT, OPS };
struct Life {
    int kind, solver, integ;
    real::System *sys;
    real::Objects *o;
    Members m;
    void toggle(int k) {
        RigidBodySystem *s = sys->sys;
        if (k < 4) { if (m.b[k]) s->removeRigidBody(o->b[k]); else s->addRigidBody(o->b[k]); m.b[k] = !m.b[k]; }
        else if (k < 9) { k -= 4; if (m.c[k]) s->removeConstraint(o->c[k]); else s->addConstraint(o->c[k]); m.c[k] = !m.c[k]; }
        else { k -= 9; if (m.g[k]) s->removeForceGenerator(o->g[k]); else s->addForceGenerator(o->g[k]); m.g[k] = !m.g[k]; }
    }
    void forget() { m = Members(); for (auto *p : o->b) p->index = -1; for (auto *p : o->c) p->m_index = -1; for (auto *p : o->g) p->m_index = -1; }
    void log(Log &l) {
        for (auto *p : o->b) { l.add(p->p_x, "body p_x"); l.add(p->p_y, "body p_y"); l.add(p->theta, "body theta"); l.add(p->v_x, "body v_x"); l.add(p->v_y, "body v_y"); l.add(p->v_theta, "body v_theta"); l.add(p->index, "body index"); }
        for (auto *p : o->c) for (int r = 0; r < 3; ++r) for (int e = 0; e < 2; ++e) { l.add(p->F_x[r][e], "reaction F_x"); l.add(p->F_y[r][e], "reaction F_y"); l.add(p->F_t[r][e], "reaction F_t"); }
        const SystemState *s = sys->sys->state();
        l.add(s->n, "state n"); l.add(s->n_c, "state n_c");
        for (int i = 0; i < s->n; ++i) { l.add(s->p_x[i], "state p_x"); l.add(s->v_y[i], "state v_y"); l.add(s->a_x[i], "state a_x"); l.add(s->a_theta[i], "state a_theta"); l.add(s->f_y[i], "state f_y"); l.add(s->t[i], "state t"); }
        for (int i = 0; i < s->n_c; ++i) { l.add(s->r_x[2 * i], "state r_x"); l.add(s->r_t[2 * i + 1], "state r_t"); }
    }
};
void runLife(mc::Ctx &x, const Config &c, int start, const std::vector<int> &ops, int teardown, Log &l) {
    Life s{c.kind, c.solver, c.integ, new real::System(c.kind, c.solver, c.integ), new real::Objects(pool()), {}};
    if (start) for (int k = 0; k < 12; ++k) s.toggle(k);
    for (size_t d = 0; d <= ops.size(); ++d) {
        int op = d < ops.size() ? ops[d] : (int)PROC1;
        if (op < 12) s.toggle(op);
        else switch (op) {
        case PROC1: s.sys->sys->process(1 / 64.0, 1); s.log(l); x.step(); break;
        case PROC3: s.sys->sys->process(1 / 32.0, 3); s.log(l); x.step(); break;
        case RESET: s.sys->sys->reset(); s.forget(); break;
        case NEWSYS: delete s.sys; s.sys = new real::System(c.kind, c.solver, c.integ); s.forget(); break;
        case NEWOBJ: { // everything unregistered is deleted and made again
            Scene p = pool();
            for (int i = 0; i < 4; ++i) if (!s.m.b[i]) real::setBody(s.o->b[i], p.b[i]);
            for (int i = 0; i < 5; ++i) if (!s.m.c[i]) { delete s.o->c[i]; s.o->c[i] = real::makeConstraint(p.c[i], s.o->b); }
            for (int i = 0; i < 3; ++i) if (!s.m.g[i]) { delete s.o->g[i]; s.o->g[i] = real::makeGenerator(p.g[i], s.o->b); }
            break;
        }
        case REINIT: { // other solver objects
            SleSolver *sle = real::makeSolver(c.solver); OdeSolver *ode = s.sys->gen ? real::makeIntegrator(c.integ) : nullptr;
            if (s.sys->gen) s.sys->gen->initialize(sle, ode); else s.sys->nsv->initialize(sle);
            delete s.sys->sle; delete s.sys->ode; s.sys->sle = sle; s.sys->ode = ode;
            break;
        }
        }
    }
    switch (teardown) {
    case 0: delete s.sys; delete s.o; break;
    case 1: delete s.o; delete s.sys; break;
    default: for (int k = 11; k >= 0; --k) if (k < 4 ? s.m.b[k] : k < 9 ? s.m.c[k - 4] : s.m.g[k - 9]) s.toggle(k); delete s.o; delete s.sys;
    }
}
void systems(mc::Ctx &x) {
    const Config &c = configs()[x.choose((int)configs().size(), "configuration")];
    x.note("%s/%s/%s", sysNames[c.kind], solverNames[c.solver], integNames[c.integ]);
    int start = x.choose(3, "start"); // empty; everything; everything and stepped
    // longer histories for half of the configurations only, unless thorough
    bool longer = x.thorough() || c.kind == SYS_NSV || c.integ == (c.solver + 2) % 3;
    static const char *const names[] = {"body 0", "body 1", "body 2", "body 3", "fixed position", "link", "clutch", "gear", "fixed rotation", "gravity", "spring", "motor"};
    static const char *const rest[] = {"step", "three steps", "clear", "new system", "new unregistered objects", "new solver objects"};
    std::vector<int> ops;
    Members m;
    auto flip = [&](int k) { bool &v = k < 4 ? m.b[k] : k < 9 ? m.c[k - 4] : m.g[k - 9]; v = !v; return v; };
    if (start) for (int k = 0; k < 12; ++k) flip(k);
    if (start == 2) ops.push_back(PROC1);
    int depth = (x.thorough() ? 4 : 3) + (start == 0 && longer);
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(OPS + 1, "op");
        if (k == OPS) break;
        if (k < 12) { bool in = flip(k); x.note("%s %s", in ? "add" : "remove", names[k]); }
        else {
            x.note("%s", rest[k - 12]);
            if (k == RESET || k == NEWSYS) m = Members();
            if ((k == PROC1 || k == PROC3) && !m.ok()) x.discard();
        }
        ops.push_back(k);
    }
    if (!m.ok()) x.discard();
    int teardown = x.deviate(3, "teardown");
    everyMemory(x, x.thorough() ? mc::mem::patterns() : 2, [&](Log &l) { runLife(x, c, start != 0, ops, teardown, l); });
}

// every kind whose documentation allows it, with each end in each condition
void ends(mc::Ctx &x) {
    const Config &c = configs()[x.choose((int)configs().size(), "configuration")];
    int what = x.choose(6, "kind");
    static const char *const n[] = {"spring", "clutch", "gear", "motor", "spring twice", "clutch and spring"};
    int first = x.choose(3, "first end"), second = x.choose(3, "second end"); // registered, never registered, removed again
    x.note("%s/%s/%s %s %d %d", sysNames[c.kind], solverNames[c.solver], integNames[c.integ], n[what], first, second);
    bool both = first && second;
    if (both && (what == 1 || what == 2 || what == 5)) x.discard();
    if (what == 3 && second) x.discard();
    int others = x.choose(3, "other bodies"), steps = 1 + x.choose(3, "steps"), reAdd = x.choose(2, "register later");
    bool firstLast = x.choose(2, "order");
    everyMemory(x, mc::mem::patterns(), [&](Log &l) {
        Scene s;
        for (int i = 0; i < 4; ++i) s.b.push_back(gen::defaultBody(i));
        auto con = [&](int k) { ConD q; q.kind = k; q.b0 = 0; q.b1 = 1; q.r = 1.7; s.c.push_back(q); };
        auto gen = [&](int k) { GenD g; g.kind = k; g.b0 = 0; g.b1 = 1; if (k == MOTOR) { g.ks = 3; g.kd = 0.1; } s.g.push_back(g); };
        if (what == 0 || what == 4 || what == 5) gen(SPRING);
        if (what == 4) gen(SPRING);
        if (what == 1 || what == 5) con(CLUTCH);
        if (what == 2) con(GEAR);
        if (what == 3) gen(MOTOR);
        real::System *r = new real::System(c.kind, c.solver, c.integ);
        real::Objects *o = new real::Objects(s);
        auto put = [&](int i, int how) { if (how != 1) r->sys->addRigidBody(o->b[i]); };
        if (firstLast) { for (int i = 0; i < others; ++i) r->sys->addRigidBody(o->b[2 + i]); put(1, second); put(0, first); }
        else { put(0, first); put(1, second); for (int i = 0; i < others; ++i) r->sys->addRigidBody(o->b[2 + i]); }
        if (first == 2) r->sys->removeRigidBody(o->b[0]);
        if (second == 2) r->sys->removeRigidBody(o->b[1]);
        for (auto *p : o->c) r->sys->addConstraint(p);
        for (auto *p : o->g) r->sys->addForceGenerator(p);
        Life life{c.kind, c.solver, c.integ, r, o, {}};
        for (int k = 0; k < 2; ++k) { r->sys->process(1 / 64.0, steps); x.step(); life.log(l); }
        if (reAdd) {
            if (first) r->sys->addRigidBody(o->b[0]);
            if (second) r->sys->addRigidBody(o->b[1]);
            r->sys->process(1 / 64.0, steps); x.step(); life.log(l);
        }
        for (auto *g : o->g) if (auto *sp = dynamic_cast<Spring *>(g)) { double a, b, e, f; sp->getEnds(&a, &b, &e, &f); l.add(a, "spring end"); l.add(f, "spring end"); l.add(sp->energy(), "spring energy"); }
        delete r; delete o;
    });
}

// sizes from nothing to many and back through one system
void sizes(mc::Ctx &x) {
    const Config &c = configs()[x.choose((int)configs().size(), "configuration")];
    static const int sz[][2] = {{0, 0}, {1, 0}, {1, 1}, {5, 1}, {4, 4}, {20, 3}, {20, 20}, {70, 0}};
    int seq[4], depth = x.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) seq[d] = x.choose(8, "size");
    for (int d = 0; d < depth; ++d) x.note("%d bodies %d constraints", sz[seq[d]][0], sz[seq[d]][1]);
    int how = x.choose(2, "clear");
    everyMemory(x, x.thorough() ? 3 : 2, [&](Log &l) {
        real::System *r = new real::System(c.kind, c.solver, c.integ);
        for (int d = 0; d < depth; ++d) {
            Scene s;
            for (int i = 0; i < sz[seq[d]][0]; ++i) s.b.push_back(gen::defaultBody(i));
            for (int i = 0; i < sz[seq[d]][1]; ++i) { ConD q; q.kind = i % 2 ? LINE : FIXPOS; q.b0 = i; s.c.push_back(q); }
            GenD g; s.g.push_back(g);
            real::Objects *o = new real::Objects(s);
            o->registerAll(r->sys);
            for (int k = 0; k < 2; ++k) r->sys->process(1 / 64.0, 1 + k);
            x.step();
            for (auto *b : o->b) { l.add(b->p_x, "body p_x"); l.add(b->v_theta, "body v_theta"); }
            for (auto *k : o->c) for (int q = 0; q < k->getConstraintCount(); ++q) { l.add(k->F_x[q][0], "reaction F_x"); l.add(k->F_t[q][0], "reaction F_t"); }
            if (how) r->sys->reset();
            else {
                for (size_t i = o->c.size(); i-- > 0;) r->sys->removeConstraint(o->c[i]);
                for (auto *q : o->g) r->sys->removeForceGenerator(q);
                for (auto *b : o->b) r->sys->removeRigidBody(b);
            }
            delete o;
        }
        delete r;
    });
}

// objects as constructed: their links, forces and parameters are defined, and
// stepping an otherwise complete scene with default parameters works
template <class T> double at(const T *p, size_t off) { double d; memcpy(&d, (const char *)p + off, 8); return d; }
void fresh(mc::Ctx &x) {
    int k = x.choose(13, "class");
    int sysKind = x.choose(2, "system");
    everyMemory(x, mc::mem::patterns(), [&](Log &l) {
        RigidBody *b = new RigidBody;
        l.add(b->p_x, "default p_x"); l.add(b->p_y, "default p_y"); l.add(b->theta, "default theta"); l.add(b->v_x, "default v_x"); l.add(b->v_y, "default v_y"); l.add(b->v_theta, "default v_theta"); l.add(b->m, "default m"); l.add(b->I, "default I"); l.add(b->index, "default index");
        b->m = 2; b->I = 1.5; b->theta = 0.3; b->p_x = 1;
        RigidBody *d = new RigidBody; d->m = 1; d->I = 0.7; d->p_y = -0.8; d->p_x = 0.4;
        real::System *r = new real::System(sysKind, GE, sysKind == SYS_NSV ? NSV : RK4);
        r->sys->addRigidBody(b); r->sys->addRigidBody(d);
        Constraint *c = nullptr; ForceGenerator *g = nullptr;
        switch (k) {
        case 0: { auto *q = new FixedPositionConstraint; q->setBody(b); c = q; break; }
        case 1: { auto *q = new FixedRotationConstraint; q->setBody(b); c = q; break; }
        case 2: { auto *q = new LineConstraint; q->setBody(b); l.add(q->m_p0_x, "line p0_x"); l.add(q->m_p0_y, "line p0_y"); l.add(q->m_local_x, "line local_x"); l.add(q->m_local_y, "line local_y"); l.add(q->m_dx, "line dx"); l.add(q->m_dy, "line dy"); q->m_dx = 1; q->m_dy = 0; c = q; break; }
        case 3: { auto *q = new LinkConstraint; q->setBody1(b); q->setBody2(d); c = q; break; }
        case 4: { auto *q = new RollingConstraint; q->setBaseBody(b); q->setRollingBody(d); l.add(q->m_local_x, "rolling local_x"); l.add(q->m_local_y, "rolling local_y"); l.add(q->m_dx, "rolling dx"); l.add(q->m_dy, "rolling dy"); l.add(q->m_radius, "rolling radius"); q->m_dx = 1; q->m_radius = 0.5; c = q; break; }
        case 5: { auto *q = new ClutchConstraint; q->setBody1(b); q->setBody2(d); c = q; break; }
        case 6: { auto *q = new SimpleGearConstraint; q->setBody1(b); q->setBody2(d); c = q; l.add(q->m_ratio, "gear ratio"); l.add(q->m_neutral, "gear neutral"); break; }
        case 7: { auto *q = new ConstantRotationConstraint; q->setBody(b); c = q; break; }
        case 8: { auto *q = new RotationFrictionConstraint; q->setBody(b); c = q; break; }
        case 9: { auto *q = new Spring; l.add(q->energy(), "energy of a spring without ends"); q->m_body1 = b; q->m_body2 = d; g = q; break; }
        case 10: { auto *q = new ConstantSpeedMotor; q->m_body0 = b; q->m_body1 = d; g = q; break; }
        case 11: { auto *q = new StaticForceGenerator; q->m_body = b; g = q; break; }
        default: { auto *q = new GravityForceGenerator; l.add(q->m_g, "gravity"); g = q; break; }
        }
        if (c) {
            l.add(c->m_index, "constraint index"); l.add(c->m_bodyCount, "body count"); l.add(c->getConstraintCount(), "row count");
            for (int i = 0; i < 3; ++i) for (int e = 0; e < 2; ++e) { l.add(c->F_x[i][e], "default F_x"); l.add(c->F_y[i][e], "default F_y"); l.add(c->F_t[i][e], "default F_t"); }
            r->sys->addConstraint(c);
        }
        if (g) { l.add(g->m_index, "generator index"); r->sys->addForceGenerator(g); }
        for (int i = 0; i < 2; ++i) { r->sys->process(1 / 64.0, 1); x.step(); }
        for (RigidBody *p : {b, d}) { l.add(p->p_x, "body p_x"); l.add(p->p_y, "body p_y"); l.add(p->theta, "body theta"); l.add(p->v_x, "body v_x"); l.add(p->v_y, "body v_y"); l.add(p->v_theta, "body v_theta"); }
        if (c) for (int i = 0; i < c->getConstraintCount(); ++i) for (int e = 0; e < c->m_bodyCount; ++e) { l.add(c->F_x[i][e], "reaction F_x"); l.add(c->F_y[i][e], "reaction F_y"); l.add(c->F_t[i][e], "reaction F_t"); }
        delete r; delete c; delete g; delete b; delete d;
    });
}
// classes destroyed without use, integrators driven by hand, abstract defaults
void unused(mc::Ctx &x) {
    int a = x.choose(12, "class"), b = x.choose(12, "second class");
    everyMemory(x, mc::mem::patterns(), [&](Log &l) {
        for (int k : {a, b}) switch (k) {
        case 0: delete new Matrix; break;
        case 1: { auto *m = new Matrix(2, 3, 1); m->destroy(); m->destroy(); delete m; break; }
        case 2: { auto *m = new SparseMatrix<3>; m->destroy(); delete m; break; }
        case 3: { auto *s = new SystemState; s->destroy(); s->destroy(); delete s; break; }
        case 4: delete new SystemState; break;
        case 5: for (int s = 0; s < SOLVERS; ++s) { SleSolver *p = real::makeSolver(s); l.add(p->supportsLimits(), "supports limits"); delete p; } break;
        case 6: for (int i = 0; i < INTEGS; ++i) delete real::makeIntegrator(i); break;
        case 7: { auto *s = new GenericRigidBodySystem; l.add(s->getRigidBodyCount() + s->getConstraintCount() + s->getForceGeneratorCount() + s->getFullConstraintCount(), "counts"); l.add(s->getOdeSolveMicroseconds() + s->getConstraintSolveMicroseconds() + s->getForceEvalMicroseconds() + s->getConstraintEvalMicroseconds(), "timing before use"); delete s; break; }
        case 8: { auto *s = new OptimizedNsvRigidBodySystem; l.add(s->m_biasFactor, "bias factor"); l.add(s->getOdeSolveMicroseconds() + s->getConstraintSolveMicroseconds(), "timing before use"); delete s; break; }
        case 9: { auto *s = new real::System(SYS_GEN, GE, RK4); s->sys->reset(); delete s; break; }
        case 10: { // an integrator run by hand over an empty and a non-empty state
            for (int i = 0; i < INTEGS; ++i) {
                OdeSolver *o = real::makeIntegrator(i);
                SystemState *s = new SystemState;
                for (int n : {0, 2, 1}) {
                    s->resize(n, n);
                    double *bb[] = {s->a_theta, s->v_theta, s->theta, s->a_x, s->a_y, s->v_x, s->v_y, s->p_x, s->p_y, s->f_x, s->f_y, s->t, s->m};
                    for (double *p : bb) for (int q = 0; q < n; ++q) p[q] = 1 + q;
                    for (int q = 0; q < 2 * n; ++q) s->r_x[q] = s->r_y[q] = s->r_t[q] = q;
                    o->start(s, 0.1);
                    for (int guard = 0; guard < 10; ++guard) {
                        bool done = o->step(s);
                        for (int q = 0; q < n; ++q) { s->a_x[q] = -s->p_x[q]; s->a_y[q] = 1; s->a_theta[q] = 0.5; }
                        o->solve(s);
                        if (done) break;
                    }
                    o->end();
                    for (int q = 0; q < n; ++q) { l.add(s->p_x[q], "p_x"); l.add(s->v_x[q], "v_x"); l.add(s->theta[q], "theta"); }
                }
                s->destroy(); delete s; delete o;
            }
            break;
        }
        default: { // unused objects of every kind
            Scene p = pool();
            delete new real::Objects(p);
        }
        }
        x.step();
    });
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C03",
                   "all histories of 3 (4) life-cycle operations on two dense matrices with every operation tried after each, 2 (3) on two sparse matrices of three shapes, 4 (5) on two state buffers, 3 (4) solves of 8 sizes through one solver; all histories of up to 4 (5) add / remove / step / clear / recreate operations on both systems x all integrators x all solvers, from empty and from full, with three teardown orders; all end conditions of springs, clutches, gears and motors; all sequences of 3 (4) of 8 sizes; every class as constructed and unused; each under 2 to 5 contents of fresh memory, with address sanitizer and heap accounting",
                   {{"matrices", matrices, 0, 0, false}, {"sparse", sparse, 0, 0, false}, {"states", states, 0, 0, false}, {"solvers", solvers, 0, 0, false},
                    {"systems", systems, 1, 1, false}, {"ends", ends, 0, 0, false}, {"sizes", sizes, 0, 0, false}, {"fresh", fresh, 0, 0, false}, {"unused", unused, 0, 0, false}},
                   {"after reset() every body, constraint and generator is registered again (or replaced) before it is used; a constraint's bodies are registered, except the static ends named in the property"});
}
