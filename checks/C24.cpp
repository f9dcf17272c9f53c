// C24: timing statistics average the last 600 steps; elapsed time adds up.
#include "ref.h"
#include "scenes.h"
#include <chrono>
using namespace ref;

// The clock the library reads, replaced by one that only the phases advance.
static thread_local long long clockUs = 0, clockNs = 0;
static std::chrono::nanoseconds virtualNow() { return std::chrono::nanoseconds(clockUs * 1000 + clockNs + 3600ll * 1000000000); }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(virtualNow()); }
system_clock::time_point system_clock::now() noexcept { return time_point(chrono::duration_cast<duration>(virtualNow())); }
} } }

namespace {
enum Phase { FORCE, EVAL, SOLVE, INTEGRATE, PHASES };
const char *const phaseNames[] = {"force evaluation", "constraint evaluation", "constraint solving", "integration"};
// microseconds each phase takes per call, in the present step
struct Times { long long us[PHASES] = {0, 0, 0, 0}; };
thread_local Times *cur = nullptr;
void take(int p) { if (cur) clockUs += cur->us[p]; }

class Force : public atg_scs::ForceGenerator {
  public:
    virtual void apply(atg_scs::SystemState *s) { take(FORCE); for (int i = 0; i < s->n; ++i) s->f_y[i] -= 0.25 * (i + 1); }
};
class Con : public atg_scs::FixedRotationConstraint {
  public:
    virtual void calculate(Output *o, atg_scs::SystemState *s) { atg_scs::FixedRotationConstraint::calculate(o, s); take(EVAL); }
};
class Solver : public atg_scs::SleSolver {
  public:
    atg_scs::SleSolver *in;
    explicit Solver(bool limits) : atg_scs::SleSolver(limits), in(limits ? (atg_scs::SleSolver *)new atg_scs::GaussSeidelSleSolver : new atg_scs::GaussianEliminationSleSolver) {}
    ~Solver() { delete in; }
    virtual bool solve(atg_scs::SparseMatrix<3> &J, atg_scs::Matrix &W, atg_scs::Matrix &b, atg_scs::Matrix *r, atg_scs::Matrix *p) { take(SOLVE); return in->solve(J, W, b, r, p); }
    virtual bool solveWithLimits(atg_scs::SparseMatrix<3> &J, atg_scs::Matrix &W, atg_scs::Matrix &b, atg_scs::Matrix &l, atg_scs::Matrix *r, atg_scs::Matrix *p) { take(SOLVE); return in->solveWithLimits(J, W, b, l, r, p); }
};
template <class B> class Ode : public B {
  public:
    virtual void solve(atg_scs::SystemState *s) { take(INTEGRATE); B::solve(s); }
};
// a system whose phases take the time we say
struct Rig {
    bool nsv;
    int stages;
    Solver *sle;
    atg_scs::OdeSolver *ode = nullptr;
    atg_scs::OptimizedNsvRigidBodySystem *n = nullptr;
    atg_scs::GenericRigidBodySystem *g = nullptr;
    atg_scs::RigidBodySystem *sys;
    atg_scs::RigidBody *b = new atg_scs::RigidBody;
    Con *con = new Con;
    Force *force = new Force;
    std::vector<Times> hist; // per step, summed over substeps and stages
    Rig(int kind, bool limits, bool constrained = true) : nsv(kind == 0), stages(kind == 3 ? 4 : 1), sle(new Solver(limits)) {
        if (nsv) { sys = n = new atg_scs::OptimizedNsvRigidBodySystem; n->initialize(sle); }
        else {
            ode = kind == 1 ? (atg_scs::OdeSolver *)new Ode<atg_scs::EulerOdeSolver> : kind == 2 ? (atg_scs::OdeSolver *)new Ode<atg_scs::NsvOdeSolver> : new Ode<atg_scs::Rk4OdeSolver>;
            sys = g = new atg_scs::GenericRigidBodySystem;
            g->initialize(sle, ode);
        }
        clockUs = 0;
        b->m = 1.5; b->I = 0.5; b->v_x = 0.25; b->v_theta = 0.5; b->theta = 0.1;
        con->setBody(b);
        sys->addRigidBody(b);
        if (constrained) sys->addConstraint(con);
        sys->addForceGenerator(force);
    }
    ~Rig() { delete sys; delete ode; delete sle; delete force; delete con; delete b; }
    void step(const Times &t, double dt, int steps) {
        Times use = t;
        if (sys->getConstraintCount() == 0) use.us[EVAL] = 0;
        cur = &use;
        sys->process(dt, steps);
        cur = nullptr;
        Times sum = use;
        for (int p = 0; p < PHASES; ++p) sum.us[p] *= (long long)steps * stages;
        if (nsv) sum.us[INTEGRATE] = 0; // its own integrator takes no time on this clock
        hist.push_back(sum);
    }
    double expected(int p) const {
        if (hist.empty()) return 0;
        size_t k = hist.size() > 600 ? 600 : hist.size();
        long double s = 0;
        for (size_t i = hist.size() - k; i < hist.size(); ++i) s += hist[i].us[p];
        return (double)(s / k);
    }
    double reported(int p) const {
        switch (p) {
        case FORCE: return sys->getForceEvalMicroseconds();
        case EVAL: return sys->getConstraintEvalMicroseconds();
        case SOLVE: return sys->getConstraintSolveMicroseconds();
        default: return sys->getOdeSolveMicroseconds();
        }
    }
    void query(mc::Ctx &x) {
        for (int p = 0; p < PHASES; ++p) {
            double w = expected(p), got = reported(p);
            x.check(std::fabs(got - w) <= 2e-6 * std::fabs(w) + 1e-9, "%s after %zu steps: average reported %.9g us, the last %zu steps took %.9g", phaseNames[p], hist.size(), got, std::min<size_t>(600, hist.size()), w);
        }
    }
    uint64_t hash() { return mc::Hash().d(b->p_x).d(b->p_y).d(b->theta).d(b->v_x).d(b->v_y).d(b->v_theta).i((long long)hist.size() > 1300 ? 1300 : (long long)hist.size()).h; }
};
const long long durations[] = {0, 1, 730, 5000000000ll};
// all short histories
void shortHistories(mc::Ctx &x) {
    int kind = x.choose(4, "system");
    bool limits = x.choose(2, "limits") == 1, con = x.choose(2, "constrained") == 1;
    clockNs = x.deviate(2, "clock") ? 999 : 0; // whole microseconds apart, off the grid
    Rig r(kind, limits, con);
    r.query(x);
    int depth = 3;
    double t = 0;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(2 + PHASES, "step");
        if (k == 1 + PHASES) break;
        static const int counts[] = {1, 2, 5};
        static const double dts[] = {1 / 64.0, 0.3, 1e-5, 2};
        int steps = counts[(x.deviate(3, "substeps") + d + k) % 3];
        double dt = dts[(x.deviate(4, "dt") + 2 * d + k) % 4];
        Times tm;
        if (k < PHASES) tm.us[k] = durations[x.choose(4, "duration")];
        else { tm.us[FORCE] = 3; tm.us[EVAL] = 50; tm.us[SOLVE] = 700; tm.us[INTEGRATE] = 11000; }
        r.step(tm, dt, steps);
        x.step();
        t += dt;
        if (x.choose(2, "query") || d == depth - 1) r.query(x);
        if (r.n) x.near(r.n->timeElapsed(), t, 1e-12, "elapsed time after %d steps", d + 1);
        x.state(r.hash());
    }
    r.query(x);
}
// one slow step at every position of a history of more than two windows
void slow(mc::Ctx &x) {
    const int total = 1261;
    int pos = x.choose(total, "slow step");
    int phase = x.choose(PHASES, "phase"), kind = x.thorough() ? x.choose(4, "system") : x.choose(2, "system") ? 2 : 0;
    Rig r(kind, false, true);
    Times fast, tm;
    for (int p = 0; p < PHASES; ++p) fast.us[p] = 2 * p + 1;
    tm = fast; tm.us[phase] = 3000000000ll;
    for (int i = 0; i < total; ++i) {
        r.step(i == pos ? tm : fast, 1 / 1024.0, 1);
        x.step();
        int age = i - pos;
        if (age == 0 || age == 1 || age == 598 || age == 599 || age == 600 || age == 601 || i == total - 1) r.query(x);
    }
    x.state(mc::Hash().i(pos).i(phase).i(kind).h);
    if (r.n) x.near(r.n->timeElapsed(), total / 1024.0, 1e-10, "elapsed time");
}
// every step different, queried after every step
void windows(mc::Ctx &x) {
    int kind = x.choose(4, "system"), salt = x.choose(3, "durations");
    bool limits = x.choose(2, "limits") == 1;
    static const int counts[] = {1, 3};
    int steps = x.pick(counts, "substeps");
    Rig r(kind, limits, true);
    for (int i = 0; i < 1900; ++i) {
        Times t;
        for (int p = 0; p < PHASES; ++p) t.us[p] = salt == 0 ? (i * 37 + p * 911) % 1009 : salt == 1 ? (i % 7 == p ? 100000 : 0) : (i < 700 ? 0 : 1 + p);
        r.step(t, 1 / 512.0, steps);
        x.step();
        r.query(x);
    }
    x.state(r.hash());
}
// timing and querying never affect the motion
void motion(mc::Ctx &x) {
    int kind = x.choose(4, "system");
    bool limits = x.choose(2, "limits") == 1;
    int depth = x.thorough() ? 5 : 4;
    Rig a(kind, limits), b(kind, limits);
    Times none;
    for (int d = 0; d < depth; ++d) {
        Times t;
        int k = x.choose(PHASES + 1, "slow phase");
        if (k < PHASES) t.us[k] = 1000000ll * (d + 1);
        a.step(none, 1 / 64.0, 1 + d % 3);
        b.step(t, 1 / 64.0, 1 + d % 3);
        if (x.choose(2, "query")) for (int p = 0; p < PHASES; ++p) (void)b.reported(p);
        x.step();
        x.state(b.hash());
    }
    const double *p[] = {&a.b->p_x, &a.b->p_y, &a.b->theta, &a.b->v_x, &a.b->v_y, &a.b->v_theta}, *q[] = {&b.b->p_x, &b.b->p_y, &b.b->theta, &b.b->v_x, &b.b->v_y, &b.b->v_theta};
    for (int i = 0; i < 6; ++i) x.check(*p[i] == *q[i], "timing changed the motion (%.17g against %.17g)", *q[i], *p[i]);
    b.query(x);
}
// statistics belong to the system, not to its contents
void edits(mc::Ctx &x) {
    int kind = x.choose(4, "system");
    Rig r(kind, false, true);
    double t = 0;
    bool in = true;
    for (int d = 0; d < 6; ++d) {
        int k = x.choose(3, "operation");
        if (k == 1) { if (in) r.sys->removeConstraint(r.con); else r.sys->addConstraint(r.con); in = !in; }
        if (k == 2) { r.sys->removeForceGenerator(r.force); r.sys->addForceGenerator(r.force); }
        Times tm;
        for (int p = 0; p < PHASES; ++p) tm.us[p] = 10 * (d + 1) + p;
        double dt = (d + 1) / 128.0;
        r.step(tm, dt, 1 + d % 2);
        x.step();
        t += dt;
        r.query(x);
        if (r.n) x.near(r.n->timeElapsed(), t, 1e-12, "elapsed time");
        x.state(r.hash());
    }
}
// elapsed time of any size, by steps of any size
void elapsed(mc::Ctx &x) {
    static const double dts[] = {5000, 1e-4, 1 / 64.0, 0.1, 3, 1e6, 1e-7, 1e9, 0};
    static const int counts[] = {1, 40, 400};
    atg_scs::GaussianEliminationSleSolver *solver = new atg_scs::GaussianEliminationSleSolver;
    auto *s = new atg_scs::OptimizedNsvRigidBodySystem;
    auto *b = new atg_scs::RigidBody;
    struct Del { void *a, *c, *d; ~Del() { delete (atg_scs::OptimizedNsvRigidBodySystem *)a; delete (atg_scs::GaussianEliminationSleSolver *)c; delete (atg_scs::RigidBody *)d; } } del{s, solver, b};
    s->initialize(solver);
    b->m = b->I = 1; b->v_x = 1e-3;
    if (x.choose(2, "body")) s->addRigidBody(b);
    long double t = 0, most = 0;
    int steps = 1 + 2 * x.choose(2, "substeps");
    for (int d = 0; d < (x.thorough() ? 4 : 3); ++d) {
        double dt = x.pick(dts, "dt");
        int n = x.pick(counts, "count");
        for (int i = 0; i < n; ++i) { s->process(dt, steps); t += dt; most = std::max(most, t); }
        x.step();
        // what rounding may lose in that many additions
        x.check(fabsl(s->timeElapsed() - t) <= most * 3e-13L, "elapsed time after %d steps of %g: %.17g, expected %.17Lg", n, dt, s->timeElapsed(), t);
        x.state(mc::Hash().d((double)t).h);
    }
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C24",
                   "both systems and all integrators on a controlled clock: all histories of up to 3 steps x slow phase x duration x query points; one slow step at every position of a history of more than two windows x phase x system; 1900 steps all different with a query after each; all slow-phase/query histories compared for motion; all sequences of 3 (4) runs of up to 400 steps of 0 to 1e9",
                   {{"short", shortHistories, 0, 1, false}, {"slow", slow, 0, 0, false}, {"windows", windows, 0, 0, false}, {"motion", motion, 0, 0, false}, {"edits", edits, 0, 0, false}, {"elapsed", elapsed, 0, 0, false}},
                   {"the clock advances only inside force generators, constraint evaluations, linear solves and integration steps, in whole microseconds", "the velocity-level system's built-in integrator takes no time on this clock"});
}
