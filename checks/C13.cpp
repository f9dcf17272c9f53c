// C13: Gauss-Seidel stops only when converged and honours limits.
#include "sle.h"
using namespace sle;

namespace {
typedef atg_scs::GaussSeidelSleSolver Solver;
struct Settings { double delta; int budget; };

// what a last sweep that changed no component by more than delta can leave in row i
R allowance(const std::vector<R> &A, const std::vector<double> &v, int i, double delta, double sc) {
    int n = (int)v.size();
    R s = 0;
    for (int j = 0; j < n; ++j) if (j != i) s += fabsl(A[(size_t)i * n + j]) * delta * std::max((R)1e-3L, fabsl((R)v[j]) / (1 - delta));
    return s * (1 + 1e-9L) + 1e-12L * sc;
}
void judge(mc::Ctx &x, const Problem &p, const std::vector<R> &A, const std::vector<double> &v, double delta, const std::vector<double> *lo, const std::vector<double> *hi, const char *when) {
    int n = p.n();
    double sc = scaleOf(A, p.b, v);
    for (int i = 0; i < n; ++i) x.check(std::isfinite(v[i]), "%s: success reported with a non-finite result (row %d: %g)", when, i, v[i]);
    std::vector<R> res = residual(A, p.b, v);
    for (int i = 0; i < n; ++i) {
        bool atLo = false, atHi = false;
        if (lo) {
            x.check(v[i] >= (*lo)[i] && v[i] <= (*hi)[i], "%s: component %d is %.17g, outside its limits %g..%g", when, i, v[i], (*lo)[i], (*hi)[i]);
            atLo = v[i] <= (*lo)[i] + 1e-12 * std::fabs((*lo)[i]);
            atHi = v[i] >= (*hi)[i] - 1e-12 * std::fabs((*hi)[i]);
        }
        if (delta >= 1) continue; // such a tolerance implies nothing
        R tol = allowance(A, v, i, delta, sc);
        if (atLo && atHi) continue;
        if (A[(size_t)i * n + i] < 0) res[i] = -res[i]; // more force then lowers the row's value
        if (atHi) x.check(res[i] >= -tol, "%s: component %d is held at its maximum %g but its row asks for less (residual %.3g, tolerance %.3g)", when, i, v[i], (double)res[i], (double)tol);
        else if (atLo) x.check(res[i] <= tol, "%s: component %d is held at its minimum %g but its row asks for more (residual %.3g, tolerance %.3g)", when, i, v[i], (double)res[i], (double)tol);
        else x.check(fabsl(res[i]) <= tol, "%s: success reported but row %d of %d misses its equation by %.3g, its tolerance implies at most %.3g", when, i, n, (double)res[i], (double)tol);
    }
}
void solveOne(mc::Ctx &x, Solver &s, const Problem &p, int start, int resultPast, Settings t, const std::vector<double> *lo, const std::vector<double> *hi, const char *when) {
    std::vector<R> A = p.dense(), ex;
    int n = p.n();
    std::vector<R> rb(p.b.begin(), p.b.end());
    R q = 1;
    bool regular = !n || ref::solveDense(A, rb, ex, &q);
    std::vector<double> exact(n, 0.5);
    if (regular) for (int i = 0; i < n; ++i) exact[i] = (double)ex[i];
    Real r(p);
    if (lo) for (int i = 0; i < n; ++i) { r.lim->set(0, i, (*lo)[i]); r.lim->set(1, i, (*hi)[i]); }
    Call c(start, resultPast, exact);
    s.m_minDelta = t.delta; s.m_maxIterations = t.budget;
    bool got = lo ? s.solveWithLimits(*r.J, *r.W, *r.b, *r.lim, c.result.m, c.previous)
                  : s.solve(*r.J, *r.W, *r.b, c.previous, c.result.m);
    x.step();
    r.untouched(x);
    if (lo) for (int i = 0; i < n; ++i) x.check(r.lim->get(0, i) == (*lo)[i] && r.lim->get(1, i) == (*hi)[i], "solving changed the limits");
    if (got) {
        x.check(c.result.m->getHeight() == n && (n == 0 || c.result.m->getWidth() == 1), "%s: result is %dx%d, expected 1x%d", when, c.result.m->getWidth(), c.result.m->getHeight(), n);
        std::vector<double> v = c.result.get();
        judge(x, p, A, v, t.delta, lo, hi, when);
        x.state(hash(p, v));
        return;
    }
    x.state(hash(p, {}));
    x.check(n || t.budget < 1 || !(t.delta > 0), "%s: an empty system was not solved in %d sweeps", when, t.budget);
    if (!regular || !positive(A, n) || t.delta < 1e-10) return;
    int need = sweepsFrom(A, p.b, c.start, lo, hi, t.delta * 0.5, 4000);
    x.check(need > 4000 || t.budget < 2 * need + 2, "%s: a positive-definite system of %d rows that %d sweeps solve was not solved in %d", when, n, need, t.budget);
}
void weights(mc::Ctx &x, Problem &p, bool indefinite) {
    int k = x.deviate(indefinite ? 5 : 3, "W");
    for (int i = 0; i < 3 * p.bodies; ++i) {
        double w = massOf(i);
        if (k == 1) w = 1;
        if (k == 2) w = i % 3 == 2 ? 30 : 2e-1;
        if (k == 3 && i % 2) w = -w;
        if (k == 4 && i % 3 == 0) w = 0;
        p.w.push_back(w);
    }
}
Settings settingsOf(mc::Ctx &x) {
    static const double deltas[] = {1e-9, 1e-1, 1e-3, 0.5, 1e-12, 3};
    static const int budgets[] = {20000, 0, 1, 2, 5, 128};
    Settings s;
    s.delta = x.vary(deltas, "delta"); s.budget = x.vary(budgets, "budget");
    return s;
}
const double big = DBL_MAX;
const double limitPairs[][2] = {{-big, big}, {-1, 1}, {0, 0}, {-0.2, 3}, {0, big}, {-big, 0}, {0.5, 0.5}, {0.3, 2}, {-4, -0.7}, {-big, -0.1}, {-1e6, 1e6}, {-1e-3, 1e-3}};
const int nLimits = 12;

void rights(mc::Ctx &x, Problem &p) {
    int n = p.n();
    for (int i = 0; i < n; ++i) p.b.push_back(rightOf(i));
    int rs = x.deviate(5, "right");
    if (rs == 1) for (double &v : p.b) v = 0;
    if (rs == 2) for (int i = 0; i < n; ++i) p.b[i] = i == n - 1 ? 1 : 0;
    if (rs == 3) for (double &v : p.b) v *= 1e5;
    if (rs == 4) for (double &v : p.b) v *= -1e-3;
}
void patterns(mc::Ctx &x) {
    Problem p;
    int n = x.choose(5, "rows");
    p.bodies = n >= 4 ? 2 : 3;
    auto at = attachments(p.bodies, n < 4, true);
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf(at[x.choose((int)at.size(), "row")], i));
    weights(x, p, true);
    rights(x, p);
    Settings t = settingsOf(x);
    int start = x.deviate(STARTS, "start"), past = x.deviate(4, "result past");
    // rank-deficient patterns may need the whole budget: keep it small for them
    if (n && t.budget > 400 && symQuality(p.dense(), n) < 1e-4) t.budget = 400;
    Solver s;
    solveOne(x, s, p, start, past, t, nullptr, nullptr, "without limits");
}
// every assignment of limit pairs to the rows of many patterns
void limits(mc::Ctx &x) {
    Problem p;
    static const int topo[][4][2] = {
        {{0, -1}, {0, 1}, {1, 2}, {2, -1}}, {{0, -1}, {0, -1}, {0, -1}, {1, 0}}, {{0, 1}, {0, 1}, {0, 2}, {1, -1}}, {{-1, 0}, {1, 0}, {1, -1}, {2, 2}}};
    int n = x.choose(x.thorough() ? 5 : 4, "rows");
    auto &tp = topo[x.choose(4, "topology")];
    p.bodies = 3;
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf({tp[i][0], tp[i][1]}, i));
    weights(x, p, false);
    rights(x, p);
    std::vector<double> lo(n), hi(n);
    for (int i = 0; i < n; ++i) { int k = x.choose(nLimits, "limits"); lo[i] = limitPairs[k][0]; hi[i] = limitPairs[k][1]; x.note("%g..%g", lo[i], hi[i]); }
    Settings t = settingsOf(x);
    int start = x.deviate(STARTS, "start"), past = x.deviate(4, "result past");
    Solver s;
    solveOne(x, s, p, start, past, t, &lo, &hi, "with limits");
}
// settings and starts completely, on fixed systems, with and without limits
void settings(mc::Ctx &x) {
    static const double deltas[] = {1e-9, 1e-1, 1e-3, 0.5, 1e-12};
    static const int budgets[] = {0, 1, 2, 3, 4, 6, 9, 15, 40, 128, 20000};
    Problem p = past(x.choose(6, "system"));
    int kind = x.choose(4, "variant");
    if (kind == 1 && p.n() > 1) p.rows.back() = p.rows[0]; // inconsistent
    if (kind == 2) for (auto &b : p.b) b *= -1e3;
    if (kind == 3) for (size_t i = 0; i < p.w.size(); i += 2) p.w[i] = -p.w[i];
    int n = p.n();
    std::vector<double> lo(n), hi(n);
    int lim = x.choose(4, "limits");
    for (int i = 0; i < n; ++i) { const double *l = limitPairs[lim == 1 ? 0 : lim == 2 ? (i + 1) % nLimits : (i * 5 + 3) % nLimits]; lo[i] = l[0]; hi[i] = l[1]; }
    Settings t;
    t.delta = x.pick(deltas, "delta"); t.budget = x.pick(budgets, "budget");
    if (kind == 1 && t.budget > 1000) t.budget = 500;
    int start = x.choose(STARTS, "start");
    Solver s;
    if (x.choose(2, "earlier use")) { Problem q = past(4); solveOne(x, s, q, FAR, 0, {1e-6, 500}, nullptr, nullptr, "earlier use"); }
    solveOne(x, s, p, start, x.choose(4, "result past"), t, lim ? &lo : nullptr, lim ? &hi : nullptr, "system");
}
// small integer systems, including zero rows and singular ones
void integers(mc::Ctx &x) {
    static const double dom[] = {0, 1, -2};
    static const double bdom[] = {0, 3, -1};
    Problem p;
    int n = 1 + x.choose(2, "rows");
    p.bodies = n;
    for (int i = 0; i < 3 * n; ++i) p.w.push_back(1 + i % 2);
    for (int i = 0; i < n; ++i) {
        RowP r;
        for (int e = 0; e < n; ++e) { r.b[e] = e; for (int k = 0; k < 3; ++k) { if (n == 2 && e == 1 && k == 1 && !x.thorough()) continue; r.v[3 * e + k] = x.pick(dom, "entry"); } }
        p.rows.push_back(r);
        p.b.push_back(x.pick(bdom, "right"));
    }
    int lim = x.choose(2, "limits");
    std::vector<double> lo(n), hi(n);
    for (int i = 0; i < n; ++i) { lo[i] = i ? -2 : -0.25; hi[i] = i ? 0.125 : 5; }
    Solver s;
    solveOne(x, s, p, NONE, 0, {1e-8, 300}, lim ? &lo : nullptr, lim ? &hi : nullptr, "integer system");
}
void chains(mc::Ctx &x) {
    static const int ns[] = {6, 8, 12, 16, 24, 40};
    int n = x.pick(ns, "rows"), shape = x.choose(3, "shape");
    Problem p;
    p.bodies = n + 1;
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf(shape == 0 ? std::array<int, 2>{i, i + 1} : shape == 1 ? std::array<int, 2>{0, i + 1} : std::array<int, 2>{i, -1}, i));
    weights(x, p, false);
    rights(x, p);
    int lim = x.choose(3, "limits");
    std::vector<double> lo(n), hi(n);
    for (int i = 0; i < n; ++i) { const double *l = limitPairs[lim == 1 ? (i * 7 + 1) % nLimits : 0]; lo[i] = l[0]; hi[i] = l[1]; }
    Settings t = settingsOf(x);
    int start = x.deviate(STARTS, "start"), past = x.deviate(4, "result past");
    Solver s;
    solveOne(x, s, p, start, past, t, lim ? &lo : nullptr, lim ? &hi : nullptr, "long system");
}
// row counts around powers of two, neighbouring rows limited differently
void many(mc::Ctx &x) {
    static const int ns[] = {7, 9, 15, 17, 31, 32, 33, 47, 48, 49, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513};
    int n = x.pick(ns, "rows"), shape = x.choose(3, "shape");
    if (n > (x.thorough() ? 600 : 130)) { if (shape != 2 && n > (x.thorough() ? 257 : 130)) x.discard(); }
    Problem p;
    p.bodies = n + 1;
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf(shape == 0 ? std::array<int, 2>{i, i + 1} : shape == 1 ? std::array<int, 2>{(i * 5) % 7, i + 1} : std::array<int, 2>{i, -1}, i));
    for (int i = 0; i < 3 * p.bodies; ++i) p.w.push_back(massOf(i));
    for (int i = 0; i < n; ++i) p.b.push_back(rightOf(i));
    int lim = x.choose(3, "limits");
    std::vector<double> lo(n), hi(n);
    // every row asks for something of its own and may have no more or less than something of its own
    for (int i = 0; i < n; ++i) {
        if (lim == 1) { double c = 0.01 * ((i * 37) % 101 - 50); lo[i] = c - 1e-4 * (i + 1) / n; hi[i] = c + 2e-4 * (i + 1) / n; }
        if (lim == 2) { lo[i] = i % 3 ? -0.02 * (1 + i % 17) : -big; hi[i] = i % 5 ? 0.015 * (1 + i % 19) : big; }
    }
    Solver s;
    if (x.choose(2, "earlier use")) { Problem q = past(4); solveOne(x, s, q, FAR, 0, {1e-6, 500}, nullptr, nullptr, "earlier use"); }
    solveOne(x, s, p, x.choose(2, "start") ? FAR : NONE, 0, {1e-7, 5000}, lim ? &lo : nullptr, lim ? &hi : nullptr, "many rows");
}
// systems that take hundreds or thousands of sweeps are given them
void slow(mc::Ctx &x) {
    static const int ns[] = {2, 5, 12, 20, 32, 33, 40, 63, 64, 65, 80, 100};
    static const double deltas[] = {1e-2, 1e-3, 1e-4, 3e-5};
    static const int budgets[] = {20000, 9000, 4000, 2000, 700};
    int n = x.pick(ns, "rows");
    Problem p;
    p.bodies = n + 1;
    for (int i = 0; i < n; ++i) { RowP r; r.b[0] = i; r.b[1] = i + 1; r.v[0] = 1; r.v[3] = -1; p.rows.push_back(r); }
    for (int i = 0; i < 3 * p.bodies; ++i) p.w.push_back(1);
    int ask = x.choose(2, "right");
    for (int i = 0; i < n; ++i) p.b.push_back(ask ? (i == n / 3) * 4.0 : 1.0);
    int lim = x.choose(3, "limits");
    std::vector<double> lo(n, lim == 1 ? -1e7 : -big), hi(n, lim == 1 ? 1e7 : big);
    if (lim == 2) hi[0] = 0.25;
    Settings t;
    t.delta = x.pick(deltas, "delta"); t.budget = x.pick(budgets, "budget");
    Solver s;
    solveOne(x, s, p, NONE, 0, t, lim ? &lo : nullptr, lim ? &hi : nullptr, "slow system");
}
// one solver object, all sequences of systems with and without limits
void sequences(mc::Ctx &x) {
    Solver *s = new Solver;
    struct Del { Solver *s; ~Del() { delete s; } } del{s};
    int depth = x.thorough() ? 5 : 4;
    Vec shared;
    bool share = x.choose(2, "one result object") == 1;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(9, "system");
        if (k == 8) break;
        bool lim = x.choose(2, "limits") == 1;
        Problem p = k < 6 ? past(k) : k == 6 ? noBodies() : past(3);
        if (k == 7) p.rows[2] = p.rows[0];
        int n = p.n();
        x.note("%d rows%s%s", n, k == 7 ? " singular" : "", lim ? " limited" : "");
        std::vector<double> lo(n), hi(n);
        for (int i = 0; i < n; ++i) { const double *l = limitPairs[(i * 5 + d + 1) % nLimits]; lo[i] = l[0]; hi[i] = l[1]; }
        if (!share) { solveOne(x, *s, p, d % 2 ? INPLACE : NONE, d % 4, {1e-8, 600}, lim ? &lo : nullptr, lim ? &hi : nullptr, "sequence"); continue; }
        s->m_minDelta = 1e-8; s->m_maxIterations = 600;
        Real r(p);
        for (int i = 0; i < n; ++i) { r.lim->set(0, i, lo[i]); r.lim->set(1, i, hi[i]); }
        std::vector<R> A = p.dense();
        bool got = lim ? s->solveWithLimits(*r.J, *r.W, *r.b, *r.lim, shared.m, shared.m) : s->solve(*r.J, *r.W, *r.b, shared.m, shared.m);
        x.step();
        if (!got) {
            x.check(k == 7 || sweepsFrom(A, p.b, std::vector<double>(n, 0), lim ? &lo : nullptr, lim ? &hi : nullptr, 1e-8, 150) > 150, "sequence: a system of %d rows was not solved", n);
            shared.m->destroy();
            continue;
        }
        std::vector<double> v = shared.get();
        x.check((int)v.size() == n, "sequence: result has %zu rows, expected %d", v.size(), n);
        judge(x, p, A, v, 1e-8, lim ? &lo : nullptr, lim ? &hi : nullptr, "sequence");
        x.state(hash(p, v));
    }
    x.state(0);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C13",
                   "all attachment patterns of up to 4 rows on 3 bodies x weights (indefinite too) x right sides x relative-change tolerances x sweep budgets x start vectors of either sign x earlier result contents; every assignment of 12 limit pairs to up to 3 rows of 4 topologies; complete grids on fixed systems; small-integer systems; chains and stars with limits; 7 to 513 rows, each with limits of its own; chains of up to 100 rows that take thousands of sweeps; all sequences through one solver",
                   {{"patterns", patterns, 1, 2, false}, {"limits", limits, 1, 2, false}, {"settings", settings, 0, 0, false}, {"integers", integers, 0, 0, false}, {"chains", chains, 2, 3, false}, {"many", many, 0, 0, false}, {"slow", slow, 0, 0, false}, {"sequences", sequences, 0, 0, false}},
                   {"success is required only where an independent sweep shows that half the budget suffices", "the accuracy implied is that of any sweep order with the documented change measure max(1e-3, |previous|)"});
}
