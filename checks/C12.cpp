// C12: the conjugate-gradient solver never claims a solution it does not have.
#include "sle.h"
using namespace sle;

namespace {
typedef atg_scs::ConjugateGradientSleSolver Solver;
struct Tol { double rel, abs; };
const Tol tols[] = {{1e-9, 1e-11}, {1e-2, 1e-3}, {0, 1e-8}, {1e-6, 0}, {1e-12, 1e-13}, {0, 0}};

void solveOne(mc::Ctx &x, Solver &s, const Problem &p, int start, int resultPast, Tol t, int budget, const char *when) {
    std::vector<R> A = p.dense(), ex;
    int n = p.n();
    std::vector<R> rb(p.b.begin(), p.b.end());
    R q = 1;
    bool regular = !n || ref::solveDense(A, rb, ex, &q);
    std::vector<double> exact(n, 0.5);
    if (regular) for (int i = 0; i < n; ++i) exact[i] = (double)ex[i];
    Real r(p);
    Call c(start, resultPast, exact);
    s.setMaxError(t.rel); s.setMinError(t.abs); s.setMaxIterations(budget);
    bool got = s.solve(*r.J, *r.W, *r.b, c.previous, c.result.m);
    x.step();
    r.untouched(x);
    std::vector<double> r0v;
    auto limit = [&](int i) { return std::max(t.rel * std::fabs(p.b[i]), t.abs); };
    if (got) {
        x.check(c.result.m->getHeight() == n && (n == 0 || c.result.m->getWidth() == 1), "%s: result is %dx%d, expected 1x%d", when, c.result.m->getWidth(), c.result.m->getHeight(), n);
        std::vector<double> v = c.result.get();
        for (int i = 0; i < n; ++i) x.check(std::isfinite(v[i]), "%s: success reported with a non-finite result (row %d: %g)", when, i, v[i]);
        std::vector<R> res = residual(A, p.b, v);
        double sc = scaleOf(A, p.b, v) + scaleOf(A, p.b, c.start);
        for (int i = 0; i < n; ++i) x.check(fabsl(res[i]) <= limit(i) * (1 + 1e-9) + 1e-12 * sc, "%s: success reported but row %d of %d misses its equation by %.3g, allowed %.3g", when, i, n, (double)res[i], limit(i));
        x.state(hash(p, v));
        // within the budget: k iterations cannot leave the Krylov space of dimension k
        if (budget <= 1 && n) {
            std::vector<R> s0 = residual(A, p.b, c.start);
            R num = 0, den = 0;
            for (int i = 0; i < n; ++i) { num += ((R)v[i] - c.start[i]) * s0[i]; den += s0[i] * s0[i]; }
            R a = budget == 0 || den == 0 ? 0 : num / den;
            double size = 1;
            for (int i = 0; i < n; ++i) size = std::max(size, std::fabs(v[i]) + std::fabs(c.start[i]));
            for (int i = 0; i < n; ++i) x.check(fabsl((R)v[i] - c.start[i] - a * s0[i]) <= 1e-9L * size, "%s: more than %d iterations were made", when, budget);
        }
    } else x.state(hash(p, {}));
    // no start at all is judged only by what it claims (a result object of the
    // right size that is handed in as start is one)
    bool attainable = t.rel >= 1e-9 || t.abs >= 1e-9;
    for (int i = 0; i < n; ++i) if (!(limit(i) >= 1e-9 * std::max(1.0, scaleOf(A, p.b, exact)) * (start == FAR || start == NEGATIVE || start == INPLACE ? 1e4 : 1))) attainable = false;
    if (regular && attainable && positive(A, n) && q > 1e-3L) {
        if (budget >= n + 6 + n / 2) x.check(got, "%s: a well-conditioned system of %d rows (pivot ratio %.2g) was not solved in %d iterations", when, n, (double)q, budget);
        // exact or sufficient starting vectors succeed at once
        if (start == EXACT) x.check(got, "%s: not solved when started at the solution", when);
    }
    if (n == 0) x.check(got, "%s: an empty system was not solved", when);
}
void weights(mc::Ctx &x, Problem &p) {
    int k = x.deviate(4, "W");
    for (int i = 0; i < 3 * p.bodies; ++i) {
        double w = massOf(i);
        if (k == 1) w = 1;
        if (k == 2) w = i % 3 == 2 ? 30 : 2e-1;
        if (k == 3 && i % 2) w = -w; // indefinite: may fail, must not claim
        p.w.push_back(w);
    }
}
int budgetOf(mc::Ctx &x, int n) {
    int k = x.deviate(6, "budget");
    return k == 0 ? n + 6 + n / 2 : k == 1 ? 0 : k == 2 ? 1 : k == 3 ? std::max(1, n - 1) : k == 4 ? 1000 : n;
}

void patterns(mc::Ctx &x) {
    Problem p;
    int n = x.choose(x.thorough() ? 6 : 5, "rows");
    p.bodies = n >= 4 ? 2 : 3;
    auto at = attachments(p.bodies, n < 4, true);
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf(at[x.choose((int)at.size(), "row")], i));
    weights(x, p);
    for (int i = 0; i < n; ++i) p.b.push_back(rightOf(i));
    int rs = x.deviate(5, "right");
    if (rs == 1) for (double &v : p.b) v = 0;
    if (rs == 2) for (int i = 0; i < n; ++i) p.b[i] = i == n - 1 ? 1 : 0;
    if (rs == 3) for (double &v : p.b) v *= 1e5;
    if (rs == 4) for (int i = 0; i < n; ++i) p.b[i] = i % 2 ? 1e4 : -1e-4;
    Tol t = x.vary(tols, "tolerance");
    int budget = budgetOf(x, n);
    int start = x.deviate(STARTS, "start"), past = x.deviate(4, "result past");
    Solver s;
    solveOne(x, s, p, start, past, t, budget, "fresh solver");
}

// tolerances x budgets x starts completely, on fixed systems
void settings(mc::Ctx &x) {
    Problem p = past(1 + x.choose(5, "system"));
    int kind = x.choose(4, "variant");
    if (kind == 1) p.rows.back() = p.rows[0]; // singular, inconsistent
    if (kind == 2) for (auto &b : p.b) b *= -1e3;
    if (kind == 3) for (size_t i = 0; i < p.w.size(); i += 2) p.w[i] = -p.w[i];
    Tol t = x.pick(tols, "tolerance");
    int budget = x.choose(14, "budget");
    if (budget == 13) budget = 1000;
    int start = x.choose(STARTS, "start");
    Solver s;
    if (x.choose(2, "earlier use")) { Problem q = past(4); solveOne(x, s, q, FAR, 0, tols[0], 40, "earlier use"); }
    solveOne(x, s, p, start, x.choose(4, "result past"), t, budget, "system");
}

// small integer systems, including zero rows and singular ones
void integers(mc::Ctx &x) {
    static const double dom[] = {0, 1, -2};
    static const double bdom[] = {0, 3, -1};
    Problem p;
    int n = 1 + x.choose(2, "rows");
    p.bodies = n;
    for (int i = 0; i < 3 * n; ++i) p.w.push_back(x.thorough() ? massOf(i) : 1 + i % 2);
    for (int i = 0; i < n; ++i) {
        RowP r;
        for (int e = 0; e < n; ++e) { r.b[e] = e; for (int k = 0; k < 3; ++k) { if (n == 2 && e == 1 && k == 1 && !x.thorough()) continue; r.v[3 * e + k] = x.pick(dom, "entry"); } }
        p.rows.push_back(r);
        p.b.push_back(x.pick(bdom, "right"));
    }
    Solver s;
    solveOne(x, s, p, NONE, 0, tols[0], 50, "integer system");
}

// chains and stars: no more iterations than about the number of rows
void chains(mc::Ctx &x) {
    static const int ns[] = {6, 8, 12, 16, 20, 32, 48, 64};
    int n = x.pick(ns, "rows"), shape = x.choose(3, "shape");
    Problem p;
    p.bodies = n + 1;
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf(shape == 0 ? std::array<int, 2>{i, i + 1} : shape == 1 ? std::array<int, 2>{0, i + 1} : std::array<int, 2>{i, -1}, i));
    weights(x, p);
    for (int i = 0; i < n; ++i) p.b.push_back(rightOf(i));
    Solver s;
    int budget = budgetOf(x, n);
    int start = x.deviate(STARTS, "start"), past = x.deviate(4, "result past");
    solveOne(x, s, p, start, past, x.vary(tols, "tolerance"), budget, "long system");
}

// hundreds of rows of which only some ask for anything
void wide(mc::Ctx &x) {
    static const int ns[] = {31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1025};
    int n = x.pick(ns, "rows"), shape = x.choose(2, "shape"), ask = x.choose(7, "right");
    if (!x.thorough() && n > 300 && ((n > 520 && shape) || (ask != 1 && ask != 4))) x.discard();
    Problem p;
    p.bodies = n + 1;
    for (int i = 0; i < n; ++i) {
        RowP r;
        r.b[0] = i; r.v[0] = 1; r.v[1] = 0.25 * (i % 3);
        if (shape) { r.b[1] = i + 1; r.v[3] = -0.5; }
        p.rows.push_back(r);
        double b = 0;
        if (ask == 0) b = rightOf(i);
        if (ask == 1 && i == 7) b = 5;
        if (ask == 2 && i == n - 1) b = -2;
        if (ask == 3 && i == 0) b = 0.03;
        if (ask == 4 && i % 2) b = rightOf(i);
        if (ask == 5 && i >= n / 2) b = 1;
        if (ask == 6) b = i == 10 ? 1e4 : i == n - 2 ? 0.02 : 0;
        p.b.push_back(b);
    }
    for (int i = 0; i < 3 * p.bodies; ++i) p.w.push_back(1);
    Solver s;
    static const Tol t[] = {{1e-9, 1e-9}, {1e-2, 1e-3}, {0, 1e-6}};
    solveOne(x, s, p, x.choose(n > 300 ? 1 : 2, "start") ? ZERO : NONE, 0, t[x.choose(n > 300 ? 1 : 3, "tolerance")], x.choose(2, "budget") ? 0 : n + 6 + n / 2, "wide system");
}

// one solver object, all sequences of systems, starts carried over as the systems do
void sequences(mc::Ctx &x) {
    Solver *s = new Solver;
    struct Del { Solver *s; ~Del() { delete s; } } del{s};
    int depth = x.thorough() ? 5 : 4;
    Vec shared;
    bool share = x.choose(2, "one result object") == 1;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(9, "system");
        if (k == 8) break;
        Problem p = k < 6 ? past(k) : k == 6 ? noBodies() : past(3);
        if (k == 7) p.rows[2] = p.rows[0];
        x.note("%d rows%s", p.n(), k == 7 ? " singular" : "");
        if (!share) { solveOne(x, *s, p, d % 2 ? INPLACE : NONE, d % 4, tols[d % 2], 60, "sequence"); continue; }
        s->setMaxError(1e-9); s->setMinError(1e-11); s->setMaxIterations(60);
        Real r(p);
        bool got = s->solve(*r.J, *r.W, *r.b, shared.m, shared.m);
        x.step();
        if (k == 7) { if (!got) { shared.m->destroy(); continue; } } // a failed solve leaves no start vector
        else x.check(got, "sequence: a system of %d rows was not solved", p.n());
        std::vector<R> A = p.dense();
        std::vector<double> v = shared.get();
        x.check((int)v.size() == p.n(), "sequence: result has %zu rows, expected %d", v.size(), p.n());
        std::vector<R> res = residual(A, p.b, v);
        for (size_t i = 0; i < res.size(); ++i) x.check(std::isfinite(v[i]) && fabsl(res[i]) <= std::max(1e-9 * std::fabs(p.b[i]), 1e-11) + 1e-12 * scaleOf(A, p.b, v), "sequence: row %zu misses its equation by %.3g", i, (double)res[i]);
        x.state(hash(p, v));
    }
    x.state(0);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C12",
                   "all attachment patterns of up to 4 rows on 3 bodies x weights (indefinite too) x right sides x tolerances x budgets (0, 1, rows-1, ...) x start vectors (none, wrong size, exact, far, in place) x earlier result contents; complete grids of tolerance x budget x start on fixed systems; all small-integer systems of up to 2 rows; chains and stars; 31 to 1025 rows of which some ask for nothing; all sequences through one solver",
                   {{"patterns", patterns, 1, 2, false}, {"settings", settings, 0, 0, false}, {"integers", integers, 0, 0, false}, {"chains", chains, 2, 3, false}, {"wide", wide, 0, 0, false}, {"sequences", sequences, 0, 0, false}},
                   {"success is required only for systems with a pivot ratio above 1e-3 and tolerances well above rounding; claims of success are judged everywhere"});
}
