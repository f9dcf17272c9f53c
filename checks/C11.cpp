// C11: the direct solver solves every non-singular constraint system.
#include "sle.h"
using namespace sle;

namespace {
typedef atg_scs::GaussianEliminationSleSolver Solver;
// solves and judges one system; expectFailure: exactly singular by construction
void solveOne(mc::Ctx &x, Solver &s, const Problem &p, int start, int resultPast, bool expectFailure, const char *when) {
    std::vector<R> A = p.dense(), ex;
    int n = p.n();
    std::vector<R> rb(p.b.begin(), p.b.end());
    R q = 1;
    bool ok = !n || ref::solveDense(A, rb, ex, &q);
    std::vector<double> exact(n, 0.5);
    if (ok) for (int i = 0; i < n; ++i) exact[i] = (double)ex[i];
    Real r(p);
    Call c(start, resultPast, exact);
    bool got = s.solve(*r.J, *r.W, *r.b, c.previous, c.result.m);
    x.step();
    r.untouched(x);
    if (expectFailure) { x.check(!got, "%s: a singular system (%d rows) was reported as solved", when, n); x.state(hash(p, {})); return; }
    if (!ok || q < 1e-10L) { x.state(hash(p, {})); return; }
    x.check(got, "%s: a non-singular system (%d rows, pivot ratio %.2g) was reported as failed", when, n, (double)q);
    x.check(c.result.m->getWidth() == (n ? 1 : c.result.m->getWidth()) && c.result.m->getHeight() == n, "%s: result is %dx%d, expected 1x%d", when, c.result.m->getWidth(), c.result.m->getHeight(), n);
    std::vector<double> v = c.result.get();
    std::vector<R> res = residual(A, p.b, v);
    double sc = scaleOf(A, p.b, v);
    for (int i = 0; i < n; ++i) x.check(std::isfinite(v[i]) && fabsl(res[i]) <= 1e-11L * sc, "%s: row %d of %d misses its equation by %.3g (scale %.3g)", when, i, n, (double)res[i], sc);
    x.state(hash(p, v));
}
// Exactly singular whichever way the elimination is arranged: with ties going
// either way and factors formed by division, by reciprocals or by scaling the
// pivot row, the arithmetic leaves an exact zero.
bool exactlySingular(const Problem &p) {
    int n = p.n();
    std::vector<R> e = p.dense();
    for (int variant = 0; variant < 6; ++variant) {
        std::vector<double> a(e.begin(), e.end());
        for (size_t i = 0; i < e.size(); ++i) if ((R)a[i] != e[i]) return false;
        int h = 0;
        for (int k = 0; k < n; ++k) {
            int m = h;
            for (int i = h; i < n; ++i) { double u = std::fabs(a[(size_t)i * n + k]), v = std::fabs(a[(size_t)m * n + k]); if (u > v || (variant % 2 && u == v)) m = i; }
            if (a[(size_t)m * n + k] == 0) continue;
            for (int j = 0; j < n; ++j) std::swap(a[(size_t)m * n + j], a[(size_t)h * n + j]);
            double d = a[(size_t)h * n + k];
            for (int i = h + 1; i < n; ++i) {
                double q = a[(size_t)i * n + k], f = variant / 2 == 0 ? q / d : q * (1 / d);
                for (int j = k; j < n; ++j) a[(size_t)i * n + j] -= variant / 2 == 2 ? q * (a[(size_t)h * n + j] / d) : f * a[(size_t)h * n + j];
            }
            ++h;
        }
        if (h == n) return false;
    }
    return true;
}
void weights(mc::Ctx &x, Problem &p, bool indefinite) {
    int k = x.deviate(indefinite ? 5 : 3, "W");
    for (int i = 0; i < 3 * p.bodies; ++i) {
        double w = massOf(i);
        if (k == 1) w = 1;
        if (k == 2) w = i % 3 == 2 ? 400 : 2e-3;
        if (k == 3 && i % 2) w = -w;
        if (k == 4 && i % 3 == 0) w = 0;
        p.w.push_back(w);
    }
}

// every attachment pattern of up to 4 (5) rows
void patterns(mc::Ctx &x) {
    Problem p;
    int n = x.choose(x.thorough() ? 6 : 5, "rows");
    p.bodies = n >= 4 ? 2 : 3;
    if (n == 5 && !x.thorough()) p.bodies = 2;
    auto at = attachments(p.bodies, n < 4, true);
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf(at[x.choose((int)at.size(), "row")], i));
    weights(x, p, true);
    for (int i = 0; i < n; ++i) p.b.push_back(rightOf(i));
    int rs = x.deviate(4, "right");
    if (rs == 1) for (double &v : p.b) v = 0;
    if (rs == 2) for (int i = 0; i < n; ++i) p.b[i] = i == n - 1 ? 1 : 0;
    if (rs == 3) for (double &v : p.b) v *= 1e8;
    int start = x.deviate(STARTS, "start"), past = x.deviate(4, "result past");
    bool zero = false;
    for (auto &r : p.rows) zero = zero || (r.b[0] < 0 && r.b[1] < 0);
    Solver *s = new Solver;
    struct Del { Solver *s; ~Del() { delete s; } } del{s};
    solveOne(x, *s, p, start, past, zero, "fresh solver");
}

// small integer entries, all of them: zero pivots, exact singularity
void integers(mc::Ctx &x) {
    static const double dom[] = {0, 1, -2};
    static const double wdom[][6] = {{1, 1, 1, 1, 1, 1}, {1, 2, 0.5, 1, 4, 0.25}, {1, -1, 1, -1, 1, -1}, {0, 1, 1, 0, -1, 2}, {1, -1 + 1e-12, 0, 1, 1, 1}};
    Problem p;
    int n = 1 + x.choose(3, "rows");
    p.bodies = n == 3 ? 1 : 2;
    int wk = x.choose(5, "W");
    p.w.assign(wdom[wk], wdom[wk] + 3 * p.bodies);
    int slots = n == 2 ? 2 : n == 1 ? 2 : 1;
    bool zeroRow = false;
    for (int i = 0; i < n; ++i) {
        RowP r;
        bool any = false;
        for (int e = 0; e < slots; ++e) { r.b[e] = e; for (int k = 0; k < 3; ++k) { if (n == 2 && !x.thorough() && e == 1 && k == 1) { r.v[4] = 1; any = true; continue; } r.v[3 * e + k] = x.pick(dom, "entry"); any = any || r.v[3 * e + k] != 0; } }
        zeroRow = zeroRow || !any;
        p.rows.push_back(r);
        p.b.push_back(i == 0 ? 3 : -1 - i);
    }
    bool repeat = false;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { bool eq = true; for (int k = 0; k < 6; ++k) eq = eq && p.rows[i].v[k] == p.rows[j].v[k]; repeat = repeat || eq; }
    Solver s;
    solveOne(x, s, p, NONE, 0, (zeroRow || repeat) && exactlySingular(p), "integer system");
}

// every permutation of the rows gives the same solution
void permutations(mc::Ctx &x) {
    Problem p;
    int n = 3 + x.choose(x.thorough() ? 4 : 3, "rows");
    p.bodies = 4;
    static const int topo[][6][2] = {
        {{0, -1}, {0, 1}, {1, 2}, {2, 3}, {3, -1}, {1, 3}},
        {{0, 1}, {0, 2}, {0, 3}, {1, -1}, {2, -1}, {3, -1}},
        {{0, 1}, {1, 2}, {2, 0}, {3, -1}, {0, -1}, {3, 1}},
        {{0, -1}, {0, -1}, {0, -1}, {1, -1}, {1, -1}, {1, -1}}};
    auto &t = topo[x.choose(4, "topology")];
    weights(x, p, true);
    std::vector<int> perm, left;
    for (int i = 0; i < n; ++i) left.push_back(i);
    for (int i = 0; i < n; ++i) { int k = x.choose((int)left.size(), "next row"); perm.push_back(left[k]); left.erase(left.begin() + k); }
    for (int i : perm) { p.rows.push_back(rowOf({t[i][0], t[i][1]}, i)); p.b.push_back(rightOf(i)); }
    Solver s;
    solveOne(x, s, p, NONE, 0, false, "permuted rows");
}

// long systems: chains of n rows
void chains(mc::Ctx &x) {
    static const int ns[] = {6, 8, 12, 16, 20, 32, 48, 64, 100, 150};
    int n = ns[x.choose(x.thorough() ? 10 : 8, "rows")];
    int shape = x.choose(3, "shape");
    Problem p;
    p.bodies = n + 1;
    for (int i = 0; i < n; ++i) p.rows.push_back(rowOf(shape == 0 ? std::array<int, 2>{i, i + 1} : shape == 1 ? std::array<int, 2>{0, i + 1} : std::array<int, 2>{(i * 5) % n, n - (i * 3) % n}, i));
    weights(x, p, false);
    for (int i = 0; i < n; ++i) p.b.push_back(rightOf(i));
    Solver s;
    int before = x.choose(3, "earlier use");
    if (before) { Problem q = past(before == 1 ? 5 : 1); solveOne(x, s, q, NONE, 0, false, "earlier use"); }
    solveOne(x, s, p, x.deviate(STARTS, "start"), x.deviate(4, "result past"), false, "long system");
    if (before) { Problem q = past(2); solveOne(x, s, q, NONE, 1, false, "later use"); }
}

// several hundred rows, whose pivots may lie anywhere below
void large(mc::Ctx &x) {
    static const int ns[] = {96, 127, 128, 129, 200, 255, 256, 257, 258, 300, 400, 511, 513, 520, 600, 800, 1030};
    int n = ns[x.choose(x.thorough() ? 17 : 14, "rows")], shape = x.choose(6, "shape");
    Problem p;
    p.bodies = n + 1;
    for (int i = 0; i < n; ++i) {
        RowP r;
        int half = n / 2, j = (i + half) % n;
        if (shape == 0) r = rowOf({i, i + 1}, i);
        if (shape == 1) r = rowOf({(i * 7) % 5, i + 1}, i);
        // strong couplings across half, and nearly all, of the matrix
        if (shape >= 2) { r.b[0] = i; r.v[0] = 1; r.b[1] = shape == 3 ? n - 1 - i : j; if (r.b[1] == i) r.b[1] = n; r.v[3] = (shape == 3 ? i < n - 1 - i : i < half) ? 3.0 : 0.5; r.v[4] = shape == 4 ? 0.1 * (i % 7) : 0; r.v[2] = shape == 5 && i % 3 == 0 ? 2.5 : 0; }
        p.rows.push_back(r);
        p.b.push_back(rightOf(i));
    }
    int w = x.choose(2, "W");
    for (int i = 0; i < 3 * p.bodies; ++i) p.w.push_back(w ? massOf(i) : 1);
    Solver s;
    if (x.choose(2, "earlier use")) { Problem q = past(4); solveOne(x, s, q, NONE, 0, false, "earlier use"); }
    solveOne(x, s, p, NONE, 0, false, "large system");
}

// entries over the whole range of a double: a result reported as solved is
// finite in every row; and where nothing leaves the range, it is the solution.
// The rows act on bodies of their own, so each has the solution b / (W J.J).
void extremes(mc::Ctx &x) {
    static const double js[] = {1, 1e-160, 1e-80, -1e80, 1e155};
    static const double ws[] = {1, 1e-100, 1e12};
    static const double bs[] = {1, 0, -1e-300, 1e300, INFINITY, NAN};
    int n = 1 + x.choose(3, "rows");
    Problem p;
    p.bodies = n;
    bool inRange = true, odd = false;
    std::vector<double> want;
    auto fits = [](double v) { return std::fabs(v) > 1e-280 && std::fabs(v) < 1e280; };
    for (int i = 0; i < n; ++i) {
        RowP r;
        r.b[i % 2] = i;
        double j = x.pick(js, "entry"), w = n < 3 || x.thorough() ? x.pick(ws, "W") : 1, b = x.pick(bs, "right");
        int k = i % 3;
        r.v[3 * (i % 2) + k] = j;
        p.rows.push_back(r);
        for (int q = 0; q < 3; ++q) p.w.push_back(w);
        p.b.push_back(b);
        double v = b / (j * w * j);
        inRange = inRange && fits(j * w) && fits(j * w * j) && (b == 0 || (fits(b) || b == -1e-300 || b == 1e300)) && (b == 0 || fits(v));
        odd = odd || !std::isfinite(b);
        want.push_back(v);
    }
    // ratios of two entries may leave the range during elimination only where both are non-zero, so never here
    Solver s;
    Real r(p);
    Call c(NONE, x.choose(2, "result past") ? 2 : 0, std::vector<double>(n, 0.5));
    bool got = s.solve(*r.J, *r.W, *r.b, nullptr, c.result.m);
    x.step();
    mc::Hash h;
    h.i(n).i(got);
    if (got) {
        x.check(c.result.m->getHeight() == n, "extreme entries: the result has %d rows, expected %d", c.result.m->getHeight(), n);
        for (int i = 0; i < n; ++i) {
            double v = c.result.m->get(0, i);
            x.check(std::isfinite(v), "extreme entries: reported as solved, but row %d of %d is %g", i, n, v);
            if (inRange && !odd) x.check(std::fabs(v - want[i]) <= 1e-12 * std::fabs(want[i]), "extreme entries: row %d of %d is %g, expected %g", i, n, v, want[i]);
            h.d(v);
        }
    }
    if (inRange && !odd) x.check(got, "extreme entries: a diagonal system of %d rows, within the range of a double throughout, was reported as failed", n);
    if (odd) x.check(!got, "extreme entries: a system of %d rows with a right side that is no number was reported as solved", n);
    // and the object is still good for ordinary systems
    Problem q = past(3);
    solveOne(x, s, q, NONE, 0, false, "after extreme entries");
    x.state(h.h);
}

// one solver object, every sequence of systems (including empty and singular ones)
void sequences(mc::Ctx &x) {
    Solver *s = new Solver;
    struct Del { Solver *s; ~Del() { delete s; } } del{s};
    int depth = x.thorough() ? 5 : 4;
    Vec shared;
    bool share = x.choose(2, "one result object") == 1;
    for (int d = 0; d < depth; ++d) {
        int k = x.choose(9, "system");
        if (k == 8) break;
        Problem p = k < 6 ? past(k) : k == 6 ? noBodies() : past(3);
        bool sing = false;
        if (k == 7) {
            for (double &v : p.w) v = 0.5;
            for (auto &r : p.rows) for (double &v : r.v) v = v > 0 ? 2 : -2;
            p.rows[0].b[0] = 0; p.rows[0].b[1] = -1;
            p.rows[0].v[1] = p.rows[0].v[2] = 0;
            p.rows[2] = p.rows[0];
            sing = exactlySingular(p);
            x.check(sing, "harness: the system is not singular in exact arithmetic");
        }
        x.note("%d rows%s", p.n(), sing ? " singular" : "");
        if (!share) { solveOne(x, *s, p, d % 2 ? INPLACE : NONE, d % 4, sing, "sequence"); continue; }
        // like the systems do: result and start are one object that lives on
        Real r(p);
        bool got = s->solve(*r.J, *r.W, *r.b, shared.m, shared.m);
        x.step();
        x.check(got == !sing, "sequence: %d rows reported %s", p.n(), got ? "solved" : "failed");
        if (sing) { shared.m->destroy(); continue; }
        std::vector<R> A = p.dense();
        std::vector<double> v = shared.get();
        x.check((int)v.size() == p.n(), "sequence: result has %zu rows, expected %d", v.size(), p.n());
        std::vector<R> res = residual(A, p.b, v);
        double sc = scaleOf(A, p.b, v);
        for (size_t i = 0; i < res.size(); ++i) x.check(fabsl(res[i]) <= 1e-11L * sc, "sequence: row %zu misses its equation by %.3g", i, (double)res[i]);
        x.state(hash(p, v));
    }
    x.state(0);
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C11",
                   "all attachment patterns of up to 4 rows on 3 bodies (incl. empty rows, one body twice) x weights incl. indefinite x right sides x start vectors x earlier contents of the result; all small-integer systems up to 3 rows; all row permutations of 4 topologies; chains and stars up to 150 rows; 96 to 520 (1030) rows with couplings across the matrix; entries from 1e-160 to 1e155 and right sides up to 1e300, infinite or no number; all sequences of systems of different sizes, empty and singular ones through one solver; residuals in extended precision",
                   {{"patterns", patterns, 1, 2, false}, {"integers", integers, 0, 0, false}, {"permutations", permutations, 1, 1, false}, {"chains", chains, 1, 2, false}, {"large", large, 0, 0, false}, {"extremes", extremes, 0, 0, false}, {"sequences", sequences, 0, 0, false}},
                   {"systems with a pivot ratio below 1e-10 that are not exactly singular are not judged", "exact singularity: a zero or repeated row for which elimination leaves an exact zero, however it is arranged"});
}
