// Enumeration of constraint-shaped linear systems (J W J') x = b at the
// interface of the linear solvers, with the dense system in extended precision.
#ifndef SLE_H
#define SLE_H
#include "ref.h"
#include <memory>

namespace sle {
using ref::R;
using atg_scs::Matrix;
typedef atg_scs::SparseMatrix<3> Sparse;

struct RowP { int b[2] = {-1, -1}; double v[6] = {0, 0, 0, 0, 0, 0}; };
struct Problem {
    int bodies = 0;
    std::vector<RowP> rows;
    std::vector<double> w, b;
    int n() const { return (int)rows.size(); }
    std::vector<R> dense() const {
        int m = n();
        std::vector<R> A((size_t)m * m);
        // a row with one body on both sides acts on it with the sum
        struct Sum { int b[2] = {-1, -1}; R v[6] = {0, 0, 0, 0, 0, 0}; };
        std::vector<Sum> D(m);
        for (int i = 0; i < m; ++i) for (int e = 0; e < 2; ++e) {
            int b = rows[i].b[e], at = b >= 0 && b == D[i].b[0] ? 0 : e;
            if (b < 0) continue;
            D[i].b[at] = b;
            for (int k = 0; k < 3; ++k) D[i].v[3 * at + k] += rows[i].v[3 * e + k];
        }
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) {
            R s = 0;
            for (int e = 0; e < 2; ++e) for (int f = 0; f < 2; ++f) if (D[i].b[e] >= 0 && D[i].b[e] == D[j].b[f])
                for (int k = 0; k < 3; ++k) s += D[i].v[3 * e + k] * (R)w[3 * D[i].b[e] + k] * D[j].v[3 * f + k];
            A[(size_t)i * m + j] = s;
        }
        return A;
    }
};
// the same problem in library objects
struct Real {
    const Problem &p;
    Sparse *J = new Sparse;
    Matrix *W = new Matrix, *b = new Matrix, *lim = new Matrix;
    explicit Real(const Problem &q) : p(q) {
        J->initialize(3 * p.bodies, p.n());
        W->initialize(1, 3 * p.bodies);
        b->initialize(1, p.n());
        lim->initialize(2, p.n());
        for (int i = 0; i < p.n(); ++i) {
            for (int e = 0; e < 2; ++e) if (p.rows[i].b[e] >= 0) { J->setBlock(i, e, p.rows[i].b[e]); for (int k = 0; k < 3; ++k) J->set(i, e, k, p.rows[i].v[3 * e + k]); }
            b->set(0, i, p.b[i]);
        }
        for (int k = 0; k < 3 * p.bodies; ++k) W->set(0, k, p.w[k]);
    }
    Real(const Real &) = delete;
    ~Real() { J->destroy(); delete J; for (Matrix *m : {W, b, lim}) { m->destroy(); delete m; } }
    void untouched(mc::Ctx &x) {
        x.check(b->getWidth() == 1 && b->getHeight() == p.n() && W->getHeight() == 3 * p.bodies && J->getHeight() == p.n() && J->getWidth() == 3 * p.bodies, "solving changed the shape of its input");
        for (int i = 0; i < p.n(); ++i) {
            x.check(b->get(0, i) == p.b[i], "solving changed the right side, row %d", i);
            for (int e = 0; e < 2; ++e) if (p.rows[i].b[e] >= 0) for (int k = 0; k < 3; ++k) x.check(J->get(i, e, k) == p.rows[i].v[3 * e + k], "solving changed the constraint matrix, row %d", i);
        }
        for (int k = 0; k < 3 * p.bodies; ++k) x.check(W->get(0, k) == p.w[k], "solving changed the inverse masses");
    }
};
struct Vec {
    Matrix *m = new Matrix;
    Vec() {}
    Vec(const Vec &) = delete;
    ~Vec() { m->destroy(); delete m; }
    void set(const std::vector<double> &v) { m->resize(1, (int)v.size()); for (size_t i = 0; i < v.size(); ++i) m->set(0, (int)i, v[i]); }
    std::vector<double> get() { std::vector<double> v; for (int i = 0; i < m->getHeight(); ++i) v.push_back(m->get(0, i)); return v; }
};
inline double value(int r, int e, int k) {
    static const double t[] = {0.83, -1.27, 0.41, 1.9, -0.66, 0.37, 1.13, -2.05, 0.74, -0.29, 1.58, -0.92, 0.55};
    return t[(r * 7 + e * 4 + k * 3 + (r / 2) * 5) % 13] + 0.03 * r - 0.05 * k + 0.11 * e * (r % 3);
}
inline double massOf(int k) { static const double t[] = {0.5, 0.5, 1.4, 1.1, 1.1, 0.3, 2.2, 2.2, 0.9, 0.75, 0.75, 3.1}; return t[k % 12]; }
inline double rightOf(int i) { static const double t[] = {1.25, -3.5, 0.6, 7.75, -0.2, 2.9, -5.1}; return t[i % 7] + 0.1 * (i / 7); }
// attachments a row may have on `bodies` bodies: none, either slot, ordered
// pairs, the same body in both slots
inline std::vector<std::array<int, 2>> attachments(int bodies, bool empty, bool twice) {
    std::vector<std::array<int, 2>> o;
    for (int a = 0; a < bodies; ++a) { o.push_back({a, -1}); o.push_back({-1, a}); }
    for (int a = 0; a < bodies; ++a) for (int b = 0; b < bodies; ++b) if (a != b || twice) o.push_back({a, b});
    if (empty) o.push_back({-1, -1});
    return o;
}
inline RowP rowOf(const std::array<int, 2> &at, int r) {
    RowP p;
    for (int e = 0; e < 2; ++e) { p.b[e] = at[e]; if (at[e] >= 0) for (int k = 0; k < 3; ++k) p.v[3 * e + k] = value(r, e, k); }
    return p;
}
// the fixed problems used for earlier lives of solvers: sizes 0,1,2,3,6
inline Problem past(int k) {
    static const int sz[] = {0, 1, 2, 3, 6, 9};
    Problem p;
    p.bodies = std::max(1, sz[k]);
    for (int i = 0; i < sz[k]; ++i) p.rows.push_back(rowOf({i % p.bodies, i && p.bodies > 1 ? (i + 1) % p.bodies : -1}, i + 3));
    for (int i = 0; i < 3 * p.bodies; ++i) p.w.push_back(massOf(i + 1));
    for (int i = 0; i < sz[k]; ++i) p.b.push_back(rightOf(i + 2));
    return p;
}
inline Problem noBodies() { return Problem(); }

// extended-precision residual b - A x of a result
inline std::vector<R> residual(const std::vector<R> &A, const std::vector<double> &b, const std::vector<double> &x) {
    int n = (int)b.size();
    std::vector<R> r(n);
    for (int i = 0; i < n; ++i) { r[i] = b[i]; for (int j = 0; j < n; ++j) r[i] -= A[(size_t)i * n + j] * (R)x[j]; }
    return r;
}
inline double scaleOf(const std::vector<R> &A, const std::vector<double> &b, const std::vector<double> &x) {
    R a = 0, m = 0, c = 0;
    for (R v : A) a = std::max(a, fabsl(v));
    for (double v : x) m = std::max(m, fabsl((R)v));
    for (double v : b) c = std::max(c, fabsl((R)v));
    return (double)(a * m * std::max<size_t>(1, b.size()) + c);
}
inline double symQuality(const std::vector<R> &A, int n) {
    std::vector<R> b(n, 0), x;
    R q = 1;
    if (n && !ref::solveDense(A, b, x, &q)) return 0;
    return (double)q;
}
// Cholesky: positive definite?
inline bool positive(std::vector<R> A, int n) {
    for (int k = 0; k < n; ++k) {
        R d = A[(size_t)k * n + k];
        for (int j = 0; j < k; ++j) d -= A[(size_t)k * n + j] * A[(size_t)k * n + j];
        if (!(d > 1e-12L)) return false;
        d = sqrtl(d);
        A[(size_t)k * n + k] = d;
        for (int i = k + 1; i < n; ++i) {
            R s = A[(size_t)i * n + k];
            for (int j = 0; j < k; ++j) s -= A[(size_t)i * n + j] * A[(size_t)k * n + j];
            A[(size_t)i * n + k] = s / d;
        }
    }
    return true;
}
// Gauss-Seidel sweeps from a start until no component changes by more than delta
inline int sweepsFrom(const std::vector<R> &A, const std::vector<double> &b, std::vector<double> x, const std::vector<double> *lo, const std::vector<double> *hi, double delta, int limit) {
    int n = (int)b.size();
    for (int it = 1; it <= limit; ++it) {
        double worst = 0;
        for (int i = 0; i < n; ++i) {
            double s = b[i];
            for (int j = 0; j < n; ++j) if (j != i) s -= (double)A[(size_t)i * n + j] * x[j];
            double y = s / (double)A[(size_t)i * n + i];
            if (lo) y = std::max((*lo)[i], std::min((*hi)[i], y));
            worst = std::max(worst, std::fabs(y - x[i]) / std::max(1e-3, std::fabs(x[i])));
            x[i] = y;
        }
        if (!(worst == worst) || worst > 1e200) return limit + 1;
        if (worst < delta) return it;
    }
    return limit + 1;
}
inline uint64_t hash(const Problem &p, const std::vector<double> &x) {
    mc::Hash h;
    h.i(p.n()).i(p.bodies);
    for (auto &r : p.rows) { h.i(r.b[0]).i(r.b[1]); for (double v : r.v) h.d(v); }
    for (double v : p.w) h.d(v);
    for (double v : p.b) h.d(v);
    for (double v : x) h.d(v);
    return h.h;
}
// how a solve is called: start vector and result object
enum Start { NONE, SAME, WRONG, ZERO, EXACT, FAR, NEGATIVE, INPLACE, STARTS };
inline const char *startName(int s) { static const char *const n[] = {"none", "empty result in place", "wrong size", "zero", "exact", "far", "negative", "in place"}; return n[s]; }
// prepares start and result; returns the start vector in effect and the pointer to pass
struct Call {
    Vec result, prev;
    Matrix *previous = nullptr;
    std::vector<double> start;
    Call(int kind, int resultPast, const std::vector<double> &exact) {
        int n = (int)exact.size();
        start.assign(n, 0);
        if (resultPast == 1) { result.m->initialize(1, 7, -88); result.m->fastRowSwap(0, 6); }
        if (resultPast == 2) result.m->initialize(5, 2, 1e30);
        if (resultPast == 3) { result.m->initialize(1, 2, NAN); result.m->destroy(); }
        auto far = [&](double s) { for (int i = 0; i < n; ++i) start[i] = s * (40 + 17.5 * i * (i % 2 ? -1 : 1)); };
        switch (kind) {
        case NONE: break;
        case SAME: result.m->destroy(); previous = result.m; break;
        case WRONG: prev.m->initialize(1, n + 2, 9.5); previous = prev.m; break;
        case ZERO: prev.set(start); previous = prev.m; break;
        case EXACT: start = exact; prev.set(start); previous = prev.m; break;
        case FAR: far(1); prev.set(start); previous = prev.m; break;
        case NEGATIVE: far(-1e3); prev.set(start); previous = prev.m; break;
        case INPLACE: far(-1); result.set(start); previous = result.m; break;
        }
    }
};
} // namespace sle
#endif
