// C18: dense matrix operations compute the algebra they name for all shapes.
#include "mc.h"
#include "matrix.h"
#include <algorithm>
#include <cmath>
#include <memory>
using atg_scs::Matrix;

namespace {
struct Model {
    int w = 0, h = 0;
    std::vector<double> d;
    void size(int w_, int h_, double v = 0) { w = w_; h = h_; d.assign((size_t)w * h, v); }
    double &at(int c, int r) { return d[(size_t)r * w + c]; }
    double at(int c, int r) const { return d[(size_t)r * w + c]; }
};
struct Owned {
    Matrix *m;
    Owned() : m(new Matrix) {}
    ~Owned() { m->destroy(); delete m; }
    Matrix *operator->() { return m; }
};
double value(int salt, int c, int r) {
    static const double t[] = {1.5, -2.25, 0, 3.75, -0.5, 7, 11.125, -13, 0.0625, 1e3, -4e-3};
    return t[(salt * 5 + c * 3 + r * 7) % 11] + 0.01 * c - 0.02 * r;
}
void compare(mc::Ctx &x, Matrix *m, const Model &k, const char *what, double size = 1) {
    x.check(m->getWidth() == k.w && m->getHeight() == k.h, "%s: shape %dx%d, expected %dx%d", what, m->getWidth(), m->getHeight(), k.w, k.h);
    for (int r = 0; r < k.h; ++r) for (int c = 0; c < k.w; ++c) x.nearScale(m->get(c, r), k.at(c, r), 1e-12, size, "%s: element column %d row %d", what, c, r);
}
const int dims[] = {0, 1, 2, 3, 5};

// gives the object an arbitrary past before it takes its role
void history(mc::Ctx &x, Matrix *m, const char *who) {
    static const int pasts[][4] = {{0, 0, 0, 0}, {3, 2, 0, 0}, {1, 5, 4, 1}, {6, 6, 0, 0}, {2, 2, 3, 3}, {7, 0, 0, 7}};
    int k = x.choose(9, who);
    if (k == 0) return;
    if (k < 6) {
        const int *p = pasts[k];
        m->initialize(p[0], p[1], -77);
        if (p[2] || p[3]) m->initialize(p[2], p[3], 55);
    } else if (k == 6) { m->initialize(4, 3, 9); m->destroy(); }
    else if (k == 7) { m->initialize(3, 5, 9); m->fastRowSwap(0, 4); m->fastRowSwap(1, 2); }
    else { m->initialize(2, 3, 4); m->destroy(); m->initialize(1, 2, 3); m->resize(5, 1); }
}
void load(Matrix *m, Model &k, int w, int h, int salt, bool swapRows) {
    m->resize(w, h);
    k.size(w, h);
    for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) { k.at(c, r) = value(salt, c, r); m->set(c, r, k.at(c, r)); }
    if (swapRows && h > 1) {
        m->fastRowSwap(0, h - 1);
        for (int c = 0; c < w; ++c) std::swap(k.at(c, 0), k.at(c, h - 1));
    }
}

// every operation x operand shapes x past of the target x row swaps x aliasing
enum Op { MUL, TMUL, CMUL, LSCALE, RSCALE, SCALE, SUB, ADD, NEG, TRANS, SETREF, MADD, PMADD, DOT, MAG, SETDATA, INIT, INITV, OPS };
const char *const opNames[] = {"multiply", "transposeMultiply", "componentMultiply", "leftScale", "rightScale", "scale", "subtract", "add", "negate", "transpose", "set(matrix)", "madd", "pmadd", "dot", "vectorMagnitudeSquared", "set(data)", "initialize", "initialize(value)"};
void perform(mc::Ctx &x, int op, int w, int h, int n, double size);
void operations(mc::Ctx &x) {
    int op = x.choose(OPS, "operation");
    int h = x.pick(dims, "height"), w = op == DOT || op == MAG ? 1 : x.pick(dims, "width"), n = op == MUL || op == TMUL ? x.pick(dims, "inner") : 0;
    perform(x, op, w, h, n, 1);
}
// long rows, long columns and large squares
void large(mc::Ctx &x) {
    static const int shapes[][3] = {
        {3, 17, 2}, {2, 33, 3}, {2, 63, 5}, {3, 64, 1}, {2, 65, 3}, {3, 127, 2}, {2, 128, 3}, {4, 129, 2}, {2, 150, 3}, {1, 255, 4}, {3, 256, 2}, {2, 257, 1}, {2, 520, 3}, {1, 1030, 2}, {2, 4100, 1}, {1, 66000, 1},
        {17, 3, 2}, {33, 2, 3}, {64, 1, 3}, {65, 2, 2}, {129, 3, 2}, {150, 2, 3}, {257, 2, 2}, {520, 1, 3}, {1030, 2, 1}, {4100, 1, 2}, {66000, 1, 1},
        {2, 3, 17}, {3, 2, 33}, {2, 1, 64}, {1, 2, 65}, {3, 2, 129}, {2, 2, 257}, {2, 1, 1030}, {1, 2, 4100}, {1, 1, 66000},
        {16, 16, 16}, {17, 17, 17}, {31, 33, 32}, {32, 32, 32}, {65, 64, 63}, {64, 64, 64}, {130, 70, 5}, {5, 129, 140}};
    int op = x.choose(OPS, "operation");
    int k = x.choose((int)(sizeof shapes / sizeof *shapes), "shape");
    int w = shapes[k][0], h = shapes[k][1], n = shapes[k][2];
    if (op == DOT || op == MAG) { if (w > 2) x.discard(); w = 1; }
    if ((op == MUL || op == TMUL) && !x.thorough() && (long long)w * h * n > 200000) x.discard();
    if (op == TMUL && w > 3000 && n > 1) x.discard();
    if (op != MUL && op != TMUL) { if (n > 130) x.discard(); n = 0; }
    perform(x, op, w, h, n, 2e6 * std::max({1, w, h}));
}
void perform(mc::Ctx &x, int op, int w, int h, int n, double size) {
    bool big = size > 1;
    if (op != MUL && op != TMUL && op != DOT && op != MAG) size = 1;
    bool swapA = x.choose(2, "swapped rows") == 1;
    int pattern = x.choose(2, "fresh memory");
    mc::mem::fill(pattern ? 3 : 0);
    Owned A, B, T;
    Model a, b, t;
    if (!big) history(x, T.m, "target past");
    else if (x.choose(2, "target past")) { T->initialize(9, 300, 1); T->fastRowSwap(0, 299); }
    if (x.deviate(2, "operand past")) { A->initialize(6, 7, 1); B->initialize(7, 4, 1); B->fastRowSwap(0, 3); }
    load(A.m, a, w, h, 1, swapA);
    int bw = w, bh = h;
    if (op == MUL) { bw = n; bh = w; }
    if (op == TMUL) { bw = n; bh = h; }
    if (op == LSCALE) { bw = 1; bh = h; }
    if (op == RSCALE) { bw = 1; bh = w; }
    load(B.m, b, bw, bh, 2, swapA);
    bool elementwise = op == CMUL || op == SUB || op == ADD;
    bool unaryAlias = elementwise || op == LSCALE || op == RSCALE || op == SCALE || op == NEG;
    int alias = elementwise ? x.choose(4, "alias") : unaryAlias ? x.choose(2, "alias") : 0; // 1: onto this, 2: onto b, 3: b is this
    Matrix *pa = A.m, *pb = alias == 3 ? A.m : B.m, *pt = alias == 1 ? A.m : alias == 2 ? B.m : T.m;
    const Model &rb = alias == 3 ? a : b;
    x.note("%s %dx%d with %dx%d alias %d", opNames[op], w, h, bw, bh, alias);
    x.step();
    switch (op) {
    case MUL:
        t.size(n, h);
        for (int i = 0; i < h; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < w; ++k) t.at(j, i) += a.at(k, i) * b.at(j, k);
        pa->multiply(*pb, pt); break;
    case TMUL:
        t.size(n, w);
        for (int i = 0; i < w; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < h; ++k) t.at(j, i) += a.at(i, k) * b.at(j, k);
        pa->transposeMultiply(*pb, pt); break;
    case CMUL: t = a; for (size_t i = 0; i < t.d.size(); ++i) t.d[i] *= rb.d[i]; pa->componentMultiply(*pb, pt); break;
    case LSCALE: t = a; for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) t.at(j, i) *= b.at(0, i); pa->leftScale(*pb, pt); break;
    case RSCALE: t = a; for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) t.at(j, i) *= b.at(0, j); pa->rightScale(*pb, pt); break;
    case SCALE: t = a; for (double &v : t.d) v *= -1.75; pa->scale(-1.75, pt); break;
    case SUB: t = a; for (size_t i = 0; i < t.d.size(); ++i) t.d[i] -= rb.d[i]; pa->subtract(*pb, pt); break;
    case ADD: t = a; for (size_t i = 0; i < t.d.size(); ++i) t.d[i] += rb.d[i]; pa->add(*pb, pt); break;
    case NEG: t = a; for (double &v : t.d) v = -v; pa->negate(pt); break;
    case TRANS: t.size(h, w); for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) t.at(i, j) = a.at(j, i); pa->transpose(pt); break;
    case SETREF: t = a; T->set(A.m); break;
    case MADD: { int self = x.choose(2, "onto itself"); t = a; for (size_t i = 0; i < t.d.size(); ++i) t.d[i] += 2.5 * (self ? a.d[i] : b.d[i]); A->madd(self ? *A.m : *B.m, 2.5); pt = A.m; break; }
    case PMADD: { int self = x.choose(2, "onto itself"); t = a; for (size_t i = 0; i < t.d.size(); ++i) t.d[i] = -0.75 * t.d[i] + (self ? a.d[i] : b.d[i]); A->pmadd(self ? *A.m : *B.m, -0.75); pt = A.m; break; }
    case DOT: {
        double s = 0, q = 0;
        for (int i = 0; i < h; ++i) { s += a.at(0, i) * b.at(0, i); q += a.at(0, i) * a.at(0, i); }
        x.nearScale(A->dot(*B.m), s, 1e-12, size, "dot"); x.nearScale(B->dot(*A.m), s, 1e-12, size, "dot (exchanged)"); x.nearScale(A->dot(*A.m), q, 1e-12, size, "dot with itself");
        t = a; pt = A.m; break;
    }
    case MAG: { double q = 0; for (int i = 0; i < h; ++i) q += a.at(0, i) * a.at(0, i); x.nearScale(A->vectorMagnitudeSquared(), q, 1e-12, size, "vectorMagnitudeSquared"); t = a; pt = A.m; break; }
    case SETDATA: {
        // row-major data, onto a matrix that may have swapped rows
        double *data = new double[(size_t)w * h + 1];
        t.size(w, h);
        for (int i = 0; i < w * h; ++i) data[i] = t.d[i] = value(3, i, 0);
        A->set(data);
        for (int i = 0; i < w * h; ++i) data[i] = NAN;
        delete[] data;
        pt = A.m; break;
    }
    case INIT: t.size(w, h, 0); T->initialize(w, h); break;
    case INITV: t.size(w, h, 6.5); T->initialize(w, h, 6.5); break;
    }
    compare(x, pt, t, opNames[op], size);
    // nothing but the target changes
    if (pt != A.m) compare(x, A.m, a, "left operand");
    if (pt != B.m) compare(x, B.m, b, "right operand");
    // every element of the result is separately writable
    for (int r = 0; r < t.h; ++r) for (int c = 0; c < t.w; ++c) { pt->set(c, r, 100 * r + c); t.at(c, r) = 100 * r + c; }
    compare(x, pt, t, "after writing every element");
    for (int r = 0; r < t.h; ++r) for (int c = 0; c < t.w; ++c) { pt->add(c, r, 0.5 * c - r); t.at(c, r) += 0.5 * c - r; }
    compare(x, pt, t, "after adding to every element");
    mc::Hash hs;
    hs.i(op).i(w).i(h).i(n).i(alias).i(swapA);
    for (double v : t.d) hs.d(v);
    x.state(hs.h);
}

// every pair (triple) of special values in every place where it can meet
void values(mc::Ctx &x) {
    static const double t[] = {0, -0.0, 1, -1, 1 + 2.3e-16, 1 + 1e-9, 3e-310, 1e-160, -1e-160, 7e-9, 1e8 + 1, -1e8, 1e155, INFINITY, NAN};
    static const int n = sizeof t / sizeof *t;
    int op = x.choose(13, "operation"), place = x.choose(2, "place");
    double a = t[x.choose(n, "a")], b = t[x.choose(n, "b")], d = t[x.choose(n, "c")];
    Owned A, B, T;
    // the values under test stand first or last among ordinary ones
    auto put = [&](Owned &m, int w, int h, double v, double v2) {
        m->initialize(w, h, 2);
        if (place) { m->set(w - 1, h - 1, v); if (w * h > 1) m->set(w > 1 ? w - 2 : 0, w > 1 ? h - 1 : h - 2, v2); }
        else { m->set(0, 0, v); if (w * h > 1) m->set(w > 1 ? 1 : 0, w > 1 ? 0 : 1, v2); }
    };
    auto same = [](double got, double want, double size) { return std::isnan(want) || std::isnan(size) ? std::isnan(got) == std::isnan(want) : std::isinf(want) ? got == want : std::fabs(got - want) <= 1e-15 * size + 1e-300; };
    double got = 0, want = 0, size = 0;
    int c = place ? 1 : 0, r = place ? 2 : 0;
    switch (op) {
    case 0: put(A, 2, 3, a, d); put(B, 2, 3, b, a); A->add(*B.m, T.m); got = T->get(c, r); want = a + b; break;
    case 1: put(A, 2, 3, a, d); put(B, 2, 3, b, a); A->subtract(*B.m, T.m); got = T->get(c, r); want = a - b; break;
    case 2: put(A, 2, 3, a, d); put(B, 2, 3, b, a); A->componentMultiply(*B.m, T.m); got = T->get(c, r); want = a * b; break;
    case 3: put(A, 2, 3, a, d); A->scale(b, T.m); got = T->get(c, r); want = b * a; break;
    case 4: put(A, 2, 3, a, d); put(B, 1, 3, b, a); A->leftScale(*B.m, T.m); got = T->get(c, r); want = b * a; break;
    case 5: put(A, 2, 3, a, d); put(B, 1, 2, b, a); A->rightScale(*B.m, T.m); got = T->get(c, r); want = b * a; break;
    case 6: put(A, 2, 3, a, d); A->negate(T.m); got = T->get(c, r); want = -a; break;
    case 7: put(A, 2, 3, a, d); put(B, 2, 3, b, a); A->madd(*B.m, d); got = A->get(c, r); want = a + b * d; size = std::fabs(a) + std::fabs(b * d); break;
    case 8: put(A, 2, 3, a, b); put(B, 2, 3, b, a); A->pmadd(*B.m, d); got = A->get(c, r); want = d * a + b; size = std::fabs(b) + std::fabs(a * d); break;
    case 9: put(A, 2, 1, a, d); put(B, 1, 2, b, d); if (place) {} A->multiply(*B.m, T.m); got = T->get(0, 0); want = a * b + d * d; size = std::fabs(a * b) + std::fabs(d * d); break;
    case 10: put(A, 1, 2, a, d); put(B, 1, 2, b, d); A->transposeMultiply(*B.m, T.m); got = T->get(0, 0); want = a * b + d * d; size = std::fabs(a * b) + std::fabs(d * d); break;
    case 11: put(A, 1, 2, a, d); put(B, 1, 2, b, d); got = A->dot(*B.m); want = a * b + d * d; size = std::fabs(a * b) + std::fabs(d * d); break;
    case 12: put(A, 1, 2, a, d); got = A->vectorMagnitudeSquared(); want = a * a + d * d; size = std::fabs(want); break;
    }
    if (op < 7) size = 0; // one rounding at most: exact
    if (op < 7 && !(std::isnan(want) ? std::isnan(got) : got == want)) x.fail("operation %d on %.17g and %.17g: %.17g, expected %.17g", op, a, b, got, want);
    if (op >= 7 && !same(got, want, size)) x.fail("operation %d on %.17g, %.17g and %.17g: %.17g, expected %.17g", op, a, b, d, got, want);
    x.step();
    x.state(mc::Hash().i(op).d(got).h);
}

// equality holds exactly within the tolerance, for the same shape only
void equality(mc::Ctx &x) {
    int w = x.pick(dims, "width"), h = x.pick(dims, "height"), w2 = x.pick(dims, "width2"), h2 = x.pick(dims, "height2");
    bool swapped = x.choose(2, "swapped rows") == 1;
    Owned A, B;
    Model a, b;
    load(A.m, a, w, h, 1, swapped);
    load(B.m, b, w2, h2, 1, swapped);
    bool same = w == w2 && h == h2;
    x.step();
    x.state(mc::Hash().i(w).i(h).i(w2).i(h2).h);
    if (!same) { x.check(!A->equals(*B.m), "%dx%d equals %dx%d", w, h, w2, h2); x.check(!A->equals(*B.m, 1e9), "%dx%d equals %dx%d", w, h, w2, h2); return; }
    x.check(A->equals(*B.m) && B->equals(*A.m) && A->equals(*A.m) && A->equals(*B.m, 0), "equal %dx%d matrices are reported different", w, h);
    if (w == 0 || h == 0) return;
    int c = x.choose(w, "column"), r = x.choose(h, "row");
    static const double diffs[] = {5e-7, 1e-5, 0.5, 3, NAN, INFINITY};
    static const double errs[] = {-1, 1e-3, 1, 0};
    double df = x.pick(diffs, "difference");
    if (x.choose(2, "sign")) df = -df;
    double err = x.pick(errs, "tolerance");
    B->add(c, r, df);
    bool want = std::fabs(df) <= (err < 0 ? 1e-6 : err);
    bool g1 = err < 0 ? A->equals(*B.m) : A->equals(*B.m, err), g2 = err < 0 ? B->equals(*A.m) : B->equals(*A.m, err);
    x.check(g1 == want && g2 == want, "matrices differing by %g at column %d row %d with tolerance %g: equals gives %d/%d", df, c, r, err, g1, g2);
}

// all sequences of operations on three matrices against the model
void sequences(mc::Ctx &x) {
    Owned m[3];
    Model k[3];
    int depth = x.thorough() ? 5 : 4;
    static const int shapes[][2] = {{2, 2}, {3, 1}, {1, 4}, {0, 2}, {5, 3}};
    for (int d = 0; d < depth; ++d) {
        int op = x.choose(22, "op");
        if (op == 0) break;
        x.step();
        Matrix *A = m[0].m, *B = m[1].m, *C = m[2].m;
        if (op <= 5) { A->initialize(shapes[op - 1][0], shapes[op - 1][1], 2.5); k[0].size(shapes[op - 1][0], shapes[op - 1][1], 2.5); x.note("A:=%dx%d", k[0].w, k[0].h); }
        else if (op <= 8) { int s = op - 6; B->resize(shapes[s][0], shapes[s][1]); k[1].size(shapes[s][0], shapes[s][1]); for (int r = 0; r < k[1].h; ++r) for (int c = 0; c < k[1].w; ++c) { k[1].at(c, r) = value(d, c, r); B->set(c, r, k[1].at(c, r)); } x.note("B resized %dx%d", k[1].w, k[1].h); }
        else if (op == 9) { A->destroy(); k[0].size(0, 0); x.note("destroy A"); }
        else if (op == 10) { C->destroy(); k[2].size(0, 0); x.note("destroy C"); }
        else if (op == 11) { A->set(B); k[0] = k[1]; x.note("A:=B"); }
        else if (op == 12) { B->set(C); k[1] = k[2]; x.note("B:=C"); }
        else if (op == 13) { A->transpose(C); k[2].size(k[0].h, k[0].w); for (int r = 0; r < k[0].h; ++r) for (int c = 0; c < k[0].w; ++c) k[2].at(r, c) = k[0].at(c, r); x.note("C:=A'"); }
        else if (op == 14) { if (k[0].w != k[1].h) continue; A->multiply(*B, C); Model t; t.size(k[1].w, k[0].h); for (int i = 0; i < t.h; ++i) for (int j = 0; j < t.w; ++j) for (int q = 0; q < k[0].w; ++q) t.at(j, i) += k[0].at(q, i) * k[1].at(j, q); k[2] = t; x.note("C:=A*B"); }
        else if (op == 15) { if (k[0].w != k[1].w || k[0].h != k[1].h) continue; A->add(*B, A); for (size_t i = 0; i < k[0].d.size(); ++i) k[0].d[i] += k[1].d[i]; x.note("A+=B"); }
        else if (op == 16) { if (k[1].w != k[2].w || k[1].h != k[2].h) continue; B->madd(*C, -2); for (size_t i = 0; i < k[1].d.size(); ++i) k[1].d[i] -= 2 * k[2].d[i]; x.note("B-=2C"); }
        else if (op == 17) { if (k[0].h < 2) continue; A->fastRowSwap(0, 1); for (int c = 0; c < k[0].w; ++c) std::swap(k[0].at(c, 0), k[0].at(c, 1)); x.note("swap rows of A"); }
        else if (op == 18) { C->initialize(4, 2); k[2].size(4, 2); x.note("C:=0"); }
        else if (op == 19) { B->scale(3, C); k[2] = k[1]; for (double &v : k[2].d) v *= 3; x.note("C:=3B"); }
        else if (op == 20) { if (k[1].h < 2) continue; int l = k[1].h - 1; B->fastRowSwap(0, l); for (int c = 0; c < k[1].w; ++c) std::swap(k[1].at(c, 0), k[1].at(c, l)); x.note("swap rows of B"); }
        else { if (k[0].h != k[1].h) continue; A->transposeMultiply(*B, C); Model t; t.size(k[1].w, k[0].w); for (int i = 0; i < t.h; ++i) for (int j = 0; j < t.w; ++j) for (int q = 0; q < k[0].h; ++q) t.at(j, i) += k[0].at(i, q) * k[1].at(j, q); k[2] = t; x.note("C:=A'*B"); }
        for (int i = 0; i < 3; ++i) compare(x, m[i].m, k[i], i == 0 ? "A" : i == 1 ? "B" : "C");
        mc::Hash h;
        for (int i = 0; i < 3; ++i) { h.i(k[i].w).i(k[i].h); for (double v : k[i].d) h.d(v); }
        x.state(h.h);
    }
    x.state(1);
}
// resizing between any two (three) shapes leaves a fully usable matrix
void resizing(mc::Ctx &x) {
    static const int d[] = {0, 1, 2, 3, 4, 9};
    Owned A;
    Model k;
    int n = x.thorough() ? 4 : 3;
    for (int i = 0; i < n; ++i) {
        int w = x.pick(d, "width"), h = x.pick(d, "height");
        int how = x.choose(3, "how");
        if (how == 0) A->resize(w, h);
        else if (how == 1) A->initialize(w, h);
        else { A->destroy(); x.check(A->getWidth() == 0 && A->getHeight() == 0, "destroyed matrix reports a size"); A->initialize(w, h, -1); }
        x.step();
        k.size(w, h, how == 2 ? -1 : 0);
        if (how != 0) compare(x, A.m, k, "resized");
        x.check(A->getWidth() == w && A->getHeight() == h, "resize to %dx%d gives %dx%d", w, h, A->getWidth(), A->getHeight());
        for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) { k.at(c, r) = value(i, c, r); A->set(c, r, k.at(c, r)); }
        compare(x, A.m, k, "written");
        if (h > 1) { A->fastRowSwap(h - 1, 0); for (int c = 0; c < w; ++c) std::swap(k.at(c, 0), k.at(c, h - 1)); compare(x, A.m, k, "row-swapped"); }
    }
    mc::Hash hs;
    hs.i(k.w).i(k.h);
    for (double v : k.d) hs.d(v);
    x.state(hs.h);
}
// constructor with a size and value
void constructor(mc::Ctx &x) {
    int w = x.pick(dims, "width"), h = x.pick(dims, "height"), form = x.choose(5, "form");
    // the storage may hold anything before, the wanted sizes included
    const unsigned words[] = {(unsigned)w, (unsigned)h, 0u, 9u, ~0u};
    unsigned a = words[x.choose(5, "even words of fresh memory")], b = words[x.choose(5, "odd words of fresh memory")];
    mc::mem::fillWords(a, b);
    Matrix *m = form == 0 ? new Matrix(w, h) : form == 1 ? new Matrix(w, h, -3.5) : new Matrix;
    Model k;
    if (form != 2) k.size(w, h, form == 1 || form == 4 ? -3.5 : 0);
    std::string bad;
    try {
        if (form == 2) compare(x, m, k, "constructed");
        if (form == 3) m->initialize(w, h);
        if (form == 4) m->initialize(w, h, -3.5);
        compare(x, m, k, "constructed");
    } catch (mc::Violation &v) { bad = v.msg; }
    mc::mem::fill(-1);
    m->destroy();
    delete m;
    x.step();
    x.state(mc::Hash().i(w).i(h).i(form).h);
    if (!bad.empty()) x.fail("%s", bad.c_str());
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C18",
                   "every matrix operation x all operand shapes from {0,1,2,3,5}^2(3) x 9 pasts of the target x row swaps x aliasing x fresh-memory contents, and for 44 large shapes with a dimension up to 66000; all triples of 15 special values (zeros of both signs, neighbours of 1, subnormal, tiny, huge, infinite, NaN) through every operation; all operation sequences up to the depth bound on three matrices; all chains of three resizes over {0,1,2,3,4,9}^2; equality at every element; each against a plain array model",
                   {{"operations", operations, 1, 1, false}, {"large", large, 0, 0, false}, {"values", values, 0, 0, false}, {"equality", equality, 0, 0, false}, {"sequences", sequences, 0, 0, false}, {"resizing", resizing, 0, 0, false}, {"constructor", constructor, 0, 0, false}},
                   {"operands of an operation have compatible shapes", "products are written to a target that is not an operand"});
}
