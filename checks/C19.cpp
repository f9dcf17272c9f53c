// C19: sparse block matrices act exactly like the dense matrices they represent.
#include "ref.h"
#include <memory>
using atg_scs::Matrix;
using atg_scs::SparseMatrix;

namespace {
struct Dense {
    int w = 0, h = 0;
    std::vector<double> d;
    Dense(int w_, int h_) : w(w_), h(h_), d((size_t)w_ * h_, 0.0) {}
    double &at(int c, int r) { return d[(size_t)r * w + c]; }
    double at(int c, int r) const { return d[(size_t)r * w + c]; }
};
struct Mat {
    Matrix *m = new Matrix;
    ~Mat() { m->destroy(); delete m; }
    Matrix *operator->() { return m; }
    Matrix &operator*() { return *m; }
    // arbitrary earlier sizes and contents
    void past(int k) {
        if (k == 1) m->initialize(7, 1, -55);
        if (k == 2) { m->initialize(1, 9, 44); m->fastRowSwap(0, 8); }
        if (k == 3) { m->initialize(12, 12, 1e9); m->destroy(); }
    }
};
void compare(mc::Ctx &x, Matrix *m, const Dense &k, const char *what, double size = 1) {
    x.check(m->getWidth() == k.w && m->getHeight() == k.h, "%s: shape %dx%d, expected %dx%d", what, m->getWidth(), m->getHeight(), k.w, k.h);
    for (int r = 0; r < k.h; ++r) for (int c = 0; c < k.w; ++c) x.nearScale(m->get(c, r), k.at(c, r), 1e-12, size, "%s: column %d row %d", what, c, r);
}
double value(int salt, int r, int e, int k) {
    static const double t[] = {1.5, -2.25, 3.75, -0.5, 7, 11.125, -13, 0.0625, 40, -4e-3, 5.5};
    return t[(salt * 3 + r * 5 + e * 7 + k * 2) % 11] + 0.01 * r - 0.03 * k + 0.002 * e;
}

template <int S, int E> struct Pair {
    typedef SparseMatrix<S, E> Sp;
    // a new matrix takes its first size whatever its storage held before
    static void constructed(mc::Ctx &x) {
        int blocks = x.choose(4, "blocks"), h = x.choose(5, "rows");
        const unsigned words[] = {(unsigned)(blocks * S), (unsigned)h, 0u, 9u, ~0u};
        unsigned a = words[x.choose(5, "even words of fresh memory")], b = words[x.choose(5, "odd words of fresh memory")];
        mc::mem::fillWords(a, b);
        std::string bad;
        {
            Owner A;
            Mat full;
            try {
                x.check(A->getWidth() == 0 && A->getHeight() == 0, "a new matrix is %dx%d", A->getWidth(), A->getHeight());
                A->initialize(blocks * S, h);
                Dense d(blocks * S, h);
                if (blocks > 0) for (int r = 0; r < h; ++r) for (int e = 0; e < E && e < blocks; ++e) {
                    A->setBlock(r, e, (r + e) % blocks);
                    for (int k = 0; k < S; ++k) { double v = value(1, r, e, k); A->set(r, e, k, v); d.at((r + e) % blocks * S + k, r) += v; }
                }
                A->expand(full.m);
                compare(x, full.m, d, "first contents");
            } catch (mc::Violation &v) { bad = v.msg; }
            mc::mem::fill(-1);
        }
        x.step();
        x.state(mc::Hash().i(blocks).i(h).h);
        if (!bad.empty()) x.fail("%s", bad.c_str());
    }
    struct Owner {
        Sp *m = new Sp;
        ~Owner() { m->destroy(); delete m; }
        Sp *operator->() { return m; }
        Sp &operator*() { return *m; }
        void past(int k) {
            if (k == 1 || k == 3) { m->initialize(2 * S, 5); for (int r = 0; r < 5; ++r) for (int e = 0; e < E; ++e) { m->setBlock(r, e, r % 2); for (int q = 0; q < S; ++q) m->set(r, e, q, 77 + r); } }
            if (k == 2) { m->initialize(9 * S, 1); for (int e = 0; e < E; ++e) { m->setBlock(0, e, 8); for (int q = 0; q < S; ++q) m->set(0, e, q, -66); } }
            if (k == 3) m->destroy();
        }
    };
    // blocks[r][e]: column block or -1
    static Dense load(Sp &m, int blocks, const std::vector<std::vector<int>> &pat, int salt, int how) {
        int h = (int)pat.size();
        if (how == 0) m.initialize(blocks * S, h);
        else m.resize(blocks * S, h);
        Dense d(blocks * S, h);
        for (int r = 0; r < h; ++r) for (int e = 0; e < E; ++e) {
            int b = pat[r][e];
            if (b < 0) {
                // an empty slot, possibly with something left in its storage
                if (how == 1 && blocks > 0) { m.setBlock(r, e, 0); for (int k = 0; k < S; ++k) m.set(r, e, k, 123); }
                if (how != 0) m.setEmpty(r, e);
                if (how == 2) for (int k = 0; k < S; ++k) m.set(r, e, k, -987);
                continue;
            }
            m.setBlock(r, e, b);
            for (int k = 0; k < S; ++k) { double v = value(salt, r, e, k); m.set(r, e, k, v); d.at(b * S + k, r) += v; }
        }
        return d;
    }
    static std::vector<std::vector<int>> patternOf(mc::Ctx &x, int rows, int blocks, const char *name) {
        std::vector<std::vector<int>> p(rows, std::vector<int>(E));
        for (auto &r : p) for (int &b : r) { b = x.choose(blocks + 1, name) - 1; x.note("%d", b); }
        return p;
    }
    static void same(mc::Ctx &x, Sp &m, const std::vector<std::vector<int>> &pat, int salt, int blocks, const char *when) {
        x.check(m.getWidth() == blocks * S && m.getHeight() == (int)pat.size(), "%s: operand shape %dx%d", when, m.getWidth(), m.getHeight());
        for (size_t r = 0; r < pat.size(); ++r) for (int e = 0; e < E; ++e) if (pat[r][e] >= 0) for (int k = 0; k < S; ++k) x.check(m.get((int)r, e, k) == value(salt, (int)r, e, k), "%s: operand entry (%zu,%d,%d) changed", when, r, e, k);
    }
    // every operation on one pair of matrices against the dense result
    static void all(mc::Ctx &x, Sp &A, const Dense &a, Sp &B, const Dense &b, int past, bool wide) {
        const int w = a.w, h = a.h;
        if (!wide || w < 4000) {
            Mat t; t.past(past);
            A.expand(t.m); x.step(); compare(x, t.m, a, "expand");
            Mat u; u.past(past);
            A.expandTransposed(u.m); x.step();
            Dense at(h, w);
            for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) at.at(r, c) = a.at(c, r);
            compare(x, u.m, at, "expandTransposed");
        }
        {
            Mat t; t.past(past);
            A.multiplyTranspose(B, t.m); x.step();
            Dense p(b.h, h);
            for (int r = 0; r < h; ++r) for (int c = 0; c < b.h; ++c) { double s = 0; for (int k = 0; k < w; ++k) s += a.at(k, r) * b.at(k, c); p.at(c, r) = s; }
            compare(x, t.m, p, "multiplyTranspose", 500);
        }
        for (int bw : {0, 1, 3}) {
            if (wide && bw != 1) continue;
            Mat v, t; t.past(past); v.past(bw % 2);
            v->resize(bw, w);
            Dense q(bw, w), p(bw, h);
            for (int r = 0; r < w; ++r) for (int c = 0; c < bw; ++c) { q.at(c, r) = value(4, r % 17, c, 1); v->set(c, r, q.at(c, r)); }
            A.multiply(*v, t.m); x.step();
            for (int r = 0; r < h; ++r) for (int c = 0; c < bw; ++c) { double s = 0; for (int k = 0; k < w; ++k) if (a.at(k, r) != 0) s += a.at(k, r) * q.at(c, k); p.at(c, r) = s; }
            compare(x, t.m, p, "multiply", 500);
        }
        {
            Mat v, t; t.past(past);
            v->resize(1, h);
            Dense p(1, w);
            for (int r = 0; r < h; ++r) { double y = value(5, r, 0, 0); v->set(0, r, y); for (int k = 0; k < w; ++k) p.at(0, k) += a.at(k, r) * y; }
            A.transposeMultiplyVector(*v, t.m); x.step();
            compare(x, t.m, p, "transposeMultiplyVector", 500);
        }
        for (int left = 0; left < 2; ++left) {
            Mat v; Owner t; t.past(past);
            int len = left ? h : w;
            v->resize(1, len);
            Dense p(w, h);
            std::vector<double> y(len);
            for (int r = 0; r < len; ++r) { y[r] = value(6, r % 13, 1, 0); v->set(0, r, y[r]); }
            for (int r = 0; r < h; ++r) for (int k = 0; k < w; ++k) if (a.at(k, r) != 0) p.at(k, r) = a.at(k, r) * (left ? y[r] : y[k]);
            if (left) A.leftScale(*v, t.m); else A.rightScale(*v, t.m);
            x.step();
            const char *what = left ? "leftScale" : "rightScale";
            x.check(t->getWidth() == w && t->getHeight() == h, "%s: shape %dx%d, expected %dx%d", what, t->getWidth(), t->getHeight(), w, h);
            if (!wide || w < 4000) { Mat e; t->expand(e.m); compare(x, e.m, p, what, 500); }
            else {
                Mat one, s;
                one->initialize(1, w, 1);
                for (int k = 0; k < w; k += 3) one->set(0, k, 2);
                t->multiply(*one, s.m);
                for (int r = 0; r < h; ++r) { double q = 0; for (int k = 0; k < w; ++k) q += p.at(k, r) * (k % 3 == 0 ? 2 : 1); x.nearScale(s->get(0, r), q, 1e-12, 500, "%s: row %d", what, r); }
            }
        }
        mc::Hash hh;
        for (double v : a.d) if (v != 0) hh.d(v);
        for (double v : b.d) if (v != 0) hh.d(v);
        x.state(hh.i(w).i(h).i(b.h).h);
    }

    // all patterns of both operands
    static void patterns(mc::Ctx &x) {
        const int budget = x.thorough() ? 5 : 4; // slots decided freely
        int blocks = x.choose(x.thorough() ? 4 : 3, "column blocks") + (E > 2 ? 0 : 0);
        int maxA = std::min(3, std::max(1, budget / E)), maxB = std::min(2, std::max(1, budget / E));
        int ha = x.choose(maxA + 1, "rows"), hb = x.choose(maxB + 1, "rows of the other");
        long before = mc::mem::live();
        {
            x.note("A:");
            auto pa = patternOf(x, ha, blocks, "block");
            x.note("B:");
            auto pb = patternOf(x, hb, blocks, "block");
            int past = x.deviate(4, "past"), how = x.deviate(3, "fill");
            mc::mem::fill(x.deviate(2, "fresh memory") ? 3 : 0);
            Owner A, B;
            A.past(past); B.past(past);
            Dense a = load(*A, blocks, pa, 1, how), b = load(*B, blocks, pb, 2, how);
            all(x, *A, a, *B, b, past, false);
            all(x, *A, a, *A, a, past, false); // a matrix times its own transpose
            same(x, *A, pa, 1, blocks, "afterwards"); same(x, *B, pb, 2, blocks, "afterwards");
            mc::mem::fill(-1);
            x.note(" ");
        }
        x.check(mc::mem::live() == before, "%ld heap blocks left after tearing down", mc::mem::live() - before);
    }

    // zeros anywhere inside the blocks: every combination in one row of either operand
    static void zeros(mc::Ctx &x) {
        const int N = S * E;
        int va = x.choose(1 << N, "non-zero entries"), vb = x.choose(1 << N, "non-zero entries of the other"), pat = x.choose(E == 1 ? 4 : 9, "blocks"), small = x.choose(2, "tiny values");
        std::vector<std::vector<int>> pa(2, std::vector<int>(E)), pb(1, std::vector<int>(E));
        for (int e = 0; e < E; ++e) { pa[0][e] = pat == 1 ? 1 : e % 2; pa[1][e] = e == 0 ? 0 : -1; pb[0][e] = pat == 2 || pat == 1 ? 1 : pat == 3 ? (e + 1) % 2 : pat == 4 && e ? -1 : pat == 5 && !e ? -1 : e % 2; }
        if (pat == 6) pa[0][0] = -1;
        if (pat == 7) pa[0][E - 1] = -1;
        if (pat == 8) { pa[0][0] = -1; pb[0][E - 1] = 0; }
        Owner A, B;
        int w = 2 * S;
        Dense a = load(*A, 2, pa, 1, 0), b = load(*B, 2, pb, 2, 0);
        auto put = [&](Owner &m, Dense &d, const std::vector<std::vector<int>> &p, int mask) {
            for (int c = 0; c < w; ++c) d.at(c, 0) = 0;
            for (int e = 0; e < E; ++e) for (int k = 0; k < S; ++k) {
                if (p[0][e] < 0) continue;
                double v = mask >> (e * S + k) & 1 ? (small ? 1e-170 : 1) * value(3, k, e, mask % 5) : 0.0;
                m->set(0, e, k, v); d.at(p[0][e] * S + k, 0) += v;
            }
        };
        put(A, a, pa, va); put(B, b, pb, vb);
        {
            Mat t;
            A->multiplyTranspose(*B, t.m); x.step();
            for (int r = 0; r < 2; ++r) { double s = 0, q = 0; for (int k = 0; k < w; ++k) { s += a.at(k, r) * b.at(k, 0); q += std::fabs(a.at(k, r) * b.at(k, 0)); } x.check(std::fabs(t->get(0, r) - s) <= 1e-12 * q, "multiplyTranspose: row %d gives %.17g, expected %.17g", r, t->get(0, r), s); }
        }
        {
            Mat v, t, u;
            v->resize(1, w); u->resize(1, 2);
            for (int k = 0; k < w; ++k) v->set(0, k, 1.5 - k);
            u->set(0, 0, -0.75); u->set(0, 1, 0);
            A->multiply(*v, t.m); x.step();
            double s = 0, q = 0;
            for (int k = 0; k < w; ++k) { s += a.at(k, 0) * (1.5 - k); q += std::fabs(a.at(k, 0) * (1.5 - k)); }
            x.check(std::fabs(t->get(0, 0) - s) <= 1e-12 * q, "multiply: %.17g, expected %.17g", t->get(0, 0), s);
            A->transposeMultiplyVector(*u, t.m); x.step();
            for (int k = 0; k < w; ++k) x.check(std::fabs(t->get(0, k) + 0.75 * a.at(k, 0)) <= 1e-12 * std::fabs(a.at(k, 0)), "transposeMultiplyVector: element %d is %.17g, expected %.17g", k, t->get(0, k), -0.75 * a.at(k, 0));
            Owner o;
            A->leftScale(*u, o.m); o->expand(t.m); x.step();
            for (int k = 0; k < w; ++k) x.check(std::fabs(t->get(k, 0) + 0.75 * a.at(k, 0)) <= 1e-12 * std::fabs(a.at(k, 0)) && t->get(k, 1) == 0, "leftScale: element %d", k);
            A->rightScale(*v, o.m); o->expand(t.m); x.step();
            for (int k = 0; k < w; ++k) x.check(std::fabs(t->get(k, 0) - (1.5 - k) * a.at(k, 0)) <= 1e-12 * std::fabs(a.at(k, 0)) * 6, "rightScale: element %d", k);
        }
        x.state(mc::Hash().i(va).i(vb).i(pat).i(small).h);
    }

    // larger populated matrices with a single varying row
    static void taller(mc::Ctx &x) {
        static const int hs[] = {4, 7, 16};
        int h = x.pick(hs, "rows"), blocks = 4;
        int r = x.choose(h, "row");
        std::vector<std::vector<int>> pa(h, std::vector<int>(E)), pb;
        for (int i = 0; i < h; ++i) for (int e = 0; e < E; ++e) pa[i][e] = (i * 2 + e * (i % 3 + 1)) % (blocks + 1) - 1;
        for (int e = 0; e < E && e < 2; ++e) pa[r][e] = x.choose(blocks + 1, "block") - 1;
        // fewer, as many, or more rows than the first
        static const int hb[] = {0, -1, 3};
        int nb = h + hb[x.choose(3, "rows of the other")];
        if (x.choose(2, "few")) nb = 3;
        for (int i = 0; i < nb; ++i) pb.push_back(pa[(r + i) % h]);
        Owner A, B;
        int past = x.choose(4, "past");
        A.past(past);
        Dense a = load(*A, blocks, pa, 1, past % 3), b = load(*B, blocks, pb, 2, 0);
        all(x, *A, a, *B, b, past, false);
    }

    // after initialize every slot is empty and reads zero; scaling leaves empty slots empty
    static void emptySlots(mc::Ctx &x) {
        int past = x.choose(4, "past"), h = x.choose(5, "rows"), blocks = 1 + x.choose(3, "blocks"), pat = x.choose(5, "fresh memory");
        mc::mem::fill(pat);
        Owner A, T;
        A.past(past); T.past(past);
        auto zero = [&](Sp &m, int r, int e, const char *what) { for (int k = 0; k < S; ++k) x.check(m.get(r, e, k) == 0, "%s: empty slot (%d,%d) reads %g", what, r, e, m.get(r, e, k)); };
        A->initialize(blocks * S, h);
        x.step();
        for (int r = 0; r < h; ++r) for (int e = 0; e < E; ++e) zero(*A, r, e, "after initialize");
        Mat t; A->expand(t.m); compare(x, t.m, Dense(blocks * S, h), "expand of an initialised matrix");
        for (int r = 0; r < h; ++r) { A->setBlock(r, r % E, r % blocks); for (int k = 0; k < S; ++k) A->set(r, r % E, k, 2 + k); }
        for (int left = 0; left < 2; ++left) {
            Mat v; v->initialize(1, left ? h : blocks * S, 3);
            if (left) A->leftScale(*v, T.m); else A->rightScale(*v, T.m);
            x.step();
            for (int r = 0; r < h; ++r) for (int e = 0; e < E; ++e) { if (e != r % E) zero(*T, r, e, left ? "leftScale" : "rightScale"); else for (int k = 0; k < S; ++k) x.near(T->get(r, e, k), 3.0 * (2 + k), 1e-13, "scaled entry"); }
        }
        for (int r = 0; r < h; ++r) A->setEmpty(r, r % E);
        for (int r = 0; r < h; ++r) for (int e = 0; e < E; ++e) zero(*A, r, e, "after setEmpty");
        A->expand(t.m); compare(x, t.m, Dense(blocks * S, h), "expand after setEmpty");
        mc::mem::fill(-1);
        x.state(mc::Hash().i(past).i(h).i(blocks).i(S).i(E).h);
    }

    // block indices far beyond any small integer type
    static void wide(mc::Ctx &x) {
        static const int idx[] = {0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 299, 511, 32767, 32768, 65534, 65535, 65536, 70000};
        // every pair of small indices; every huge index with a few others
        int i, j;
        if (x.choose(2, "huge")) {
            static const int few[] = {0, 4, 7, 16};
            i = idx[12 + x.choose(6, "huge index")];
            j = x.thorough() ? idx[x.choose(18, "other index")] : idx[few[x.choose(4, "other index")]];
        } else { i = idx[x.choose(12, "index")]; j = idx[x.choose(12, "other index")]; }
        int blocks = std::max(i, j) + 1 + x.choose(2, "slack");
        std::vector<std::vector<int>> pa(3, std::vector<int>(E, -1)), pb(2, std::vector<int>(E, -1));
        pa[0][0] = i; pa[0][E - 1] = j;
        pa[1][E - 1] = j;
        pa[2][0] = blocks - 1;
        pb[0][E - 1] = i; pb[1][0] = j;
        Owner A, B;
        Dense a = load(*A, blocks, pa, 1, 0), b = load(*B, blocks, pb, 2, 0);
        all(x, *A, a, *B, b, 0, true);
        all(x, *A, a, *A, a, 0, true);
    }

    // life-cycle histories of one object
    static void histories(mc::Ctx &x) {
        static const int hs[] = {0, 1, 2, 5};
        static const int bs[] = {0, 1, 3};
        long before = mc::mem::live();
        {
            Owner A;
            std::vector<std::vector<int>> pat;
            Dense d(0, 0);
            int blocks = 0;
            bool defined = true;
            int depth = x.thorough() ? 5 : 4;
            mc::mem::fill(x.choose(2, "fresh memory") ? 3 : 0);
            for (int k = 0; k < depth; ++k) {
                int op = x.choose(4, "op");
                if (op == 0) { A->destroy(); x.step(); x.note("destroy"); continue; }
                {
                    int h = x.pick(hs, "height");
                    blocks = h ? bs[x.choose(3, "blocks")] : bs[x.choose(2, "blocks")];
                    pat.assign(h, std::vector<int>(E, -1));
                    x.note("%s %dx%d", op == 1 ? "initialize" : op == 2 ? "initialize+fill" : "resize+fill", blocks, h);
                    if (op != 1 && blocks) for (int r = 0; r < h; ++r) for (int e = 0; e < E; ++e) pat[r][e] = (r + e + k) % (blocks + 1) - 1;
                    if (op == 1) { A->initialize(blocks * S, h); d = Dense(blocks * S, h); }
                    else d = load(*A, blocks, pat, k, op == 2 ? 0 : 2 * (blocks > 0));
                    defined = op != 3 || blocks > 0 || h == 0;
                    if (!defined) { for (int r = 0; r < h; ++r) for (int e = 0; e < E; ++e) A->setEmpty(r, e); defined = true; }
                }
                x.step();
                x.check(A->getWidth() == d.w && A->getHeight() == d.h, "shape %dx%d, expected %dx%d", A->getWidth(), A->getHeight(), d.w, d.h);
                Mat t;
                A->expand(t.m);
                compare(x, t.m, d, "expand");
                Owner B;
                Mat v; v->initialize(1, d.h, 2);
                A->leftScale(*v, B.m);
                Dense e2 = d;
                for (double &q : e2.d) q *= 2;
                B->expand(t.m);
                compare(x, t.m, e2, "leftScale");
                A->multiplyTranspose(*A, t.m);
                Dense p(d.h, d.h);
                for (int r = 0; r < d.h; ++r) for (int c = 0; c < d.h; ++c) for (int q = 0; q < d.w; ++q) p.at(c, r) += d.at(q, r) * d.at(q, c);
                compare(x, t.m, p, "product", 500);
                mc::Hash hh; hh.i(d.w).i(d.h); for (double q : d.d) hh.d(q);
                x.state(hh.h);
            }
            mc::mem::fill(-1);
        }
        x.check(mc::mem::live() == before, "%ld heap blocks left after tearing down", mc::mem::live() - before);
    }
};
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C19",
                   "every block pattern of both operands (rows x slots x column blocks, including repeated blocks and empty slots with leftover storage) for strides 1-4 and 1-4 slots per row, every operation against the dense computation, targets and operands with earlier lives; block indices up to 70000; all resize/initialize/fill/destroy histories to the depth bound with heap accounting",
                   {{"patterns_3x2", Pair<3, 2>::patterns, 1, 2, false},
                    {"patterns_3x1", Pair<3, 1>::patterns, 1, 2, false},
                    {"patterns_3x4", Pair<3, 4>::patterns, 0, 1, false},
                    {"patterns_1x2", Pair<1, 2>::patterns, 1, 2, false},
                    {"patterns_2x3", Pair<2, 3>::patterns, 0, 1, false},
                    {"patterns_4x1", Pair<4, 1>::patterns, 1, 2, false},
                    {"patterns_4x2", Pair<4, 2>::patterns, 0, 1, false},
                    {"taller_3x2", Pair<3, 2>::taller, 0, 0, false},
                    {"taller_2x3", Pair<2, 3>::taller, 0, 0, false},
                    {"empty_3x2", Pair<3, 2>::emptySlots, 0, 0, false},
                    {"empty_1x4", Pair<1, 4>::emptySlots, 0, 0, false},
                    {"empty_4x1", Pair<4, 1>::emptySlots, 0, 0, false},
                    {"wide_3x2", Pair<3, 2>::wide, 0, 0, false},
                    {"wide_1x3", Pair<1, 3>::wide, 0, 0, false},
                    {"wide_2x1", Pair<2, 1>::wide, 0, 0, false},
                    {"histories_3x2", Pair<3, 2>::histories, 0, 0, false},
                    {"histories_2x3", Pair<2, 3>::histories, 0, 0, true},
                    {"zeros_3x2", Pair<3, 2>::zeros, 0, 0, false},
                    {"zeros_1x4", Pair<1, 4>::zeros, 0, 0, false},
                    {"zeros_4x1", Pair<4, 1>::zeros, 0, 0, false},
                    {"constructed_3x2", Pair<3, 2>::constructed, 0, 0, false},
                    {"constructed_1x1", Pair<1, 1>::constructed, 0, 0, false},
                    {"histories_1x1", Pair<1, 1>::histories, 0, 0, false}},
                   {"widths are whole numbers of blocks", "a repeated block in one row counts as the sum of its slots"});
}
