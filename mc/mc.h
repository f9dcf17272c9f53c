// Stateless model checker for the real library code.
//
// A scenario is a function that drives real objects and asks the explorer for
// every decision (choose / deviate).  The explorer runs the scenario once for
// every possible sequence of decisions:
//   choose(n)   a free decision: always enumerated completely
//   deviate(n)  a decision with a default (0); an execution may take at most
//               `bound` non-default values (bound < 0: unlimited)
// Executions are independent (fresh objects each), run to completion, and are
// identified by their decision sequence, which is also the replay artefact.
#ifndef MC_H
#define MC_H
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string msg; };
struct Discard {};

struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash &bytes(const void *p, size_t n) {
        const unsigned char *c = (const unsigned char *)p;
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        return *this;
    }
    Hash &u(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return *this; }
    Hash &i(long long v) { return u((uint64_t)v); }
    Hash &d(double v) { if (v == 0) v = 0; uint64_t b; memcpy(&b, &v, 8); return u(b); }
};

class Ctx {
  public:
    int choose(int n, const char *label) { return decide(n, label, false); }
    int deviate(int n, const char *label) { return decide(n, label, true); }
    template <class T, size_t N> const T &pick(const T (&a)[N], const char *label) { return a[choose((int)N, label)]; }
    template <class T, size_t N> const T &vary(const T (&a)[N], const char *label) { return a[deviate((int)N, label)]; }

    // one transition of the system under test has been executed
    void step() { ++transitions; }
    // a state of the system under test was reached (canonical hash)
    void state(uint64_t h);
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    // |got - want| <= tol * max(1, |want|, scale); NaN never passes
    void near(double got, double want, double tol, const char *fmt, ...) __attribute__((format(printf, 5, 6)));
    void nearScale(double got, double want, double tol, double scale, const char *fmt, ...) __attribute__((format(printf, 6, 7)));
    [[noreturn]] void discard() { throw Discard(); }
    bool thorough() const { return tier == 1; }
    bool tracing() const { return trace != nullptr; }

    // internals
    int decide(int n, const char *label, bool costs);
    void tell(const std::string &s);
    std::vector<uint16_t> prefix;
    std::vector<uint16_t> taken, arity;
    std::vector<uint8_t> costs;
    uint64_t transitions = 0, salt = 0;
    std::vector<uint64_t> *states = nullptr;
    std::string *trace = nullptr;
    int tier = 0;
    bool diverged = false;
};

struct Scenario {
    const char *name;
    void (*fn)(Ctx &);
    int boundQuick, boundThorough;
    bool thoroughOnly;
};

// fresh-memory control and heap accounting (address-sanitizer malloc hooks)
namespace mem {
void fill(int pattern);           // contents of fresh memory from now on
void fillWords(unsigned a, unsigned b); // ... these two 32-bit words, repeating
int patterns();                   // how many patterns there are
const char *patternName(int p);
long live();                      // live heap blocks
}

int run(int argc, char **argv, const char *id, const char *what, const std::vector<Scenario> &scenarios,
        const std::vector<std::string> &assumptions);

extern std::vector<std::string> extraCoverage; // additional "key": value JSON members
std::string format(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string jsonString(const std::string &s);
} // namespace mc
#endif
