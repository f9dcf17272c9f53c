// build-san: none
// build-lib: -O0 -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove
// build-harness: -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove
// build-link: -Wl,--wrap=memcpy -Wl,--wrap=memset -Wl,--wrap=memmove -ldl
// C04: separate simulations never influence each other; runs are reproducible.
//
// The library is compiled with the thread sanitizer's instrumentation but
// linked with the runtime below instead: every load, store, atomic and block
// copy of the real code calls access().  Simulations run on real threads of
// which one at a time holds the baton.
//   * Recording: which addresses outside its own heap and stack does each
//     simulation touch, and which of them are written by one and touched by the
//     other?  If none, any two transitions of different threads are independent
//     and one schedule represents them all (the partial-order argument).
//   * Otherwise every touch of such an address is a scheduling point and all
//     schedules up to the preemption bound are run.
// Each execution runs in a child process, so that no static data survives it.
#include "sys.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
using namespace sys;
#define RAW __attribute__((no_sanitize("thread"), noinline))

// ------------------------------------------------------------ the runtime
namespace {
const size_t kArena = 8u << 20, kStack = 1u << 20;
enum Mode { IDLE, RECORD, CONFLICTS, FUNCTIONS, COUNT };
struct Sim2 {
    char *arena, *stack;
    size_t used;
    bool down;
    std::unordered_map<uintptr_t, int> *touched; // granule -> 1 read, 2 written
    uint64_t accesses, functions, points;
    int depth;
    sem_t go;
    bool finished, blocked;
};
Sim2 g_sim[2];
Mode g_mode = IDLE;
int g_fill = 0;
thread_local Sim2 *t_sim = nullptr; // set while the code of a simulation runs
std::vector<uintptr_t> *g_contended = nullptr;
uintptr_t g_lo = 1, g_hi = 0;
mc::Ctx *g_ctx = nullptr;
int g_preemptions = 0, g_bound = 0, g_depth = 0;
uint64_t g_offered = 0, g_stride = 1;
const char *g_trouble = nullptr;
int g_clock = 0;
std::atomic<long long> g_ticks{0};

struct Outside { Sim2 *s; RAW Outside() : s(t_sim) { t_sim = nullptr; } RAW ~Outside() { t_sim = s; } };
RAW bool inside(const Sim2 &s, uintptr_t a) { return (a >= (uintptr_t)s.arena && a < (uintptr_t)s.arena + kArena) || (a >= (uintptr_t)s.stack && a < (uintptr_t)s.stack + kStack); }
RAW void handOver(Sim2 *me) {
    Sim2 &o = g_sim[me == &g_sim[0]];
    sem_post(&o.go);
    while (sem_wait(&me->go)) {}
}
// a scheduling point: the other simulation may run from here on
RAW void point() {
    Sim2 *me = t_sim;
    Outside out;
    Sim2 &o = g_sim[me == &g_sim[0]];
    ++me->points;
    uint64_t k = g_offered++;
    if (o.finished || g_preemptions >= g_bound || k % g_stride) return;
    int c;
    try { c = g_ctx->choose(2, "switch"); }
    catch (mc::Discard &) { g_trouble = "schedule diverged"; c = 0; }
    if (!c) return;
    ++g_preemptions;
    g_ctx->note("switch to simulation %d after %llu accesses", (int)(&o - g_sim), (unsigned long long)me->accesses);
    handOver(me);
}
RAW void access(const volatile void *p, size_t n, int how) {
    Sim2 *me = t_sim;
    if (!me) return;
    ++me->accesses;
    uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + (n ? n - 1 : 0)) >> 3;
    if (g_mode == CONFLICTS) {
        if (b < g_lo || a > g_hi) return;
        bool hit;
        {
            Outside out;
            auto it = std::lower_bound(g_contended->begin(), g_contended->end(), a);
            hit = it != g_contended->end() && *it <= b;
        }
        if (hit) point();
        return;
    }
    if (g_mode != RECORD || inside(*me, (uintptr_t)p)) return;
    Outside out;
    for (; a <= b; ++a) (*me->touched)[a] |= how;
}
RAW void function() {
    Sim2 *me = t_sim;
    if (!me) return;
    ++me->functions;
    if (++me->depth <= g_depth && g_mode == FUNCTIONS) point();
}
RAW void functionEnd() { if (t_sim) --t_sim->depth; }
} // namespace

// defined under other names: the compiler has its own idea of their types
#define RT(ret, name, args) extern "C" ret rt_##name args __asm__("__" #name); RAW ret rt_##name args
RT(void, tsan_init, ()) {}
RT(void, tsan_func_entry, (void *)) { function(); }
RT(void, tsan_func_exit, (void *)) { functionEnd(); }
#define RW(n) \
    RT(void, tsan_read##n, (void *p)) { access(p, n, 1); } \
    RT(void, tsan_write##n, (void *p)) { access(p, n, 2); } \
    RT(void, tsan_unaligned_read##n, (void *p)) { access(p, n, 1); } \
    RT(void, tsan_unaligned_write##n, (void *p)) { access(p, n, 2); } \
    RT(void, tsan_volatile_read##n, (void *p)) { access(p, n, 1); } \
    RT(void, tsan_volatile_write##n, (void *p)) { access(p, n, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
RT(void, tsan_read_range, (void *p, long n)) { access(p, n, 1); }
RT(void, tsan_write_range, (void *p, long n)) { access(p, n, 2); }
RT(void, tsan_vptr_read, (void *p)) { access(p, 8, 1); }
RT(void, tsan_vptr_update, (void *p, void *)) { access(p, 8, 2); }
RT(void, tsan_atomic_thread_fence, (int)) {}
RT(void, tsan_atomic_signal_fence, (int)) {}
#define RMW(bits, T, op) RT(T, tsan_atomic##bits##_##op, (volatile T *p, T v, int)) { access(p, sizeof(T), 2); return __atomic_##op(p, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(bits, T) \
    RT(T, tsan_atomic##bits##_load, (const volatile T *p, int)) { access(p, sizeof(T), 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    RT(void, tsan_atomic##bits##_store, (volatile T *p, T v, int)) { access(p, sizeof(T), 2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    RT(T, tsan_atomic##bits##_exchange, (volatile T *p, T v, int)) { access(p, sizeof(T), 2); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    RMW(bits, T, fetch_add) RMW(bits, T, fetch_sub) RMW(bits, T, fetch_and) RMW(bits, T, fetch_or) RMW(bits, T, fetch_xor) \
    RT(bool, tsan_atomic##bits##_compare_exchange_strong, (volatile T *p, T *c, T v, int, int)) { access(p, sizeof(T), 2); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    RT(bool, tsan_atomic##bits##_compare_exchange_weak, (volatile T *p, T *c, T v, int, int)) { access(p, sizeof(T), 2); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    RT(T, tsan_atomic##bits##_compare_exchange_val, (volatile T *p, T c, T v, int, int)) { access(p, sizeof(T), 2); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
extern "C" RAW void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access(s, n, 1); access(d, n, 2); } return __real_memcpy(d, s, n); }
extern "C" RAW void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access(s, n, 1); access(d, n, 2); } return __real_memmove(d, s, n); }
extern "C" RAW void *__wrap_memset(void *d, int v, size_t n) { if (n) access(d, n, 2); return __real_memset(d, v, n); }

// initialization of function-local statics: a simulation that finds one in
// progress lets the other finish it
RT(int, cxa_guard_acquire, (char *g)) {
    while (true) {
        access(g, 8, 2);
        if (__atomic_load_n(g, __ATOMIC_SEQ_CST)) return 0;
        if (!g[1]) { g[1] = 1; return 1; }
        if (!t_sim) return 0;
        Sim2 *me = t_sim;
        Outside out;
        if (g_sim[me == &g_sim[0]].finished) _exit(7);
        handOver(me);
    }
}
RT(void, cxa_guard_release, (char *g)) { access(g, 8, 2); g[1] = 0; __atomic_store_n(g, 1, __ATOMIC_SEQ_CST); }
RT(void, cxa_guard_abort, (char *g)) { g[1] = 0; }
// mutexes likewise
extern "C" RAW int pthread_mutex_lock(pthread_mutex_t *m) {
    typedef int (*F)(pthread_mutex_t *);
    static F real = nullptr;
    if (!real) real = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!t_sim) return real(m);
    access(m, 8, 2);
    Sim2 *me = t_sim;
    Outside out;
    while (pthread_mutex_trylock(m)) {
        if (g_sim[me == &g_sim[0]].finished) _exit(7);
        handOver(me);
    }
    return 0;
}

// ------------------------------------------------------------ heap and clock
static RAW void *take(size_t n) {
    Sim2 *s = t_sim;
    if (!s) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
    n = (n + 15) & ~(size_t)15;
    if (!n) n = 16;
    if (s->used + n > kArena) { static const char m[] = "arena exhausted\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
    s->used += n;
    char *p = s->down ? s->arena + kArena - s->used : s->arena + s->used - n;
    static const uint64_t pat[] = {0xFFFFFFFFFFFFFFFFull, 0x0ull, 0x3FF0000000000000ull, 0x7F7F7F7F7F7F7F7Full, 0xC0590000C0590000ull};
    for (size_t i = 0; i < n; i += 8) *(uint64_t *)(p + i) = pat[g_fill];
    return p;
}
static RAW void give(void *p) {
    if (!p) return;
    for (auto &s : g_sim) if (s.arena && (char *)p >= s.arena && (char *)p < s.arena + kArena) return; // never reused within an execution
    free(p);
}
RAW void *operator new(size_t n) { return take(n); }
RAW void *operator new[](size_t n) { return take(n); }
RAW void operator delete(void *p) noexcept { give(p); }
RAW void operator delete[](void *p) noexcept { give(p); }
RAW void operator delete(void *p, size_t) noexcept { give(p); }
RAW void operator delete[](void *p, size_t) noexcept { give(p); }

static RAW std::chrono::nanoseconds virtualNow() {
    static const long long step[] = {1000, 0, 987654321, 60000000000ll};
    return std::chrono::nanoseconds(g_ticks.fetch_add(step[g_clock]) + 1000000000ll * (g_clock + 1));
}
namespace std { namespace chrono { inline namespace _V2 {
RAW steady_clock::time_point steady_clock::now() noexcept { return time_point(virtualNow()); }
RAW system_clock::time_point system_clock::now() noexcept { return time_point(chrono::duration_cast<duration>(virtualNow())); }
} } }

namespace {
// ------------------------------------------------------------ executions in a child
void putU(std::string &s, uint64_t v) { s.append((const char *)&v, 8); }
struct Reader {
    const std::string &s;
    size_t i = 0;
    uint64_t u() { uint64_t v = 0; if (i + 8 <= s.size()) memcpy(&v, s.data() + i, 8); i += 8; return v; }
    std::string str() { size_t n = u(); std::string r = i + n <= s.size() ? s.substr(i, n) : ""; i += n; return r; }
};
std::string g_answer; // what the body wants to hand to its parent
// runs body in a child; its decisions, steps, states and answer come back
template <class F> std::string child(mc::Ctx &x, F body) {
    int fd[2];
    if (pipe(fd)) abort();
    std::string *tr = x.trace;
    size_t tr0 = tr ? tr->size() : 0;
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        std::string o;
        uint64_t kind = 0;
        std::string msg;
        std::vector<uint64_t> st;
        if (x.states) x.states = &st;
        g_answer.clear();
        try { body(); }
        catch (mc::Discard &) { kind = 1; }
        catch (mc::Violation &v) { kind = 2; msg = v.msg; }
        putU(o, kind); putU(o, msg.size()); o += msg;
        putU(o, x.diverged || (g_trouble && !strcmp(g_trouble, "schedule diverged")));
        putU(o, x.transitions);
        putU(o, x.taken.size());
        for (size_t i = 0; i < x.taken.size(); ++i) { putU(o, x.taken[i]); putU(o, x.arity[i]); putU(o, x.costs[i]); }
        putU(o, st.size());
        for (uint64_t v : st) putU(o, v);
        putU(o, g_answer.size()); o += g_answer;
        std::string t = tr ? tr->substr(tr0) : "";
        putU(o, t.size()); o += t;
        size_t done = 0;
        while (done < o.size()) { ssize_t k = write(fd[1], o.data() + done, o.size() - done); if (k <= 0) _exit(9); done += k; }
        _exit(0);
    }
    close(fd[1]);
    std::string in;
    char buf[65536];
    bool late = false;
    while (true) {
        pollfd pf{fd[0], POLLIN, 0};
        int r = poll(&pf, 1, 20000);
        if (r == 0) { late = true; kill(pid, SIGKILL); break; }
        ssize_t k = read(fd[0], buf, sizeof buf);
        if (k <= 0) break;
        in.append(buf, k);
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (late) x.fail("the simulations stopped making progress");
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 7) x.fail("deadlock between the two simulations");
        x.fail("crashed (%s %d)", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
    Reader r{in};
    uint64_t kind = r.u();
    std::string msg = r.str();
    if (r.u()) x.diverged = true;
    x.transitions = r.u();
    size_t n = r.u();
    x.taken.clear(); x.arity.clear(); x.costs.clear();
    for (size_t i = 0; i < n; ++i) { x.taken.push_back(r.u()); x.arity.push_back(r.u()); x.costs.push_back(r.u()); }
    n = r.u();
    for (size_t i = 0; i < n; ++i) { uint64_t v = r.u(); if (x.states) x.states->push_back(v); }
    std::string answer = r.str();
    if (tr) *tr = tr->substr(0, tr0) + r.str();
    if (x.diverged) throw mc::Discard();
    if (kind == 1) throw mc::Discard();
    if (kind == 2) throw mc::Violation{msg};
    return answer;
}

// ------------------------------------------------------------ simulations
struct Job { int config, scene; };
struct Config3 { int kind, solver, integ; };
const std::vector<Config3> &table() {
    static std::vector<Config3> c;
    if (c.empty()) for (int s = 0; s < SOLVERS; ++s) { c.push_back({SYS_NSV, s, NSV}); for (int i = 0; i < INTEGS; ++i) c.push_back({SYS_GEN, s, i}); }
    return c;
}
std::string jobName(const Job &j) { const Config3 &c = table()[j.config]; return mc::format("%s/%s/%s scene %d", sysNames[c.kind], solverNames[c.solver], integNames[c.integ], j.scene); }
Scene makeScene(int k) {
    Scene s;
    GenD g;
    auto con = [&](int kind, int a, int b, double r = 0.8) { ConD c; c.kind = kind; c.b0 = a; c.b1 = b; c.r = r; c.lx += 0.1 * s.c.size(); s.c.push_back(c); };
    auto gen = [&](int kind, int a, int b) { GenD q; q.kind = kind; q.b0 = a; q.b1 = b; if (kind == MOTOR) { q.ks = 3; q.kd = 0.1; } s.g.push_back(q); };
    switch (k) {
    case 0:
        for (int i = 0; i < 4; ++i) s.b.push_back(gen::defaultBody(i));
        con(FIXPOS, 0, -1); con(LINK, 0, 1); con(GEAR, 2, 3, 1.7); con(ROTFRIC, 2, -1); con(FIXROT, 1, -1);
        gen(GRAVITY, 0, 0); gen(SPRING, 0, 3); gen(MOTOR, 1, 2);
        break;
    case 1:
        for (int i = 0; i < 6; ++i) s.b.push_back(gen::defaultBody(i + 1));
        s.b[5].reg = false;
        gen(SPRING, 2, 5);
        con(ROLL, 0, 1); con(LINE, 2, -1); con(WELD, 3, 4); con(CONSTROT, 2, -1); con(CLUTCH, 0, 3);
        gen(STATIC, 1, 1); gen(FIELD, 4, 4); gen(GRAVITY, 0, 0);
        break;
    case 2: // many bodies: every buffer has to grow
        return longScene(PINS, 9);
    case 3: s.b.push_back(gen::defaultBody(2)); gen(GRAVITY, 0, 0); break;
    default: break; // nothing
    }
    return s;
}
const int kScenes = 5, kCalls = 3;
struct Runner {
    Scene sc;
    Config3 c;
    real::World *w = nullptr;
    std::vector<double> out;
    int done = 0;
    explicit Runner(const Job &j) : sc(makeScene(j.scene)), c(table()[j.config]) { out.reserve(4096); }
    void add(double d) { Outside o; out.push_back(d); }
    void begin() { w = new real::World(sc, c.kind, c.solver, c.integ); }
    void call() {
        w->process(1 / 64.0, 1 + done % 2);
        ++done;
        double q[2], e = 0;
        for (auto *b : w->b) { b->localToWorld(0.3, -0.2, &q[0], &q[1]); add(q[0]); add(q[1]); b->worldToLocal(0.3, -0.2, &q[0], &q[1]); add(q[0]); add(q[1]); e += b->energy(); }
        for (auto *g : w->g) if (auto *k = dynamic_cast<atg_scs::Spring *>(g)) { double p[4]; k->getEnds(&p[0], &p[1], &p[2], &p[3]); for (double d : p) add(d); e += k->energy(); }
        add(e);
        Outside o;
        for (auto *b : w->b) for (double d : {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta}) out.push_back(d);
        for (auto *k : w->c) for (int r = 0; r < k->getConstraintCount(); ++r) for (int e = 0; e < k->m_bodyCount; ++e) { out.push_back(k->F_x[r][e]); out.push_back(k->F_y[r][e]); out.push_back(k->F_t[r][e]); }
    }
    void end() { delete w; w = nullptr; }
    void all(int calls) { begin(); for (int i = 0; i < calls; ++i) call(); end(); }
};
std::string pack(const std::vector<double> &v) { return std::string((const char *)v.data(), v.size() * 8); }
void compare(mc::Ctx &x, const std::string &got, const std::string &want, const char *what) {
    x.check(got.size() == want.size(), "%s: %zu values instead of %zu", what, got.size() / 8, want.size() / 8);
    for (size_t i = 0; i + 8 <= want.size(); i += 8) {
        double a, b;
        memcpy(&a, got.data() + i, 8); memcpy(&b, want.data() + i, 8);
        if (memcmp(&a, &b, 8) && !(std::isnan(a) && std::isnan(b))) x.fail("%s: value %zu is %.17g, alone it is %.17g", what, i / 8, a, b);
    }
}
void prepare() {
    for (auto &s : g_sim) {
        if (!s.arena) {
            s.arena = (char *)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            s.stack = (char *)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (s.arena == MAP_FAILED || s.stack == MAP_FAILED) abort();
        }
        s.used = 0; s.down = false; s.accesses = s.functions = s.points = 0; s.depth = 0; s.finished = s.blocked = false; s.touched = nullptr;
        sem_init(&s.go, 0, 0);
    }
    g_mode = IDLE; g_fill = 0; g_clock = 0; g_ticks = 0; g_preemptions = 0; g_offered = 0; g_stride = 1; g_bound = 0; g_trouble = nullptr;
}
// the result of a job in a process of its own, on a thread of its own
struct Alone { Job j; std::string out; };
const std::string &alone(mc::Ctx &x, const Job &j) {
    static std::map<int, std::string> cache;
    auto it = cache.find(j.config * kScenes + j.scene);
    if (it != cache.end()) return it->second;
    std::string *tr = x.trace;
    x.trace = nullptr;
    uint64_t t = x.transitions;
    prepare();
    std::string r = child(x, [&] {
        Runner run(j);
        t_sim = &g_sim[0];
        run.all(kCalls);
        t_sim = nullptr;
        if (g_sim[0].accesses < 100 || g_sim[0].functions < 10) { fprintf(stderr, "C04: the library is not instrumented\n"); _exit(9); }
        g_answer = pack(run.out);
    });
    x.trace = tr;
    x.transitions = t;
    return cache[j.config * kScenes + j.scene] = r;
}
// two simulations on two threads, one running at a time
struct Thread { Runner *r; Sim2 *s; int calls; };
void *threadMain(void *p) {
    Thread *t = (Thread *)p;
    while (sem_wait(&t->s->go)) {}
    t_sim = t->s;
    t->r->all(t->calls);
    t_sim = nullptr;
    t->s->finished = true;
    Sim2 &o = g_sim[t->s == &g_sim[0]];
    sem_post(&o.go); // if it has finished too nobody waits for this
    return nullptr;
}
void runThreads(Runner &a, Runner &b, int first, int calls) {
    Thread t[2] = {{&a, &g_sim[0], calls}, {&b, &g_sim[1], calls}};
    pthread_t th[2];
    for (int i = 0; i < 2; ++i) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, g_sim[i].stack, kStack);
        if (pthread_create(&th[i], &at, threadMain, &t[i])) { fprintf(stderr, "pthread_create\n"); _exit(9); }
    }
    sem_post(&g_sim[first].go);
    pthread_join(th[first], nullptr);
    pthread_join(th[1 - first], nullptr);
}
Job job(mc::Ctx &x, const char *label, bool few) {
    Job j;
    j.config = x.choose((int)table().size(), label);
    j.scene = x.choose(few ? 2 : kScenes, "scene");
    x.note("%s", jobName(j).c_str());
    return j;
}
// which addresses do the two have in common, at least one writing?
struct Shared2 { std::vector<uintptr_t> granules; uint64_t touches; };
const Shared2 &contended(mc::Ctx &x, const Job &a, const Job &b, int calls) {
    static std::map<uint64_t, Shared2> cache;
    uint64_t key = ((a.config * 64 + a.scene) * 64 + b.config) * 64 + b.scene;
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    std::string *tr = x.trace;
    x.trace = nullptr;
    uint64_t t = x.transitions;
    auto ask = [&](bool counting, const std::vector<uintptr_t> &known) {
        prepare();
        return child(x, [&] {
            Runner ra(a), rb(b);
            std::unordered_map<uintptr_t, int> ta, tb;
            g_sim[0].touched = &ta; g_sim[1].touched = &tb;
            std::vector<uintptr_t> c = known;
            g_contended = &c;
            if (!c.empty()) { g_lo = c.front(); g_hi = c.back(); }
            g_mode = counting ? CONFLICTS : RECORD; // bound 0: points are only counted
            runThreads(ra, rb, 0, calls);
            std::string o;
            if (counting) putU(o, g_sim[0].points + g_sim[1].points);
            else {
                std::set<uintptr_t> both;
                for (auto &p : ta) {
                    uintptr_t ad = p.first << 3;
                    auto q = tb.find(p.first);
                    if ((q != tb.end() && ((p.second | q->second) & 2)) || inside(g_sim[1], ad)) both.insert(p.first);
                }
                for (auto &q : tb) if (inside(g_sim[0], q.first << 3)) both.insert(q.first);
                for (uintptr_t p : both) putU(o, p);
            }
            g_answer = o;
        });
    };
    Shared2 s;
    std::string r = ask(false, {});
    for (size_t i = 0; i + 8 <= r.size(); i += 8) { uint64_t v; memcpy(&v, &r[i], 8); s.granules.push_back(v); }
    s.touches = 0;
    if (!s.granules.empty()) { r = ask(true, s.granules); memcpy(&s.touches, r.data(), 8); }
    x.trace = tr;
    x.transitions = t;
    return cache[key] = s;
}
void judge(mc::Ctx &x, Runner &ra, Runner &rb, const std::string &wa, const std::string &wb) {
    if (g_trouble) x.fail("%s", g_trouble);
    compare(x, pack(ra.out), wa, "first simulation");
    compare(x, pack(rb.out), wb, "second simulation");
    mc::Hash h;
    for (double d : ra.out) h.d(d);
    for (double d : rb.out) h.d(d);
    x.state(h.h);
}
// all schedules that differ in the order of dependent accesses
void schedules(mc::Ctx &x) {
    Job a = job(x, "first", true), b = job(x, "second", true);
    int first = x.choose(2, "starts");
    std::string wa = alone(x, a), wb = alone(x, b);
    const Shared2 &s = contended(x, a, b, kCalls);
    if (!s.granules.empty()) x.note("%zu contended words, touched %llu times", s.granules.size(), (unsigned long long)s.touches);
    prepare();
    child(x, [&] {
        Runner ra(a), rb(b);
        std::vector<uintptr_t> c = s.granules;
        g_contended = &c;
        g_lo = c.empty() ? 1 : c.front(); g_hi = c.empty() ? 0 : c.back();
        g_ctx = &x;
        g_bound = s.touches <= 40 ? 2 : 1;
        g_stride = x.thorough() ? 1 : 1 + s.touches / 60;
        while (g_stride > 1 && (g_stride % 2 == 0 || g_stride % 3 == 0 || g_stride % 5 == 0)) ++g_stride; // meets every position of a repeated pattern of touches
        g_mode = CONFLICTS;
        runThreads(ra, rb, first, kCalls);
        x.transitions += g_sim[0].functions + g_sim[1].functions;
        judge(x, ra, rb, wa, wb);
    });
}
// without the partial-order argument: preemptions at function calls, down to a
// depth of calls
void functions(mc::Ctx &x) {
    static const Job jobs[] = {{0, 0}, {1, 1}, {5, 1}, {4, 0}, {8, 0}, {11, 1}, {7, 0}, {10, 1}};
    int n = x.thorough() ? 8 : 4;
    static const int quick[] = {0, 3, 5, 4};
    Job a = jobs[x.thorough() ? x.choose(n, "first") : quick[x.choose(n, "first")]], b = jobs[x.thorough() ? x.choose(n, "second") : quick[x.choose(n, "second")]];
    x.note("%s, %s", jobName(a).c_str(), jobName(b).c_str());
    std::string wa = alone(x, a), wb = alone(x, b);
    int first = x.choose(2, "starts");
    prepare();
    child(x, [&] {
        Runner ra(a), rb(b);
        g_ctx = &x;
        g_bound = 1;
        g_mode = FUNCTIONS;
        g_depth = x.thorough() ? 4 : 3;
        runThreads(ra, rb, first, x.thorough() ? kCalls : 1);
        x.transitions += g_sim[0].functions + g_sim[1].functions;
        judge(x, ra, rb, wa.substr(0, ra.out.size() * 8), wb.substr(0, rb.out.size() * 8));
    });
}
// one thread, all interleavings of construction, calls and destruction
void calls(mc::Ctx &x) {
    Job a = job(x, "first", true), b = job(x, "second", !x.thorough());
    std::string wa = alone(x, a), wb = alone(x, b);
    prepare();
    child(x, [&] {
        Runner *r[2] = {new Runner(a), new Runner(b)};
        int at[2] = {0, 0};
        const int ops = (x.thorough() ? kCalls : 2) + 2;
        while (at[0] < ops || at[1] < ops) {
            int k = at[0] == ops ? 1 : at[1] == ops ? 0 : x.choose(2, "next");
            t_sim = &g_sim[k];
            if (at[k] == 0) r[k]->begin(); else if (at[k] == ops - 1) r[k]->end(); else { r[k]->call(); }
            t_sim = nullptr;
            x.step();
            ++at[k];
        }
        judge(x, *r[0], *r[1], wa.substr(0, r[0]->out.size() * 8), wb.substr(0, r[1]->out.size() * 8));
    });
}
// the same inputs again: after other work, with other memory contents, heap
// addresses and clock answers
void repeats(mc::Ctx &x) {
    Job a = job(x, "simulation", false);
    std::string wa = alone(x, a);
    int fill = x.choose(5, "fresh memory"), clock = x.choose(4, "clock"), down = x.choose(2, "addresses");
    int before = x.choose(kScenes + 2, "before"), thread = x.choose(2, "thread");
    prepare();
    child(x, [&] {
        g_fill = fill; g_clock = clock;
        g_sim[0].down = g_sim[1].down = down;
        int n = before == kScenes ? 1 : before == kScenes + 1 ? 3 : 1;
        t_sim = &g_sim[1];
        std::unique_ptr<Runner> o;
        { Outside q; o.reset(new Runner(before < kScenes ? Job{(a.config + 5) % (int)table().size(), before} : a)); }
        if (before != kScenes) for (int i = 0; i < n; ++i) o->all(kCalls);
        t_sim = nullptr;
        if (before == kScenes + 1) compare(x, pack(o->out).substr(0, wa.size()), wa, "first run");
        Runner ra(a);
        if (thread) {
            Runner rb(Job{0, 4});
            runThreads(ra, rb, 0, kCalls);
        } else { t_sim = &g_sim[0]; ra.all(kCalls); t_sim = nullptr; }
        x.step();
        compare(x, pack(ra.out), wa, "repeated run");
        mc::Hash h;
        for (double d : ra.out) h.d(d);
        x.state(h.h);
    });
}
} // namespace

int main(int argc, char **argv) {
    return mc::run(argc, argv, "C04",
                   "two simulations on two threads, every pair of system / integrator / solver with two scenes each: every load, store and atomic operation of the library is observed; where no address is written by one and touched by the other one schedule represents all, otherwise all schedules with preemptions at touches of such addresses are run (1 or 2 preemptions, spread over at most 60 touches in the quick tier, all in the thorough one); independently of that argument all schedules with one preemption at a call at most 3 (4) calls deep for 16 (64) pairs; all interleavings of construction, 2 (3) calls and destruction on one thread; repetition after other work with 5 memory contents, 4 clocks, both address orders, other threads; all results bit-equal to the run alone",
                   {{"repeats", repeats, 0, 0, false}, {"calls", calls, 0, 0, false}, {"schedules", schedules, 0, 0, false}, {"functions", functions, 0, 0, false}},
                   {"sequential consistency of the explored schedules (no conflicting accesses were found, so weaker orders add nothing)",
                    "data inside shared libraries (libm, libstdc++) is not observed; its effect on the results is"});
}
