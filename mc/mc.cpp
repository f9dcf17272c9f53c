#include "mc.h"
#include <algorithm>
#include <atomic>
#include <deque>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *)) __attribute__((weak));
extern "C" const char *__asan_default_options() {
    return "abort_on_error=1:detect_leaks=0:handle_abort=0:detect_stack_use_after_return=0:"
           "malloc_context_size=8:allocator_may_return_null=1:quarantine_size_mb=16:"
           "thread_local_quarantine_size_kb=64:check_initialization_order=0";
}

namespace mc {
std::vector<std::string> extraCoverage;

// ---------------------------------------------------------------- memory
namespace mem {
static thread_local long t_live = 0;
static int g_pattern = -1;
static const uint64_t kPatterns[] = {0xFFFFFFFFFFFFFFFFull, 0x0ull, 0x3FF0000000000000ull, 0x7F7F7F7F7F7F7F7Full, 0xC0590000C0590000ull};
static const int kCount = sizeof kPatterns / sizeof kPatterns[0];
static uint64_t g_word = 0;
static const char *kNames[] = {"NaN", "zero", "1.0", "1e306", "-100.0"};
static void onMalloc(const volatile void *p, size_t n) {
    ++t_live;
    if (g_pattern < 0 || n > 65536 || !p) return;
    uint64_t w = g_pattern >= kCount ? g_word : kPatterns[g_pattern];
    unsigned char *c = (unsigned char *)(uintptr_t)p;
    size_t k = 0;
    for (; k + 8 <= n; k += 8) memcpy(c + k, &w, 8);
    if (k < n) memcpy(c + k, &w, n - k);
}
static void onFree(const volatile void *p) { if (p) --t_live; }
void fill(int p) { g_pattern = p; }
void fillWords(unsigned a, unsigned b) { g_word = (uint64_t)b << 32 | a; g_pattern = kCount; }
int patterns() { return kCount; }
const char *patternName(int p) { return p < 0 ? "default" : p >= kCount ? "words" : kNames[p]; }
long live() { return t_live; }
static void install() {
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
}
}

// ---------------------------------------------------------------- context
static std::string vformat(const char *fmt, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
std::string format(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vformat(fmt, ap); va_end(ap); return s; }

// the explorer's own bookkeeping does not count as live heap of the program
struct Quiet { long live = mem::t_live; ~Quiet() { mem::t_live = live; } };
void Ctx::state(uint64_t h) { Quiet q; if (states) states->push_back(h ^ salt); }

// the trace is written as it grows, so that it survives a crash
static int g_traceFd = -1;
void Ctx::tell(const std::string &s) { *trace += s; if (g_traceFd >= 0 && write(g_traceFd, s.data(), s.size()) < 0) {} }

int Ctx::decide(int n, const char *label, bool cost) {
    Quiet quiet;
    size_t i = taken.size();
    if (n <= 0) { fprintf(stderr, "mc: empty choice %s\n", label); abort(); }
    int v = 0;
    if (i < prefix.size()) {
        v = prefix[i];
        if (v >= n) { diverged = true; fprintf(stderr, "mc: replay diverged at choice %zu (%s): %d of %d\n", i, label, v, n); throw Discard(); }
    }
    taken.push_back((uint16_t)v);
    arity.push_back((uint16_t)n);
    costs.push_back(cost);
    if (trace && n > 1) tell(format("%s=%d/%d ", label, v, n));
    return v;
}
void Ctx::note(const char *fmt, ...) {
    if (!trace) return;
    Quiet quiet;
    va_list ap; va_start(ap, fmt); std::string s = vformat(fmt, ap); va_end(ap);
    tell(s + "; ");
}
void Ctx::fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vformat(fmt, ap); va_end(ap); throw Violation{s}; }
void Ctx::check(bool ok, const char *fmt, ...) {
    if (ok) return;
    va_list ap; va_start(ap, fmt); std::string s = vformat(fmt, ap); va_end(ap); throw Violation{s};
}
void Ctx::near(double got, double want, double tol, const char *fmt, ...) {
    double s = std::fabs(want) > 1 ? std::fabs(want) : 1;
    if (std::fabs(got - want) <= tol * s) return;
    va_list ap; va_start(ap, fmt); std::string m = vformat(fmt, ap); va_end(ap);
    throw Violation{m + format(": got %.17g, expected %.17g", got, want)};
}
void Ctx::nearScale(double got, double want, double tol, double scale, const char *fmt, ...) {
    double s = std::fabs(want) > 1 ? std::fabs(want) : 1;
    if (scale > s) s = scale;
    if (std::fabs(got - want) <= tol * s) return;
    va_list ap; va_start(ap, fmt); std::string m = vformat(fmt, ap); va_end(ap);
    throw Violation{m + format(": got %.17g, expected %.17g", got, want)};
}

std::string jsonString(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}

// ---------------------------------------------------------------- explorer
static const int kMaxLen = 8192, kHist = 48, kHistLen = 1024;
struct Slot {
    std::atomic<int64_t> startNs;   // 0: idle
    std::atomic<int> len;
    uint16_t prefix[kMaxLen];
    std::atomic<int> violated;      // 1: violation recorded below
    std::atomic<int> discarded;     // last execution left the input domain
    char msg[4096];
    // recent executions (for failures that need what ran before in the process)
    std::atomic<uint32_t> histN;
    int histLen[kHist];
    uint16_t hist[kHist][kHistLen];
};
struct Shared {
    std::atomic<uint32_t> next;
    std::atomic<int> stop;
    std::atomic<uint64_t> executions, transitions, discards, choices, maxDepth, maxDev;
    std::atomic<uint64_t> sampleN;
    Slot slot[64];
};
static int64_t nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }

struct Explorer {
    const char *id;
    const Scenario *sc;
    int bound, tier, workers;
    Shared *sh;
    std::string tmpdir;
    double perExecLimit;

    // worker-local
    int me = 0;
    std::vector<uint64_t> states;
    std::vector<std::vector<uint16_t>> samplePrefixes;

    void compact(bool force) {
        static size_t limit = 1u << 20;
        if (!force && states.size() < limit) return;
        std::sort(states.begin(), states.end());
        states.erase(std::unique(states.begin(), states.end()), states.end());
        limit = std::max<size_t>(1u << 20, states.size() * 2);
    }

    // Runs one execution; returns the decisions taken.
    void execute(const std::vector<uint16_t> &prefix, Ctx &x, bool counted, std::string *trace) {
        Slot &s = sh->slot[me];
        int n = std::min<int>((int)prefix.size(), kMaxLen);
        for (int i = 0; i < n; ++i) s.prefix[i] = prefix[i];
        s.len = n;
        uint32_t hn = s.histN;
        int hl = n <= kHistLen ? n : -1;
        s.histLen[hn % kHist] = hl;
        for (int i = 0; i < hl; ++i) s.hist[hn % kHist][i] = prefix[i];
        s.histN = hn + 1;
        s.startNs = nowNs();
        x.prefix = prefix;
        x.tier = tier;
        x.trace = trace;
        x.states = counted ? &states : nullptr;
        x.salt = Hash().bytes(sc->name, strlen(sc->name)).h;
        bool discarded = false;
        mem::fill(0);
        try { sc->fn(x); }
        catch (Discard &) { discarded = true; }
        catch (Violation &v) {
            mem::fill(-1);
            snprintf(s.msg, sizeof s.msg, "%s", v.msg.c_str());
            s.violated = 1;
            if (x.diverged) _exit(3);
            sh->stop = 1;
            _exit(1);
        }
        mem::fill(-1);
        if (x.diverged) { snprintf(s.msg, sizeof s.msg, "decision replay diverged"); _exit(3); }
        s.startNs = 0;
        s.discarded = discarded;
        if (counted) {
            sh->executions.fetch_add(1, std::memory_order_relaxed);
            sh->transitions.fetch_add(x.transitions, std::memory_order_relaxed);
            sh->choices.fetch_add(x.taken.size(), std::memory_order_relaxed);
            if (discarded) sh->discards.fetch_add(1, std::memory_order_relaxed);
            uint64_t d = x.taken.size(), m = sh->maxDepth.load();
            while (d > m && !sh->maxDepth.compare_exchange_weak(m, d)) {}
            compact(false);
        }
    }

    template <class F> void children(const Ctx &x, size_t from, F f) {
        int dev = 0;
        for (size_t i = 0; i < from && i < x.taken.size(); ++i) dev += x.costs[i] && x.taken[i];
        for (size_t i = from; i < x.taken.size(); ++i) {
            bool can = !x.costs[i] || bound < 0 || dev < bound;
            if (can)
                for (int a = 1; a < x.arity[i]; ++a) {
                    std::vector<uint16_t> p(x.taken.begin(), x.taken.begin() + i);
                    p.push_back((uint16_t)a);
                    f(std::move(p));
                }
        }
    }

    void dfs(std::vector<uint16_t> root) {
        std::vector<std::vector<uint16_t>> stack;
        stack.push_back(std::move(root));
        while (!stack.empty() && !sh->stop) {
            std::vector<uint16_t> p = std::move(stack.back());
            stack.pop_back();
            Ctx x;
            execute(p, x, true, nullptr);
            children(x, p.size(), [&](std::vector<uint16_t> c) { stack.push_back(std::move(c)); });
        }
    }

    void worker() {
        std::deque<std::vector<uint16_t>> q;
        q.push_back({});
        size_t target = (size_t)workers * 48, expanded = 0;
        while (!q.empty() && q.size() < target && expanded < 600 && !sh->stop) {
            std::vector<uint16_t> p = std::move(q.front());
            q.pop_front();
            Ctx x;
            execute(p, x, me == 0, nullptr);
            ++expanded;
            children(x, p.size(), [&](std::vector<uint16_t> c) { q.push_back(std::move(c)); });
        }
        std::vector<std::vector<uint16_t>> items(q.begin(), q.end());
        while (!sh->stop) {
            uint32_t k = sh->next.fetch_add(1);
            if (k >= items.size()) break;
            dfs(items[k]);
        }
        compact(true);
        std::string f = tmpdir + format("/states.%d", me);
        FILE *o = fopen(f.c_str(), "wb");
        if (!o) _exit(4);
        fwrite(states.data(), 8, states.size(), o);
        fclose(o);
        if (me == 0) {
            FILE *o2 = fopen((tmpdir + "/samples").c_str(), "w");
            auto put = [&](const std::vector<uint16_t> &p) { for (auto v : p) fprintf(o2, "%d ", v); fprintf(o2, "\n"); };
            put({});
            if (!items.empty()) { put(items[items.size() / 2]); put(items.back()); }
            fclose(o2);
        }
        _exit(0);
    }
};

static std::string slurp(const std::string &f, size_t max = 200000) {
    std::string s;
    FILE *i = fopen(f.c_str(), "rb");
    if (!i) return s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, i)) > 0 && s.size() < max) s.append(b, n);
    fclose(i);
    return s;
}
static std::string crashSummary(const std::string &err) {
    std::string out;
    size_t pos = 0;
    while (pos < err.size()) {
        size_t e = err.find('\n', pos);
        if (e == std::string::npos) e = err.size();
        std::string l = err.substr(pos, e - pos);
        if (l.find("ERROR: ") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("    #0") != std::string::npos ||
            l.find("    #1") != std::string::npos || l.find("    #2") != std::string::npos || l.find("SUMMARY") != std::string::npos || l.find("terminate") != std::string::npos || l.find("runtime error") != std::string::npos)
            { out += l; out += " | "; }
        if (out.size() > 1200) break;
        pos = e + 1;
    }
    if (out.empty()) out = err.substr(0, 400);
    return out;
}

static long residentMb(pid_t p) {
    std::string t = slurp(format("/proc/%d/statm", (int)p));
    const char *c = strchr(t.c_str(), ' ');
    return c ? atol(c) * 4 / 1024 : 0;
}
struct ReplayResult { int kind; std::string msg; }; // 0 ok, 1 violation, 2 crash, 3 hang, 4 harness error
// Re-runs executions (the last one is the suspect) in a fresh process.
static ReplayResult replay(const char *id, const Scenario &sc, int tier, const std::vector<std::vector<uint16_t>> &runs,
                           const std::string &tmpdir, double limit, std::string *trace) {
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string errf = tmpdir + "/replay.err", trf = tmpdir + "/replay.trace";
    unlink(trf.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        Explorer e;
        e.id = id; e.sc = &sc; e.bound = -1; e.tier = tier; e.workers = 1; e.sh = sh; e.tmpdir = tmpdir;
        for (size_t i = 0; i < runs.size(); ++i) {
            Ctx x;
            std::string t;
            if (trace && i + 1 == runs.size()) g_traceFd = open(trf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            e.execute(runs[i], x, false, trace ? &t : nullptr);
        }
        _exit(0);
    }
    ReplayResult r{0, ""};
    int64_t t0 = nowNs();
    int st = 0;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (residentMb(pid) > 5000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.kind = 3; r.msg = "took more than 5 GB of memory"; break; }
        if ((nowNs() - t0) / 1e9 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.kind = 3; break; }
        usleep(2000);
    }
    if (r.kind != 3) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.kind = 0;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->slot[0].violated) { r.kind = 1; r.msg = sh->slot[0].msg; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.kind = 4; r.msg = "replay diverged"; }
        else { r.kind = 2; r.msg = format("crashed (%s %d): ", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + crashSummary(slurp(errf)); }
    } else if (r.msg.empty()) r.msg = format("did not finish within %.0f s", limit);
    if (trace) *trace = slurp(trf);
    munmap(sh, sizeof(Shared));
    return r;
}

static std::string joinChoices(const std::vector<uint16_t> &p) {
    std::string s;
    for (auto v : p) s += format("%d ", v);
    return s;
}
static std::vector<uint16_t> parseChoices(const std::string &l) {
    std::vector<uint16_t> p;
    const char *c = l.c_str();
    char *e;
    while (true) { long v = strtol(c, &e, 10); if (e == c) break; p.push_back((uint16_t)v); c = e; }
    return p;
}

int run(int argc, char **argv, const char *id, const char *what, const std::vector<Scenario> &scenarios,
        const std::vector<std::string> &assumptions) {
    mem::install();
    std::string root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : ".";
    int tier = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough") ? 1 : 0;
    int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    std::string only, replayFile;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--scenario") && i + 1 < argc) only = argv[++i];
        else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replayFile = argv[++i];
        else if (!strcmp(argv[i], "--thorough")) tier = 1;
    }
    char tmpl[] = "/tmp/mcXXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    std::string tmpdir = tmpl;
    struct Cleaner { std::string d; pid_t p = getpid(); ~Cleaner() { if (getpid() == p) { std::string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} } } } cleaner{tmpdir};

    if (!replayFile.empty()) {
        std::string t = slurp(replayFile, 1 << 24);
        const Scenario *sc = nullptr;
        std::vector<std::vector<uint16_t>> runs;
        size_t pos = 0;
        while (pos < t.size()) {
            size_t e = t.find('\n', pos);
            if (e == std::string::npos) e = t.size();
            std::string l = t.substr(pos, e - pos);
            pos = e + 1;
            if (l.rfind("scenario ", 0) == 0) { for (auto &s : scenarios) if (l.substr(9) == s.name) sc = &s; }
            else if (l.rfind("tier ", 0) == 0) tier = l.substr(5) == "thorough";
            else if (l.rfind("run ", 0) == 0) runs.push_back(parseChoices(l.substr(4)));
            else if (l == "run") runs.push_back({});
        }
        if (!sc || runs.empty()) { fprintf(stderr, "bad replay file\n"); return 2; }
        std::string trace;
        ReplayResult r = replay(id, *sc, tier, runs, tmpdir, 600, &trace);
        printf("replay of %s: %s %s\n  %s\n", sc->name, r.kind == 0 ? "no violation" : "VIOLATED:", r.msg.c_str(), trace.c_str());
        return r.kind ? 1 : 0;
    }

    int workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (getenv("MC_WORKERS")) workers = atoi(getenv("MC_WORKERS"));
    workers = std::max(1, std::min(workers, 16));
    int64_t t0 = nowNs();
    uint64_t executions = 0, transitions = 0, discards = 0;
    std::vector<uint64_t> allStates;
    std::vector<std::string> samples, scen;
    int violations = 0;

    for (const Scenario &sc : scenarios) {
        if (!only.empty() && only != sc.name) continue;
        if (sc.thoroughOnly && tier == 0) continue;
        double limit = 30;
        int attempt = 0;
    again:
        ++attempt;
        Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { perror("mmap"); return 2; }
        int64_t ts = nowNs();
        std::vector<pid_t> pids(workers, 0);
        fflush(nullptr);
        int bound = tier ? sc.boundThorough : sc.boundQuick;
        for (int w = 0; w < workers; ++w) {
            pid_t pid = fork();
            if (pid == 0) {
                int fd = open((tmpdir + format("/err.%d", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 2);
                Explorer e;
                e.id = id; e.sc = &sc; e.bound = bound; e.tier = tier; e.workers = workers; e.sh = sh; e.tmpdir = tmpdir; e.me = w;
                e.worker();
            }
            pids[w] = pid;
        }
        int running = workers, badWorker = -1;
        std::string how;
        bool hang = false, internal = false;
        unsigned polls = 0;
        while (running > 0) {
            for (int w = 0; w < workers; ++w) {
                if (!pids[w]) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    pids[w] = 0;
                    --running;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) internal = true;
                    if (badWorker < 0) {
                        badWorker = w;
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->slot[w].violated) how = sh->slot[w].msg;
                        else how = format("crashed (%s %d): ", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) +
                                   crashSummary(slurp(tmpdir + format("/err.%d", w)));
                    }
                    sh->stop = 1;
                } else {
                    if ((++polls & 63) == 0 && badWorker < 0 && residentMb(pids[w]) > 5000) {
                        badWorker = w; hang = true; how = "execution took more than 5 GB of memory";
                        sh->stop = 1;
                    }
                    int64_t s = sh->slot[w].startNs;
                    if (s && (nowNs() - s) / 1e9 > limit && badWorker < 0) {
                        badWorker = w; hang = true; how = format("execution did not finish within %.0f s", limit);
                        sh->stop = 1;
                    }
                }
            }
            if (badWorker >= 0) {
                usleep(100000);
                for (int w = 0; w < workers; ++w) if (pids[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); pids[w] = 0; --running; }
            }
            usleep(1000);
        }
        if (badWorker >= 0) {
            Slot &s = sh->slot[badWorker];
            std::vector<uint16_t> p(s.prefix, s.prefix + s.len);
            std::string trace;
            ReplayResult r = replay(id, sc, tier, {p}, tmpdir, 120, &trace);
            std::vector<std::vector<uint16_t>> runs{p};
            if (r.kind == 0 && hang && attempt < 3) { munmap(sh, sizeof(Shared)); limit *= 4; goto again; }
            if (r.kind == 0 && !hang) {
                // needs what ran before in the same process
                std::vector<std::vector<uint16_t>> h;
                uint32_t hn = s.histN;
                for (uint32_t k = hn > (uint32_t)kHist ? hn - kHist : 0; k < hn; ++k) {
                    int l = s.histLen[k % kHist];
                    if (l >= 0) h.push_back(std::vector<uint16_t>(s.hist[k % kHist], s.hist[k % kHist] + l));
                }
                ReplayResult r2 = replay(id, sc, tier, h, tmpdir, 300, &trace);
                if (r2.kind) { r = r2; runs = h; }
            }
            if (internal || r.kind == 4) {
                printf("ERROR: harness nondeterminism in scenario %s: %s %s\n", sc.name, how.c_str(), r.msg.c_str());
                return 2;
            }
            if (r.kind == 0 && how.find("signal 9)") != std::string::npos) {
                if (attempt < 3) { munmap(sh, sizeof(Shared)); goto again; }
                printf("ERROR: worker killed\n");
                return 2;
            }
            std::string msg = r.kind ? r.msg : how + " (not reproduced by replaying it in a fresh process)";
            mkdir((root + "/replays").c_str(), 0755);
            std::string rf = root + "/replays/" + id + "-" + sc.name + ".txt";
            FILE *o = fopen(rf.c_str(), "w");
            if (o) {
                fprintf(o, "property %s\nscenario %s\ntier %s\n", id, sc.name, tier ? "thorough" : "quick");
                for (auto &q : runs) fprintf(o, "run %s\n", joinChoices(q).c_str());
                fprintf(o, "# %s\n# decisions: %s\n", msg.c_str(), trace.c_str());
                fclose(o);
            }
            printf("scenario %s violated: %s\n  decisions: %s\n", sc.name, msg.c_str(), trace.c_str());
            printf("VIOLATION property=%s replay=%s\n", id, rf.c_str());
            ++violations;
            executions += sh->executions; transitions += sh->transitions; discards += sh->discards;
            munmap(sh, sizeof(Shared));
            break;
        }
        std::vector<uint64_t> st;
        for (int w = 0; w < workers; ++w) {
            std::string f = tmpdir + format("/states.%d", w);
            FILE *i = fopen(f.c_str(), "rb");
            if (!i) { printf("ERROR: worker %d wrote no result\n", w); return 2; }
            fseek(i, 0, SEEK_END);
            size_t n = ftell(i) / 8, o = st.size();
            fseek(i, 0, SEEK_SET);
            st.resize(o + n);
            if (n && fread(&st[o], 8, n, i) != n) { printf("ERROR: short read\n"); return 2; }
            fclose(i);
            unlink(f.c_str());
        }
        std::sort(st.begin(), st.end());
        st.erase(std::unique(st.begin(), st.end()), st.end());
        uint64_t ex = sh->executions, tr = sh->transitions, di = sh->discards;
        if (ex == 0 || di == ex || st.empty()) { printf("ERROR: scenario %s explored nothing\n", sc.name); return 2; }
        executions += ex; transitions += tr; discards += di;
        scen.push_back(format("{\"name\":\"%s\",\"deviation_bound\":%d,\"executions\":%llu,\"outside_domain\":%llu,\"transitions\":%llu,\"distinct_states\":%zu,\"max_decisions\":%llu,\"wall_s\":%.2f}",
                              sc.name, bound, (unsigned long long)ex, (unsigned long long)di, (unsigned long long)tr, st.size(),
                              (unsigned long long)sh->maxDepth.load(), (nowNs() - ts) / 1e9));
        printf("  %-28s executions=%llu (outside domain %llu) transitions=%llu states=%zu depth<=%llu %.1fs\n", sc.name,
               (unsigned long long)ex, (unsigned long long)di, (unsigned long long)tr, st.size(), (unsigned long long)sh->maxDepth.load(), (nowNs() - ts) / 1e9);
        fflush(stdout);
        {
            std::string t = slurp(tmpdir + "/samples");
            size_t pos = 0;
            int k = 0;
            while (pos < t.size() && k < 3) {
                size_t e = t.find('\n', pos);
                std::string tr2;
                ReplayResult r = replay(id, sc, tier, {parseChoices(t.substr(pos, e - pos))}, tmpdir, 300, &tr2);
                if (r.kind) { printf("ERROR: replaying an execution that had passed gave: %s\n", r.msg.c_str()); return 2; }
                if (tr2.size() > 900) tr2 = tr2.substr(0, 900) + "...";
                samples.push_back(jsonString(std::string(sc.name) + ": " + tr2));
                pos = e + 1;
                ++k;
            }
        }
        allStates.insert(allStates.end(), st.begin(), st.end());
        munmap(sh, sizeof(Shared));
    }
    double wall = (nowNs() - t0) / 1e9;
    if (only.empty()) {
        mkdir((root + "/evidence").c_str(), 0755);
        FILE *o = fopen((root + "/evidence/" + id + ".json").c_str(), "w");
        if (!o) { perror("evidence"); return 2; }
        fprintf(o, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"model_checking\",\n \"coverage\": {\n", id, tier ? "thorough" : "quick", seed);
        fprintf(o, "  \"states\": %zu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n  \"executions_outside_domain\": %llu,\n", allStates.size(),
                (unsigned long long)transitions, (unsigned long long)(executions - discards), (unsigned long long)discards);
        fprintf(o, "  \"exhaustive\": %s,\n  \"what\": %s,\n  \"scenarios\": [", violations ? "false" : "true", jsonString(what).c_str());
        for (size_t i = 0; i < scen.size(); ++i) fprintf(o, "%s\n   %s", i ? "," : "", scen[i].c_str());
        fprintf(o, "\n  ],\n");
        for (auto &e : extraCoverage) fprintf(o, "  %s,\n", e.c_str());
        fprintf(o, "  \"samples\": [");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s\n   %s", i ? "," : "", samples[i].c_str());
        if (samples.empty()) fprintf(o, "\"none: a violation stopped the run\"");
        fprintf(o, "\n  ]\n },\n \"assumptions\": [");
        for (size_t i = 0; i < assumptions.size(); ++i) fprintf(o, "%s\n  %s", i ? "," : "", jsonString(assumptions[i]).c_str());
        fprintf(o, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
        fclose(o);
    }
    if (!violations) printf("%s held: %llu executions, %llu transitions, %zu states, %.1f s\n", id, (unsigned long long)executions, (unsigned long long)transitions, allStates.size(), wall);
    return violations ? 1 : 0;
}
} // namespace mc
