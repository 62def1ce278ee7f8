#include "mc_internal.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <stdexcept>

extern "C" const char* __attribute__((weak)) __asan_default_options()
{
    return "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=0:"
           "detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8";
}
extern "C" const char* __attribute__((weak)) __ubsan_default_options()
{
    return "abort_on_error=1:print_stacktrace=1";
}

// thread counts derived from the machine must not depend on it (worker processes are pinned)
extern "C" int get_nprocs() noexcept { return 8; }

namespace mc::detail
{
// weak defaults for sequential builds
__attribute__((weak)) void sched_begin() { }
__attribute__((weak)) void sched_end() { }
__attribute__((weak)) bool sched_active() { return false; }
__attribute__((weak)) void sched_mix(std::uint64_t) { }
__attribute__((weak)) void sched_real_sleep(long us)
{
    timespec ts{us / 1000000, (us % 1000000) * 1000};
    nanosleep(&ts, nullptr);
}
__attribute__((weak)) double sched_real_now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

constexpr int MAX_CHOICES = 3000;
constexpr int QCAP = 4096;
constexpr int MAX_WORKERS = 32;
constexpr int MSG = 16384;
constexpr int MAX_OUTCOMES = 1 << 20;
constexpr int MAX_KNOWN = 64;
constexpr int NSAMPLES = 4;

struct Choice { std::uint16_t c, n; };
struct Job { int len; Choice ch[MAX_CHOICES]; };

enum Status { IDLE = 0, BUSY = 1, FAILED = 2, DIVERGED = 3 };
struct Slot
{
    volatile int status;
    volatile std::uint64_t heartbeat;
    std::uint64_t execs, transitions, nodes, pruned, discarded, maxlen;
    volatile int len;
    Choice ch[MAX_CHOICES];
    char msg[MSG];
};
struct Entry { std::uint64_t key; std::int64_t budget; };
struct Shared
{
    volatile int stop;        // violation or budget exhausted
    volatile int timedOut;
    volatile int lock;
    volatile int qhead, qcount;
    volatile int idle;
    volatile int nworkers;
    volatile std::uint64_t states;
    volatile std::uint64_t outcomes;
    volatile int knownSeen[MAX_KNOWN];
    volatile int tableFull;
    std::uint64_t outcomeTable[MAX_OUTCOMES];
    int nsamples;
    Job samples[NSAMPLES];
    Slot slots[MAX_WORKERS];
    Job queue[QCAP];
};

Shared* S;
Entry* T;
std::uint64_t T_mask;

std::uint64_t g_transitions;

// ---- per process execution state
std::vector<Choice> g_stack;
std::vector<std::uint16_t> g_limit;
std::size_t g_pos;
bool g_noBranch;
bool g_pruned;
bool g_tracing;
bool g_replaying;
Slot* g_slot;
const Scenario* g_sc;
int g_bound;
int g_pass;
bool g_thorough;
std::uint64_t g_seed = 1;
std::string g_scratch;
std::string g_property;
std::vector<std::pair<std::string, std::string>> g_known; // key, text (of this property)
FILE* g_traceOut;
struct DiscardExc { };

void lockS() { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
void unlockS() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

const Scenario& scenario() { return *g_sc; }
int current_bound() { return g_bound; }
bool in_replay_prefix() { return g_pos < g_stack.size(); }
bool branching() { return !g_noBranch; }

[[noreturn]] void end_execution_fail(const std::string& msg)
{
    if (g_slot) {
        std::snprintf(g_slot->msg, MSG, "%s", msg.c_str());
        // record the choices consumed
        g_slot->len = (int)std::min<std::size_t>(g_pos, g_stack.size());
        for (int i = 0; i < g_slot->len; ++i) g_slot->ch[i] = g_stack[i];
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
        g_slot->status = FAILED;
        if (!g_replaying) S->stop = 1;
    }
    if (g_traceOut) {
        std::fprintf(g_traceOut, "FAIL: %s\n", msg.c_str());
        std::fflush(g_traceOut);
    }
    _exit(42);
}

// MC_DIVERGED=dir: keep the traces of the last two executions for when they should turn out not to be deterministic
const char* g_ndDir = getenv("MC_DIVERGED");
char* g_ndText[2];
size_t g_ndLen[2];

[[noreturn]] void diverged(const std::string& msg)
{
    if (g_ndDir && g_traceOut) {
        std::fflush(g_traceOut);
        for (int i = 0; i < 2; ++i)
            if (FILE* f = std::fopen((std::string(g_ndDir) + "/diverged" + std::to_string(i)).c_str(), "w")) {
                if (g_ndText[i]) std::fwrite(g_ndText[i], 1, g_ndLen[i], f);
                std::fclose(f);
            }
    }
    if (g_slot) {
        std::snprintf(g_slot->msg, MSG, "%s", msg.c_str());
        g_slot->status = DIVERGED;
        if (!g_replaying) S->stop = 1;
    }
    if (g_traceOut) { std::fprintf(g_traceOut, "DIVERGED: %s\n", msg.c_str()); std::fflush(g_traceOut); }
    _exit(43);
}

int choose_raw(int n, const char* label)
{
    if (n <= 0) end_execution_fail(std::string("harness error: choose(0) ") + (label ? label : ""));
    if (n == 1) return 0;
    if (n > 65535) end_execution_fail("harness error: too many alternatives");
    if (g_pos < g_stack.size()) {
        auto& e = g_stack[g_pos];
        if (e.n != n) {
            diverged("nondeterminism while replaying: choice " + std::to_string(g_pos) + " (" +
                (label ? label : "") + ") had " + std::to_string(e.n) + " alternatives, now " + std::to_string(n));
        }
        ++g_pos;
        return e.c;
    }
    if (g_noBranch) return 0;
    if (g_stack.size() >= MAX_CHOICES) diverged("choice vector too long");
    g_stack.push_back({0, (std::uint16_t)n});
    g_limit.push_back((std::uint16_t)n);
    if (g_slot) {
        g_slot->ch[g_pos] = g_stack.back();
        g_slot->len = (int)g_pos + 1;
        ++g_slot->nodes;
    }
    ++g_pos;
    return 0;
}

bool cache_seen(std::uint64_t key, int budget)
{
    key = mix(key, 0x1234 + g_pass);
    if (key == 0) key = 1;
    std::uint64_t i = key & T_mask;
    for (int probes = 0; probes < 64; ++probes, i = (i + 1) & T_mask) {
        std::uint64_t k = __atomic_load_n(&T[i].key, __ATOMIC_ACQUIRE);
        if (k == 0) {
            std::uint64_t expected = 0;
            if (__atomic_compare_exchange_n(&T[i].key, &expected, key, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
                // stored as budget+1 so that 0 means "not set yet"
                std::int64_t prev = 0;
                __atomic_compare_exchange_n(&T[i].budget, &prev, (std::int64_t)budget + 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE);
                __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED);
                return false;
            }
            k = expected;
        }
        if (k == key) {
            std::int64_t b = __atomic_load_n(&T[i].budget, __ATOMIC_ACQUIRE);
            for (;;) {
                if (b >= budget + 1) return true;
                if (__atomic_compare_exchange_n(&T[i].budget, &b, (std::int64_t)budget + 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return false;
            }
        }
    }
    S->tableFull = 1;
    return false;
}

void note_line(const std::string& s)
{
    if (g_traceOut) std::fprintf(g_traceOut, "  %s\n", s.c_str());
}

} // namespace mc::detail

using namespace mc::detail;

namespace mc
{
int choose(int n, const char* label)
{
    int c = choose_raw(n, label);
    sched_mix(0xC0FFEE + (std::uint64_t)c);
    if (g_traceOut && label && n > 1) std::fprintf(g_traceOut, "  choose %s = %d/%d\n", label, c, n);
    return c;
}
void fail(const std::string& msg) { end_execution_fail(msg); }
void fail_or_known(const std::string& key, const std::string& msg)
{
    for (std::size_t i = 0; i < g_known.size() && i < MAX_KNOWN; ++i) {
        if (g_known[i].first == key) {
            S->knownSeen[i] = 1;
            return;
        }
    }
    fail("[" + key + "] " + msg);
}
void discard() { throw DiscardExc{}; }
void outcome_hash(std::uint64_t h)
{
    if (!h) h = 1;
    std::uint64_t i = h % MAX_OUTCOMES;
    for (int p = 0; p < 256; ++p, i = (i + 1) % MAX_OUTCOMES) {
        std::uint64_t k = __atomic_load_n(&S->outcomeTable[i], __ATOMIC_RELAXED);
        if (k == h) return;
        if (k == 0) {
            std::uint64_t e = 0;
            if (__atomic_compare_exchange_n(&S->outcomeTable[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&S->outcomes, 1, __ATOMIC_RELAXED);
                return;
            }
            if (e == h) return;
        }
    }
}
void outcome(const std::string& s)
{
    outcome_hash(hash_str(s));
    if (g_traceOut) std::fprintf(g_traceOut, "  outcome: %s\n", s.c_str());
}
void note(const std::string& s) { note_line(s); }
bool tracing() { return g_tracing; }
void transition(std::uint64_t n) { g_transitions += n; }
bool visit(std::uint64_t h, int remaining)
{
    if (g_noBranch) return true;
    if (g_pos < g_stack.size()) return true; // revisiting along the prefix
    if (g_replaying) return true;
    if (cache_seen(mix(h, 0x5151), remaining)) { g_pruned = true; g_noBranch = true; return false; }
    return true;
}
void no_more_branching() { g_noBranch = true; g_pruned = true; }
bool thorough() { return g_thorough; }
std::uint64_t seed() { return g_seed; }
const std::string& scratch() { return g_scratch; }

static void rm_tree(const std::string& d, bool self)
{
    if (DIR* dir = opendir(d.c_str())) {
        while (dirent* e = readdir(dir)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p, true);
            else unlink(p.c_str());
        }
        closedir(dir);
    }
    if (self) rmdir(d.c_str());
}
void clear_scratch()
{
    if (!g_scratch.empty()) rm_tree(g_scratch, false);
}

#define WEAK __attribute__((weak))
WEAK void set_process(int) { }
WEAK int thread_id() { return 0; }
WEAK void point() { }
WEAK void quiet(bool) { }
WEAK long stamp() { static long n = 0; return ++n; }
WEAK void window(long, long) { }
WEAK long points() { return 0; }
WEAK std::int64_t virtual_now() { return 0; }
} // namespace mc

namespace
{
using namespace mc;

std::string g_verif = ".";

double now() { return sched_real_now(); }

void on_terminate()
{
    std::string m = "std::terminate called";
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception& x) {
            m += std::string(" (uncaught exception: ") + x.what() + ")";
        } catch (...) {
            m += " (uncaught exception of unknown type)";
        }
    }
    end_execution_fail(m);
}

// Runs one execution with the current stack as prefix. Returns false if discarded.
bool run_execution()
{
    g_pos = 0;
    g_noBranch = false;
    g_pruned = false;
    if (g_slot) {
        g_slot->len = (int)g_stack.size();
        for (std::size_t i = 0; i < g_stack.size(); ++i) g_slot->ch[i] = g_stack[i];
        ++g_slot->heartbeat;
    }
    bool discarded = false;
    auto t0 = g_transitions;
    if (g_ndDir && !g_replaying) {
        if (g_traceOut) std::fclose(g_traceOut);
        std::free(g_ndText[0]);
        g_ndText[0] = g_ndText[1];
        g_ndLen[0] = g_ndLen[1];
        g_ndText[1] = nullptr;
        g_traceOut = open_memstream(&g_ndText[1], &g_ndLen[1]);
        g_tracing = true;
    }
    if (g_sc->sched) sched_begin();
    try {
        g_sc->body();
    } catch (const DiscardExc&) {
        discarded = true;
    } catch (const std::exception& e) {
        end_execution_fail(std::string("uncaught exception in scenario body: ") + e.what());
    }
    if (g_sc->sched) sched_end();
    if (g_pos < g_stack.size()) diverged("nondeterminism: execution ended before consuming its prefix");
    if (g_slot) {
        ++g_slot->execs;
        g_slot->transitions += g_transitions - t0;
        if (g_pruned) ++g_slot->pruned;
        if (discarded) ++g_slot->discarded;
        if (g_stack.size() > g_slot->maxlen) g_slot->maxlen = g_stack.size();
    }
    return !discarded;
}

void quiet_stdio()
{
    if (getenv("MC_STDERR")) return;
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

bool pop_job(Job& j)
{
    bool ok = false;
    lockS();
    if (S->qcount > 0) {
        int i = (S->qhead + S->qcount - 1) % QCAP;
        j.len = S->queue[i].len;
        std::memcpy(j.ch, S->queue[i].ch, sizeof(Choice) * j.len);
        --S->qcount;
        ok = true;
    }
    unlockS();
    return ok;
}

bool push_job(const std::vector<Choice>& prefix, std::size_t len, Choice last)
{
    bool ok = false;
    lockS();
    if (S->qcount < QCAP) {
        int i = (S->qhead + S->qcount) % QCAP;
        Job& j = S->queue[i];
        j.len = (int)len + 1;
        for (std::size_t k = 0; k < len; ++k) j.ch[k] = prefix[k];
        j.ch[len] = last;
        ++S->qcount;
        ok = true;
    }
    unlockS();
    return ok;
}

void save_sample()
{
    lockS();
    if (S->nsamples < NSAMPLES) {
        Job& j = S->samples[S->nsamples++];
        j.len = (int)g_stack.size();
        for (std::size_t i = 0; i < g_stack.size(); ++i) j.ch[i] = g_stack[i];
    }
    unlockS();
}

void dfs(const Job& job)
{
    g_stack.assign(job.ch, job.ch + job.len);
    g_limit.clear();
    for (auto& c : g_stack) g_limit.push_back(c.c + 1); // prefix is fixed
    const std::size_t base = job.len;
    for (;;) {
        run_execution();
        auto n = g_slot->execs;
        if (n == 3 || n == 40 || n == 500) save_sample();
        if (S->stop) return;
        // donate work
        if (S->idle > 0 && S->qcount < S->nworkers * 2) {
            for (std::size_t d = base; d < g_stack.size(); ++d) {
                if (g_stack[d].c + 1 < g_limit[d]) {
                    bool all = true;
                    for (int a = g_limit[d] - 1; a > g_stack[d].c; --a) {
                        if (!push_job(g_stack, d, Choice{(std::uint16_t)a, g_stack[d].n})) { all = false; break; }
                        g_limit[d] = (std::uint16_t)a;
                    }
                    (void)all;
                    break;
                }
            }
        }
        // backtrack
        while (g_stack.size() > base && g_stack.back().c + 1 >= g_limit.back()) {
            g_stack.pop_back();
            g_limit.pop_back();
        }
        if (g_stack.size() <= base) return;
        ++g_stack.back().c;
    }
}

void make_scratch(const std::string& tag)
{
    // a memory file system is much faster, if there is one
    const char* t = getenv("TMPDIR");
    for (std::string base : {std::string("/dev/shm"), std::string(t && *t ? t : "/tmp"), std::string("/tmp")}) {
        std::string tmpl = base + "/mc_" + tag + "_XXXXXX";
        std::vector<char> b(tmpl.begin(), tmpl.end());
        b.push_back(0);
        if (mkdtemp(b.data())) {
            g_scratch = b.data();
            return;
        }
    }
    std::perror("mkdtemp");
    _exit(99);
}

[[noreturn]] void worker_main(int id, int ncpu)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    cpu_set_t cs;
    CPU_ZERO(&cs);
    // pin, so that hand-offs between the serialised threads stay on one core
    cpu_set_t allowed;
    if (sched_getaffinity(0, sizeof allowed, &allowed) == 0) {
        int k = 0, want = id % std::max(1, ncpu);
        for (int c = 0; c < CPU_SETSIZE; ++c)
            if (CPU_ISSET(c, &allowed) && k++ == want) { CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); break; }
    }
    quiet_stdio();
    std::set_terminate(on_terminate);
    g_slot = &S->slots[id];
    g_scratch += "/w" + std::to_string(id);
    mkdir(g_scratch.c_str(), 0700);
    Job* job = new Job;
    while (!S->stop) {
        g_slot->status = BUSY;
        if (pop_job(*job)) {
            dfs(*job);
            continue;
        }
        g_slot->status = IDLE;
        __atomic_fetch_add(&S->idle, 1, __ATOMIC_SEQ_CST);
        bool got = false;
        for (;;) {
            if (S->stop) break;
            if (S->qcount > 0) { got = true; break; }
            if (S->idle >= S->nworkers) {
                // all idle and the queue is empty: done (queue can only be filled by busy workers)
                lockS();
                bool empty = S->qcount == 0;
                unlockS();
                if (empty && S->idle >= S->nworkers) break;
            }
            sched_real_sleep(200);
        }
        if (!got) break;
        __atomic_fetch_sub(&S->idle, 1, __ATOMIC_SEQ_CST);
    }
    g_slot->status = IDLE;
    _exit(0);
}

struct Replay
{
    bool failed = false;
    bool hang = false;
    bool diverged = false;
    std::string msg;
    std::string trace;
    std::vector<Choice> choices;
};

std::string slurp(int fd)
{
    std::string r;
    char buf[65536];
    lseek(fd, 0, SEEK_SET);
    for (;;) {
        ssize_t k = read(fd, buf, sizeof buf);
        if (k <= 0) break;
        r.append(buf, k);
        if (r.size() > 4000000) break;
    }
    return r;
}

std::vector<int> pids;

Replay replay(const Scenario& sc, int bound, const std::vector<Choice>& ch, double limit_s, bool verbose)
{
    Replay r;
    char tn[] = "/tmp/mc_trace_XXXXXX";
    int tfd = mkstemp(tn);
    unlink(tn);
    char en[] = "/tmp/mc_err_XXXXXX";
    int efd = mkstemp(en);
    unlink(en);
    static int slotNo = MAX_WORKERS - 1;
    Slot* slot = &S->slots[slotNo];
    std::memset((void*)slot, 0, sizeof(Slot));
    int pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(efd, 2);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        std::set_terminate(on_terminate);
        g_replaying = true;
        g_tracing = true;
        g_traceOut = fdopen(dup(tfd), "w");
        setvbuf(g_traceOut, nullptr, _IOLBF, 0);
        g_slot = slot;
        g_sc = &sc;
        g_bound = bound;
        g_scratch += "/replay";
        mkdir(g_scratch.c_str(), 0700);
        g_stack = ch;
        g_limit.clear();
        for (auto& c : g_stack) g_limit.push_back(c.c + 1);
        run_execution();
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    for (;;) {
        int k = waitpid(pid, &st, WNOHANG);
        if (k == pid) break;
        if (now() - t0 > limit_s) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.hang = true;
            break;
        }
        sched_real_sleep(500);
    }
    r.trace = slurp(tfd);
    std::string err = slurp(efd);
    close(tfd);
    close(efd);
    r.choices = ch;
    if (r.hang) {
        r.failed = true;
        r.msg = "execution does not finish (hang)";
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        r.failed = false;
    } else if (slot->status == FAILED) {
        r.failed = true;
        r.msg = slot->msg;
    } else if (slot->status == DIVERGED) {
        r.diverged = true;
        r.msg = slot->msg;
    } else {
        r.failed = true;
        r.msg = "process died";
        if (WIFSIGNALED(st)) r.msg += std::string(" from signal ") + strsignal(WTERMSIG(st));
        if (WIFEXITED(st)) r.msg += " with exit status " + std::to_string(WEXITSTATUS(st));
        auto nl = err.find("ERROR: AddressSanitizer");
        if (nl == std::string::npos) nl = err.find("runtime error:");
        if (nl == std::string::npos) nl = err.find("Assertion");
        if (nl != std::string::npos) {
            auto b = err.rfind('\n', nl);
            b = b == std::string::npos ? 0 : b + 1;
            r.msg += ": " + err.substr(b, err.find('\n', nl) - b);
        }
    }
    if (verbose || r.failed) r.trace += "\n--- stderr ---\n" + err.substr(0, 8000);
    return r;
}

struct Stats
{
    std::uint64_t execs = 0, transitions = 0, nodes = 0, pruned = 0, discarded = 0, maxlen = 0, states = 0, outcomes = 0;
    int completedBound = -1, requestedBound = 0;
    bool exhaustive = false;
    double wall = 0;
};

std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// returns 0 ok, 1 violation, 2 error
int explore(const Scenario& sc, int bound, int pass, int ncpu, double deadline, Stats& st, Replay& viol, std::vector<std::vector<Choice>>& samples, bool sequential = false)
{
    const int nw = sequential ? 1 : sc.workers ? sc.workers : ncpu;
    S->stop = 0;
    S->timedOut = 0;
    S->lock = 0;
    S->qhead = 0;
    S->qcount = 1;
    S->queue[0].len = 0;
    S->idle = 0;
    S->nworkers = nw;
    S->states = 0;
    S->nsamples = 0;
    for (int i = 0; i < nw; ++i) std::memset((void*)&S->slots[i], 0, sizeof(Slot));
    g_pass = pass;
    g_sc = &sc;
    g_bound = bound;
    pids.clear();
    for (int i = 0; i < nw; ++i) {
        int p = fork();
        if (p == 0) worker_main(i, ncpu);
        pids.push_back(p);
    }
    std::vector<std::uint64_t> hb(nw, 0);
    std::vector<double> hbT(nw, now());
    std::vector<bool> alive(nw, true);
    int nalive = nw;
    std::vector<Choice> bad;
    bool haveBad = false;
    bool hang = false;
    std::string divergeMsg, badMsg;
    while (nalive > 0) {
        for (int i = 0; i < nw; ++i) {
            if (!alive[i]) continue;
            int stt;
            int k = waitpid(pids[i], &stt, WNOHANG);
            Slot& sl = S->slots[i];
            if (k == pids[i]) {
                alive[i] = false;
                --nalive;
                if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
                    S->stop = 1;
                    if (sl.status == DIVERGED) divergeMsg = sl.msg;
                    else if (!haveBad || (int)bad.size() > sl.len) {
                        haveBad = true;
                        badMsg = std::string(sl.status == FAILED ? sl.msg : "died") + " (wait status " + std::to_string(stt) + ")";
                        bad.assign(sl.ch, sl.ch + sl.len);
                    }
                }
                continue;
            }
            if (sl.heartbeat != hb[i] || sl.status == IDLE) {
                hb[i] = sl.heartbeat;
                hbT[i] = now();
            } else if (now() - hbT[i] > 120) {
                // stuck execution
                S->stop = 1;
                haveBad = true;
                hang = true;
                bad.assign(sl.ch, sl.ch + sl.len);
                kill(pids[i], SIGKILL);
            }
        }
        if (now() > deadline && !S->stop) {
            S->timedOut = 1;
            S->stop = 1;
        }
        if (nalive) sched_real_sleep(1000);
    }
    for (int i = 0; i < nw; ++i) {
        Slot& sl = S->slots[i];
        st.execs += sl.execs;
        st.transitions += sl.transitions;
        st.nodes += sl.nodes;
        st.pruned += sl.pruned;
        st.discarded += sl.discarded;
        st.maxlen = std::max(st.maxlen, sl.maxlen);
    }
    st.states += S->states;
    for (int i = 0; i < S->nsamples; ++i)
        samples.emplace_back(S->samples[i].ch, S->samples[i].ch + S->samples[i].len);
    if (sequential) {
        viol = Replay();
        viol.failed = haveBad;
        viol.hang = hang;
        viol.diverged = !divergeMsg.empty();
        viol.msg = hang ? "execution does not finish (hang)" : haveBad ? badMsg : divergeMsg;
        viol.choices = bad;
        return haveBad ? 1 : viol.diverged ? 2 : 0;
    }
    if (haveBad) {
        // A failure counts if it happens again when its execution is repeated. What depends on, say, uninitialised memory
        // or on random numbers may need some attempts.
        auto r1 = replay(sc, bound, bad, hang ? 150 : 120, true);
        int fails = r1.failed;
        const int attempts = hang ? 2 : 6;
        for (int i = 1; i < attempts && (fails != i || fails < 2); ++i) {
            auto r = replay(sc, bound, bad, 120, true);
            if (r.failed && !fails) r1 = r;
            fails += r.failed;
        }
        if (fails) {
            viol = r1;
            return 1;
        }
        std::fprintf(stderr, "scenario %s: a failure did not reproduce on replay (original: %s; replay: %s)\n", sc.name.c_str(), badMsg.c_str(), r1.msg.c_str());
        return 2;
    }
    if (!divergeMsg.empty()) {
        std::fprintf(stderr, "scenario %s: %s\n", sc.name.c_str(), divergeMsg.c_str());
        return 2;
    }
    return 0;
}

/// A failure which does not happen when its execution is repeated on its own may depend on what earlier executions in the
/// same process have left behind in the code under test. Then it is the sequence of executions which fails; repeated from
/// the start, in one process and always in the same order, it must do so again.
bool fails_as_a_sequence(const Scenario& sc, int bound, int& pass, double limit_s, Replay& viol, std::uint64_t& execs)
{
    std::uint64_t n[2] = {};
    for (int i = 0; i < 2; ++i) {
        Stats st;
        std::vector<std::vector<Choice>> smp;
        Replay r;
        if (explore(sc, bound, ++pass, 1, now() + limit_s, st, r, smp, true) != 1) return false;
        n[i] = st.execs;
        viol = r;
    }
    execs = n[1];
    viol.msg += " (after " + std::to_string(execs) + " other executions in the same process)";
    return true;
}
} // namespace

int main(int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string evidence, replayFile, replayDir = "replays/", only;
    const char* tier = getenv("VERIF_TIER");
    g_thorough = tier && std::string(tier) == "thorough";
    if (const char* s = getenv("VERIF_SEED")) g_seed = std::strtoull(s, nullptr, 10);
    bool list = false;
    double totalBudget = 0;
    std::string knownFile;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") g_thorough = next() == "thorough";
        else if (a == "--evidence") evidence = next();
        else if (a == "--replay") replayFile = next();
        else if (a == "--replay-dir") replayDir = next();
        else if (a == "--only") only = next();
        else if (a == "--list") list = true;
        else if (a == "--known") knownFile = next();
        else if (a == "--budget") totalBudget = std::atof(next().c_str());
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (totalBudget == 0) totalBudget = g_thorough ? 780 : 300;
    Suite suite;
    mc_register(suite);
    g_property = suite.property;
    if (list) {
        for (auto& s : suite.scenarios) std::printf("%s bound=%d\n", s.name.c_str(), s.bound);
        return 0;
    }
    if (!knownFile.empty()) {
        std::ifstream f(knownFile);
        std::string line;
        const std::string pre = "known: property=" + suite.property + " key=";
        while (std::getline(f, line)) {
            if (line.rfind(pre, 0) == 0) {
                auto rest = line.substr(pre.size());
                auto sp = rest.find(' ');
                g_known.emplace_back(rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1));
            }
        }
    }
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::uint64_t tsize = 1ull << (g_thorough ? 27 : 25);
    T_mask = tsize - 1;
    T = (Entry*)mmap(nullptr, tsize * sizeof(Entry), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || T == MAP_FAILED) { std::perror("mmap"); return 2; }
    make_scratch(suite.property);
    cpu_set_t allowed;
    int ncpu = 1;
    if (sched_getaffinity(0, sizeof allowed, &allowed) == 0) ncpu = std::max(1, CPU_COUNT(&allowed));
    ncpu = std::min(ncpu, MAX_WORKERS - 2);
    if (const char* j = getenv("MC_JOBS")) ncpu = std::atoi(j);
    int rc = 0;

    if (!replayFile.empty()) {
        std::ifstream f(replayFile);
        std::string line, scn;
        int bound = 0;
        bool sequence = false;
        std::vector<Choice> ch;
        while (std::getline(f, line)) {
            if (line.rfind("message ", 0) != 0 && line.rfind("sequence", 0) == 0) sequence = true;
            if (line.rfind("scenario ", 0) == 0) scn = line.substr(9);
            if (line.rfind("bound ", 0) == 0) bound = std::atoi(line.c_str() + 6);
            if (line.rfind("tier ", 0) == 0) {
                bool th = line.substr(5) == "thorough";
                if (th != g_thorough) {
                    g_thorough = th;
                    suite = Suite();
                    mc_register(suite);
                }
            }
            if (line.rfind("choices ", 0) == 0) {
                std::istringstream is(line.substr(8));
                std::string tok;
                while (is >> tok) {
                    int c, n;
                    if (std::sscanf(tok.c_str(), "%d/%d", &c, &n) == 2) ch.push_back({(std::uint16_t)c, (std::uint16_t)n});
                }
            }
        }
        for (auto& s : suite.scenarios)
            if (s.name == scn && sequence) {
                Stats st;
                std::vector<std::vector<Choice>> smp;
                Replay r;
                explore(s, bound, 1, 1, now() + 600, st, r, smp, true);
                std::printf("%s%s\n", r.failed ? "REPRODUCED: " : "no violation", r.msg.c_str());
                rc = r.failed ? 1 : 0;
            } else if (s.name == scn) {
                auto r = replay(s, bound, ch, 300, true);
                std::printf("%s\n%s%s\n", r.trace.c_str(), r.failed ? "REPRODUCED: " : r.diverged ? "DIVERGED: " : "no violation", r.msg.c_str());
                rc = r.failed ? 1 : r.diverged ? 2 : 0;
            }
        mc::rm_tree(g_scratch, true);
        return rc;
    }

    double t0 = now();
    std::uint64_t execs = 0, trans = 0, states = 0, nodes = 0, disc = 0;
    bool allExhaustive = true, errors = false;
    std::string scenJson, samplesJson;
    int nsamp = 0, violations = 0, pass = 0;
    int remainingScenarios = (int)suite.scenarios.size();
    for (auto& sc : suite.scenarios) {
        if (!only.empty() && sc.name.find(only) == std::string::npos) { --remainingScenarios; continue; }
        double ts = now();
        // what earlier scenarios left over is shared out, but no scenario may take more than a good part of the rest
        const double rest = std::max(0.0, t0 + totalBudget - ts);
        double deadline = ts + std::min(sc.budget_s, std::max(rest / std::max(1, remainingScenarios), 0.4 * rest));
        --remainingScenarios;
        Stats st;
        std::vector<std::vector<Choice>> samples;
        int sampleBound = 0;
        std::memset((void*)S->outcomeTable, 0, sizeof S->outcomeTable);
        S->outcomes = 0;
        st.requestedBound = sc.bound;
        int r = 0;
        Replay viol;
        bool sequence = false;
        int b;
        std::uint64_t lastStates = 0;
        for (b = 0; b <= sc.bound; ++b) {
            Stats ps;
            std::vector<std::vector<Choice>> smp;
            r = explore(sc, b, ++pass, ncpu, deadline, ps, viol, smp);
            std::uint64_t n = 0;
            if (r == 2 && (sequence = fails_as_a_sequence(sc, b, pass, std::min(100.0, 10 + 10 * (now() - ts)), viol, n))) {
                r = 1;
                ps.execs += n;
            }
            st.execs += ps.execs;
            st.transitions += ps.transitions;
            st.nodes = std::max(st.nodes, ps.nodes);
            st.pruned += ps.pruned;
            st.discarded += ps.discarded;
            st.maxlen = std::max(st.maxlen, ps.maxlen);
            if (!smp.empty()) {
                samples = smp;
                sampleBound = b;
            }
            lastStates = std::max<std::uint64_t>(lastStates, ps.states);
            if (r) break;
            if (S->timedOut) break;
            st.completedBound = b;
            if (S->tableFull) { std::memset((void*)T, 0, 0); }
        }
        st.states = lastStates ? lastStates : st.nodes + 1;
        st.exhaustive = st.completedBound == sc.bound;
        st.outcomes = S->outcomes;
        st.wall = now() - ts;
        execs += st.execs;
        trans += st.transitions;
        states += st.states;
        nodes += st.nodes;
        disc += st.discarded;
        allExhaustive = allExhaustive && st.exhaustive;
        std::printf("%s/%s: executions=%llu states=%llu transitions=%llu choice_nodes=%llu outcomes=%llu pruned=%llu discarded=%llu maxdepth=%llu bound=%d/%d %s %.1fs\n",
            suite.property.c_str(), sc.name.c_str(), (unsigned long long)st.execs, (unsigned long long)st.states,
            (unsigned long long)st.transitions, (unsigned long long)st.nodes, (unsigned long long)st.outcomes,
            (unsigned long long)st.pruned, (unsigned long long)st.discarded, (unsigned long long)st.maxlen, st.completedBound, sc.bound,
            r ? "FAILED" : st.exhaustive ? "complete" : "budget reached", st.wall);
        {
            std::ostringstream o;
            o << (scenJson.empty() ? "" : ",") << "{\"name\":\"" << jesc(sc.name) << "\",\"executions\":" << st.execs
              << ",\"states\":" << st.states << ",\"transitions\":" << st.transitions << ",\"choice_points\":" << st.nodes
              << ",\"distinct_outcomes\":" << st.outcomes << ",\"cache_pruned\":" << st.pruned << ",\"discarded\":" << st.discarded
              << ",\"longest_choice_vector\":" << st.maxlen << ",\"controlled_scheduler\":" << (sc.sched ? "true" : "false")
              << ",\"completed_bound\":" << st.completedBound << ",\"requested_bound\":" << sc.bound << ",\"complete\":" << (st.exhaustive ? "true" : "false")
              << ",\"wall_s\":" << st.wall << "}";
            scenJson += o.str();
        }
        if (r == 0 && !st.exhaustive && st.completedBound < 0 && st.execs == 0) {
            std::fprintf(stderr, "scenario %s explored nothing\n", sc.name.c_str());
            r = 2;
        }
        if (r == 1) {
            ++violations;
            std::string path = replayDir + suite.property + "_" + sc.name + ".txt";
            if (auto sl = replayDir.rfind('/'); sl != std::string::npos) mkdir(replayDir.substr(0, sl).c_str(), 0755);
            std::ofstream f(path);
            f << "property " << suite.property << "\nscenario " << sc.name << "\ntier " << (g_thorough ? "thorough" : "quick")
              << (sequence ? "\nsequence" : "")
              << "\nbound " << b << "\nmessage " << viol.msg << "\nchoices";
            for (auto& c : viol.choices) f << ' ' << c.c << '/' << c.n;
            f << "\n\ntrace:\n" << viol.trace << "\n";
            f.close();
            std::printf("  %s\n", viol.msg.c_str());
            std::printf("VIOLATION property=%s replay=%s\n", suite.property.c_str(), path.c_str());
            rc = 1;
            break;
        }
        if (r == 2) { errors = true; continue; }
        // samples: replay with tracing; also re-validates that replays are deterministic
        if (nsamp < 8) {
            int k = 0;
            for (auto& s : samples) {
                if (k++ >= 2) break;
                auto rr = replay(sc, sampleBound, s, 120, false);
                if (rr.diverged || rr.failed) {
                    std::fprintf(stderr, "scenario %s: sample replay differs: %s\n", sc.name.c_str(), rr.msg.c_str());
                    errors = true;
                    break;
                }
                auto t = rr.trace.substr(0, 1500);
                samplesJson += std::string(samplesJson.empty() ? "" : ",") + "{\"scenario\":\"" + jesc(sc.name) + "\",\"choices\":" + std::to_string(s.size()) + ",\"trace\":\"" + jesc(t) + "\"}";
                ++nsamp;
            }
        }
    }
    if (errors && !rc) rc = 2;
    for (std::size_t i = 0; i < g_known.size() && i < MAX_KNOWN; ++i) {
        if (S->knownSeen[i]) std::printf("KNOWN-FINDING: property=%s %s: %s\n", suite.property.c_str(), g_known[i].first.c_str(), g_known[i].second.c_str());
    }
    double wall = now() - t0;
    if (!evidence.empty() && rc != 2) {
        std::ofstream f(evidence);
        f << "{\"property\":\"" << suite.property << "\",\"tier\":\"" << (g_thorough ? "thorough" : "quick") << "\",\"seed\":" << g_seed
          << ",\"level\":\"" << suite.level << "\",\"coverage\":{";
        if (samplesJson.empty()) samplesJson = "{\"note\":\"no sample\"}";
        f << "\"states\":" << states << ",\"transitions\":" << trans << ",\"traces_validated_against_impl\":" << execs
          << ",\"evaluations\":" << execs << ",\"distinct_nontrivial\":" << (nodes + suite.scenarios.size() > execs ? execs - disc : execs - disc)
          << ",\"rule\":\"" << jesc(suite.rule.empty() ? "every path of the choice tree is a distinct execution of the real code; discarded paths are not counted as non-trivial" : suite.rule) << "\""
          << ",\"exhaustive\":" << (allExhaustive ? "true" : "false") << ",\"scenarios\":[" << scenJson << "],\"samples\":[" << samplesJson << "]}"
          << ",\"assumptions\":[";
        for (std::size_t i = 0; i < suite.assumptions.size(); ++i) f << (i ? "," : "") << "\"" << jesc(suite.assumptions[i]) << "\"";
        f << "],\"wall_s\":" << wall << ",\"violations\":" << violations << "}\n";
    }
    mc::rm_tree(g_scratch, true);
    std::printf("%s: %s, %llu executions, %llu states, %llu transitions, %.1fs\n", suite.property.c_str(), rc == 0 ? "held on everything explored" : rc == 1 ? "VIOLATED" : "ERROR",
        (unsigned long long)execs, (unsigned long long)states, (unsigned long long)trans, wall);
    return rc;
}
