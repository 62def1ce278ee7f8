// Controlled scheduler and ThreadSanitizer-ABI runtime.
//
// The code under test is compiled with `clang++ -fsanitize=thread` but linked against this file instead of
// libtsan.  Real threads are serialised: exactly one (the token holder) runs at a time; every
// synchronisation operation is a scheduling point at which the explorer picks the next thread.
#include "mc_internal.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start;
extern char etext;
}

namespace mc::detail
{
namespace
{
constexpr int MAXT = 24;

long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
void raw_futex_wait(int* a, int v) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
void raw_futex_wake(int* a) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

template<typename F>
F real(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = nullptr; \
    if (!real_##name) real_##name = real<ret (*)(__VA_ARGS__)>(#name)

enum Kind
{
    K_START, K_STEP, K_LOCK, K_RDLOCK, K_WRLOCK, K_COND, K_JOIN, K_SLEEP, K_FUTEX, K_GUARD, K_FLOCK, K_SEM, K_YIELD, K_DONE
};
const char* kindName[] = {"start", "step", "lock", "rdlock", "wrlock", "cond-wake", "join", "sleep", "futex", "guard", "flock", "sem", "yield", "done"};

struct VC
{
    std::uint32_t c[MAXT] = {};
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Thread
{
    int id = 0;
    pthread_t pt{};
    int go = 0;
    Kind kind = K_START;
    void* obj = nullptr;
    void* obj2 = nullptr;      // mutex of a condvar wait
    const char* what = "";
    bool signalled = false;
    bool timedOut = false;     // chosen as a timeout
    std::int64_t deadline = -1; // virtual ns, -1 none
    int flockType = 0;
    dev_t dev = 0;
    ino_t ino = 0;
    bool finished = false;
    bool joined = false;
    int guardDepth = 0;
    int proc = 0;
    VC vc;
    std::uint64_t hash = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    bool terminating = false;
};

struct Mutex { int owner = -1; int count = 0; };
struct RW { int writer = -1; int readers = 0; std::unordered_map<int, int> r; };
struct Sync
{
    std::uint64_t hw = 0, hr = 0; // happens-before hashes of the last write / reads since
    VC vc;                        // release clock
};
struct FLock { dev_t dev; ino_t ino; int proc; int type; };

struct Acc { std::uint32_t clk; std::uint8_t tid, mask, write; };
struct Cell
{
    std::uint64_t key;
    std::uint32_t gen;
    std::uint8_t n;
    Acc a[8];
};
constexpr std::size_t NCELLS = 1 << 19;

struct StackRange { char *lo, *hi; std::uint32_t gen; int id; };

struct Sched
{
    std::vector<Thread*> threads;
    std::unordered_map<void*, Mutex> mutexes;
    std::unordered_map<void*, RW> rws;
    std::unordered_map<void*, std::vector<int>> conds; // waiters in arrival order
    std::unordered_map<void*, Sync> syncs;
    std::unordered_map<void*, int> guards;             // in progress by
    std::unordered_map<void*, int> sems;
    std::vector<FLock> flocks;
    std::vector<std::pair<dev_t, ino_t>> lockFiles; // all files which have ever been locked
    std::unordered_map<void*, int> names;
    std::int64_t clock = 1000000000000ll;              // virtual monotonic/real time, ns
    int used = 0;                                      // deviations used
    bool quiet = false;                                // no scheduler branching
    long points = 0, winA = 0, winB = -1;              // explicit points passed; window of points that is explored
    int steps = 0;
};

Sched* G = nullptr;
bool g_active = false;
thread_local Thread* t_cur __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int t_rt __attribute__((tls_model("initial-exec"))) = 0;
Cell* g_cells = nullptr;
std::uint32_t g_gen = 0;
std::vector<StackRange>* g_stacks = nullptr;
bool g_fatal = false;

struct InRT
{
    InRT() { ++t_rt; }
    ~InRT() { --t_rt; }
};

inline bool on() { return g_active && t_cur && !t_rt && !t_cur->terminating; }

std::string name_of(void* p)
{
    auto it = G->names.find(p);
    if (it == G->names.end()) it = G->names.emplace(p, (int)G->names.size()).first;
    return "o" + std::to_string(it->second);
}

void trace(const char* ev, void* obj)
{
    if (!mc::tracing()) return;
    mc::note("T" + std::to_string(t_cur->id) + " " + ev + (obj ? " " + name_of(obj) : ""));
}

bool flock_conflict(const Thread& t)
{
    for (auto& l : G->flocks)
        if (l.dev == t.dev && l.ino == t.ino && l.proc != t.proc && (l.type == F_WRLCK || t.flockType == F_WRLCK)) return true;
    return false;
}

bool mutex_free(void* m, int tid)
{
    auto it = G->mutexes.find(m);
    if (it == G->mutexes.end() || it->second.owner < 0) return true;
    if (it->second.owner == tid) return (((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    return false;
}

bool enabled(Thread& t)
{
    if (t.finished) return false;
    switch (t.kind) {
        case K_START:
        case K_YIELD:
        case K_STEP: return true;
        case K_LOCK:
            return mutex_free(t.obj, t.id) || (t.deadline >= 0 && G->clock >= t.deadline);
        case K_RDLOCK: {
            auto it = G->rws.find(t.obj);
            return it == G->rws.end() || it->second.writer < 0;
        }
        case K_WRLOCK: {
            auto it = G->rws.find(t.obj);
            return it == G->rws.end() || (it->second.writer < 0 && it->second.readers == 0);
        }
        case K_COND:
            return (t.signalled || (t.deadline >= 0 && G->clock >= t.deadline)) && mutex_free(t.obj2, t.id);
        case K_JOIN: return G->threads[(std::size_t)(long)t.obj]->finished;
        case K_SLEEP: return G->clock >= t.deadline;
        case K_FUTEX: return t.signalled || (t.deadline >= 0 && G->clock >= t.deadline);
        case K_GUARD: {
            auto it = G->guards.find(t.obj);
            return it == G->guards.end() || it->second < 0;
        }
        case K_FLOCK: return !flock_conflict(t);
        case K_SEM: return G->sems[t.obj] > 0;
        case K_DONE: return false;
    }
    return false;
}

std::string describe()
{
    std::string s;
    for (auto t : G->threads) {
        s += " T" + std::to_string(t->id) + ":";
        if (t->finished) s += "finished";
        else {
            s += kindName[t->kind];
            if (t->obj && t->kind != K_JOIN) s += "(" + name_of(t->obj) + ")";
        }
    }
    return s;
}

[[noreturn]] void violation(const std::string& m)
{
    ++t_rt;
    g_fatal = true;
    end_execution_fail(m);
}

void grant(Thread* t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw_futex_wake(&t->go);
}
void await(Thread* t)
{
    for (int i = 0; __atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0; ++i) raw_futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}

struct Cand { Thread* t; int flavour; int cost; }; // flavour 0 normal, 1 spurious, 2 early time

std::uint64_t state_key(Thread* cur, bool curEnabled)
{
    std::uint64_t h = mix(0x77, (std::uint64_t)G->clock);
    for (auto t : G->threads) {
        h = mix(h, t->hash);
        h = mix(h, (std::uint64_t)t->kind * 4 + (t->finished ? 1 : 0) + (t->signalled ? 2 : 0));
    }
    return mix(h, (curEnabled ? cur->id + 1 : 0) * 2 + (G->quiet ? 1 : 0) + (G->winB >= 0 ? G->points * 4096 : 0));
}

// Called by the token holder; its pending operation is already set. Returns when this thread may perform it.
void schedule()
{
    Thread* cur = t_cur;
    const Scenario& sc = scenario();
    if (cur->guardDepth > 0 && !cur->finished && enabled(*cur)) return;
    if (++G->steps > sc.max_steps) violation("horizon reached: more than " + std::to_string(sc.max_steps) + " steps in one execution (livelock?)");
    ++g_transitions;
    std::vector<Cand> c;
    bool curEnabled = false;
    for (;;) {
        c.clear();
        curEnabled = enabled(*cur);
        if (cur->kind == K_YIELD && curEnabled) {
            // a yielding thread gives way to the next one in cyclic order, so that busy-waiting is fair
            for (auto t : G->threads)
                if (t != cur && enabled(*t)) c.push_back({t, 0, 1});
            std::stable_sort(c.begin(), c.end(), [cur](const Cand& a, const Cand& b) { return (a.t->id < cur->id) < (b.t->id < cur->id); });
            if (!c.empty()) c[0].cost = 0;
            else c.push_back({cur, 0, 0});
            break;
        }
        if (curEnabled) c.push_back({cur, 0, 0});
        for (auto t : G->threads)
            if (t != cur && enabled(*t)) c.push_back({t, 0, curEnabled ? 1 : 0});
        if (!c.empty()) break;
        std::int64_t dl = -1;
        for (auto t : G->threads)
            if (!t->finished && t->deadline >= 0 && (t->kind == K_SLEEP || t->kind == K_COND || t->kind == K_FUTEX || t->kind == K_LOCK))
                if (dl < 0 || t->deadline < dl) dl = t->deadline;
        if (dl > G->clock) {
            G->clock = dl;
            if (mc::tracing()) mc::note("clock -> " + std::to_string(dl));
            continue;
        }
        bool all = true;
        for (auto t : G->threads) all = all && t->finished;
        if (all) return;
        violation("deadlock:" + describe());
    }
    const int left = current_bound() - G->used;
    if (left > 0 && !G->quiet) {
        for (auto t : G->threads) {
            if (t->finished) continue;
            if (sc.spurious && t->kind == K_COND && !t->signalled && mutex_free(t->obj2, t->id)) c.push_back({t, 1, 1});
            if (sc.time_jumps && t->deadline > G->clock && (t->kind == K_SLEEP || t->kind == K_FUTEX || (t->kind == K_COND && mutex_free(t->obj2, t->id)))) c.push_back({t, 2, 1});
        }
    }
    c.erase(std::remove_if(c.begin(), c.end(), [&](const Cand& x) { return x.cost > left; }), c.end());
    int i = 0;
    if (c.size() > 1 && !G->quiet) {
        if (!in_replay_prefix() && branching() && sc.caching) {
            if (cache_seen(state_key(cur, curEnabled), left)) no_more_branching();
        }
        i = choose_raw((int)c.size(), "sched");
    }
    G->used += c[i].cost;
    Thread* next = c[i].t;
    if (c[i].flavour == 1) {
        next->signalled = true;
        next->hash = mix(next->hash, 0x59);
        if (mc::tracing()) mc::note("spurious wake-up of T" + std::to_string(next->id));
    } else if (c[i].flavour == 2) {
        G->clock = next->deadline;
        if (mc::tracing()) mc::note("clock -> " + std::to_string(G->clock));
    }
    if (next != cur) {
        if (mc::tracing() && c[i].cost) mc::note("-- preempt T" + std::to_string(cur->id) + " -> T" + std::to_string(next->id));
        grant(next);
        if (cur->finished) return;
        await(cur);
    }
}

void perform(Kind k, void* obj, const char* what)
{
    Thread* t = t_cur;
    t->kind = k;
    t->obj = obj;
    t->what = what;
    schedule();
    if (mc::tracing()) trace(what, k == K_JOIN ? nullptr : obj);
    t->kind = K_STEP;
}

// --- happens-before bookkeeping ------------------------------------------------------------------------
Sync& sync_of(void* o) { return G->syncs[o]; }

void hb_rw(void* o, std::uint64_t tag, bool acq, bool rel)
{
    Thread* t = t_cur;
    auto& s = sync_of(o);
    t->hash = mix(mix(mix(t->hash, s.hw), s.hr), tag);
    s.hw = t->hash;
    s.hr = 0;
    if (acq) t->vc.join(s.vc);
    if (rel) {
        s.vc.join(t->vc);
        ++t->vc.c[t->id];
    }
}
void hb_read(void* o, std::uint64_t tag, bool acq)
{
    Thread* t = t_cur;
    auto& s = sync_of(o);
    t->hash = mix(mix(t->hash, s.hw), tag);
    s.hr += mix(t->hash, 0x11);
    if (acq) t->vc.join(s.vc);
}

// --- data race detection -------------------------------------------------------------------------------
std::uint64_t granule_key(std::uintptr_t a)
{
    std::uint64_t k = a >> 3;
    for (auto& r : *g_stacks)
        if ((char*)a >= r.lo && (char*)a < r.hi) return k | ((std::uint64_t)(r.gen & 0xffff) << 47);
    return k;
}

Cell* find_cell(std::uint64_t key, bool create)
{
    std::size_t i = (key * 0x9e3779b97f4a7c15ull) >> 45; // 19 bits
    for (int p = 0; p < 128; ++p, i = (i + 1) & (NCELLS - 1)) {
        Cell& c = g_cells[i];
        if (c.gen != g_gen) {
            if (!create) return nullptr;
            c.gen = g_gen;
            c.key = key;
            c.n = 0;
            return &c;
        }
        if (c.key == key) return &c;
    }
    return nullptr;
}

std::string g_raceWhere;
void report_race(std::uintptr_t addr, const Acc& old, bool write, void* pc)
{
    ++t_rt;
    Dl_info di{};
    std::string where;
    if (dladdr(pc, &di)) {
        if (di.dli_sname) where = di.dli_sname;
        char b[64];
        std::snprintf(b, 64, "+0x%lx", (unsigned long)((char*)pc - (char*)di.dli_fbase));
        where += b;
        if (mc::tracing() && di.dli_fname) {
            char cmd[600];
            std::snprintf(cmd, 600, "exe 0x%lx", (unsigned long)((char*)pc - (char*)di.dli_fbase) - 1);
            mc::note(std::string("race at ") + cmd);
        }
    }
    --t_rt;
    violation(std::string("data race: ") + (write ? "write" : "read") + " by T" + std::to_string(t_cur->id) + " conflicts with earlier " +
        (old.write ? "write" : "read") + " by T" + std::to_string(old.tid) + " not ordered by synchronisation");
    (void)addr;
}

void access1(std::uintptr_t a, unsigned mask, bool write, void* pc)
{
    Thread* t = t_cur;
    Cell* c = find_cell(granule_key(a), true);
    if (!c) return;
    int w = 0;
    for (int i = 0; i < c->n; ++i) {
        Acc e = c->a[i];
        if (e.mask & mask) {
            if (e.tid != t->id) {
                if ((e.write || write) && e.clk > t->vc.c[e.tid]) report_race(a, e, write, pc);
                if (write && e.clk <= t->vc.c[e.tid] && (e.mask & ~mask) == 0) continue; // superseded
            } else if ((e.mask & ~mask) == 0 && (write || !e.write)) {
                continue; // superseded by this access
            }
        }
        c->a[w++] = e;
    }
    if (w == 8) { // drop the oldest
        std::memmove(&c->a[0], &c->a[1], 7 * sizeof(Acc));
        w = 7;
    }
    c->a[w] = {t->vc.c[t->id], (std::uint8_t)t->id, (std::uint8_t)mask, (std::uint8_t)write};
    c->n = w + 1;
}

void access(void* p, std::size_t n, bool write, void* pc)
{
    if (!on() || !scenario().races || !n) return;
    InRT rt;
    std::uintptr_t a = (std::uintptr_t)p, e = a + n;
    while (a < e) {
        std::uintptr_t g = a & ~(std::uintptr_t)7;
        unsigned lo = a - g, hi = std::min<std::uintptr_t>(8, e - g);
        unsigned mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
        access1(g, mask & 0xff, write, pc);
        a = g + 8;
    }
}

void forget(void* p, std::size_t n)
{
    // caller: active, in runtime
    std::uintptr_t a = (std::uintptr_t)p & ~(std::uintptr_t)7, e = (std::uintptr_t)p + n;
    if (n > (1 << 20)) e = a + (1 << 20);
    for (; a < e; a += 8) {
        if (Cell* c = find_cell(a >> 3, false)) c->n = 0;
    }
    // synchronisation objects living in the block
    if (n <= 65536) {
        // the maps are small; walk whichever is cheaper
        auto in = [&](void* q) { return q >= p && q < (char*)p + n; };
        auto prune = [&](auto& m) {
            if (m.empty()) return;
            for (auto it = m.begin(); it != m.end();) it = in(it->first) ? m.erase(it) : std::next(it);
        };
        prune(G->mutexes);
        prune(G->rws);
        prune(G->conds);
        prune(G->syncs);
        prune(G->guards);
        prune(G->sems);
        prune(G->names);
    }
}

bool from_exe(void* pc) { return (char*)pc >= &__executable_start && (char*)pc < &etext; }

void on_alloc(void* p, std::size_t n)
{
    if (p && on()) {
        InRT rt;
        std::uintptr_t a = (std::uintptr_t)p & ~(std::uintptr_t)7, e = (std::uintptr_t)p + n;
        if (n > (1 << 20)) e = a + (1 << 20);
        for (; a < e; a += 8)
            if (Cell* c = find_cell(a >> 3, false)) c->n = 0;
    }
}
void on_free(void* p, void* pc, bool check)
{
    if (p && on()) {
        std::size_t n = malloc_usable_size(p);
        if (check && from_exe(pc)) access(p, std::min<std::size_t>(n, 4096), true, pc);
        InRT rt;
        forget(p, n);
    }
}

void sync_point(void* o, const char* what)
{
    perform(K_STEP, o, what);
}

void perform_yield()
{
    t_cur->hash = mix(t_cur->hash, 0x9A);
    perform(K_YIELD, nullptr, "yield");
}

bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void a_load(void* p, int mo)
{
    InRT rt;
    sync_point(p, "load");
    hb_read(p, 1, acq(mo));
}
void a_store(void* p, int mo)
{
    InRT rt;
    sync_point(p, "store");
    Thread* t = t_cur;
    auto& s = sync_of(p);
    t->hash = mix(mix(mix(t->hash, s.hw), s.hr), 2);
    s.hw = t->hash;
    s.hr = 0;
    if (rel(mo)) {
        s.vc = t->vc;
        ++t->vc.c[t->id];
    } else {
        s.vc = VC();
    }
}
void a_rmw(void* p, int mo)
{
    InRT rt;
    sync_point(p, "rmw");
    hb_rw(p, 3, acq(mo), rel(mo));
}

// --- modelled primitives -----------------------------------------------------------------------------
void lock_mutex(void* m, const char* what = "lock")
{
    perform(K_LOCK, m, what);
    auto& x = G->mutexes[m];
    x.owner = t_cur->id;
    ++x.count;
    hb_rw(m, 4, true, false);
}
int trylock_mutex(void* m)
{
    sync_point(m, "trylock");
    if (!mutex_free(m, t_cur->id)) {
        hb_rw(m, 5, false, false);
        return EBUSY;
    }
    auto& x = G->mutexes[m];
    x.owner = t_cur->id;
    ++x.count;
    hb_rw(m, 4, true, false);
    return 0;
}
void release_mutex(void* m)
{
    auto& x = G->mutexes[m];
    if (x.owner != t_cur->id) violation("unlock of a mutex not owned by the calling thread");
    if (--x.count == 0) x.owner = -1;
    hb_rw(m, 6, false, true);
}
void unlock_mutex(void* m)
{
    if (scenario().unlock_points) sync_point(m, "unlock");
    else if (mc::tracing()) trace("unlock", m);
    release_mutex(m);
}

int cond_wait(void* cv, void* m, std::int64_t deadline)
{
    Thread* t = t_cur;
    // going to sleep releases the mutex; a preemption right here is covered by preempting before the wake-up
    if (mc::tracing()) trace("cond-wait", cv);
    hb_rw(cv, 7, false, false);
    auto& x = G->mutexes[m];
    if (x.owner != t->id) violation("condition variable wait without owning the mutex");
    int cnt = x.count;
    x.owner = -1;
    x.count = 0;
    hb_rw(m, 6, false, true);
    G->conds[cv].push_back(t->id);
    t->signalled = false;
    t->obj2 = m;
    t->deadline = deadline;
    perform(K_COND, cv, "cond-wake");
    bool sig = t->signalled;
    auto& w = G->conds[cv];
    w.erase(std::remove(w.begin(), w.end(), t->id), w.end());
    t->signalled = false;
    t->deadline = -1;
    auto& y = G->mutexes[m];
    y.owner = t->id;
    y.count = cnt;
    hb_rw(cv, sig ? 8 : 9, false, false);
    hb_rw(m, 4, true, false);
    return sig ? 0 : ETIMEDOUT;
}
void cond_notify(void* cv, bool all)
{
    sync_point(cv, all ? "notify_all" : "notify_one");
    hb_rw(cv, 10, false, false);
    std::vector<Thread*> w;
    for (int id : G->conds[cv])
        if (!G->threads[id]->signalled) w.push_back(G->threads[id]);
    if (w.empty()) return;
    if (all) {
        for (auto t : w) t->signalled = true;
    } else {
        int i = G->quiet ? 0 : choose_raw((int)w.size(), "notify");
        w[i]->signalled = true;
        t_cur->hash = mc::mix(t_cur->hash, 0xD0 + i);
        sync_of(cv).hw = t_cur->hash;
    }
}

std::int64_t ts_ns(const timespec* ts) { return ts->tv_sec * 1000000000ll + ts->tv_nsec; }

void sleep_until(std::int64_t dl)
{
    Thread* t = t_cur;
    if (dl < G->clock) dl = G->clock;
    t->deadline = dl;
    perform(K_SLEEP, nullptr, "sleep");
    t->deadline = -1;
    t->hash = mix(t->hash, (std::uint64_t)G->clock);
}

// Operating system threads are pooled: logical thread k of every execution runs on pool thread k.
struct Pool
{
    pthread_t pt{};
    bool created = false;
    int job = 0;  // futex: 1 = run `t`
    int busy = 0; // futex: logical thread not completely finished yet
    Thread* t = nullptr;
};
Pool g_pool[MAXT];

void run_logical(Thread* t)
{
    t_cur = t;
    {
        InRT rt;
        await(t);
        if (mc::tracing()) trace("start", nullptr);
        t->kind = K_STEP;
        for (auto& r : *g_stacks)
            if (r.id == t->id) ++r.gen;
    }
    t->fn(t->arg);
    InRT rt;
    t->terminating = true;
    t->finished = true;
    t->kind = K_DONE;
    if (mc::tracing()) trace("exit", nullptr);
    ++t->vc.c[t->id];
    schedule();
    t_cur = nullptr;
}

void* pool_main(void* a)
{
    Pool* p = (Pool*)a;
    for (;;) {
        while (__atomic_load_n(&p->job, __ATOMIC_ACQUIRE) == 0) raw_futex_wait(&p->job, 0);
        __atomic_store_n(&p->job, 0, __ATOMIC_RELAXED);
        run_logical(p->t);
        __atomic_store_n(&p->busy, 0, __ATOMIC_RELEASE);
        raw_futex_wake(&p->busy);
    }
    return nullptr;
}

void pool_start(Thread* t)
{
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    Pool& p = g_pool[t->id];
    p.t = t;
    p.busy = 1;
    if (!p.created) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1024 * 1024);
        if (real_pthread_create(&p.pt, &at, pool_main, &p)) violation("cannot create a thread");
        pthread_attr_destroy(&at);
        p.created = true;
        pthread_attr_t a2;
        pthread_getattr_np(p.pt, &a2);
        void* sp;
        size_t sz;
        pthread_attr_getstack(&a2, &sp, &sz);
        pthread_attr_destroy(&a2);
        g_stacks->push_back({(char*)sp, (char*)sp + sz, (std::uint32_t)t->id * 997 + 1, t->id});
    }
    t->pt = p.pt;
    __atomic_store_n(&p.job, 1, __ATOMIC_RELEASE);
    raw_futex_wake(&p.job);
}
void pool_finish(int id)
{
    Pool& p = g_pool[id];
    while (__atomic_load_n(&p.busy, __ATOMIC_ACQUIRE) != 0) raw_futex_wait(&p.busy, 1);
}
} // namespace

bool sched_active() { return g_active; }

void sched_mix(std::uint64_t v)
{
    if (g_active && t_cur) t_cur->hash = mc::mix(t_cur->hash, v);
}

void sched_begin()
{
    InRT rt;
    if (!g_cells) {
        g_cells = (Cell*)__libc_calloc(NCELLS, sizeof(Cell));
        g_stacks = new std::vector<StackRange>();
    }
    ++g_gen;
    G = new Sched();
    auto t = new Thread();
    t->kind = K_STEP;
    t->pt = pthread_self();
    t->vc.c[0] = 1;
    t->hash = 0xABCDEF;
    G->threads.push_back(t);
    t_cur = t;
    g_active = true;
}

void sched_end()
{
    InRT rt;
    for (std::size_t i = 1; i < G->threads.size(); ++i) {
        if (!G->threads[i]->finished) perform(K_JOIN, (void*)(long)i, "join-at-end");
    }
    g_active = false;
    t_cur = nullptr;
    for (std::size_t i = 1; i < G->threads.size(); ++i) pool_finish((int)i);
    for (auto t : G->threads) delete t;
    delete G;
    G = nullptr;
}

void sched_real_sleep(long us)
{
    timespec ts{us / 1000000, (us % 1000000) * 1000};
    raw_syscall6(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
}
double sched_real_now()
{
    timespec ts;
    raw_syscall6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
} // namespace mc::detail

using namespace mc::detail;

namespace mc
{
void set_process(int p)
{
    if (t_cur) t_cur->proc = p;
}
int thread_id() { return t_cur ? t_cur->id : 0; }
void point()
{
    if (on()) {
        InRT rt;
        ++G->points;
        if (G->winB >= 0) G->quiet = G->points < G->winA || G->points >= G->winB;
        sync_point(nullptr, "point");
        t_cur->hash = mc::mix(t_cur->hash, 0x99);
    }
}
void window(long a, long b)
{
    if (!on()) return;
    G->winA = G->points + a;
    G->winB = G->points + b;
    G->quiet = a > 0;
}
long points() { return G ? G->points : 0; }
long stamp()
{
    static long n = 0; // (monotonic over executions, too)
    if (!on()) return ++n;
    InRT rt;
    static int clockObject;
    sync_point(&clockObject, "stamp");
    hb_rw(&clockObject, 0x57, false, false);
    return ++n;
}
void quiet(bool q) { if (on()) G->quiet = q; }
std::int64_t virtual_now() { return G ? G->clock : 0; }
} // namespace mc

extern "C" {
// ---------------------------------------------------------------------------------------- pthread
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (on()) { InRT rt; lock_mutex(m); return 0; }
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    return g_active ? 0 : real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (on()) { InRT rt; return trylock_mutex(m); }
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    return g_active ? 0 : real_pthread_mutex_trylock(m);
}
static int timedlock(pthread_mutex_t* m, std::int64_t dl)
{
    InRT rt;
    t_cur->deadline = dl;
    perform(K_LOCK, m, "timedlock");
    t_cur->deadline = -1;
    if (!mutex_free(m, t_cur->id)) { hb_rw(m, 5, false, false); return ETIMEDOUT; }
    auto& x = G->mutexes[m];
    x.owner = t_cur->id;
    ++x.count;
    hb_rw(m, 4, true, false);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    if (on()) return timedlock(m, ts_ns(ts));
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*);
    return real_pthread_mutex_timedlock(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    if (on()) return timedlock(m, ts_ns(ts));
    REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*);
    return real_pthread_mutex_clocklock(m, c, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (on()) { InRT rt; unlock_mutex(m); return 0; }
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    return g_active ? 0 : real_pthread_mutex_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (on()) {
        InRT rt;
        auto it = G->mutexes.find(m);
        if (it != G->mutexes.end()) {
            if (it->second.owner >= 0) violation("destruction of a locked mutex");
            G->mutexes.erase(it);
        }
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (on()) { InRT rt; return cond_wait(c, m, -1); }
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    return real_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (on()) { InRT rt; return cond_wait(c, m, ts_ns(ts)); }
    REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*);
    return real_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    if (on()) { InRT rt; return cond_wait(c, m, ts_ns(ts)); }
    REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
    return real_pthread_cond_clockwait(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (on()) { InRT rt; cond_notify(c, false); return 0; }
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (on()) { InRT rt; cond_notify(c, true); return 0; }
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    return real_pthread_cond_broadcast(c);
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (on()) {
        InRT rt;
        auto it = G->conds.find(c);
        if (it != G->conds.end()) {
            for (int id : it->second)
                if (!G->threads[id]->signalled) violation("destruction of a condition variable with waiting threads");
            // signalled waiters still use the object until they return
        }
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (on()) {
        InRT rt;
        perform(K_RDLOCK, l, "rdlock");
        auto& r = G->rws[l];
        ++r.readers;
        ++r.r[t_cur->id];
        hb_rw(l, 4, true, false);
        return 0;
    }
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
    return g_active ? 0 : real_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (on()) {
        InRT rt;
        sync_point(l, "tryrdlock");
        auto& r = G->rws[l];
        if (r.writer >= 0) { hb_rw(l, 5, false, false); return EBUSY; }
        ++r.readers;
        ++r.r[t_cur->id];
        hb_rw(l, 4, true, false);
        return 0;
    }
    REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
    return g_active ? 0 : real_pthread_rwlock_tryrdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (on()) {
        InRT rt;
        perform(K_WRLOCK, l, "wrlock");
        G->rws[l].writer = t_cur->id;
        hb_rw(l, 4, true, false);
        return 0;
    }
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
    return g_active ? 0 : real_pthread_rwlock_wrlock(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (on()) {
        InRT rt;
        sync_point(l, "trywrlock");
        auto& r = G->rws[l];
        if (r.writer >= 0 || r.readers > 0) { hb_rw(l, 5, false, false); return EBUSY; }
        r.writer = t_cur->id;
        hb_rw(l, 4, true, false);
        return 0;
    }
    REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
    return g_active ? 0 : real_pthread_rwlock_trywrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (on()) {
        InRT rt;
        if (scenario().unlock_points) sync_point(l, "rw-unlock");
        else if (mc::tracing()) trace("rw-unlock", l);
        auto& r = G->rws[l];
        if (r.writer >= 0) {
            if (r.writer != t_cur->id) violation("unlock of a read-write lock held exclusively by another thread");
            r.writer = -1;
        } else if (r.readers > 0) {
            // glibc permits any thread to drop a read lock; the standard does not
            if (r.r[t_cur->id] <= 0) violation("shared unlock by a thread that does not hold the shared lock");
            --r.r[t_cur->id];
            --r.readers;
        } else {
            violation("unlock of a read-write lock that is not locked");
        }
        hb_rw(l, 6, false, true);
        return 0;
    }
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    return g_active ? 0 : real_pthread_rwlock_unlock(l);
}
int pthread_rwlock_destroy(pthread_rwlock_t* l)
{
    if (on()) {
        InRT rt;
        auto it = G->rws.find(l);
        if (it != G->rws.end()) {
            if (it->second.writer >= 0 || it->second.readers) violation("destruction of a locked read-write lock");
            G->rws.erase(it);
        }
        G->syncs.erase(l);
    }
    return 0;
}

int pthread_create(pthread_t* pt, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (on()) {
        InRT rt;
        if ((int)G->threads.size() >= MAXT) violation("too many threads for the explorer");
        Thread* t = new Thread();
        t->id = (int)G->threads.size();
        t->fn = fn;
        t->arg = arg;
        t->proc = t_cur->proc;
        t->vc = t_cur->vc;
        t->vc.c[t->id] = 1;
        ++t_cur->vc.c[t_cur->id];
        t_cur->hash = mc::mix(t_cur->hash, 0x31);
        t->hash = mc::mix(t_cur->hash, 0x32);
        G->threads.push_back(t);
        if (mc::tracing()) mc::note("T" + std::to_string(t_cur->id) + " creates T" + std::to_string(t->id));
        pool_start(t);
        *pt = t->pt;
        return 0;
    }
    return real_pthread_create(pt, attr, fn, arg);
}
int pthread_join(pthread_t pt, void** ret)
{
    REAL(int, pthread_join, pthread_t, void**);
    if (on()) {
        InRT rt;
        for (auto t : G->threads) {
            if (t->id && !t->joined && pthread_equal(t->pt, pt)) {
                perform(K_JOIN, (void*)(long)t->id, "join");
                t_cur->vc.join(t->vc);
                t_cur->hash = mc::mix(mc::mix(t_cur->hash, t->hash), 0x33);
                t->joined = true;
                pool_finish(t->id);
                if (ret) *ret = nullptr;
                return 0;
            }
        }
    }
    return real_pthread_join(pt, ret);
}
int pthread_detach(pthread_t pt)
{
    REAL(int, pthread_detach, pthread_t);
    if (on()) return 0; // joined at the end of the execution
    return real_pthread_detach(pt);
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    REAL(int, pthread_once, pthread_once_t*, void (*)(void));
    if (on()) {
        bool isStatic;
        {
            InRT rt;
            if (*o == 2) { // done, for good
                t_cur->vc.join(sync_of(o).vc);
                return 0;
            }
            // Initialisation of process-wide objects happens in one execution only, so it can't be explored.
            Dl_info di;
            isStatic = dladdr(o, &di) != 0;
            if (isStatic) {
                auto it = G->guards.find(o);
                if (it != G->guards.end() && it->second >= 0) perform(K_GUARD, o, "once");
                ++t_cur->guardDepth;
            } else {
                perform(K_GUARD, o, "once");
                hb_rw(o, 0x41, true, false);
            }
            if (*o == 2) {
                if (isStatic) --t_cur->guardDepth;
                return 0;
            }
            G->guards[o] = t_cur->id; // (std::async runs its whole task inside call_once, so this is preemptible)
        }
        struct Un
        {
            pthread_once_t* o;
            bool isStatic, done = false;
            ~Un()
            {
                InRT rt;
                G->guards[o] = -1;
                if (done) *o = 2;
                if (isStatic) {
                    --t_cur->guardDepth;
                    sync_of(o).vc.join(t_cur->vc);
                } else hb_rw(o, 0x42, false, true);
            }
        } un{o, isStatic};
        f();
        un.done = true;
        return 0;
    }
    return real_pthread_once(o, f);
}
int sem_init_unused; // (semaphores are not used by the code under test)

// ---------------------------------------------------------------------------------------- guards
int __cxa_guard_acquire(long* g)
{
    if (on()) {
        InRT rt;
        if (*(char*)g) return 0;
        auto it = G->guards.find(g);
        if (it != G->guards.end() && it->second >= 0) perform(K_GUARD, g, "static-init");
        hb_rw(g, 0x43, true, false);
        if (*(char*)g) return 0;
        G->guards[g] = t_cur->id;
        ++t_cur->guardDepth;
        return 1;
    }
    REAL(int, __cxa_guard_acquire, long*);
    return real___cxa_guard_acquire(g);
}
void __cxa_guard_release(long* g)
{
    if (on() && G->guards.count(g)) {
        InRT rt;
        --t_cur->guardDepth;
        G->guards.erase(g);
        *(char*)g = 1;
        hb_rw(g, 0x44, false, true);
        return;
    }
    REAL(void, __cxa_guard_release, long*);
    real___cxa_guard_release(g);
}
void __cxa_guard_abort(long* g)
{
    if (on() && G->guards.count(g)) {
        InRT rt;
        --t_cur->guardDepth;
        G->guards.erase(g);
        hb_rw(g, 0x45, false, true);
        return;
    }
    REAL(void, __cxa_guard_abort, long*);
    real___cxa_guard_abort(g);
}

// ---------------------------------------------------------------------------------------- futex (std::future, atomic wait)
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        InRT rt;
        int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        void* addr = (void*)a;
        Thread* t = t_cur;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(addr, "futex-wait");
            hb_rw(addr, 0x51, false, false);
            if (*(int*)addr != (int)c) { errno = EAGAIN; return -1; }
            t->signalled = false;
            if (d) {
                auto ns = ts_ns((timespec*)d);
                t->deadline = op == FUTEX_WAIT ? G->clock + ns : ns;
            }
            perform(K_FUTEX, addr, "futex-wake");
            bool sig = t->signalled;
            t->signalled = false;
            t->deadline = -1;
            hb_rw(addr, sig ? 0x52 : 0x53, false, false);
            if (!sig) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sync_point(addr, "futex-wake-all");
            hb_rw(addr, 0x54, false, false);
            long k = 0;
            for (auto w : G->threads)
                if (!w->finished && w->kind == K_FUTEX && w->obj == addr && !w->signalled && k < c) {
                    w->signalled = true;
                    ++k;
                }
            return k;
        }
        violation("unsupported futex operation");
    }
    long r = raw_syscall6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------------------------------- time
int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (on()) {
        ts->tv_sec = G->clock / 1000000000;
        ts->tv_nsec = G->clock % 1000000000;
        t_cur->hash = mc::mix(t_cur->hash, (std::uint64_t)G->clock);
        return 0;
    }
    return (int)raw_syscall6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
}
int nanosleep(const timespec* ts, timespec* rem)
{
    if (on()) { InRT rt; sleep_until(G->clock + ts_ns(ts)); return 0; }
    return (int)raw_syscall6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t id, int fl, const timespec* ts, timespec* rem)
{
    if (on()) { InRT rt; sleep_until(fl & TIMER_ABSTIME ? ts_ns(ts) : G->clock + ts_ns(ts)); return 0; }
    return (int)-raw_syscall6(SYS_clock_nanosleep, id, fl, (long)ts, (long)rem, 0, 0);
}
int usleep(useconds_t us)
{
    if (on()) { InRT rt; sleep_until(G->clock + us * 1000ll); return 0; }
    timespec ts{us / 1000000, (us % 1000000) * 1000};
    return (int)raw_syscall6(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
}
int sched_yield(void) noexcept
{
    if (on()) { InRT rt; mc::detail::perform_yield(); return 0; }
    return (int)raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

// ---------------------------------------------------------------------------------------- file locks / file system
static char fsObject, flockObject;
static void fs_point(const char* what, bool write = true)
{
    if (on() && scenario().fs_points) {
        InRT rt;
        sync_point(&fsObject, what);
        if (write) hb_rw(&fsObject, 0x61, false, false);
        else hb_read(&fsObject, 0x65, false);
    }
}
// Linux refuses a wait if the processes which hold conflicting locks are (by way of any of their threads) waiting
// for a process which ... is waiting for the caller's process.
static bool flock_cycle(const Thread& t)
{
    std::vector<int> todo, seen;
    auto owners = [&](const Thread& w) {
        for (auto& l : G->flocks)
            if (l.dev == w.dev && l.ino == w.ino && l.proc != w.proc && (l.type == F_WRLCK || w.flockType == F_WRLCK)) todo.push_back(l.proc);
    };
    owners(t);
    while (!todo.empty()) {
        const int p = todo.back();
        todo.pop_back();
        if (p == t.proc) return true;
        if (std::find(seen.begin(), seen.end(), p) != seen.end()) continue;
        seen.push_back(p);
        for (auto u : G->threads)
            if (u != &t && u->proc == p && !u->finished && u->kind == K_FLOCK) owners(*u);
    }
    return false;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (on() && (cmd == F_SETLK || cmd == F_SETLKW)) {
        InRT rt;
        auto fl = (struct flock*)arg;
        struct stat st;
        if (raw_syscall6(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) < 0) { errno = EBADF; return -1; }
        Thread* t = t_cur;
        t->dev = st.st_dev;
        t->ino = st.st_ino;
        t->flockType = fl->l_type;
        const std::pair<dev_t, ino_t> id(st.st_dev, st.st_ino);
        if (fl->l_type != F_UNLCK && std::find(G->lockFiles.begin(), G->lockFiles.end(), id) == G->lockFiles.end()) G->lockFiles.push_back(id);
        auto drop = [&] {
            auto& v = G->flocks;
            v.erase(std::remove_if(v.begin(), v.end(), [&](const FLock& l) { return l.dev == t->dev && l.ino == t->ino && l.proc == t->proc; }), v.end());
        };
        if (fl->l_type == F_UNLCK) {
            sync_point(&flockObject, "flock-unlock");
            drop();
            hb_rw(&flockObject, 0x62, false, false);
            return 0;
        }
        if (cmd == F_SETLK) {
            sync_point(&flockObject, "flock-try");
            if (flock_conflict(*t)) { hb_rw(&flockObject, 0x63, false, false); errno = EAGAIN; return -1; }
        } else {
            sync_point(&flockObject, "flock");
            if (flock_conflict(*t)) {
                hb_rw(&flockObject, 0x66, false, false);
                if (flock_cycle(*t)) {
                    if (mc::tracing()) mc::note("fcntl() fails with EDEADLK");
                    errno = EDEADLK;
                    return -1;
                }
                perform(K_FLOCK, &flockObject, "flock-wait");
            }
        }
        drop();
        G->flocks.push_back({t->dev, t->ino, t->proc, fl->l_type});
        hb_rw(&flockObject, 0x64, false, false);
        return 0;
    }
    long r = raw_syscall6(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return (int)r;
}
int fcntl64(int fd, int cmd, ...) __attribute__((alias("fcntl")));
int close(int fd)
{
    if (on()) {
        struct stat st;
        if (raw_syscall6(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) == 0) {
            InRT rt;
            if (std::find(G->lockFiles.begin(), G->lockFiles.end(), std::pair<dev_t, ino_t>(st.st_dev, st.st_ino)) != G->lockFiles.end()) {
                sync_point(&flockObject, "close");
                hb_rw(&flockObject, 0x67, false, false);
            }
            auto& v = G->flocks;
            bool any = false;
            for (auto& l : v) any = any || (l.dev == st.st_dev && l.ino == st.st_ino && l.proc == t_cur->proc);
            if (any) {
                // POSIX: closing any descriptor of the file drops the process's locks on it
                v.erase(std::remove_if(v.begin(), v.end(), [&](const FLock& l) { return l.dev == st.st_dev && l.ino == st.st_ino && l.proc == t_cur->proc; }), v.end());
                if (mc::tracing()) mc::note("close() drops this process's lock on the file");
            }
        }
    }
    long r = raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int mkdir(const char* p, mode_t m)
{
    fs_point("mkdir");
    long r = raw_syscall6(SYS_mkdir, (long)p, m, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
// inode numbers are used again, depending on what other processes do
static void forget_lock_file(int d, const char* p)
{
    struct stat st;
    if (!on() || raw_syscall6(SYS_newfstatat, d, (long)p, (long)&st, AT_SYMLINK_NOFOLLOW, 0, 0) < 0 || st.st_nlink > 1) return;
    InRT rt;
    auto& v = G->lockFiles;
    v.erase(std::remove(v.begin(), v.end(), std::pair<dev_t, ino_t>(st.st_dev, st.st_ino)), v.end());
}
int unlinkat(int d, const char* p, int f) noexcept
{
    fs_point("unlinkat");
    forget_lock_file(d, p);
    long r = raw_syscall6(SYS_unlinkat, d, (long)p, f, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int unlink(const char* p) noexcept
{
    fs_point("unlink");
    forget_lock_file(AT_FDCWD, p);
    long r = raw_syscall6(SYS_unlink, (long)p, 0, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int rmdir(const char* p) noexcept
{
    fs_point("rmdir");
    long r = raw_syscall6(SYS_rmdir, (long)p, 0, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int remove(const char* p) noexcept
{
    fs_point("remove");
    forget_lock_file(AT_FDCWD, p);
    REAL(int, remove, const char*);
    return real_remove(p);
}
int rename(const char* a, const char* b) noexcept
{
    fs_point("rename");
    long r = raw_syscall6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
static int open_common(int d, const char* p, int fl, mode_t m)
{
    fs_point("open", (fl & (O_CREAT | O_TRUNC)) != 0);
    long r = raw_syscall6(SYS_openat, d, (long)p, fl, m, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return (int)r;
}
#define OPEN_MODE \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, fl); \
        m = va_arg(ap, mode_t); \
        va_end(ap); \
    }
int open(const char* p, int fl, ...) { OPEN_MODE return open_common(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { OPEN_MODE return open_common(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { OPEN_MODE return open_common(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { OPEN_MODE return open_common(d, p, fl, m); }
int __openat_2(int d, const char* p, int fl) { return open_common(d, p, fl, 0); }
int stat(const char* p, struct stat* st) noexcept
{
    fs_point("stat", false);
    REAL(int, stat, const char*, struct stat*);
    return real_stat(p, st);
}
int lstat(const char* p, struct stat* st) noexcept
{
    fs_point("lstat", false);
    REAL(int, lstat, const char*, struct stat*);
    return real_lstat(p, st);
}
int fstatat(int d, const char* p, struct stat* st, int f) noexcept
{
    fs_point("fstatat", false);
    REAL(int, fstatat, int, const char*, struct stat*, int);
    return real_fstatat(d, p, st, f);
}
int access(const char* p, int m) noexcept
{
    fs_point("access", false);
    REAL(int, access, const char*, int);
    return real_access(p, m);
}
char* realpath(const char* p, char* r) noexcept
{
    fs_point("realpath", false);
    REAL(char*, realpath, const char*, char*);
    return real_realpath(p, r);
}
DIR* opendir(const char* p)
{
    fs_point("opendir", false);
    REAL(DIR*, opendir, const char*);
    return real_opendir(p);
}
struct dirent* readdir(DIR* d)
{
    fs_point("readdir", false);
    REAL(struct dirent*, readdir, DIR*);
    return real_readdir(d);
}

// ---------------------------------------------------------------------------------------- allocation
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    on_alloc(p, n);
    return p;
}
void free(void* p)
{
    on_free(p, __builtin_return_address(0), false);
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    on_alloc(p, a * b);
    return p;
}
void* realloc(void* q, size_t n)
{
    if (q && on()) { on_free(q, nullptr, false); }
    void* p = __libc_realloc(q, n);
    on_alloc(p, n);
    return p;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    on_alloc(p, n);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n)
{
    void* p = memalign(a, n);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}

void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept
{
    if (g_active && t_cur) {
        ++t_rt;
        const char* b = strrchr(file, '/');
        violation(std::string("assertion failed: ") + e + " (" + (b ? b + 1 : file) + ", " + fn + ")");
    }
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, e);
    abort();
}
} // extern "C"

void operator delete(void* p) noexcept
{
    on_free(p, __builtin_return_address(0), true);
    __libc_free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    on_free(p, __builtin_return_address(0), true);
    __libc_free(p);
}
void operator delete[](void* p) noexcept
{
    on_free(p, __builtin_return_address(0), true);
    __libc_free(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    on_free(p, __builtin_return_address(0), true);
    __libc_free(p);
}

// ---------------------------------------------------------------------------------------- tsan ABI
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_ignore_thread_begin() { }
void __tsan_ignore_thread_end() { }
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) access(p, 8, true, PC);
}
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access(d, n, true, PC);
    access((void*)s, n, false, PC);
    return __builtin_memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access(d, n, true, PC);
    access((void*)s, n, false, PC);
    return __builtin_memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
    access(d, n, true, PC);
    return __builtin_memset(d, v, n);
}

// reference counting (see shim/ext/atomicity.h)
int mc_refcount_add(int* p, int v)
{
    int old;
    if (on()) {
        if (scenario().refcount_points) a_rmw(p, __ATOMIC_ACQ_REL);
        else {
            InRT rt;
            // increments commute and publish nothing; decrements are acq_rel
            if (v > 0) hb_read(p, 0x71, false);
            else hb_rw(p, 0x72, true, true);
        }
    }
    old = *p;
    *p = old + v;
    return old;
}

#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { if (on()) a_load((void*)p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { if (on()) a_store((void*)p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { if (on()) a_rmw((void*)p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { if (on()) a_rmw((void*)p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { if (on()) a_rmw((void*)p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { if (on()) a_rmw((void*)p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { if (on()) a_rmw((void*)p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { if (on()) a_rmw((void*)p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { if (on()) a_rmw((void*)p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { if (on()) a_rmw((void*)p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { if (on()) a_rmw((void*)p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { if (on()) a_rmw((void*)p, mo); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
} // extern "C"
