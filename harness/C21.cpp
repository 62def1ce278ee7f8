// C21: file locks give mutual exclusion between threads and processes.
#include "mc.hpp"
#include "locks.hpp"
#include <algorithm>
#include <fcntl.h>
#include <condition_variable>
#include <mutex>
#include <sys/stat.h>
#include <system_error>
#include <thread>
#include <unistd.h>
#include <vector>

namespace
{
std::unique_ptr<AnyLock> open_in(int proc, const std::string& path, Initially i = Initially::unlocked) { return proc ? open_p2(path, i) : open_p1(path, i); }

struct Hold
{
    int thread, proc, file;
    bool shared, tryOnly, got = false;
    long begin, gotAt = -1, relBegin = -1, relEnd = -1;
};
struct Op
{
    bool shared = false, tryOnly = false;
    int file = 0;
    bool inCtor = false;   // acquire on construction (blocking ones only)
    bool destroy = false;  // release by destroying the object
};
struct Script
{
    int proc;
    std::vector<Op> ops;
    bool reuse = false;    // one object per file for all operations
    int alias = 0;
};

void make_file(const std::string& p)
{
    const int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0666);
    if (fd < 0) mc::fail("cannot create " + p);
    close(fd);
}

struct World
{
    std::string dir;
    World()
    {
        dir = mc::scratch();
        // the library only ever opens the files
        if (access((dir + "/h1").c_str(), F_OK) != 0) create();
        // what earlier executions left behind in the library's tables is cleared out
        for (int p = 0; p < 2; ++p) {
            mc::set_process(p);
            open_in(p, dir + "/f0");
        }
        mc::set_process(0);
    }
    void create() const
    {
        mc::clear_scratch();
        make_file(dir + "/f0");
        make_file(dir + "/f1");
        mkdir((dir + "/d").c_str(), 0777);
        for (int i = 0; i < 2; ++i) {
            const auto f = dir + "/f" + std::to_string(i);
            if (symlink(f.c_str(), (dir + "/s" + std::to_string(i)).c_str()) || link(f.c_str(), (dir + "/h" + std::to_string(i)).c_str())) mc::fail("cannot link");
        }
    }
    std::string path(int file, int alias) const
    {
        const auto n = std::to_string(file);
        switch (alias) {
            case 1: return dir + "/s" + n;
            case 2: return dir + "/h" + n;
            case 3: return dir + "/d/.././f" + n;
            default: return dir + "/f" + n;
        }
    }
};

void run_script(const World& w, int thread, const Script& s, std::vector<Hold>& out)
{
    std::unique_ptr<AnyLock> obj[2];
    for (auto& op : s.ops) {
        Hold h{thread, s.proc, op.file, op.shared, op.tryOnly};
        mc::transition();
        auto& o = obj[op.file];
        if (!s.reuse) o.reset();
        h.begin = mc::stamp();
        if (!o && op.inCtor && !op.tryOnly) {
            o = open_in(s.proc, w.path(op.file, s.alias), op.shared ? Initially::shared : Initially::exclusive);
            h.got = true;
        } else {
            if (!o) o = open_in(s.proc, w.path(op.file, s.alias));
            h.got = o->acquire(op.shared, op.tryOnly);
        }
        h.gotAt = mc::stamp();
        if (h.got) {
            h.relBegin = mc::stamp();
            if (op.destroy) o.reset();
            else o->release(op.shared);
            h.relEnd = mc::stamp();
        }
        out.push_back(h);
    }
}

/// Holds must not overlap unless shared; attempts may only fail if something was in their way.
void judge(const std::vector<std::vector<Hold>>& all)
{
    std::vector<Hold> v;
    for (auto& x : all) v.insert(v.end(), x.begin(), x.end());
    std::string outcome;
    for (auto& a : v) {
        outcome += a.got ? (a.shared ? 'S' : 'X') : '-';
        if (a.got) {
            for (auto& b : v)
                if (&b != &a && b.got && b.file == a.file && b.thread != a.thread && !(a.shared && b.shared) && a.gotAt < b.relBegin && b.gotAt < a.relBegin)
                    mc::fail(mc::Str() << "threads " << a.thread << " (process " << a.proc << ", " << (a.shared ? "shared" : "exclusive") << ") and " << b.thread << " (process " << b.proc << ", " << (b.shared ? "shared" : "exclusive") << ") hold the same lock at the same time");
        } else {
            bool excuse = false;
            for (auto& b : v) {
                if (b.thread == a.thread || b.file != a.file) continue;
                if (a.shared && b.shared) continue;
                const long end = b.got ? b.relEnd : b.gotAt;
                if (b.begin < a.gotAt && a.begin < end) excuse = true;
            }
            mc::check(excuse, mc::Str() << "thread " << a.thread << " (process " << a.proc << "): " << (a.shared ? "try_lock_shared()" : "try_lock()") << " failed although nothing was in its way");
        }
    }
    // the order in which the lock was had
    std::vector<std::pair<long, int>> order;
    for (auto& a : v)
        if (a.got) order.push_back({a.gotAt, a.thread});
    std::sort(order.begin(), order.end());
    for (auto& o : order) outcome += std::to_string(o.second);
    mc::outcome(outcome);
}

void execute(const World& w, const std::vector<Script>& s)
{
    std::vector<std::vector<Hold>> out(s.size());
    std::vector<std::thread> t;
    for (std::size_t i = 0; i < s.size(); ++i)
        t.emplace_back([&, i] {
            mc::set_process(s[i].proc);
            run_script(w, (int)i, s[i], out[i]);
        });
    for (auto& x : t) x.join();
    judge(out);
}

Op kind(int k)
{
    Op o;
    o.shared = k & 1;
    o.tryOnly = k & 2;
    return o;
}

void two_threads(int nops)
{
    World w;
    std::vector<Script> s(2);
    s[1].proc = mc::choose(2, "process of the second thread");
    s[0].proc = 0;
    const int mode = mc::choose(4, "release by unlock, destruction; reuse objects; construct locked");
    for (int i = 0; i < 2; ++i) {
        s[i].alias = i ? mc::choose(s[1].proc ? 1 : 2, "alias") * 2 : 0;
        s[i].reuse = mode == 2;
        for (int k = 0; k < nops; ++k) {
            auto o = kind(mc::choose(4, "lock, lock_shared, try_lock, try_lock_shared"));
            o.destroy = mode == 1 || mode == 3;
            o.inCtor = mode == 3;
            s[i].ops.push_back(o);
        }
    }
    execute(w, s);
}

void three_threads(int reuse)
{
    World w;
    std::vector<Script> s(3);
    const int procs = mc::choose(2, "processes");
    for (int i = 0; i < 3; ++i) {
        s[i].proc = procs ? (i > 0) : (i == 2);
        s[i].alias = i == 1 ? 3 : 0;
        auto o = kind(mc::choose(4, "lock, lock_shared, try_lock, try_lock_shared"));
        o.destroy = reuse == 0;
        s[i].ops.push_back(o);
    }
    execute(w, s);
}

// readers come and go on the same objects while a process waits for them to leave
void readers(int n)
{
    World w;
    std::vector<Script> s(3);
    for (int i = 0; i < 3; ++i) {
        s[i].proc = i == 2;
        s[i].reuse = true;
        for (int k = 0; k < (i == 2 ? 1 : n); ++k) {
            auto o = kind(i == 2 ? mc::choose(2, "writer waits or tries") * 2 : 1 + 2 * mc::choose(2, "reader waits or tries"));
            s[i].ops.push_back(o);
        }
    }
    execute(w, s);
}

// one object goes away while another one for the same file appears, and a third one in another process
void coming_and_going()
{
    World w;
    std::vector<Script> s(3);
    for (int i = 0; i < 3; ++i) {
        s[i].proc = i == 2;
        auto o = kind(i == 2 ? 2 : mc::choose(2, "exclusive, shared"));
        o.destroy = true;
        o.inCtor = i < 2;
        s[i].ops.push_back(o);
    }
    execute(w, s);
}

void two_files()
{
    World w;
    std::vector<Script> s(2);
    s[1].proc = mc::choose(2, "process of the second thread");
    s[0].proc = 0;
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 2; ++k) {
            auto o = kind(mc::choose(2, "lock, lock_shared"));
            o.file = (i + k) & 1;
            o.destroy = mc::choose(2, "destroy");
            s[i].ops.push_back(o);
        }
    execute(w, s);
}

/// Two locks at a time, in the same order everywhere: must not fail or deadlock
void nested()
{
    World w;
    std::vector<std::thread> t;
    const int n = 3;
    int which[n];
    for (int i = 0; i < n; ++i) which[i] = mc::choose(4, "first only, second only, both, both with the first given up early");
    std::vector<std::vector<Hold>> out(n);
    for (int i = 0; i < n; ++i)
        t.emplace_back([&, i] {
            const int p = i > 0;
            mc::set_process(p);
            Hold a{i, p, 0, false, false, true}, b{i, p, 1, false, false, true};
            std::unique_ptr<AnyLock> x, y;
            if (which[i] != 1) {
                a.begin = mc::stamp();
                x = open_in(p, w.path(0, 0), Initially::exclusive);
                a.gotAt = mc::stamp();
            }
            if (which[i] != 0) {
                b.begin = mc::stamp();
                y = open_in(p, w.path(1, 0), Initially::exclusive);
                b.gotAt = mc::stamp();
            }
            auto drop = [&](std::unique_ptr<AnyLock>& o, Hold& h) {
                if (!o) return;
                h.relBegin = mc::stamp();
                o.reset();
                h.relEnd = mc::stamp();
                out[i].push_back(h);
            };
            if (which[i] == 3) drop(x, a);
            drop(y, b);
            drop(x, a);
            mc::transition(2);
        });
    for (auto& x : t) x.join();
    judge(out);
}

// The other process keeps its lock until the attempt is over.
void attempts_do_not_block()
{
    World w;
    struct Sem
    {
        std::mutex m;
        std::condition_variable c;
        int n = 0;
    } held, over;
    auto sem_post = [](Sem* s) { std::lock_guard<std::mutex> g(s->m); ++s->n; s->c.notify_all(); };
    auto sem_wait = [](Sem* s) { std::unique_lock<std::mutex> g(s->m); s->c.wait(g, [&] { return s->n > 0; }); --s->n; };
    const int owner = mc::choose(3, "other process, other thread, other thread with a shared lock");
    const int waiter = mc::choose(3, "another one waits for: nothing, exclusive, shared access");
    const int attempt = mc::choose(2, "try_lock, try_lock_shared");
    bool got = false;
    std::thread a([&] {
        mc::set_process(owner == 0);
        auto l = open_in(owner == 0, w.path(0, 0));
        l->acquire(owner == 2, false);
        sem_post(&held);
        if (waiter) sem_post(&held);
        sem_wait(&over);
        l->release(owner == 2);
    });
    std::thread b([&] {
        if (!waiter) return;
        sem_wait(&held);
        auto l = open_in(0, w.path(0, 0));
        l->acquire(waiter == 2, false);
        l->release(waiter == 2);
    });
    std::thread c([&] {
        sem_wait(&held);
        auto l = open_in(0, w.path(0, 0));
        got = l->acquire(attempt == 1, true);
        if (got) l->release(attempt == 1);
        sem_post(&over);
    });
    a.join();
    b.join();
    c.join();
    mc::transition(3);
    if (owner != 2 || attempt == 0) mc::check(!got, "attempt succeeded although the lock was held by another");
    else if (waiter != 1) mc::check(got, "attempt to share a shared lock failed");
    mc::outcome(got ? "got" : "failed");
}

/// Whether others could lock the file now, judged from another thread of this process and another process.
struct Probe { bool threadX, threadS, procX, procS; };
Probe probe(const World& w, int file)
{
    Probe p{};
    std::thread t([&] {
        mc::set_process(0);
        auto l = open_in(0, w.path(file, 1));
        if ((p.threadX = l->acquire(false, true))) l->release(false);
        if ((p.threadS = l->acquire(true, true))) l->release(true);
    });
    t.join();
#ifdef MC_SCHED
    std::thread u([&] {
        mc::set_process(1);
        auto l = open_in(1, w.path(file, 1));
        if ((p.procX = l->acquire(false, true))) l->release(false);
        if ((p.procS = l->acquire(true, true))) l->release(true);
    });
    u.join();
#else
    p.procX = p.threadX;
    p.procS = p.threadS;
#endif
    return p;
}

// Objects are constructed, locked, moved, assigned and destroyed; who owns what is probed after each operation.
void objects(int depth)
{
    World w;
    constexpr int N = 3;
    struct Slot { std::unique_ptr<AnyLock> l; int file = -1, state = 0; bool movedFrom = false; } s[N]; // state: 0, 1 exclusive, 2 shared
    std::string trail;
    auto owner = [&](int file) {
        for (auto& x : s)
            if (x.l && !x.movedFrom && x.file == file && x.state) return x.state;
        return 0;
    };
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(7, "open, acquire, release, destroy, move construct, move assign, end");
        if (op == 6) break;
        mc::transition();
        const int i = mc::choose(N, "object");
        auto& x = s[i];
        switch (op) {
            case 0: {
                if (x.l) mc::discard();
                const int f = mc::choose(2, "file");
                const int st = mc::choose(3, "unlocked, exclusive, shared");
                if (st && owner(f)) mc::discard(); // a thread may not lock the same file twice
                x.l = open_in(0, w.path(f, i), st == 0 ? Initially::unlocked : st == 1 ? Initially::exclusive : Initially::shared);
                x.file = f;
                x.state = st;
                x.movedFrom = false;
                trail += mc::Str() << " " << i << "=open(" << f << "," << st << ")";
                break;
            }
            case 1: {
                if (!x.l || x.movedFrom || x.state || owner(x.file)) mc::discard();
                const int st = 1 + mc::choose(2, "exclusive, shared");
                const bool t = mc::choose(2, "try");
                const bool ok = x.l->acquire(st == 2, t);
                mc::check(ok, trail + ": attempt failed although nothing was in its way");
                x.state = st;
                trail += mc::Str() << " " << i << ".lock(" << st << ")";
                break;
            }
            case 2:
                if (!x.l || x.movedFrom || !x.state) mc::discard();
                x.l->release(x.state == 2);
                x.state = 0;
                trail += mc::Str() << " " << i << ".unlock";
                break;
            case 3:
                if (!x.l) mc::discard();
                x.l.reset();
                x.state = 0;
                trail += mc::Str() << " " << i << ".destroy";
                break;
            case 4: {
                const int j = (i + 1 + mc::choose(N - 1, "to")) % N;
                auto& y = s[j];
                if (!x.l || x.movedFrom || y.l) mc::discard();
                y.l = x.l->move_away();
                y.file = x.file;
                y.state = x.state;
                y.movedFrom = false;
                x.movedFrom = true;
                x.state = 0;
                trail += mc::Str() << " " << j << "=move(" << i << ")";
                break;
            }
            case 5: {
                const int j = (i + 1 + mc::choose(N - 1, "to")) % N;
                auto& y = s[j];
                if (!x.l || x.movedFrom || !y.l) mc::discard();
                y.l->assign(*x.l);
                y.file = x.file;
                y.state = x.state;
                y.movedFrom = false;
                x.movedFrom = true;
                x.state = 0;
                trail += mc::Str() << " " << j << ".assign(" << i << ")";
                break;
            }
        }
        for (int f = 0; f < 2; ++f) {
            const auto p = probe(w, f);
            const int o = owner(f);
            mc::check(p.threadX == (o == 0) && p.threadS == (o != 1), mc::Str() << trail << ": another thread can" << (p.threadX ? "" : "not") << " lock and can" << (p.threadS ? "" : "not") << " share file " << f);
            mc::check(p.procX == (o == 0) && p.procS == (o != 1), mc::Str() << trail << ": another process can" << (p.procX ? "" : "not") << " lock and can" << (p.procS ? "" : "not") << " share file " << f);
        }
    }
    mc::outcome(mc::Str() << owner(0) << owner(1));
}

void bad_files()
{
    World w;
    mc::transition();
    auto refused = [&](const std::string& p) {
        try {
            open_in(0, p);
        } catch (const std::system_error&) {
            return true;
        }
        return false;
    };
    mc::check(refused(w.dir + "/none/f"), "lock file in a directory that does not exist");
    mc::check(refused(w.dir + "/d"), "a directory as a lock file");
    // a new file is created
    const auto n = w.dir + "/new";
    auto l = open_in(0, n, Initially::exclusive);
    mc::check(access(n.c_str(), F_OK) == 0, "lock file was not created");
    l.reset();
    // files removed in the meantime do not matter to locks on other ones
    auto gone = open_in(0, n, Initially::exclusive);
    unlink(n.c_str());
    bool ok = true;
    try {
        auto other = open_in(0, w.path(0, 0), Initially::exclusive);
        other.reset();
        auto again = open_in(0, w.path(1, 2), Initially::shared);
    } catch (const std::exception& e) {
        mc::fail(std::string("a lock cannot be had because another lock's file has been removed: ") + e.what());
    }
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C21";
    s.assumptions = {"two copies of the library in one process stand for two processes; POSIX file locks are modelled by the engine: per process and file, dropped when any descriptor of the file is closed, refused with EDEADLK when Linux would", "one thread never locks the same file through two objects, as documented"};
    const bool th = mc::thorough();
    (void)th;
#ifdef MC_SCHED
    auto add = [&](const char* name, std::function<void()> f, int q, int t, bool refs = false) {
        auto& x = s.add(name, std::move(f));
        x.sched = true;
        x.unlock_points = true;
        x.refcount_points = refs;
        x.bound = th ? t : q;
    };
    add("two_threads", [] { two_threads(1); }, 3, 5, true);
    add("two_threads_twice", [] { two_threads(2); }, 1, 2);
    add("three_threads", [] { three_threads(1); }, 1, 2);
    add("three_threads_destroy", [] { three_threads(0); }, 1, 2, true);
    add("readers", [] { readers(2); }, 2, 3);
    add("coming_and_going", coming_and_going, 3, 4, true);
    add("two_files", two_files, 1, 2);
    add("nested", nested, 1, 3);
    add("attempts_do_not_block", attempts_do_not_block, 2, 4);
    add("objects", [th] { objects(th ? 5 : 4); }, 0, 0);
#else
    s.add("objects", [th] { objects(th ? 5 : 4); });
    s.add("bad_files", bad_files);
#endif
}
