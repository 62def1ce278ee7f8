// C22: cache directories are exclusive to one writer or shared by readers.
#include "mc.hpp"
#include "caches.hpp"
#include "cosim/file_cache.hpp"
#include <algorithm>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <stdexcept>
#include <thread>
#include <vector>

namespace
{
namespace fs = std::filesystem;

std::string read_content(const std::string& dir)
{
    std::ifstream f(dir + "/content");
    std::string s;
    std::getline(f, s);
    return s;
}
void write_content(const std::string& dir, const std::string& s)
{
    std::ofstream f(dir + "/content", std::ios::trunc);
    f << s;
    f.close();
    if (!f) mc::fail("cannot write to " + dir);
}
/// Must be a directory somewhere below root.
void check_inside(const std::string& path, const std::string& root, const std::string& key)
{
    std::error_code ec;
    const auto p = fs::canonical(path, ec);
    mc::check(!ec && fs::is_directory(p), "key '" + key + "': " + path + " is not a directory");
    const auto r = fs::canonical(root).string() + "/";
    mc::check(p.string().compare(0, r.size(), r) == 0 && p.string().size() > r.size(), "key '" + key + "': " + path + " is not inside the cache");
}

// --------------------------------------------------------------------------------------------- concurrent use
#ifdef MC_SCHED
std::unique_ptr<AnyCache> cache_in(int proc, const std::string& root) { return proc ? cache_p2(root) : cache_p1(root); }

enum Kind { RW, RO, CLEANUP };
struct Rec
{
    Kind kind;
    int thread, proc, key;
    long begin = -1, got = -1, relBegin = -1, relEnd = -1; // for cleanups begin and got (= end)
    bool refused = false;
    std::string seen, wrote;
};
struct Step { Kind kind; int key = 0; };
const char* keyName(int k) { return k ? "b/c" : "a"; }

struct Concurrent
{
    std::string root;
    bool initially[2];

    void run(const std::vector<std::vector<Step>>& scripts, const std::vector<int>& procs, bool ownCaches)
    {
        std::vector<std::vector<Rec>> recs(scripts.size());
        mc::quiet(true);
        std::vector<std::unique_ptr<AnyCache>> caches(2);
        for (int p = 0; p < 2; ++p) {
            mc::set_process(p);
            caches[p] = cache_in(p, root);
        }
        mc::set_process(0);
        mc::quiet(false);
        std::vector<std::thread> t;
        for (std::size_t i = 0; i < scripts.size(); ++i)
            t.emplace_back([&, i] {
                mc::set_process(procs[i]);
                std::unique_ptr<AnyCache> own;
                if (ownCaches) own = cache_in(procs[i], root);
                auto& cache = ownCaches ? *own : *caches[procs[i]];
                int n = 0;
                for (auto& s : scripts[i]) {
                    mc::transition();
                    Rec r{s.kind, (int)i, procs[i], s.key};
                    r.begin = mc::stamp();
                    if (s.kind == CLEANUP) {
                        cache.cleanup();
                        r.got = r.relEnd = mc::stamp();
                    } else {
                        try {
                            auto d = s.kind == RW ? cache.rw(keyName(s.key)) : cache.ro(keyName(s.key));
                            r.got = mc::stamp();
                            mc::quiet(true);
                            const auto path = d->path();
                            check_inside(path, root, keyName(s.key));
                            r.seen = read_content(path);
                            if (s.kind == RW) {
                                r.wrote = "t" + std::to_string(i) + "." + std::to_string(n++);
                                write_content(path, r.wrote);
                            }
                            mc::quiet(false);
                            mc::point();
                            mc::quiet(true);
                            mc::check(fs::is_directory(path), mc::Str() << "the directory owned by thread " << i << " has been removed");
                            const auto now = read_content(path);
                            mc::check(now == (s.kind == RW ? r.wrote : r.seen), mc::Str() << "the directory owned by thread " << i << " was modified: '" << now << "'");
                            mc::quiet(false);
                            r.relBegin = mc::stamp();
                            d.reset();
                            r.relEnd = mc::stamp();
                        } catch (const NoSuchKey&) {
                            mc::check(s.kind == RO, "write access refused");
                            r.refused = true;
                            r.got = r.relEnd = mc::stamp();
                        }
                    }
                    recs[i].push_back(r);
                }
            });
        for (auto& x : t) x.join();
        std::vector<Rec> v;
        for (auto& x : recs) v.insert(v.end(), x.begin(), x.end());
        judge(v);
        // With nobody left, cleaning up removes everything.
        mc::quiet(true);
        caches[0]->cleanup();
        for (auto& e : fs::directory_iterator(root)) mc::check(!e.is_directory(), "cleaning up left " + e.path().filename().string());
        caches.clear();
        mc::quiet(false);
    }

    void judge(const std::vector<Rec>& v)
    {
        std::string outcome;
        for (auto& a : v) {
            const std::string who = mc::Str() << "thread " << a.thread << " (process " << a.proc << ", key " << a.key << ", " << (a.kind == RW ? "read-write" : "read-only") << ")";
            if (a.kind == CLEANUP) continue;
            // cleanups which may have taken place between the start of x and time t
            auto cleanedBetween = [&](long from, long to) {
                for (auto& c : v)
                    if (c.kind == CLEANUP && c.begin < to && c.got > from) return true;
                return false;
            };
            if (a.refused) {
                bool certainlyThere = initially[a.key] || std::any_of(v.begin(), v.end(), [&](const Rec& b) { return b.kind == RW && b.key == a.key && b.got < a.begin; });
                mc::check(!certainlyThere || cleanedBetween(-1, a.got), who + " was refused although the key exists");
                outcome += "-";
                continue;
            }
            outcome += a.seen + (a.kind == RW ? "W" : "R");
            // the last writer before this one
            const Rec* last = nullptr;
            for (auto& b : v) {
                if (b.kind == CLEANUP || b.refused || b.key != a.key || &a == &b) continue;
                if (a.thread != b.thread && (a.kind == RW || b.kind == RW) && a.got < b.relBegin && b.got < a.relBegin)
                    mc::fail(mc::Str() << who << " and thread " << b.thread << " (process " << b.proc << ") own the same directory at the same time");
                if (b.kind == RW && b.got < a.got && (!last || b.got > last->got)) last = &b;
            }
            const bool cleaned = cleanedBetween(last ? last->relBegin : -1, a.got);
            const std::string expected = last ? last->wrote : initially[a.key] ? "old" : "";
            mc::check(a.seen == expected || (cleaned && a.seen.empty()), who + " sees '" + a.seen + "' instead of '" + expected + "'");
            if (a.kind == RO && !last && !initially[a.key]) mc::fail(who + " was granted access although the key does not exist");
            if (a.kind == RO && a.seen.empty() && cleaned && (last || initially[a.key])) {
                // something must have created it anew; the only ones who do are writers, whose content would be there
                mc::fail(who + " sees an empty directory");
            }
        }
        mc::outcome(outcome);
    }
};

void prepare(Concurrent& c)
{
    mc::quiet(true);
    mc::clear_scratch();
    c.root = mc::scratch() + "/cache";
    const int pre = mc::choose(3, "nothing, first key, both keys there");
    c.initially[0] = pre > 0;
    c.initially[1] = pre > 1;
    auto x = cache_p1(c.root);
    for (int k = 0; k < 2; ++k)
        if (c.initially[k]) write_content(x->rw(keyName(k))->path(), "old");
    x.reset();
    // what is only done once per process is done now, and what earlier executions left behind in tables is cleared out
    for (int p = 0; p < 2; ++p) {
        mc::set_process(p);
        const auto other = mc::scratch() + "/other";
        cache_in(p, other)->rw("x");
        cache_in(p, other)->rw("x");
    }
    mc::set_process(0);
    mc::quiet(false);
}

Step choose_step(bool cleanup, int keys)
{
    const int n = mc::choose(2 * keys + cleanup, "step");
    if (n == 2 * keys) return {CLEANUP};
    return {n % 2 ? RO : RW, n / 2};
}

/// A directory is given up, cleaned away and obtained again while somebody else wants it.
void renewed()
{
    Concurrent c;
    prepare(c);
    if (c.initially[0]) mc::discard();
    const int proc = mc::choose(2, "processes");
    const Step again = {mc::choose(2, "again") ? RO : RW}, other = {mc::choose(2, "other") ? RO : RW};
    c.run({{{RW}, {CLEANUP}, again}, {other}}, {0, proc}, false);
}

/// As above, where the directory was given up by a third one.
void renewed_by_another()
{
    Concurrent c;
    prepare(c);
    if (c.initially[0]) mc::discard();
    const int procs = mc::choose(3, "processes");
    const Step other = {mc::choose(2, "other") ? RO : RW};
    c.run({{{RW}}, {{CLEANUP}, {RW}}, {other}}, {0, procs == 1, procs == 2}, false);
}

void race(int threads, int steps, int keys)
{
    Concurrent c;
    prepare(c);
    const int procs = mc::choose(threads > 2 ? 3 : 2, "processes");
    std::vector<std::vector<Step>> s(threads);
    std::vector<int> p(threads);
    bool anyCleanup = false;
    for (int i = 0; i < threads; ++i) {
        p[i] = procs == 0 ? 0 : procs == 1 ? i == threads - 1 : i > 0;
        for (int k = 0; k < steps; ++k) {
            s[i].push_back(choose_step(!anyCleanup, keys));
            anyCleanup = anyCleanup || s[i].back().kind == CLEANUP;
        }
    }
    c.run(s, p, false);
}
#else

// --------------------------------------------------------------------------------------------- sequences of operations
const std::vector<std::string>& all_keys()
{
    using namespace std::string_literals;
    static const std::vector<std::string> k = {"a", "", ".", "..", "a/b", "a%2Fb", "/", "../x", "../../x", "A", "lock", ".lock", ".data", "a.data", "a.lock", "a.", "...", " ", "a\\b", "a\0b"s, "a\0"s, "\xff\xfe", "\xc3\xa4", "a%", "a%00", "a+b", "a:b", "a?b#c", "~", "-", "*", "a\nb", std::string(80, 'k'), std::string(81, 'k')};
    return k;
}

/// Any cache as seen by the enumerated client
struct Client
{
    virtual ~Client() = default;
    virtual std::unique_ptr<AnyDir> rw(const std::string& key) = 0;
    virtual std::unique_ptr<AnyDir> ro(const std::string& key) = 0;
    virtual bool cleanup() { return false; }
    virtual bool reopen() = 0;
    virtual std::string root() = 0;
    virtual bool refusesConflicts() = 0; // as opposed to waiting
};
struct Persistent : Client
{
    std::string r = mc::scratch() + "/cache";
    std::unique_ptr<AnyCache> c = cache_p1(r);
    std::unique_ptr<AnyDir> rw(const std::string& key) override { return c->rw(key); }
    std::unique_ptr<AnyDir> ro(const std::string& key) override { return c->ro(key); }
    bool cleanup() override { c->cleanup(); return true; }
    bool reopen() override { c.reset(); c = cache_p1(r); return true; }
    std::string root() override { return r; }
    bool refusesConflicts() override { return false; }
};
template<typename T>
struct Dir : AnyDir
{
    std::unique_ptr<T> d;
    explicit Dir(std::unique_ptr<T> x) : d(std::move(x)) { }
    std::string path() const override { return d->path().string(); }
};
struct Temporary : Client
{
    std::unique_ptr<cosim::temporary_file_cache> c;
    std::string r;
    Temporary()
    {
        setenv("TMPDIR", mc::scratch().c_str(), 1);
        fs::create_directories(mc::scratch() + "/" + "bystander");
        c = std::make_unique<cosim::temporary_file_cache>();
        for (auto& e : fs::directory_iterator(mc::scratch()))
            if (e.path().filename() != "bystander") {
                mc::check(r.empty(), "more than one temporary directory");
                r = e.path().string();
            }
    }
    template<typename T>
    static std::unique_ptr<AnyDir> wrap(std::unique_ptr<T> x) { return std::make_unique<Dir<T>>(std::move(x)); }
    std::unique_ptr<AnyDir> rw(const std::string& key) override
    {
        try {
            return wrap(c->get_directory_rw(key));
        } catch (const std::logic_error&) {
            throw NoSuchKey();
        }
    }
    std::unique_ptr<AnyDir> ro(const std::string& key) override
    {
        try {
            return wrap(c->get_directory_ro(key));
        } catch (const std::logic_error&) {
            throw NoSuchKey();
        }
    }
    bool reopen() override // moves
    {
        auto d = std::make_unique<cosim::temporary_file_cache>(std::move(*c));
        c = std::move(d);
        return true;
    }
    std::string root() override { return r; }
    bool refusesConflicts() override { return true; }
};

struct Model
{
    struct Handle { std::unique_ptr<AnyDir> d; int key; bool rw; std::string path; };
    std::vector<Handle> handles;
    std::map<int, std::string> content; // of keys which exist
    std::string trail;
    int written = 0;
};

void verify(Model& m, Client& c, const std::vector<std::string>& keys)
{
    std::map<std::string, int> where;
    for (auto& h : m.handles) {
        mc::check(h.d->path() == h.path, m.trail + ": path of an owned directory has changed");
        check_inside(h.path, c.root(), keys[h.key]);
        const auto p = fs::canonical(h.path).string();
        for (auto& w : where) {
            if (w.second == h.key) mc::check(w.first == p, m.trail + ": one key has two directories");
            else mc::check((w.first + "/").compare(0, p.size() + 1, p + "/") != 0 && (p + "/").compare(0, w.first.size() + 1, w.first + "/") != 0, m.trail + ": keys '" + keys[w.second] + "' and '" + keys[h.key] + "' share a directory");
        }
        where[p] = h.key;
        const auto s = read_content(p);
        mc::check(s == m.content[h.key], m.trail + ": the directory of key '" + keys[h.key] + "' contains '" + s + "' instead of '" + m.content[h.key] + "'");
    }
}

void sequences(Client& c, const std::vector<std::string>& keys, int depth)
{
    Model m;
    const int nk = keys.size();
    for (int n = 0; n < depth; ++n) {
        const int op = mc::choose(6, "rw, ro, release, cleanup, reopen, end");
        if (op == 5) break;
        mc::transition();
        if (op < 2) {
            const int k = mc::choose(nk, "key");
            bool rwHeld = false, roHeld = false;
            for (auto& h : m.handles)
                if (h.key == k) (h.rw ? rwHeld : roHeld) = true;
            const bool conflict = op == 0 ? rwHeld || roHeld : rwHeld;
            // would wait for itself; a thread may also not lock the same file twice
            if (!c.refusesConflicts() && (rwHeld || roHeld)) mc::discard();
            const bool expect = !conflict && (op == 0 || m.content.count(k));
            m.trail += mc::Str() << (op ? " ro('" : " rw('") << keys[k] << "')";
            try {
                auto d = op == 0 ? c.rw(keys[k]) : c.ro(keys[k]);
                mc::check(expect, m.trail + " was granted");
                const auto p = d->path();
                check_inside(p, c.root(), keys[k]);
                const auto s = read_content(p);
                mc::check(s == (m.content.count(k) ? m.content[k] : ""), m.trail + " has content '" + s + "'");
                if (op == 0) {
                    const auto w = "v" + std::to_string(++m.written);
                    write_content(p, w);
                    m.content[k] = w;
                }
                m.handles.push_back({std::move(d), k, op == 0, p});
            } catch (const NoSuchKey&) {
                mc::check(!expect, m.trail + " was refused");
                m.trail += "=refused";
            }
        } else if (op == 2) {
            if (m.handles.empty()) mc::discard();
            const int i = mc::choose((int)m.handles.size(), "handle");
            m.trail += " release('" + keys[m.handles[i].key] + "')";
            m.handles.erase(m.handles.begin() + i);
        } else if (op == 3) {
            m.trail += " cleanup";
            if (!c.cleanup()) mc::discard();
            std::set<int> held;
            for (auto& h : m.handles) held.insert(h.key);
            for (auto it = m.content.begin(); it != m.content.end();) it = held.count(it->first) ? std::next(it) : m.content.erase(it);
            int dirs = 0;
            for (auto& e : fs::directory_iterator(c.root())) dirs += e.is_directory();
            mc::check(dirs == (int)held.size(), mc::Str() << m.trail << ": " << dirs << " directories are left while " << held.size() << " are owned");
        } else {
            m.trail += " reopen";
            c.reopen();
        }
        verify(m, c, keys);
    }
    mc::outcome_hash(std::hash<std::string>()(m.trail));
}

void persistent_sequences(int depth)
{
    mc::clear_scratch();
    Persistent c;
    sequences(c, {"a", "b/c"}, depth);
}
void temporary_sequences(int depth)
{
    mc::clear_scratch();
    Temporary c;
    sequences(c, {"a", "b/c"}, depth);
}
void key_pairs(bool temporary, int depth)
{
    mc::clear_scratch();
    auto& k = all_keys();
    const int n = k.size();
    const int i = mc::choose(n, "first key");
    const int j = mc::choose(n, "second key");
    if (i >= j) mc::discard();
    std::unique_ptr<Client> c;
    if (temporary) c = std::make_unique<Temporary>();
    else c = std::make_unique<Persistent>();
    // content next to the cache is none of its business
    fs::create_directories(mc::scratch() + "/x");
    write_content(mc::scratch() + "/x", "mine");
    sequences(*c, {k[i], k[j]}, depth);
    mc::check(read_content(mc::scratch() + "/x") == "mine", "the cache touched something outside");
    mc::check(fs::is_directory(mc::scratch()), "the cache's parent directory is gone");
}

// Handles keep a temporary cache's directories alive, and nothing is left in the end.
void temporary_lifetime()
{
    mc::clear_scratch();
    Temporary c;
    std::vector<std::pair<std::unique_ptr<AnyDir>, std::string>> h;
    const int n = mc::choose(4, "number of handles");
    for (int i = 0; i < n; ++i) {
        const auto key = "k" + std::to_string(i);
        auto d = c.rw(key);
        write_content(d->path(), key);
        if (mc::choose(2, "read-only later")) {
            d.reset();
            d = c.ro(key);
        }
        h.emplace_back(std::move(d), key);
        mc::transition();
    }
    c.c.reset();
    while (!h.empty()) {
        for (auto& x : h) mc::check(read_content(x.first->path()) == x.second, "an owned directory disappeared with its cache");
        h.erase(h.begin() + mc::choose((int)h.size(), "release"));
        mc::transition();
    }
    for (auto& e : fs::directory_iterator(mc::scratch())) mc::check(e.path().filename() == "bystander", "a temporary cache left something behind");
}

// What others have put into a persistent cache's root is left alone unless it looks like the cache's own.
void foreign_content()
{
    mc::clear_scratch();
    Persistent c;
    const auto r = c.root();
    static const char* names[] = {"notes.txt", "dir", "data", "x.data.txt", "datax.dat"};
    const int set = mc::choose(32, "foreign files");
    for (int i = 0; i < 5; ++i)
        if (set >> i & 1) {
            if (i == 1) fs::create_directories(r + "/dir");
            else write_content((fs::create_directories(r + "/tmpd"), r + "/tmpd"), "x"), fs::rename(r + "/tmpd/content", r + "/" + names[i]), fs::remove(r + "/tmpd");
        }
    auto d = c.rw("a");
    write_content(d->path(), "v");
    const bool held = mc::choose(2, "held");
    if (!held) d.reset();
    c.cleanup();
    mc::transition(2);
    for (int i = 0; i < 5; ++i)
        if (set >> i & 1) mc::check(fs::exists(r + "/" + names[i]), std::string("cleaning up removed ") + names[i]);
    if (held) mc::check(read_content(d->path()) == "v", "cleaning up removed an owned directory");
    else {
        try {
            c.ro("a");
            mc::fail("cleaning up left an unused directory");
        } catch (const NoSuchKey&) { }
    }
}
#endif
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C22";
    s.assumptions = {"two copies of the library in one process stand for two processes; POSIX file locks are modelled by the engine", "callers hold at most one handle when they ask for another one which conflicts with somebody else's, as a thread which waits while it owns something may deadlock with another"};
    const bool th = mc::thorough();
#ifdef MC_SCHED
    auto add = [&](const char* name, std::function<void()> f, int q, int t, bool fsp = false) {
        auto& x = s.add(name, std::move(f));
        x.sched = true;
        x.unlock_points = true;
        x.fs_points = fsp;
        x.bound = th ? t : q;
    };
    add("two", [] { race(2, 1, 1); }, 2, 4, true);
    add("renewed_by_another", renewed_by_another, 2, 3);
    add("two_keys", [] { race(2, 1, 2); }, 1, 3, true);
    add("three", [] { race(3, 1, 1); }, 1, 3);
    add("two_twice", [] { race(2, 2, 1); }, 1, 2);
    add("renewed", renewed, 2, 3);
    add("three_keys", [] { race(3, 1, 2); }, 0, 2);
#else
    s.add("persistent_sequences", [th] { persistent_sequences(th ? 8 : 6); });
    s.add("temporary_sequences", [th] { temporary_sequences(th ? 8 : 6); });
    s.add("key_pairs_persistent", [th] { key_pairs(false, th ? 4 : 3); });
    s.add("key_pairs_temporary", [th] { key_pairs(true, th ? 4 : 3); });
    s.add("temporary_lifetime", temporary_lifetime);
    s.add("foreign_content", foreign_content);
#endif
}
