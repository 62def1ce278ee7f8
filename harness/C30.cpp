// C30: temporary directories are unique and removed exactly with their owner.
#include "mc.hpp"
#include "cosim/utility/filesystem.hpp"
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace
{
namespace fs = std::filesystem;
using cosim::utility::temp_dir;

/// All directories with a mark in them, anywhere below the scratch directory
std::set<std::string> marked()
{
    std::set<std::string> r;
    for (auto& e : fs::recursive_directory_iterator(mc::scratch()))
        if (e.path().filename() == "mark") r.insert(e.path().parent_path().string());
    return r;
}
void fill(const std::string& dir)
{
    std::ofstream(dir + "/mark") << dir;
    fs::create_directories(dir + "/a/b");
    std::ofstream(dir + "/a/b/file") << "x";
    fs::create_symlink("/", dir + "/a/root");
    fs::create_symlink(mc::scratch() + "/keep", dir + "/a/keep");
}

void histories(int depth)
{
    mc::clear_scratch();
    const auto root = mc::scratch();
    fs::create_directories(root + "/tmp");
    fs::create_directories(root + "/abs");
    fs::create_directories(root + "/keep");
    std::ofstream(root + "/keep/file") << "kept";
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);

    constexpr int N = 3;
    std::optional<temp_dir> obj[N];
    std::string owns[N]; // "" if nothing
    std::set<std::string> ever;
    std::string trail;
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(5, "create, destroy, move construct, move assign, end");
        if (op == 4) break;
        std::vector<int> used, unused;
        for (int x = 0; x < N; ++x) (obj[x] ? used : unused).push_back(x);
        auto& from = op == 0 ? unused : used;
        if (from.empty()) mc::discard();
        const int i = op == 0 ? from[0] : mc::pick(from, "object"); // objects are interchangeable
        mc::transition();
        if (op == 0) {
            const int where = mc::choose(ever.size() < 2 ? 5 : 2, "parent: none, relative, relative nested, absolute, absolute and new");
            static const char* rel[] = {"", "rel", "rel/sub"};
            const std::string parent = where < 3 ? rel[where] : root + (where == 3 ? "/abs" : "/abs/new/er");
            obj[i].emplace(parent);
            const auto p = obj[i]->path().string();
            trail += mc::Str() << " create(" << i << ",'" << (where < 3 ? parent : "abs") << "')";
            mc::check(fs::is_directory(p) && fs::is_empty(p), trail + ": there is no new empty directory");
            mc::check(ever.insert(fs::canonical(p).string()).second, trail + ": a directory was used twice");
            const auto expected = where == 0 ? root + "/tmp" : where < 3 ? root + "/tmp/" + parent : parent;
            mc::check(fs::canonical(fs::path(p).parent_path()) == fs::canonical(expected), trail + ": created in " + p);
            owns[i] = fs::canonical(p).string();
            fill(p);
        } else if (op == 1) {
            obj[i].reset();
            owns[i].clear();
            trail += mc::Str() << " destroy(" << i << ")";
        } else {
            auto& to = op == 2 ? unused : used;
            if (to.empty()) mc::discard();
            const int j = op == 2 ? to[0] : mc::pick(to, "to");
            trail += mc::Str() << (op == 2 ? " construct(" : " assign(") << j << " from " << i << ")";
            if (op == 2) {
                obj[j].emplace(std::move(*obj[i]));
            } else {
                *obj[j] = std::move(*obj[i]);
            }
            if (i != j) {
                owns[j] = owns[i];
                owns[i].clear();
            }
        }
        std::set<std::string> expected;
        for (int x = 0; x < N; ++x) {
            if (!owns[x].empty()) expected.insert(owns[x]);
            if (!obj[x]) continue;
            if (owns[x].empty()) mc::check(obj[x]->path().empty(), mc::Str() << trail << ": object " << x << " owns nothing but has a path");
            else {
                mc::check(obj[x]->path() == owns[x], mc::Str() << trail << ": object " << x << " has lost its directory");
                mc::check(fs::exists(owns[x] + "/a/b/file"), mc::Str() << trail << ": the contents of the directory of object " << x << " are gone");
            }
        }
        mc::check(marked() == expected, trail + ": the directories which exist are not those which are owned");
        for (auto& e : ever)
            if (!expected.count(e)) mc::check(!fs::exists(e), trail + ": a directory has been left behind");
        mc::check(fs::exists(root + "/keep/file"), trail + ": something outside was removed");
    }
    for (auto& o : obj) o.reset();
    mc::check(marked().empty(), trail + ": a directory has been left behind in the end");
    for (auto& e : ever) mc::check(!fs::exists(e), trail + ": a directory has been left behind in the end");
    mc::check(fs::exists(root + "/keep/file") && fs::is_directory(root + "/abs") && fs::is_directory(root + "/tmp"), trail + ": something else was removed");
    mc::outcome_hash(std::hash<std::string>()(trail));
}

void failures()
{
    // A directory which cannot be created: an exception, nothing else
    mc::clear_scratch();
    const auto root = mc::scratch();
    fs::create_directories(root + "/tmp");
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    std::ofstream(root + "/file") << "x";
    mc::transition();
    bool threw = false;
    try {
        temp_dir d(root + "/file/sub");
    } catch (const std::exception&) {
        threw = true;
    }
    mc::check(threw, "a temporary directory inside a file");
    mc::check(fs::is_regular_file(root + "/file"), "the file is gone");
    // removed by somebody else in the meantime
    {
        temp_dir d;
        fs::remove_all(d.path());
    }
    mc::check(fs::is_empty(root + "/tmp"), "something was left");
}

#ifndef MC_SCHED
// Several processes at once, after some have already been made
void processes(int max)
{
    mc::clear_scratch();
    const auto root = mc::scratch();
    fs::create_directories(root + "/tmp");
    fs::create_directories(root + "/abs");
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    const std::string parents[] = {"", "rel", root + "/abs"};
    const auto parent = parents[mc::choose(3, "parent")];
    const int before = mc::choose(max, "made before"), children = 2 + mc::choose(2, "processes"), each = 1 + mc::choose(max, "made by each");
    std::vector<temp_dir> mine;
    std::set<std::string> all;
    for (int i = 0; i < before; ++i) {
        mine.emplace_back(parent);
        mc::check(all.insert(mine.back().path().string()).second, "a directory was used twice");
    }
    std::vector<pid_t> pids;
    for (int c = 0; c < children; ++c) {
        const auto pid = fork();
        mc::check(pid >= 0, "cannot fork");
        if (!pid) {
            std::ofstream list(root + "/list" + std::to_string(c));
            std::vector<temp_dir> d;
            for (int i = 0; i < each; ++i) {
                d.emplace_back(parent);
                list << d.back().path().string() << "\n";
            }
            list.flush();
            std::ofstream(root + "/done" + std::to_string(c)) << "x";
            // all of them own their directories at the same time
            for (;; usleep(200))
                if (fs::exists(root + "/go")) break;
            d.clear();
            _exit(list ? 0 : 1);
        }
        pids.push_back(pid);
    }
    for (int c = 0; c < children; ++c)
        for (int n = 0; !fs::exists(root + "/done" + std::to_string(c)); ++n) {
            mc::check(n < 100000, "a process did not get its directories");
            usleep(200);
        }
    std::string twice;
    int n = before;
    for (int c = 0; c < children; ++c) {
        std::ifstream list(root + "/list" + std::to_string(c));
        for (std::string l; std::getline(list, l); ++n)
            if (!all.insert(l).second || !fs::is_directory(l)) twice = l;
    }
    std::ofstream(root + "/go") << "x";
    bool ok = true;
    for (auto p : pids) {
        int st = 0;
        waitpid(p, &st, 0);
        ok = ok && WIFEXITED(st) && WEXITSTATUS(st) == 0;
    }
    mc::transition(n);
    mc::check(twice.empty(), "two processes had the same directory");
    mc::check(ok, "a process failed");
    mc::check(n == before + children * each, "a process did not get all its directories");
    for (auto& d : mine) mc::check(fs::is_directory(d.path()), "a directory was removed by another process");
    for (auto& a : all) {
        bool own = false;
        for (auto& d : mine) own = own || d.path() == a;
        mc::check(own == fs::exists(a), own ? "a directory was removed by another process" : "a directory has been left behind by a process");
    }
}

// A great number of them at the same time
void many(int n)
{
    mc::clear_scratch();
    const auto root = mc::scratch();
    fs::create_directories(root + "/tmp");
    fs::create_directories(root + "/abs");
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    const std::string parents[] = {"", "rel", root + "/abs"};
    const auto parent = parents[mc::choose(3, "parent")];
    {
        std::vector<temp_dir> all;
        std::set<std::string> paths;
        for (int i = 0; i < n; ++i) {
            all.emplace_back(parent);
            mc::check(paths.insert(all.back().path().string()).second, mc::Str() << "after " << i << " a directory was used twice");
        }
        mc::transition(n);
    }
    for (auto& e : fs::recursive_directory_iterator(root)) mc::check(fs::is_directory(e) && (e.path().filename() == "tmp" || e.path().filename() == "abs" || e.path().filename() == "rel"), "a directory was left behind");
}
#endif

#ifdef MC_SCHED
void threads()
{
    mc::quiet(true);
    mc::clear_scratch();
    const auto root = mc::scratch();
    fs::create_directories(root + "/tmp");
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    mc::quiet(false);
    const int n = 3;
    std::string path[n];
    std::thread t[n];
    for (int i = 0; i < n; ++i)
        t[i] = std::thread([&, i] {
            temp_dir d(i == 2 ? "" : "rel");
            mc::quiet(true);
            path[i] = d.path().string();
            std::ofstream(path[i] + "/mark") << i;
            mc::quiet(false);
            mc::point();
            temp_dir e(std::move(d));
            mc::quiet(true);
            std::ifstream f(path[i] + "/mark");
            int k = -1;
            f >> k;
            mc::check(k == i, "the directory of one thread was removed or used by another one");
            mc::quiet(false);
        });
    for (auto& x : t) x.join();
    mc::transition(n);
    for (int i = 0; i < n; ++i) {
        mc::check(!fs::exists(path[i]), "a directory has been left behind");
        for (int j = 0; j < i; ++j) mc::check(path[i] != path[j], "two threads had the same directory");
    }
}
#endif
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C30";
    s.assumptions = {"random UUIDs do not repeat"};
    const bool th = mc::thorough();
#ifdef MC_SCHED
    auto& x = s.add("threads", threads);
    x.sched = true;
    x.fs_points = true;
    x.bound = th ? 3 : 2;
#else
    // those first which show reproducibly that names are not unique
    s.add("processes", [th] { processes(th ? 6 : 3); });
    s.add("many", [th] { many(th ? 100000 : 20000); });
    s.add("histories", [th] { histories(th ? 6 : 5); });
    s.add("failures", failures);
#endif
}
