// C25: archives are unpacked faithfully and only inside the target directory.
#include "mc.hpp"
#include "cosim/utility/zip.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>
#include <zlib.h>

// --- fault injection: the k'th call of the following functions fails while armed ---------------------------
namespace
{
struct Faults
{
    bool armed = false;
    int at = -1;     // which call fails (-1: none, just count)
    int kind = 0;    // 0: error, 1: other error, 2: partial, 3: interrupted
    int count = 0;
    std::vector<char> seen; // w(rite) r(ead) o(pen) c(lose) m(kdir)
    bool fired = false;
} faults;
/// Is this call the one to fail?
bool hit(char what)
{
    if (!faults.armed) return false;
    faults.seen.push_back(what);
    if (faults.count++ != faults.at) return false;
    faults.fired = true;
    return true;
}
bool regular(int fd)
{
    struct stat st;
    return fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
template<typename F>
F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
} // namespace

extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (faults.armed && regular(fd) && hit('w')) {
        if (faults.kind == 2) return syscall(SYS_write, fd, p, (n + 1) / 2);
        errno = faults.kind == 3 ? EINTR : faults.kind == 1 ? EIO : ENOSPC;
        return -1;
    }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n)
{
    if (faults.armed && regular(fd) && hit('w')) {
        if (faults.kind == 2) return syscall(SYS_write, fd, v[0].iov_base, (v[0].iov_len + 1) / 2);
        errno = faults.kind == 3 ? EINTR : faults.kind == 1 ? EIO : ENOSPC;
        return -1;
    }
    return syscall(SYS_writev, fd, v, n);
}
extern "C" int mkdir(const char* path, mode_t mode)
{
    if (hit('m')) {
        errno = faults.kind == 1 ? EACCES : ENOSPC;
        return -1;
    }
    return syscall(SYS_mkdir, path, mode);
}
extern "C" FILE* fopen(const char* path, const char* mode)
{
    if (hit('o')) {
        errno = faults.kind == 1 ? EACCES : ENOSPC;
        return nullptr;
    }
    static auto f = real<FILE* (*)(const char*, const char*)>("fopen");
    return f(path, mode);
}
extern "C" FILE* fopen64(const char* path, const char* mode)
{
    if (hit('o')) {
        errno = faults.kind == 1 ? EACCES : ENOSPC;
        return nullptr;
    }
    static auto f = real<FILE* (*)(const char*, const char*)>("fopen64");
    return f(path, mode);
}
extern "C" int fclose(FILE* s)
{
    static auto f = real<int (*)(FILE*)>("fclose");
    const bool bad = hit('c');
    const int r = f(s);
    if (!bad) return r;
    errno = faults.kind == 1 ? EIO : ENOSPC;
    return EOF;
}
extern "C" size_t fread(void* p, size_t size, size_t n, FILE* s)
{
    static auto f = real<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
    if (hit('r')) {
        if (faults.kind == 0) s->_flags |= 0x20; // ferror(s); otherwise: the file has become shorter
        errno = EIO;
        return 0;
    }
    return f(p, size, n, s);
}

namespace
{
namespace fs = std::filesystem;
using namespace cosim::utility::zip;

// --- our own archive writer ----------------------------------------------------------------------------
struct Entry
{
    std::string name, data;
    bool deflated = false, utf8 = false;
    unsigned attributes = 0; // external attributes (unix mode in the upper half)
    std::string shown = {};  // the name in UTF-8, if different
    const std::string& text() const { return shown.empty() ? name : shown; }
};
void le(std::string& s, unsigned long v, int bytes)
{
    while (bytes--) {
        s += static_cast<char>(v & 255);
        v >>= 8;
    }
}
std::string deflated(const std::string& d)
{
    z_stream z = {};
    deflateInit2(&z, 9, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
    std::string r(compressBound(d.size()) + 16, 0);
    z.next_in = (Bytef*)d.data();
    z.avail_in = d.size();
    z.next_out = (Bytef*)r.data();
    z.avail_out = r.size();
    deflate(&z, Z_FINISH);
    r.resize(z.total_out);
    deflateEnd(&z);
    return r;
}
std::string archive_bytes(const std::vector<Entry>& es, const std::string& comment = "")
{
    std::string body, dir;
    for (auto& e : es) {
        const auto packed = e.deflated ? deflated(e.data) : e.data;
        const auto crc = crc32(0, (const Bytef*)e.data.data(), e.data.size());
        std::string common;
        le(common, 20, 2);
        le(common, e.utf8 ? 0x800 : 0, 2);
        le(common, e.deflated ? 8 : 0, 2);
        le(common, 0x6000, 2);
        le(common, 0x5321, 2);
        le(common, crc, 4);
        le(common, packed.size(), 4);
        le(common, e.data.size(), 4);
        le(common, e.name.size(), 2);
        le(common, 0, 2);
        const auto offset = body.size();
        le(body, 0x04034b50, 4);
        body += common + e.name + packed;
        le(dir, 0x02014b50, 4);
        le(dir, e.attributes ? 0x031e : 20, 2);
        dir += common;
        le(dir, 0, 2);
        le(dir, 0, 2);
        le(dir, 0, 2);
        le(dir, e.attributes, 4);
        le(dir, offset, 4);
        dir += e.name;
    }
    std::string end;
    le(end, 0x06054b50, 4);
    le(end, 0, 4);
    le(end, es.size(), 2);
    le(end, es.size(), 2);
    le(end, dir.size(), 4);
    le(end, body.size(), 4);
    le(end, comment.size(), 2);
    return body + dir + end + comment;
}
void spit(const std::string& path, const std::string& data)
{
    std::ofstream f(path, std::ios::binary);
    f << data;
}
std::string slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}

// --- what is on disk -----------------------------------------------------------------------------------
using Tree = std::map<std::string, std::string>; // path -> "d", or "f" + contents, or "l" + target
Tree snapshot(const std::string& root, const std::string& without = "")
{
    Tree t;
    for (auto it = fs::recursive_directory_iterator(root); it != fs::recursive_directory_iterator(); ++it) {
        const auto p = it->path().string();
        if (p == without) {
            it.disable_recursion_pending();
            continue;
        }
        const auto st = fs::symlink_status(p);
        auto& v = t[p.substr(root.size() + 1)];
        v = fs::is_directory(st) ? "d" : fs::is_symlink(st) ? "l" + fs::read_symlink(p).string()
                                                            : "f" + slurp(p);
    }
    return t;
}
std::string show(const std::string& s)
{
    std::string r;
    for (unsigned char c : s.size() > 60 ? s.substr(0, 60) + "..." : s) {
        if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else {
            r += c;
        }
    }
    return r;
}
std::string show(const Tree& t)
{
    std::string r;
    for (auto& [p, v] : t) r += " " + show(p) + "=" + show(v);
    return "{" + r + " }";
}
std::string show(const std::vector<Entry>& es)
{
    std::string r;
    for (auto& e : es) {
        r += mc::Str() << " '" << show(e.name) << "'(" << e.data.size() << (e.deflated ? " deflated)" : ")");
    }
    return "archive with" + r;
}

enum Class
{
    ok,      // must be created
    evil,    // must be refused
    unclear  // must only stay inside
};
Class classify(const std::string& n)
{
    if (n.empty()) return unclear;
    if (n[0] == '/') return evil;
    bool odd = false;
    std::string part;
    std::vector<std::string> at = {"a", "b", "target"};
    const bool dir = n.back() == '/';
    for (std::size_t i = 0; i <= n.size(); ++i) {
        if (i < n.size() && n[i] != '/') {
            part += n[i];
            continue;
        }
        if (part == "..") {
            odd = true;
            at.pop_back();
        } else if (part == "." || (part.empty() && !(dir && i == n.size()))) {
            odd = true;
        } else if (!part.empty()) {
            at.push_back(part);
        }
        part.clear();
    }
    if (at.size() < 3 || at[0] != "a" || at[1] != "b" || at[2] != "target") return evil;
    return odd ? unclear : ok;
}

/// What a faithful extraction of benign entries makes of `t`; false if entries cannot coexist
bool expected(Tree& t, const std::vector<Entry>& es)
{
    for (auto& e : es) {
        auto n = e.text();
        const bool dir = n.back() == '/';
        if (dir) n.pop_back();
        for (std::size_t i = n.find('/'); i != std::string::npos; i = n.find('/', i + 1)) {
            auto& v = t[n.substr(0, i)];
            if (v.empty()) v = "d";
            if (v != "d") return false;
        }
        auto& v = t[n];
        if (dir) {
            if (v.empty()) v = "d";
            if (v != "d") return false;
        } else {
            if (v == "d") return false;
            v = "f" + e.data;
        }
    }
    return true;
}

struct Place
{
    std::string root, target, zip;
};
Place prepare()
{
    mc::clear_scratch();
    Place p;
    p.root = mc::scratch() + "/world";
    fs::create_directories(p.root + "/outside/d");
    fs::create_directories(p.root + "/a/b/target");
    spit(p.root + "/outside/x", "keep x");
    spit(p.root + "/x", "keep x too");
    spit(p.root + "/a/x", "keep a/x");
    spit(p.root + "/a/b/x", "keep a/b/x");
    p.target = p.root + "/a/b/target";
    p.zip = mc::scratch() + "/in.zip";
    return p;
}

void judge(const Place& p, const std::vector<Entry>& es, const Tree& before, const Tree& inside, const std::string& targetText)
{
    const auto what = show(es);
    spit(p.zip, archive_bytes(es));
    std::string thrown;
    try {
        archive a(p.zip);
        mc::check(a.entry_count() == es.size(), what + ": entry_count()");
        for (std::size_t i = 0; i < es.size(); ++i) {
            mc::check(a.entry_name(i) == es[i].text(), what + ": entry_name(" + std::to_string(i) + ") is " + a.entry_name(i));
            const auto& n = es[i].name;
            const bool isDir = !n.empty() && n.back() == '/' && es[i].data.empty();
            mc::check(a.is_dir_entry(i) == isDir, what + ": is_dir_entry(" + std::to_string(i) + ")");
            if (!n.empty()) {
                const auto k = a.find_entry(es[i].text());
                mc::check(k < es.size() && es[k].text() == es[i].text(), what + ": find_entry(" + n + ")");
            }
        }
        mc::check(a.find_entry("nope") == invalid_entry_index, what + ": finds 'nope'");
        a.extract_all(targetText);
    } catch (const std::exception& e) {
        thrown = e.what();
        if (thrown.empty()) thrown = "?";
    }
    mc::transition();
    const auto after = snapshot(p.root, p.target);
    mc::check(after == before, what + ": outside of the target directory there is now " + show(after));
    mc::check(fs::is_directory(fs::symlink_status(p.target)), what + ": the target directory is gone");
    bool anyEvil = false, anyUnclear = false;
    for (auto& e : es) {
        const auto c = classify(e.name);
        anyEvil |= c == evil;
        anyUnclear |= c == unclear;
        anyEvil |= !e.name.empty() && e.name.back() == '/' && !e.data.empty(); // there is no faithful result
    }
    if (anyEvil) mc::check(!thrown.empty(), what + ": was not refused");
    mc::outcome(mc::Str() << anyEvil << anyUnclear << thrown.empty());
    if (anyEvil || anyUnclear) return;
    Tree want = inside;
    if (!expected(want, es)) {
        mc::check(!thrown.empty(), what + ": one of its entries cannot have been created, but there was no exception");
        return;
    }
    const auto got = snapshot(p.target);
    bool duplicates = false;
    for (std::size_t i = 0; i < es.size(); ++i)
        for (std::size_t j = 0; j < i; ++j) duplicates |= es[i].name == es[j].name;
    if (duplicates && !thrown.empty()) return;
    mc::check(thrown.empty(), what + ": was refused: " + thrown);
    mc::check(got == want, what + ": extracted " + show(got) + " instead of " + show(want));
}

const std::vector<std::string>& names()
{
    static std::vector<std::string> n;
    if (n.empty()) {
        const auto out = mc::scratch() + "/world/outside";
        n = {"f", "d/", "d/f", "d/e/f", "d/e/", "f/x", "..a", "a../..b", "...", "d/.../", "c:x", "a\\b", "..\\x", "sp ace", "-", "d/f~", "\t\n*?",
            // leading outside
            "..", "../", "../x", "../../x", "d/../../x", "d/../..", "./../x", "..//x", "d/./../../x", "d/e/../../../y", "../y/z", "../new/",
            "f/../../x", "/", out + "/x", out + "/new/y", "/" + out + "/z", out + "/n/", "../b2", "../target2/x", "../target/../x", "...//../../x",
            // not clear
            "", "./f", "d//f", "d/../y", "d/..", ".", "./", "d/./f", "d/../f", "f/..", "f/../d/f"};
    }
    return n;
}

void archives(int maxEntries, bool all)
{
    const auto p = prepare();
    std::vector<Entry> es;
    const int n = 1 + mc::choose(maxEntries, "entries");
    bool more = all;
    for (int i = 0; i < n; ++i) {
        Entry e;
        // the third entry comes from a smaller alphabet
        e.name = names()[mc::choose(i < 2 ? (int)names().size() : 30, "name")];
        const int d = mc::choose(more ? 3 : 2, "data: some or none");
        e.data = d == 1 ? "" : "data " + std::to_string(i);
        e.deflated = d == 2;
        if (!e.name.empty() && e.name.back() == '/' && d) mc::discard();
        if (!e.name.empty() && e.name.back() == '/') e.data = "";
        es.push_back(e);
    }
    judge(p, es, snapshot(p.root, p.target), {}, p.target);
}

/// Directories with data, links, special files, other encodings
void oddities()
{
    const auto p = prepare();
    std::vector<Entry> es;
    const int n = 1 + mc::choose(2, "entries");
    for (int i = 0; i < n; ++i) {
        const int k = mc::choose(14, "entry");
        Entry e;
        const auto out = p.root + "/outside";
        if (k == 0) e = {"l", out, false, false, 0120777u << 16};          // a symbolic link
        if (k == 1) e = {"l", "..", false, false, 0120777u << 16};
        if (k == 2) e = {"l/x", "evil"};
        if (k == 3) e = {"l/../x", "evil"};
        if (k == 4) e = {"d/", "data in a directory"};
        if (k == 5) e = {"d/", "", false, false, 040755u << 16};
        if (k == 6) e = {"d/f", "executable", true, false, 0100755u << 16};
        if (k == 7) e = {"\xc3\xa9", "utf-8", false, true};
        if (k == 8) e = {"\x82", "cp437", false, false, 0, "\xc3\xa9"};
        if (k == 9) e = {"p", "", false, false, 010644u << 16};             // a pipe
        if (k == 10) e = {"dev", "", false, false, 020644u << 16};
        if (k == 11) e = {"d", "not a directory", false, false, 040755u << 16};
        if (k == 12) e = {"hidden", "x", false, false, 2};
        if (k == 13) e = {std::string("n\xc3\xb8/\xe2\x82\xac"), "utf-8 too", true, true};
        es.push_back(e);
    }
    if (es.size() == 2 && es[0].text() == es[1].text() && es[0].name != es[1].name) mc::discard();
    judge(p, es, snapshot(p.root, p.target), {}, p.target);
}

/// The target directory is not empty, or named in another way
void existing()
{
    const auto p = prepare();
    const int have = mc::choose(9, "what is there already");
    if (have == 1) spit(p.target + "/f", "a much longer file than the one in the archive");
    if (have == 2) spit(p.target + "/other", "kept");
    if (have == 3) fs::create_directories(p.target + "/d/e");
    if (have == 4) fs::create_directories(p.target + "/f");
    if (have == 5) spit(p.target + "/d", "a file");
    if (have == 6) {
        fs::create_directories(p.target + "/d");
        spit(p.target + "/d/f", "old");
        spit(p.target + "/d/keep", "kept");
    }
    if (have == 7) fs::remove(p.target);
    if (have == 8) {
        fs::remove(p.target);
        spit(p.target, "a file");
    }
    static const std::vector<std::vector<Entry>> all = {
        {}, {{"f", "new"}}, {{"d/", ""}}, {{"d/f", "new"}, {"f", ""}}, {{"d/e/f", "new", true}, {"d/", ""}, {"d/e/", ""}},
        {{"f", ""}, {"d/f", "1"}}, {{"f", "twice"}, {"f", "two"}}};
    const auto& es = mc::pick(all, "archive");
    static const std::vector<std::string> spell = {"", "/", "/.", "/../target", "//"};
    const auto target = p.target + mc::pick(spell, "spelling");
    if (have >= 7) {
        const auto before = snapshot(p.root);
        spit(p.zip, archive_bytes(es));
        bool thrown = false;
        try {
            archive a(p.zip);
            a.extract_all(target);
        } catch (const std::exception&) {
            thrown = true;
        }
        mc::transition();
        mc::check(thrown, show(es) + ": was extracted to something that is not a directory");
        mc::check(snapshot(p.root) == before, show(es) + ": something was changed");
        return;
    }
    judge(p, es, snapshot(p.root, p.target), snapshot(p.target), target);
}

std::string pattern(std::size_t n, int kind)
{
    std::string s(n, 'x');
    unsigned v = 12345;
    if (kind)
        for (auto& c : s) {
            v = v * 1664525u + 1013904223u;
            c = kind == 1 ? static_cast<char>(v >> 24) : "ab\0\n\xff\r\x1a"[(v >> 24) % 7];
        }
    return s;
}
/// Sizes around the buffer sizes of everything involved
void sizes()
{
    const auto p = prepare();
    static const std::vector<std::size_t> sz = {0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 200001, 1048577};
    const auto n = mc::pick(sz, "size");
    const int kind = mc::choose(3, "contents");
    const bool def = mc::choose(2, "deflated");
    const auto m = mc::pick(sz, "size of the file before");
    const std::vector<Entry> es = {{"a", pattern(m, kind), !def}, {"b", pattern(n, kind), def}, {"c", "end"}};
    judge(p, es, snapshot(p.root, p.target), {}, p.target);
}

/// extract_file_to puts one file directly into the directory
void one_file(bool two)
{
    const auto p = prepare();
    std::vector<Entry> es;
    const int n = two ? 2 : 1;
    for (int i = 0; i < n; ++i) {
        Entry e;
        e.name = mc::pick(names(), "name");
        e.data = "data " + std::to_string(i);
        e.deflated = mc::choose(2, "deflated");
        if (!e.name.empty() && e.name.back() == '/') e.data = "";
        es.push_back(e);
    }
    const int i = mc::choose(n + 1, "index");
    const int have = mc::choose(3, "nothing there, a longer file, a directory missing");
    std::string base = i < n ? es[i].name.substr(es[i].name.rfind('/') + 1) : "f";
    const bool plain = !base.empty() && base != "." && base != ".." && i < n;
    Tree want;
    if (have == 1 && plain) {
        spit(p.target + "/" + base, "this is longer than the data");
        want[base] = "fthis is longer than the data";
    }
    if (have == 2) fs::remove(p.target);
    spit(p.zip, archive_bytes(es));
    const auto before = snapshot(p.root, p.target);
    const auto what = std::string(mc::Str() << show(es) << ": extract_file_to(" << i << ")");
    bool thrown = false;
    std::string result;
    try {
        archive a(p.zip);
        result = a.extract_file_to(i, p.target).string();
    } catch (const std::exception&) {
        thrown = true;
    }
    mc::transition();
    mc::check(snapshot(p.root, p.target) == before, what + ": something outside the directory was changed");
    if (have == 2) {
        if (plain) mc::check(thrown, what + ": no exception though the directory does not exist");
        return;
    }
    if (plain) {
        want[base] = "f" + es[i].data;
        mc::check(!thrown, what + ": was refused");
        mc::check(fs::path(result) == fs::path(p.target) / base, what + " returned " + result);
    }
    if (i == n) mc::check(thrown, what + ": no exception");
    if (plain || i == n) {
        const auto got = snapshot(p.target);
        mc::check(got == want, what + ": there is " + show(got) + " instead of " + show(want));
    }
}

// --- corrupt archives -------------------------------------------------------------------------------------
std::vector<Entry> sample(int k)
{
    if (k == 0) return {{"f", "stored data"}, {"d/", ""}, {"d/gg", "deflated data data data data data", true}};
    if (k == 1) return {{"one", "1"}};
    if (k == 2) return {{"e", ""}, {"big", pattern(300, 2), true}};
    return {{"a/b/c", "abcabc"}, {"a/b/dd", std::string(70, 'z'), true}, {"\xc3\xa9", "u", false, true}};
}
void corrupt_check(const Place& p, const std::vector<Entry>& es, const std::string& bytes, const std::string& what, bool mustFail)
{
    spit(p.zip, bytes);
    const auto before = snapshot(p.root, p.target);
    bool thrown = false;
    try {
        archive a(p.zip);
        a.extract_all(p.target);
    } catch (const std::exception&) {
        thrown = true;
    }
    mc::transition();
    mc::check(snapshot(p.root, p.target) == before, what + ": something outside the directory was changed");
    mc::outcome(mc::Str() << thrown);
    if (thrown) return;
    mc::check(!mustFail, what + ": was accepted");
    std::set<std::string> contents, got;
    std::size_t files = 0, gotFiles = 0;
    for (auto& e : es) {
        if (e.name.back() == '/') {
            contents.insert(""); // the name of a directory may have become that of an empty file
            continue;
        }
        ++files;
        contents.insert(e.data);
    }
    for (auto& [path, v] : snapshot(p.target)) {
        if (v[0] != 'f') continue;
        ++gotFiles;
        mc::check(contents.count(v.substr(1)), what + ": extracted without an exception, but with contents '" + show(v.substr(1)) + "'");
        got.insert(v.substr(1));
    }
    got.insert("");
    contents.insert("");
    mc::check(got == contents && gotFiles >= files, what + ": extracted without an exception, but files are missing");
}
void corruptions(int sampleNo, int chunk)
{
    const auto es = sample(sampleNo);
    const auto bytes = archive_bytes(es, sampleNo == 1 ? "a comment" : "");
    const auto at = mc::choose((int)bytes.size(), "position");
    static const int few[] = {1, 2, 0x10, 0x80, 0xff};
    const int x = chunk ? few[mc::choose(5, "change")] : 1 + mc::choose(255, "change");
    const auto p = prepare();
    auto b = bytes;
    b[at] ^= x;
    corrupt_check(p, es, b, mc::Str() << show(es) << ", byte " << at << " xor " << x, false);
}
void truncations(int sampleNo)
{
    const auto es = sample(sampleNo);
    const auto bytes = archive_bytes(es, sampleNo == 1 ? "a comment" : "");
    const auto size = mc::choose((int)bytes.size(), "size");
    const int how = mc::choose(3, "cut off, cut out of the front, zeroes from there");
    const auto p = prepare();
    auto b = how == 1 ? bytes.substr(bytes.size() - size) : bytes.substr(0, size);
    if (how == 2) b.resize(bytes.size());
    if (how == 2 && size >= (int)bytes.rfind("PK\5\6") + 4) mc::discard(); // that is a well-formed empty archive
    corrupt_check(p, es, b, mc::Str() << show(es) << (how == 0 ? ", truncated to " : how == 1 ? ", last " : ", zero from ") << size, false);
}
/// Every change of the packed data must be noticed
void data_corruptions()
{
    std::vector<Entry> es = {{"f", pattern(mc::choose(2) ? 70000 : 40, 1), (bool)mc::choose(2, "deflated")}, {"g", "after"}};
    auto bytes = archive_bytes(es);
    const auto start = bytes.find("f") + 1;
    const auto end = bytes.find(std::string("PK\3\4"), start);
    const long n = end - start;
    const int k = mc::choose(64, "position");
    const auto at = start + (n <= 64 ? std::min<long>(k, n - 1) : k < 32 ? k * (n - 1) / 31 : (k - 32) % 8 * 8192 + (k - 32) / 8);
    if (at >= end) mc::discard();
    const int bit = mc::choose(8, "bit");
    const auto p = prepare();
    auto b = bytes;
    b[at] ^= 1 << bit;
    corrupt_check(p, es, b, mc::Str() << show(es) << ", packed data changed at " << at - start << " bit " << bit, false);
}

// --- I/O failures ------------------------------------------------------------------------------------------
void io_faults(int pairs)
{
    static const std::vector<std::vector<Entry>> all = {
        {{"f", "small"}}, {{"f", ""}, {"d/", ""}}, {{"d/e/f", "small", true}, {"g", "after"}}, {{"big", pattern(200000, 1)}, {"d/g", "after"}},
        {{"big", pattern(70000, 1), true}}, {{"b8", pattern(8191, 1)}, {"b9", pattern(8192, 1)}, {"b10", pattern(65537, 1)}}};
    const auto& es = mc::pick(all, "archive");
    const bool single = mc::choose(2, "extract_file_to");
    const int which = single ? mc::choose((int)es.size(), "index") : 0;
    if (single && es[which].name.back() == '/') mc::discard();
    const auto what = show(es);
    auto run = [&](int at, int kind) {
        const auto p = prepare();
        spit(p.zip, archive_bytes(es));
        bool thrown = false;
        {
            archive a(p.zip);
            faults = Faults();
            faults.at = at;
            faults.kind = kind;
            faults.armed = true;
            try {
                if (single) a.extract_file_to(which, p.target);
                else a.extract_all(p.target);
            } catch (const std::exception&) {
                thrown = true;
            }
            faults.armed = false;
        }
        mc::transition();
        Tree want;
        if (!single) expected(want, es);
        else want[fs::path(es[which].name).filename().string()] = "f" + es[which].data;
        const bool complete = snapshot(p.target) == want;
        return std::pair(thrown, complete);
    };
    const auto [thrown, complete] = run(-1, 0);
    mc::check(!thrown && complete, what + ": not extracted though nothing fails");
    const int n = faults.count;
    const auto calls = faults.seen;
    const int at = mc::choose(n, "failing call");
    const char c = calls[at];
    const int kind = mc::choose(c == 'w' ? 4 : 2, "kind of failure");
    const auto [thrown2, complete2] = run(at, kind);
    const std::string how = mc::Str() << what << ", call " << at << " (" << c << ") fails in way " << kind;
    mc::outcome(mc::Str() << c << kind << thrown2);
    mc::check(faults.fired, how + ": not reached again");
    if (!thrown2) {
        // partial and interrupted writes are continued
        mc::check(complete2, how + ": no exception, but the result is incomplete");
        mc::check((c == 'w' && kind >= 2) || c == 'r', how + ": no exception");
    }
    (void)pairs;
}

/// Archives that are not there, are not archives, and moved or closed archive objects
void objects()
{
    const auto p = prepare();
    const int k = mc::choose(5, "file");
    const auto es = sample(0);
    if (k == 1) spit(p.zip, "this is not an archive");
    if (k == 2) spit(p.zip, archive_bytes(es));
    if (k == 3) fs::create_directories(p.zip);
    if (k == 4) spit(p.zip, archive_bytes({}));
    const bool good = k == 2 || k == 4;
    archive a;
    mc::check(!a.is_open(), "a new archive object is open");
    bool thrown = false;
    try {
        a.open(p.zip);
    } catch (const std::exception&) {
        thrown = true;
    }
    mc::check(thrown == !good && a.is_open() == good, "open() of something else than an archive");
    if (!good) {
        a.discard();
        spit(mc::scratch() + "/good.zip", archive_bytes(es));
        a.open(mc::scratch() + "/good.zip");
        mc::check(a.entry_count() == es.size(), "entry_count() after open() failed first");
    }
    const auto count = a.entry_count();
    for (int i = 0; i < 3; ++i) {
        const int op = mc::choose(4, "move construct, move assign, discard and reopen, move to an open one");
        mc::transition();
        if (op == 0) {
            archive b(std::move(a));
            mc::check(b.is_open() && !a.is_open(), "move construction");
            a = std::move(b);
        } else if (op == 1) {
            archive b;
            b = std::move(a);
            mc::check(b.is_open() && !a.is_open(), "move assignment");
            a = std::move(b);
        } else if (op == 2) {
            a.discard();
            a.discard();
            mc::check(!a.is_open(), "open after discard()");
            a.open(good ? p.zip : mc::scratch() + "/good.zip");
        } else {
            spit(mc::scratch() + "/other.zip", archive_bytes({{"other", "x"}}));
            archive b(mc::scratch() + "/other.zip");
            b = std::move(a);
            mc::check(b.entry_count() == count && !a.is_open(), "move assignment to an open archive");
            a = std::move(b);
        }
        mc::check(a.is_open() && a.entry_count() == count, "after moves");
    }
    a.extract_all(p.target);
    Tree want;
    if (count) expected(want, es);
    mc::check(snapshot(p.target) == want, "extraction after moves");
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C25";
    s.assumptions = {
        "names with '.' or empty components, or with '..' that stay inside, may be refused or extracted anywhere inside the target directory",
        "two entries with the same name: the last one wins, or the archive is refused",
        "entries named like directories that have data must be refused",
        "damage that leaves a well-formed archive (other names, no entries at all) need not be noticed",
        "no other process changes the target directory meanwhile, and it contains no links leading outside"};
    const bool th = mc::thorough();
    s.add("archives", [th] { archives(th ? 3 : 2, th); });
    s.add("oddities", oddities);
    s.add("existing", existing);
    s.add("sizes", sizes);
    s.add("one_file", [th] { one_file(th); });
    for (int i = 0; i < 4; ++i) {
        s.add(mc::Str() << "corruptions_" << i, [i, th] { corruptions(i, th ? 0 : 1); });
        s.add(mc::Str() << "truncations_" << i, [i] { truncations(i); });
    }
    s.add("data_corruptions", data_corruptions);
    s.add("io_faults", [] { io_faults(0); });
    s.add("objects", objects);
}
