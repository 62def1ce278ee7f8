// C20: resolution of references, percent encoding, file paths.
#include "mc.hpp"
#include "rfc3986.hpp"
#include "cosim/uri.hpp"
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
using namespace cosim;

namespace
{
using namespace rfc3986;

void one(const Parts& b, const Parts& r)
{
    if (!clear(r)) return;
    mc::transition();
    const auto t = resolved(b, r);
    const auto what = "\"" + r.text() + "\" relative to \"" + b.text() + "\"";
    std::optional<uri> u;
    try {
        u = resolve_reference(uri(b.text()), uri(r.text()));
    } catch (const std::invalid_argument&) {
        // no such URI can be written down
        mc::check(!b.scheme || !clear(t), what + ": was refused");
        return;
    }
    if (!b.scheme) mc::fail(what + ": base is not absolute");
    mc::check(u->view() == t.text(), what + " is \"" + std::string(u->view()) + "\", should be \"" + t.text() + "\"");
    if (clear(t)) {
        mc::check(opt(u->scheme()) == t.scheme && opt(u->authority()) == t.authority && u->path() == t.path && opt(u->query()) == t.query && opt(u->fragment()) == t.fragment, what + ": components");
        const uri again{std::string(u->view())};
        mc::check(opt(again.scheme()) == t.scheme && opt(again.authority()) == t.authority && again.path() == t.path && opt(again.query()) == t.query && opt(again.fragment()) == t.fragment, what + ": components after parsing");
    }
}

void resolution(int blen, int rlen)
{
    const std::vector<O> auth{O(), "", "h"};
    const std::vector<O> q{O(), "q/../x"};
    Parts b;
    b.scheme = mc::choose(8, "scheme") ? O("s") : O();
    b.authority = mc::pick(auth, "authority of base");
    b.query = mc::pick(q, "query of base");
    const auto bp = strings("a/.", blen);
    b.path = bp[mc::choose((int)bp.size(), "path of base")];
    if (!clear(b)) mc::discard();
    static const auto rp = strings("a/.", rlen);
    const bool shortRef = !b.scheme;
    long n = 0;
    for (auto& path : rp) {
        if (shortRef && path.size() > 1) break;
        ++n;
        one(b, {{}, {}, path, {}, {}});
        if (path.size() > 4) continue; // queries and fragments do not matter to longer ones
        for (auto& rq : std::vector<O>{O(), "", "y/./z"})
            for (auto& rf : std::vector<O>{O(), "", "f/../g"})
                for (auto& ra : std::vector<O>{O(), "", "k"})
                    for (auto& rs : std::vector<O>{O(), "s", "t"}) one(b, {rs, ra, path, rq, rf});
    }
    mc::outcome(mc::Str() << n);
}

// dot segments in longer paths, segment by segment
void segments(int n)
{
    const std::vector<std::string> seg{"", ".", "..", "a", "...", ".a", "%2e"};
    std::string path;
    const bool lead = mc::choose(2, "leading slash");
    std::vector<std::string> all{""};
    int k = 0;
    std::string pre;
    for (; k < 2; ++k) pre += (k ? "/" : "") + mc::pick(seg, "segment");
    std::vector<std::string> layer{pre};
    const std::vector<Parts> bases{{"s", "h", "/b/c/d", {}, {}}, {"s", {}, "/b//c/", {}, {}}, {"s", {}, "b/c", {}, {}}, {"s", "h", "", {}, {}}};
    for (;; ++k) {
        for (auto& p : layer)
            for (auto& b : bases) one(b, {{}, {}, (lead ? "/" : "") + p, {}, {}});
        if (k == n) break;
        std::vector<std::string> next;
        for (auto& p : layer)
            for (auto& s : seg) next.push_back(p + "/" + s);
        layer.swap(next);
    }
}

bool unreserved(unsigned char c) { return c < 128 && (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~'); }
int hex(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
std::string encoded(const std::string& s, const std::string& except)
{
    static const char H[] = "0123456789ABCDEF";
    std::string r;
    for (unsigned char c : s)
        if (unreserved(c) || (c && except.find((char)c) != except.npos)) r += (char)c;
        else {
            r += '%';
            r += H[c >> 4];
            r += H[c & 15];
        }
    return r;
}
std::string show(const std::string& s) { return "\"" + encoded(s, " !\"#$&'()*+,/:;<=>?@[\\]^`{|}") + "\""; }

std::optional<std::string> decode(const std::string& s)
{
    mc::transition();
    try {
        return percent_decode(s);
    } catch (const std::domain_error&) {
        return std::nullopt;
    } catch (const std::exception& e) {
        mc::fail("percent_decode(" + show(s) + ") gives " + e.what());
    }
}

void one_text(const std::string& s)
{
    for (const char* ex : {(const char*)nullptr, "", "/+", " !=", "\xff"}) {
        mc::transition();
        const auto e = percent_encode(s, ex);
        mc::check(e == encoded(s, ex ? ex : ""), "percent_encode(" + show(s) + ") is " + e);
        mc::check(decode(e) == s, "percent_decode(percent_encode(" + show(s) + ")) is something else");
    }
    // as something to decode
    std::string want;
    bool bad = false, truncated = false;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '%') want += s[i];
        else if (s.size() - i < 3) {
            truncated = true;
            want += s.substr(i);
            break;
        } else if (hex(s[i + 1]) < 0 || hex(s[i + 2]) < 0) {
            bad = true;
            break;
        } else {
            want += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2]));
            i += 2;
        }
    }
    const auto d = decode(s);
    if (bad) mc::check(!d, "percent_decode(" + show(s) + ") was accepted");
    else if (!d) mc::check(truncated, "percent_decode(" + show(s) + ") was refused");
    else mc::check(*d == want, "percent_decode(" + show(s) + ") is " + show(*d));
}

void all_bytes()
{
    const int a = mc::choose(256, "byte");
    one_text(std::string(1, (char)a));
    for (int b = 0; b < 256; ++b) {
        one_text(std::string{(char)a, (char)b});
        one_text(std::string{'%', (char)a, (char)b});
    }
    if (!a) one_text("");
}
void texts(int len)
{
    const std::string al = std::string("a%4gF/ ") + '\xff' + '\0';
    std::string pre;
    for (int i = 0; i < 2; ++i) pre += al[mc::choose((int)al.size(), "character")];
    for (auto& s : strings(al, len, pre)) one_text(s);
}

// percent_encode_uri(): the components of the result are the given ones, encoded
void encoded_uris()
{
    const std::vector<O> schemes{O(), "", "s", "a+b", "a b", "a:b", "1-2.x"};
    const std::vector<O> auths{O(), "", "h", "u:p@h+", "a/b", "a b?#", "[::1]"};
    const std::vector<O> queries{O(), "", "a=b&c;d/e:f+g", "a#b ?c%", "\xc3\xa6"};
    const std::vector<O> frags{O(), "", "x", "a#b?c/d+e", "100%"};
    const auto sc = mc::pick(schemes, "scheme"), au = mc::pick(auths, "authority"), q = mc::pick(queries, "query"), f = mc::pick(frags, "fragment");
    auto enc = [](const O& o, const char* ex) { return o ? O(encoded(*o, ex)) : O(); };
    for (auto& path : strings("/a :?#%+\xff", 3)) {
        mc::transition();
        const Parts p{enc(sc, "+"), enc(au, "@:+"), encoded(path, "/+"), enc(q, "=&;/:+"), enc(f, "")};
        const bool valid = clear(p) && (!p.scheme || (!p.scheme->empty() && p.scheme->find('%') == std::string::npos)) && (!p.authority || p.authority->find('/') == std::string::npos);
        const auto what = "percent_encode_uri() for \"" + p.text() + "\"";
        try {
            const auto u = percent_encode_uri(view(sc), view(au), path, view(q), view(f));
            mc::check(valid, what + ": was accepted");
            mc::check(u.view() == p.text(), what + " is " + std::string(u.view()));
            mc::check(opt(u.scheme()) == p.scheme && opt(u.authority()) == p.authority && u.path() == p.path && opt(u.query()) == p.query && opt(u.fragment()) == p.fragment, what + ": components");
            mc::check(percent_decode(u.path()) == path && (!q || percent_decode(*u.query()) == *q) && (!f || percent_decode(*u.fragment()) == *f) && (!au || percent_decode(*u.authority()) == *au), what + ": does not decode to what was given");
        } catch (const std::invalid_argument&) {
            const bool odd = p.scheme && !p.scheme->empty() && !std::isalpha((unsigned char)(*p.scheme)[0]);
            mc::check(!valid || odd, what + ": was refused");
        }
    }
}

void paths(int len)
{
    const std::string al = std::string("a/.% ?#:\\+4~\xff\xc3") + '\n';
    std::string pre = "/";
    for (int i = 0; i < 2; ++i) {
        const int c = mc::choose((int)al.size() + 1, "character");
        if (!c) {
            len = 0;
            break;
        }
        pre += al[c - 1];
    }
    for (auto& p : strings(al, len, pre)) {
        mc::transition();
        const cosim::filesystem::path path(p);
        const auto u = path_to_file_uri(path);
        const auto what = "path " + show(p) + " as \"" + std::string(u.view()) + "\"";
        mc::check(opt(u.scheme()) == O("file") && opt(u.authority()) == O("") && !u.query() && !u.fragment(), what + ": components");
        for (char c : u.view()) mc::check(unreserved(c) || c == '%' || c == '/' || c == '+' || c == ':', what + ": characters which are not allowed");
        const uri again{std::string(u.view())};
        mc::check(opt(again.scheme()) == O("file") && opt(again.authority()) == O("") && again.path() == u.path() && !again.query() && !again.fragment(), what + ": components after parsing");
        mc::check(file_uri_to_path(u).string() == p && file_uri_to_path(again).string() == p, what + ": converts back to " + show(file_uri_to_path(u).string()));
        mc::check(file_uri_to_path(uri("file://localhost" + std::string(u.path()))).string() == p, what + ": with host name localhost");
    }
}
void file_uris()
{
    const std::vector<O> schemes{O(), "file", "http", "fil", "files"};
    const std::vector<O> auths{O(), "", "localhost", "h", "localhost2", "localhos", "localhost:80"};
    const std::vector<std::string> ps{"", "/", "/a", "/ab", "/a%20b", "/a/%2F", "//x", "/%", "/a%4", "/%zz"};
    const auto sc = mc::pick(schemes, "scheme"), au = mc::pick(auths, "authority");
    const auto& p = mc::pick(ps, "path");
    const auto q = mc::choose(2, "query") ? O("q") : O();
    mc::transition();
    const Parts x{sc, au, p, q, {}};
    if (!clear(x)) mc::discard();
    const auto what = "file_uri_to_path(\"" + x.text() + "\")";
    try {
        const auto r = file_uri_to_path(uri(x.text()));
        mc::check(sc == O("file") && (au == O("") || au == O("localhost")), what + ": was accepted");
        mc::check(p != "/%zz", what + ": was accepted");
        if (p == "/a%20b") mc::check(r == "/a b", what);
        else if (p == "/a/%2F") mc::check(r.string() == "/a//", what);
        else mc::check(r.string() == p, what + " is " + r.string());
    } catch (const std::invalid_argument&) {
        mc::check(!(sc == O("file") && (au == O("") || au == O("localhost"))), what + ": was refused");
    } catch (const std::domain_error&) {
        mc::check(p == "/%zz" || p == "/%" || p == "/a%4", what + ": was refused");
    }
    for (auto bad : {"a", "a/b", "./a", "../a", "."}) {
        bool refused = false;
        try {
            path_to_file_uri(bad);
        } catch (const std::invalid_argument&) {
            refused = true;
        }
        mc::check(refused, std::string("relative path was accepted: ") + bad);
    }
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C20";
    s.assumptions = {"escape sequences cut off by the end of the text may be refused or left as they are"};
    const bool th = mc::thorough();
    s.add("resolution", [th] { resolution(th ? 5 : 4, th ? 8 : 6); });
    s.add("segments", [th] { segments(th ? 8 : 6); });
    s.add("all_bytes", all_bytes);
    s.add("texts", [th] { texts(th ? 6 : 5); });
    s.add("encoded_uris", encoded_uris);
    s.add("paths", [th] { paths(th ? 6 : 5); });
    s.add("file_uris", file_uris);
}
