// C19: URIs are split, composed and validated per RFC 3986.
#include "mc.hpp"
#include "cosim/uri.hpp"
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
using namespace cosim;

namespace
{
using O = std::optional<std::string>;
struct Parts
{
    O scheme, authority;
    std::string path;
    O query, fragment;
    bool operator==(const Parts& o) const { return scheme == o.scheme && authority == o.authority && path == o.path && query == o.query && fragment == o.fragment; }
    std::string text() const // RFC 3986, 5.3
    {
        std::string r;
        if (scheme) r += *scheme + ":";
        if (authority) r += "//" + *authority;
        r += path;
        if (query) r += "?" + *query;
        if (fragment) r += "#" + *fragment;
        return r;
    }
    std::string str() const
    {
        auto s = [](const O& o) { return o ? "\"" + *o + "\"" : std::string("-"); };
        return "scheme " + s(scheme) + " authority " + s(authority) + " path \"" + path + "\" query " + s(query) + " fragment " + s(fragment);
    }
};
bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool scheme_chars(const std::string& s)
{
    for (char c : s)
        if (!alpha(c) && !(c >= '0' && c <= '9') && c != '+' && c != '-' && c != '.') return false;
    return true;
}
/// RFC 3986, appendix B. No result: not a URI reference.
std::optional<Parts> split(std::string s)
{
    Parts p;
    if (auto h = s.find('#'); h != s.npos) {
        p.fragment = s.substr(h + 1);
        s.resize(h);
    }
    if (auto h = s.find('?'); h != s.npos) {
        p.query = s.substr(h + 1);
        s.resize(h);
    }
    const auto colon = s.find(':');
    if (colon != s.npos && scheme_chars(s.substr(0, colon))) {
        if (!colon) return std::nullopt;
        p.scheme = s.substr(0, colon);
        s = s.substr(colon + 1);
    }
    if (s.substr(0, 2) == "//") {
        const auto e = s.find('/', 2);
        p.authority = s.substr(2, e == s.npos ? s.npos : e - 2);
        s = e == s.npos ? "" : s.substr(e);
    }
    p.path = s;
    return p;
}
O opt(std::optional<std::string_view> v) { return v ? O(std::string(*v)) : O(); }
Parts parts(const uri& u) { return {opt(u.scheme()), opt(u.authority()), std::string(u.path()), opt(u.query()), opt(u.fragment())}; }
std::optional<std::string_view> view(const O& o) { return o ? std::optional<std::string_view>(*o) : std::nullopt; }

template<typename F> std::optional<uri> made(F&& f)
{
    mc::transition();
    try {
        return f();
    } catch (const std::invalid_argument&) {
        return std::nullopt;
    } catch (const std::exception& e) {
        mc::fail(std::string("wrong type of exception: ") + e.what());
    }
}

void same(const uri& u, const std::string& s, const Parts& p, const std::string& what)
{
    mc::check(u.view() == s, what + ": text is \"" + std::string(u.view()) + "\"");
    const auto q = parts(u);
    mc::check(q == p, what + ": " + q.str() + "; should be " + p.str());
    mc::check(u.empty() == s.empty(), what + ": empty()");
}

long count;
void one_string(const std::string& s)
{
    const auto want = split(s);
    const auto what = "uri(\"" + s + "\")";
    const auto u = made([&] { return uri(s); });
    ++count;
    if (!want) {
        mc::check(!u, what + ": was accepted without a scheme before the first colon");
        return;
    }
    // RFC 3986 wants schemes to begin with a letter; whether this is enforced is not our business
    const bool odd = want->scheme && !alpha((*want->scheme)[0]);
    if (!u) {
        mc::check(odd, what + ": was refused");
        return;
    }
    same(*u, s, *want, what);
    mc::check(*u == uri(std::string_view(s)) && !(*u != uri(s)), what + ": equality");
    // and together again
    const auto& p = *want;
    const bool colon = !p.scheme && !p.authority && p.path.substr(0, p.path.find('/')).find(':') != std::string::npos;
    const auto v = made([&] { return uri(view(p.scheme), view(p.authority), p.path, view(p.query), view(p.fragment)); });
    if (!v)
        mc::check(odd || colon || (p.fragment && p.fragment->find('#') != std::string::npos), what + ": its components are refused");
    else {
        same(*v, s, p, what + " put together from its components");
        mc::check(*v == *u, what + ": put together from its components is not equal to the original");
    }
}

const std::string ALPHABET = std::string("a1:/?#._+ %@\xc3") + '\0';

void strings(int outer, int inner)
{
    std::string s;
    for (int i = 0; i < outer; ++i) s += ALPHABET[mc::choose((int)ALPHABET.size(), "character")];
    count = 0;
    // with everything up to `inner` more characters
    std::vector<std::string> layer{s};
    if (s[0] == ALPHABET[0])
        for (int n = 0; n < outer; ++n) one_string(s.substr(outer - n)); // shorter ones, too
    for (int n = 0;; ++n) {
        for (auto& x : layer) one_string(x);
        if (n == inner) break;
        std::vector<std::string> next;
        for (auto& x : layer)
            for (char c : ALPHABET) next.push_back(x + c);
        layer.swap(next);
    }
    mc::outcome(mc::Str() << count);
}

// delimiters only, longer
void delimiters(int len)
{
    const std::string al = "a:/?#";
    std::string s;
    for (int i = 0; i < 4; ++i) {
        const int c = mc::choose(6, "character or end");
        if (!c) break;
        s += al[c - 1];
    }
    std::vector<std::string> layer{s};
    for (int n = 0; n < (s.size() < 4 ? 0 : len - 4); ++n) {
        std::vector<std::string> next;
        for (auto& x : layer)
            for (char c : al) next.push_back(x + c);
        for (auto& x : next) one_string(x);
        layer.swap(next);
    }
    one_string(s);
}

void composition(int len)
{
    const std::vector<O> schemes{O(), "", "a", "aB9", "1a", "a+.-", "a_", "a:", "a/", "a%41", "\xc3", "-", std::string("a\0b", 3)};
    const std::vector<O> auths{O(), "", "h", "h:1", "u@h", "/h", "h/", "h?", "h#", "[::1]", "a//b"};
    const std::vector<O> queries{O(), "", "q", "a?b", "a/b", "#", "b#", "a:b", "a//b"};
    const std::vector<O> frags{O(), "", "f", "a#b", "a?b:/"};
    const std::string al = "a:/?#._";
    Parts p;
    p.scheme = mc::pick(schemes, "scheme");
    p.authority = mc::pick(auths, "authority");
    p.query = mc::pick(queries, "query");
    std::vector<std::string> paths{""};
    for (std::size_t i = 0; i < paths.size(); ++i)
        if ((int)paths[i].size() < len)
            for (char c : al) paths.push_back(paths[i] + c);
    paths.push_back("/long/path/with/many/characters/and/segments:");
    long ok = 0;
    for (auto& path : paths)
        for (auto& f : frags) {
            p.path = path;
            p.fragment = f;
            const bool valid = (!p.scheme || (!p.scheme->empty() && scheme_chars(*p.scheme))) && (!p.authority || p.authority->find_first_of("/?#") == std::string::npos)
                && p.path.find_first_of("?#") == std::string::npos && (!p.query || p.query->find('#') == std::string::npos);
            const auto back = split(p.text());
            const bool want = valid && back && *back == p;
            const bool odd = (p.scheme && !p.scheme->empty() && !alpha((*p.scheme)[0])) || (f && f->find('#') != std::string::npos)
                || (!p.scheme && !p.authority && p.path.substr(0, p.path.find('/')).find(':') != std::string::npos);
            const auto u = made([&] { return uri(view(p.scheme), view(p.authority), p.path, view(p.query), view(p.fragment)); });
            const auto what = p.str();
            if (u) {
                mc::check(want, what + ": was accepted");
                same(*u, p.text(), p, what);
                same(uri(std::string(u->view())), p.text(), p, what + " parsed again");
                ++ok;
            } else
                mc::check(!want || odd, what + ": was refused");
        }
    mc::outcome(mc::Str() << ok);
}

// values may be copied, moved and replaced
void lifetimes()
{
    const std::vector<std::string> texts{"", "x", "a:b", "//h", "s://h/p?q#f", "?", "#", "/p", "scheme://authority.which.is.long/and/so/is/this/path?query=long#fragment", "a:bcdefghijklmn", "a:bcdefghijklmno", "a:bcdefghijklmnop", "?0123456789012345"};
    const auto &a = mc::pick(texts, "first"), &b = mc::pick(texts, "second");
    const auto pa = *split(a), pb = *split(b);
    auto x = std::make_unique<uri>(a);
    auto y = std::make_unique<uri>(b);
    switch (mc::choose(8, "operation")) {
        case 0: { uri z(*x); x.reset(); same(z, a, pa, "copy"); break; }
        case 1: { uri z(std::move(*x)); x.reset(); same(z, a, pa, "moved"); break; }
        case 2: *y = *x; x.reset(); same(*y, a, pa, "copy assigned"); break;
        case 3: *y = std::move(*x); x.reset(); same(*y, a, pa, "move assigned"); break;
        case 4: std::swap(*x, *y); same(*x, b, pb, "swapped"); same(*y, a, pa, "swapped"); break;
        case 5: { auto& r = *x; *x = r; same(*x, a, pa, "assigned to itself"); break; }
        case 6: { std::vector<uri> v; for (int i = 0; i < 9; ++i) { v.push_back(*x); v.push_back(*y); } x.reset(); y.reset(); for (int i = 0; i < 18; ++i) same(v[i], i % 2 ? b : a, i % 2 ? pb : pa, "in a vector"); break; }
        case 7: *x = uri(); same(*x, "", Parts{}, "cleared"); same(*x = b, b, pb, "assigned text"); break;
    }
    mc::check((uri(a) == uri(b)) == (a == b) && (uri(a) != uri(b)) == (a != b), "comparison of \"" + a + "\" and \"" + b + "\"");
    mc::transition();
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C19";
    s.assumptions = {"the library checks delimiters only, not every character RFC 3986 forbids; that schemes begin with a letter is not required of it"};
    const bool th = mc::thorough();
    s.add("strings", [th] { strings(2, th ? 4 : 3); });
    s.add("delimiters", [th] { delimiters(th ? 10 : 8); });
    s.add("composition", [th] { composition(th ? 4 : 3); });
    s.add("lifetimes", lifetimes);
}
