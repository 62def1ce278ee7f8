// Reference implementation of RFC 3986 5.2, written from the text of the standard.
#pragma once
#include <deque>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace rfc3986
{
using O = std::optional<std::string>;
inline std::optional<std::string_view> view(const O& o) { return o ? std::optional<std::string_view>(*o) : std::nullopt; }
inline O opt(std::optional<std::string_view> v) { return v ? O(std::string(*v)) : O(); }

/// RFC 3986 5.2.4, on whole segments. Each output element is a segment with the slash before it, if any.
inline std::string no_dots(std::string in)
{
    std::deque<std::string> out;
    auto has = [&](const char* p) { return in.compare(0, std::string(p).size(), p) == 0; };
    while (!in.empty()) {
        if (has("../")) in = in.substr(3); // A
        else if (has("./")) in = in.substr(2);
        else if (has("/./")) in = in.substr(2); // B
        else if (in == "/.") in = "/";
        else if (has("/../") || in == "/..") { // C
            in = in == "/.." ? "/" : in.substr(3);
            if (!out.empty()) out.pop_back();
        } else if (in == "." || in == "..") in = ""; // D
        else { // E
            const auto e = in.find('/', 1);
            out.push_back(in.substr(0, e));
            in = e == in.npos ? "" : in.substr(e);
        }
    }
    std::string r;
    for (auto& s : out) r += s;
    return r;
}

struct Parts
{
    O scheme, authority;
    std::string path;
    O query, fragment;
    std::string text() const
    {
        std::string r;
        if (scheme) r += *scheme + ":";
        if (authority) r += "//" + *authority;
        r += path;
        if (query) r += "?" + *query;
        if (fragment) r += "#" + *fragment;
        return r;
    }
};
inline Parts resolved(const Parts& b, const Parts& r) // RFC 3986 5.2.2
{
    Parts t;
    if (r.scheme) t = {r.scheme, r.authority, no_dots(r.path), r.query, {}};
    else if (r.authority) t = {b.scheme, r.authority, no_dots(r.path), r.query, {}};
    else if (r.path.empty()) t = {b.scheme, b.authority, b.path, r.query ? r.query : b.query, {}};
    else if (r.path[0] == '/') t = {b.scheme, b.authority, no_dots(r.path), r.query, {}};
    else {
        std::string m = b.authority && b.path.empty() ? "/" + r.path : (b.path.find('/') == std::string::npos ? "" : b.path.substr(0, b.path.rfind('/') + 1)) + r.path;
        t = {b.scheme, b.authority, no_dots(m), r.query, {}};
    }
    t.fragment = r.fragment;
    return t;
}

inline std::vector<std::string> strings(const std::string& al, int len, std::string first = "")
{
    std::vector<std::string> v{first};
    for (std::size_t i = 0; i < v.size(); ++i)
        if ((int)v[i].size() < len)
            for (char c : al) v.push_back(v[i] + c);
    return v;
}

/// Whether text has only one reading.
inline bool clear(const Parts& p)
{
    if (p.authority && !p.path.empty() && p.path[0] != '/') return false;
    if (!p.authority && p.path.substr(0, 2) == "//") return false;
    if (!p.scheme && !p.authority && p.path.substr(0, p.path.find('/')).find(':') != std::string::npos) return false;
    return true;
}
} // namespace rfc3986
