// C29: model lookup asks resolvers in order and resolves relative references.
#include "mc.hpp"
#include "fmi_stub.hpp"
#include "rfc3986.hpp"
#include "sim.hpp"
#include "cosim/orchestration.hpp"
#include <memory>
#include <stdexcept>

namespace
{
using namespace rfc3986;
using cosim::uri;

struct Model : cosim::model
{
    int from;
    explicit Model(int f) : from(f) { }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return nullptr; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
};
struct Failure : std::runtime_error
{
    int from;
    explicit Failure(int f) : std::runtime_error("failure of " + std::to_string(f)), from(f) { }
};
/// Something which isn't an std::exception
struct Oddity
{
    int from;
};
enum Answer { NONE, MODEL, FAILURE, ODDITY, KINDS };

struct Ask
{
    int who;
    std::string text; // "base | reference" for those which handle references themselves
    bool operator==(const Ask& o) const { return who == o.who && text == o.text; }
};
std::vector<Ask>* asked = nullptr;
std::vector<int>* answer = nullptr;

std::shared_ptr<cosim::model> reply(int who, std::string text)
{
    asked->push_back({who, std::move(text)});
    switch ((*answer)[who]) {
        case MODEL: return std::make_shared<Model>(who);
        case FAILURE: throw Failure(who);
        case ODDITY: throw Oddity{who};
        default: return nullptr;
    }
}
struct Plain : cosim::model_uri_sub_resolver
{
    int who;
    explicit Plain(int w) : who(w) { }
    std::shared_ptr<cosim::model> lookup_model(const uri& u) override
    {
        // components as well as text
        std::string t;
        if (u.scheme()) t += std::string(*u.scheme()) + ":";
        if (u.authority()) t += "//" + std::string(*u.authority());
        t += std::string(u.path());
        if (u.query()) t += "?" + std::string(*u.query());
        if (u.fragment()) t += "#" + std::string(*u.fragment());
        mc::check(t == u.view(), "components " + t + " of " + std::string(u.view()));
        return reply(who, std::string(u.view()));
    }
};
/// Has its own way to handle references
struct Pairs : Plain
{
    using Plain::Plain;
    using Plain::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const uri& b, const uri& r) override { return reply(who, std::string(b.view()) + " | " + std::string(r.view())); }
};

/// Result of a lookup: index of the resolver which answered, and how
struct Result
{
    std::string how;
    int from = -1;
    bool operator==(const Result& o) const { return how == o.how && from == o.from; }
    std::string text() const { return how + " (" + std::to_string(from) + ")"; }
};
template<typename F> Result result(F f)
{
    try {
        auto m = f();
        auto p = std::dynamic_pointer_cast<Model>(m);
        return {p ? "model" : "no model", p ? p->from : -1};
    } catch (const Failure& e) {
        return {"failure", e.from};
    } catch (const Oddity& o) {
        return {"oddity", o.from};
    } catch (const std::invalid_argument&) {
        return {"invalid argument"};
    } catch (const std::runtime_error&) {
        return {"runtime error"};
    }
}
const char* const names[] = {"none", "model", "failure", "oddity"};

/// One lookup, compared with what the registered resolvers should be asked
void lookup(cosim::model_uri_resolver& r, const std::vector<int>& order, const std::vector<int>& kinds, const std::vector<int>& answers, const O& base, const Parts& ref, const std::string& context)
{
    mc::transition();
    auto ans = answers;
    std::vector<Ask> log;
    asked = &log;
    answer = &ans;
    Parts b;
    const std::string what = context + "lookup of \"" + ref.text() + "\"" + (base ? " relative to \"" + *base + "\"" : "");
    const uri ru{ref.text()};
    const auto got = base ? result([&] { return r.lookup_model(uri(*base), ru); }) : result([&] { return r.lookup_model(ru); });
    std::optional<std::string> absolute;
    if (base) {
        const uri bu{*base};
        b = {opt(bu.scheme()), opt(bu.authority()), std::string(bu.path()), opt(bu.query()), opt(bu.fragment())};
        if (b.scheme || ref.scheme) absolute = resolved(b, ref).text();
    } else if (ref.scheme)
        absolute = ref.text();
    Result expected{"runtime error"};
    std::vector<Ask> asks;
    if (!absolute) expected = {"invalid argument"};
    else
        for (int k : order) {
            asks.push_back({k, base && kinds[k] == 1 ? *base + " | " + ref.text() : *absolute});
            if (answers[k] != NONE) {
                expected = {names[answers[k]], k};
                break;
            }
        }
    mc::check(got == expected, what + " gave " + got.text() + " instead of " + expected.text());
    for (std::size_t i = 0; i < std::max(log.size(), asks.size()); ++i) {
        mc::check(i < log.size(), what + ": resolver " + std::to_string(i < asks.size() ? asks[i].who : 0) + " wasn't asked");
        mc::check(i < asks.size(), what + ": resolver " + std::to_string(log[i].who) + " was asked, too");
        mc::check(log[i] == asks[i], what + ": resolver " + std::to_string(log[i].who) + " was asked for \"" + log[i].text + "\", should be " + std::to_string(asks[i].who) + " and \"" + asks[i].text + "\"");
    }
}

/// Chains of resolvers with all answers
void order(int most)
{
    const int n = mc::choose(most + 1, "resolvers");
    cosim::model_uri_resolver r;
    std::vector<int> ord, kinds, answers;
    for (int i = 0; i < n; ++i) {
        kinds.push_back(mc::choose(2, "kind"));
        answers.push_back(mc::choose(KINDS, "answer"));
        ord.push_back(i);
        if (kinds[i]) r.add_sub_resolver(std::make_shared<Pairs>(i));
        else r.add_sub_resolver(std::make_shared<Plain>(i));
    }
    for (const O& base : {O(), O("a:/b/c"), O("b/c"), O("")})
        for (const Parts& ref : {Parts{"x", {}, "y", {}, {}}, Parts{{}, {}, "y", {}, {}}, Parts{{}, {}, "", "q", {}}, Parts{{}, "h", "/p", {}, "f"}})
            lookup(r, ord, kinds, answers, base, ref, std::to_string(n) + " resolvers: ");
    mc::outcome(mc::Str() << n << (n ? answers[0] : 9));
}

/// Resolvers which come and go between lookups
void histories(int depth)
{
    auto r = std::make_shared<cosim::model_uri_resolver>();
    std::vector<std::vector<int>> ord(2); // of r and of another resolver
    auto other = std::make_shared<cosim::model_uri_resolver>();
    std::vector<int> kinds, answers;
    std::vector<std::shared_ptr<cosim::model_uri_sub_resolver>> subs;
    std::string log;
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(8, "operation");
        switch (op) {
            case 0: return;
            case 1:
            case 2: {
                const int i = (int)kinds.size();
                kinds.push_back(op - 1);
                answers.push_back(mc::choose(3, "answer"));
                subs.push_back(op == 1 ? std::make_shared<Plain>(i) : std::make_shared<Pairs>(i));
                r->add_sub_resolver(subs.back());
                ord[0].push_back(i);
                log += mc::Str() << "add " << i << (op == 2 ? " with references " : " ") << names[answers[i]] << "; ";
                break;
            }
            case 3:
                // the same one in two resolvers, or twice in one
                if (subs.empty()) mc::discard();
                other->add_sub_resolver(subs.back());
                ord[1].push_back((int)subs.size() - 1);
                log += "add to other; ";
                break;
            case 4:
                if (subs.empty()) mc::discard();
                r->add_sub_resolver(subs.front());
                ord[0].push_back(0);
                log += "add the first one again; ";
                break;
            case 5: {
                cosim::model_uri_resolver m(std::move(*r));
                r = std::make_shared<cosim::model_uri_resolver>(std::move(m));
                log += "move; ";
                break;
            }
            case 6:
                *r = std::move(*other);
                other = std::make_shared<cosim::model_uri_resolver>();
                ord[0] = ord[1];
                ord[1].clear();
                log += "assign; ";
                break;
            case 7:
                if (answers.empty()) mc::discard();
                answers.back() = (answers.back() + 1) % KINDS;
                log += mc::Str() << "now " << names[answers.back()] << "; ";
                break;
        }
        lookup(*r, ord[0], kinds, answers, {}, {"s", "h", "/p", {}, {}}, log);
        lookup(*r, ord[0], kinds, answers, "s:/d/e", {{}, {}, "../p", {}, {}}, log);
        lookup(*r, ord[0], kinds, answers, {}, {{}, {}, "p", {}, {}}, log);
        lookup(*other, ord[1], kinds, answers, "s:/d/e", {{}, {}, "p", {}, {}}, log);
    }
    mc::outcome(mc::Str() << ord[0].size() << ord[1].size());
}

/// Forms of bases and references
void references(int blen, int rlen)
{
    static const auto bp = strings("a/.", blen), rp = strings("a/.", rlen);
    Parts b;
    b.scheme = mc::choose(4, "base not absolute") ? O("s") : O();
    b.authority = mc::pick(std::vector<O>{O(), "", "h"}, "authority");
    b.query = mc::pick(std::vector<O>{O(), "q"}, "query");
    b.path = bp[mc::choose((int)bp.size(), "path")];
    if (!clear(b)) mc::discard();
    const int kind = mc::choose(2, "kind");
    cosim::model_uri_resolver r;
    if (kind) r.add_sub_resolver(std::make_shared<Pairs>(0));
    else r.add_sub_resolver(std::make_shared<Plain>(0));
    long n = 0;
    for (auto& path : rp)
        for (auto& rs : std::vector<O>{O(), "s", "t"})
            for (auto& ra : std::vector<O>{O(), "", "k"})
                for (auto& rq : std::vector<O>{O(), "y"})
                    for (auto& rf : std::vector<O>{O(), "f"}) {
                        const Parts ref{rs, ra, path, rq, rf};
                        if (!clear(ref)) continue;
                        if (!kind && (b.scheme || rs) && !clear(resolved(b, ref))) continue; // cannot be written down
                        lookup(r, {0}, {kind}, {MODEL}, b.text(), ref, "");
                        ++n;
                    }
    mc::outcome(std::to_string(n));
}

struct TestFmu : cosim::fmi::fmu
{
    std::shared_ptr<cosim::model_description> d = std::make_shared<cosim::model_description>();
    cosim::fmi::fmi_version fmi_version() const override { return cosim::fmi::fmi_version::v2_0; }
    std::shared_ptr<const cosim::model_description> model_description() const override { return d; }
    std::shared_ptr<cosim::fmi::slave_instance> instantiate_slave(std::string_view n) override
    {
        last = std::string(n);
        return nullptr;
    }
    std::shared_ptr<cosim::fmi::importer> importer() const override { return nullptr; }
    std::string last = "none";
};
struct NullCache : cosim::file_cache
{
    std::unique_ptr<directory_rw> get_directory_rw(std::string_view) override { return nullptr; }
    std::unique_ptr<directory_ro> get_directory_ro(std::string_view) override { return nullptr; }
};

/// The resolver for files, and what comes with the default resolver
void files()
{
    sim::quiet_logs();
    struct Clear
    {
        ~Clear() { fmi_stub::caches.clear(), fmi_stub::import = nullptr; }
    } clearing;
    const bool withCache = mc::choose(2, "cache");
    auto cache = withCache ? std::make_shared<NullCache>() : nullptr;
    const bool isDefault = mc::choose(2, "default resolver");
    const int fails = mc::choose(2, "import fails");
    auto fmu = std::make_shared<TestFmu>();
    std::vector<std::string> imported;
    fmi_stub::import = [&](const cosim::filesystem::path& p) -> std::shared_ptr<cosim::fmi::fmu> {
        imported.push_back(p.string());
        if (fails) throw Failure(7);
        return fmu;
    };
    std::shared_ptr<cosim::model_uri_resolver> r;
    if (isDefault) {
        r = withCache ? cosim::default_model_uri_resolver(cache) : cosim::default_model_uri_resolver();
    } else {
        r = std::make_shared<cosim::model_uri_resolver>();
        r->add_sub_resolver(withCache ? std::make_shared<cosim::fmu_file_uri_sub_resolver>(cache) : std::make_shared<cosim::fmu_file_uri_sub_resolver>());
    }
    mc::check(fmi_stub::caches.size() == 1, "number of importers");
    mc::check(withCache ? fmi_stub::caches[0] == cache : fmi_stub::caches[0] != nullptr, "cache which is used");
    // another one after it
    std::vector<Ask> log;
    std::vector<int> ans{mc::choose(2, "answer of the next one") ? (int)MODEL : (int)NONE};
    asked = &log;
    answer = &ans;
    r->add_sub_resolver(std::make_shared<Plain>(0));
    // scheme, authority and path, whether it is an FMU file, its path
    struct Case
    {
        const char *base, *ref, *path, *absolute;
    };
    static const Case cases[] = {
        {nullptr, "file:///d/m.fmu", "/d/m.fmu", nullptr},
        {nullptr, "file://localhost/d/m.fmu", "/d/m.fmu", nullptr},
        {nullptr, "file:///d/m%20n.fmu", "/d/m n.fmu", nullptr},
        {nullptr, "file:///d/m%2Efmu", "/d/m.fmu", nullptr},
        {nullptr, "file:///d/m%41.b.fmu?q", "/d/mA.b.fmu", nullptr},
        {nullptr, "file:///d/m.fmu?q#f", "/d/m.fmu", nullptr},
        {nullptr, "file:///d/m.fmu#f", "/d/m.fmu", nullptr},
        {nullptr, "file:///d.fmu/m", nullptr, "file:///d.fmu/m"},
        {nullptr, "file:///d/m.fm", nullptr, "file:///d/m.fm"},
        {nullptr, "file:///d/m.fmux", nullptr, "file:///d/m.fmux"},
        {nullptr, "file:///d/m?x.fmu", nullptr, "file:///d/m?x.fmu"},
        {nullptr, "file:///d/m#x.fmu", nullptr, "file:///d/m#x.fmu"},
        {nullptr, "file://other/d/m.fmu", nullptr, "file://other/d/m.fmu"},
        {nullptr, "http://localhost/d/m.fmu", nullptr, "http://localhost/d/m.fmu"},
        {nullptr, "files:///d/m.fmu", nullptr, "files:///d/m.fmu"},
        {"file:///d/e", "m.fmu", "/d/m.fmu", nullptr},
        {"file:///d/e/", "../m.fmu", "/d/m.fmu", nullptr},
        {"file:///d/e", "/m.fmu", "/m.fmu", nullptr},
        {"file:///d/e.fmu", "", "/d/e.fmu", nullptr},
        {"file:///d/e.fmu", "m", nullptr, "file:///d/m"},
        {"file:///d/e", "http://h/m.fmu", nullptr, "http://h/m.fmu"},
        {"http://h/d/e", "m.fmu", nullptr, "http://h/d/m.fmu"},
        {"http://h/d/e", "file:///m.fmu", "/m.fmu", nullptr},
        {"http:///d/e", "m.fmu", nullptr, "http:///d/m.fmu"},
        {"file://other/d/e", "m.fmu", nullptr, "file://other/d/m.fmu"},
        {"file://other/d/e", "file:///x/../m.fmu", "/m.fmu", nullptr},
        {"d/e", "file:///x/../m.fmu", "/m.fmu", nullptr},
    };
    for (auto& c : cases) {
        mc::transition();
        log.clear();
        imported.clear();
        const std::string what = std::string(c.ref) + (c.base ? std::string(" relative to ") + c.base : "");
        std::shared_ptr<cosim::model> m;
        const auto got = result([&] { return m = c.base ? r->lookup_model(uri(c.base), uri(c.ref)) : r->lookup_model(uri(c.ref)); });
        if (c.path) {
            mc::check(imported == std::vector<std::string>{c.path}, what + ": imported " + (imported.empty() ? "nothing" : imported[0]));
            mc::check(log.empty(), what + ": the next resolver was asked, too");
            if (fails) mc::check(got == Result{"failure", 7}, what + ": failure of the import gave " + got.text());
            else {
                mc::check(got.how == "no model" && m, what + ": " + got.text());
                mc::check(m->description() == fmu->d, what + ": description");
                m->instantiate(what);
                mc::check(fmu->last == what, what + ": name of the instance");
            }
        } else {
            mc::check(imported.empty(), what + ": imported " + (imported.empty() ? "" : imported[0]));
            mc::check(log == std::vector<Ask>{{0, c.absolute}}, what + ": next resolver was asked for " + (log.empty() ? "nothing" : log[0].text));
            mc::check(got == (ans[0] == MODEL ? Result{"model", 0} : Result{"runtime error"}), what + ": " + got.text());
        }
    }
    mc::outcome(mc::Str() << withCache << isDefault << fails << ans[0]);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C29";
    s.assumptions = {"a stub takes the place of the FMU importer, which needs FMI Library", "URIs are of one-letter schemes, hosts, path segments, queries and fragments"};
    const bool th = mc::thorough();
    s.add("order", [th] { order(th ? 4 : 3); });
    s.add("histories", [th] { histories(th ? 6 : 5); });
    s.add("references", [th] { references(th ? 5 : 3, th ? 6 : 5); });
    s.add("files", files);
}
