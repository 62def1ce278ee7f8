// C23: built-in functions compute their definition for every parameterisation.
#include "mc.hpp"
#include "cosim/function/linear_transformation.hpp"
#include "cosim/function/utility.hpp"
#include "cosim/function/vector_sum.hpp"
#include <cmath>
#include <memory>
#include <optional>
#include <stdexcept>
#include <vector>

namespace
{
using namespace cosim;
using value = function_parameter_value;
constexpr auto REAL = variable_type::real, INT = variable_type::integer, BOOL = variable_type::boolean, STR = variable_type::string;

/// A parameter value to try: none, or a value which is or is not acceptable.
struct Try
{
    std::optional<value> v;
    bool ok;
    double num = 0;
};
bool supply(function_parameter_value_map& m, int index, const Try& t)
{
    if (t.v) m[index] = *t.v;
    return t.ok;
}
bool same(double a, double b) { return std::abs(a - b) <= 1e-12 * std::max(1.0, std::max(std::abs(a), std::abs(b))); }

// -------------------------------------------------------------------------------- access by reference
enum Access { SET, GET };
/// Whether the access is carried out (as opposed to being rejected with an exception).
template<typename F>
bool carried_out(F&& f)
{
    try {
        f();
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
bool access(function& f, Access a, variable_type t, const function_io_reference& r)
{
    return carried_out([&] {
        if (a == SET) {
            if (t == REAL) f.set_real(r, 0.0);
            if (t == INT) f.set_integer(r, 0);
            if (t == BOOL) f.set_boolean(r, false);
            if (t == STR) f.set_string(r, "");
        } else {
            if (t == REAL) f.get_real(r);
            if (t == INT) f.get_integer(r);
            if (t == BOOL) f.get_boolean(r);
            if (t == STR) f.get_string(r);
        }
    });
}
/// Whether the description mentions a variable, and whether as an input
bool described(const function_description& d, variable_type t, const function_io_reference& r, bool& input)
{
    if (r.group < 0 || r.group >= (int)d.io_groups.size()) return false;
    auto& g = d.io_groups[r.group];
    if (r.group_instance < 0 || r.group_instance >= std::get<int>(g.count)) return false;
    if (r.io < 0 || r.io >= (int)g.ios.size()) return false;
    auto& io = g.ios[r.io];
    if (r.io_instance < 0 || r.io_instance >= std::get<int>(io.count)) return false;
    if (std::get<variable_type>(io.type) != t) return false;
    input = io.causality == variable_causality::input;
    return true;
}
void check_access(function& f, int limit)
{
    const auto d = f.description();
    f.calculate();
    for (int g = -1; g <= 2; ++g)
        for (int gi = -1; gi <= limit; ++gi)
            for (int io = -1; io <= 1; ++io)
                for (int ii = -1; ii <= limit; ++ii)
                    for (auto t : {REAL, INT, BOOL, STR}) {
                        const function_io_reference r{g, gi, io, ii};
                        bool input = false;
                        const bool is = described(d, t, r, input);
                        const auto what = [&] { return std::string(mc::Str() << "variable (" << g << "," << gi << "," << io << "," << ii << ") of type " << to_text(t)); };
                        mc::check(access(f, GET, t, r) == is, what() + (is ? " cannot be read" : " is not described but can be read"));
                        mc::check(access(f, SET, t, r) == (is && input), what() + (is && input ? " cannot be set" : " is not an input but can be set"));
                        mc::transition();
                    }
}
bool same_description(const function_description& a, const function_description& b)
{
    if (a.io_groups.size() != b.io_groups.size()) return false;
    for (std::size_t i = 0; i < a.io_groups.size(); ++i) {
        auto &g = a.io_groups[i], &h = b.io_groups[i];
        if (g.name != h.name || std::get<int>(g.count) != std::get<int>(h.count) || g.ios.size() != h.ios.size()) return false;
        for (std::size_t j = 0; j < g.ios.size(); ++j) {
            auto &x = g.ios[j], &y = h.ios[j];
            if (x.name != y.name || x.causality != y.causality || std::get<int>(x.count) != std::get<int>(y.count) || std::get<variable_type>(x.type) != std::get<variable_type>(y.type)) return false;
        }
    }
    return true;
}

// -------------------------------------------------------------------------------- linear transformation
std::vector<Try> linear_values(double def)
{
    return {{std::nullopt, true, def}, {0.0, true, 0.0}, {-2.0, true, -2.0}, {0.5, true, 0.5}, {3.0, true, 3.0}, {1e10, true, 1e10}, {1, false}, {REAL, false}};
}
std::unique_ptr<function> make_linear(double& offset, double& factor)
{
    linear_transformation_function_type type;
    const auto o = mc::pick(linear_values(0.0), "offset");
    const auto f = mc::pick(linear_values(1.0), "factor");
    offset = o.num;
    factor = f.num;
    function_parameter_value_map m;
    const bool ok = supply(m, linear_transformation_function_type::offset_parameter_index, o) & supply(m, linear_transformation_function_type::factor_parameter_index, f);
    std::unique_ptr<function> r;
    const bool made = carried_out([&] { r = type.instantiate(m); });
    mc::check(made == ok, ok ? "valid parameters were rejected" : "parameter values of the wrong type were accepted");
    if (!ok) return nullptr;
    mc::check(same_description(r->description(), substitute_function_parameters(type.description(), m)), "the instance's description is not the type's with the parameters put in");
    return r;
}
void linear(int depth)
{
    double offset = 0, factor = 0;
    auto f = make_linear(offset, factor);
    mc::transition();
    if (!f) {
        mc::outcome("rejected");
        return;
    }
    const function_io_reference in{0, 0, 0, 0}, out{1, 0, 0, 0};
    mc::check(linear_transformation_function::in_io_reference == in && linear_transformation_function::out_io_reference == out, "references");
    double x = 0;
    bool known = false, calculated = false;
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(8, "set (4 values), calculate, read input, read output, end");
        if (op == 7) break;
        mc::transition();
        if (op < 4) {
            static const double v[] = {-1.0, 0.0, 0.5, 1024.0};
            f->set_real(in, x = v[op]);
            known = true;
            calculated = false;
        } else if (op == 4) {
            f->calculate();
            calculated = known;
        } else if (op == 5) {
            if (known) mc::check(f->get_real(in) == x, "input is not what it was set to");
        } else if (calculated) {
            const double y = f->get_real(out);
            mc::check(same(y, offset + factor * x), mc::Str() << "output is " << y << " for offset " << offset << ", factor " << factor << " and input " << x);
        }
    }
    mc::outcome(mc::Str() << offset << " " << factor << " " << x << " " << calculated);
}
void linear_access()
{
    double offset = 0, factor = 0;
    if (auto f = make_linear(offset, factor)) check_access(*f, 2);
}

// -------------------------------------------------------------------------------- vector sum
struct Vec
{
    int inputs = 1, dim = 1;
    variable_type type = REAL;
    std::unique_ptr<function> f;
};
std::vector<Try> count_values()
{
    return {{std::nullopt, true, 1}, {1, true, 1}, {2, true, 2}, {3, true, 3}, {0, false}, {-1, false}, {-2147483647 - 1, false}, {2.0, false}, {INT, false}};
}
Vec make_vector()
{
    vector_sum_function_type type;
    const auto n = mc::pick(count_values(), "inputCount");
    const auto t = mc::pick(std::vector<Try>{{std::nullopt, true, 0}, {REAL, true, 0}, {INT, true, 1}, {BOOL, false}, {STR, false}, {variable_type::enumeration, false}, {1, false}, {1.0, false}}, "numericType");
    const auto d = mc::pick(count_values(), "dimension");
    function_parameter_value_map m;
    const bool ok = supply(m, vector_sum_function_type::inputCount_parameter_index, n) & supply(m, vector_sum_function_type::numericType_parameter_index, t) & supply(m, vector_sum_function_type::dimension_parameter_index, d);
    Vec v;
    v.inputs = n.num;
    v.dim = d.num;
    v.type = t.num ? INT : REAL;
    const bool made = carried_out([&] { v.f = type.instantiate(m); });
    mc::check(made == ok, ok ? "valid parameters were rejected" : "invalid parameter values were accepted");
    if (made) {
        const auto desc = v.f->description();
        mc::check(same_description(desc, substitute_function_parameters(type.description(), m)), "the instance's description is not the type's with the parameters put in");
        mc::check(desc.io_groups.size() == 2 && desc.io_groups[0].name == "in" && desc.io_groups[1].name == "out", "groups");
        mc::check(std::get<int>(desc.io_groups[0].count) == v.inputs && std::get<int>(desc.io_groups[1].count) == 1, "group counts");
        for (auto& g : desc.io_groups) mc::check(g.ios.size() == 1 && std::get<int>(g.ios[0].count) == v.dim && std::get<variable_type>(g.ios[0].type) == v.type, "variables");
    }
    return v;
}
void vector_params()
{
    auto v = make_vector();
    mc::transition();
    if (v.f) check_access(*v.f, 4);
    mc::outcome(v.f ? "made" : "rejected");
}
void vector_direct()
{
    // as made by programs themselves
    const int n = mc::choose(6, "inputCount") - 2, d = mc::choose(6, "dimension") - 2;
    const bool real = mc::choose(2, "type");
    std::unique_ptr<function> f;
    const bool made = carried_out([&] {
        if (real) f = std::make_unique<vector_sum_function<double>>(n, d);
        else f = std::make_unique<vector_sum_function<int>>(n, d);
    });
    mc::check(made == (n > 0 && d > 0), mc::Str() << n << " inputs of dimension " << d << (made ? " were accepted" : " were refused"));
    mc::transition();
    if (made) check_access(*f, 4);
}
void vector_sequences(int maxInputs, int maxDim, int depth)
{
    Vec v;
    v.inputs = 1 + mc::choose(maxInputs, "inputCount");
    v.dim = 1 + mc::choose(maxDim, "dimension");
    v.type = mc::choose(2, "type") ? INT : REAL;
    function_parameter_value_map m{{vector_sum_function_type::inputCount_parameter_index, v.inputs}, {vector_sum_function_type::numericType_parameter_index, v.type}, {vector_sum_function_type::dimension_parameter_index, v.dim}};
    v.f = vector_sum_function_type().instantiate(m);
    std::vector<double> x(v.inputs * v.dim);
    std::vector<bool> set(x.size());
    bool calculated = false;
    auto get = [&](const function_io_reference& r) { return v.type == REAL ? v.f->get_real(r) : (double)v.f->get_integer(r); };
    auto verify = [&] {
        for (int j = 0; j < v.dim; ++j) {
            double sum = 0;
            bool known = true;
            for (int i = 0; i < v.inputs; ++i) {
                sum += x[i * v.dim + j];
                known = known && set[i * v.dim + j];
                if (set[i * v.dim + j]) mc::check(get({0, i, 0, j}) == x[i * v.dim + j], mc::Str() << "component " << j << " of input " << i << " is not what it was set to");
            }
            if (calculated && known) mc::check(same(get({1, 0, 0, j}), sum), mc::Str() << "component " << j << " of the output is " << get({1, 0, 0, j}) << " instead of " << sum);
        }
    };
    // all inputs get a value first, so that outputs are defined
    for (std::size_t k = 0; k < x.size(); ++k) {
        x[k] = 1 << k;
        set[k] = true;
        const function_io_reference r{0, (int)k / v.dim, 0, (int)k % v.dim};
        if (v.type == REAL) v.f->set_real(r, x[k]);
        else v.f->set_integer(r, (int)x[k]);
    }
    const int n = x.size();
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(2 * n + 3, "set, calculate, calculate and verify, end");
        mc::transition();
        if (op < 2 * n) {
            const int c = op / 2;
            const function_io_reference r{0, c / v.dim, 0, c % v.dim};
            x[c] = op % 2 ? 1000000 : -3 * (c + 1);
            if (v.type == REAL) v.f->set_real(r, x[c] += 0.5);
            else v.f->set_integer(r, (int)x[c]);
            calculated = false;
        } else if (op == 2 * n) {
            v.f->calculate();
            calculated = true;
        } else if (op == 2 * n + 1) {
            v.f->calculate();
            calculated = true;
            verify();
        } else break;
    }
    verify();
    v.f->calculate();
    calculated = true;
    verify();
    std::string o;
    for (double d : x) o += std::to_string(d) + " ";
    mc::outcome(o);
}

// -------------------------------------------------------------------------------- parameters of function types in general
void placeholders()
{
    // one real, one integer and one type parameter, with and without bounds
    const int bounds = mc::choose(4, "bounds of the integer parameter: none, lower, upper, both");
    function_type_description d;
    d.parameters = {
        {"r", function_parameter_type::real, 0.25, {}, {}},
        {"i", function_parameter_type::integer, 2, bounds & 1 ? std::optional<value>(1) : std::nullopt, bounds & 2 ? std::optional<value>(3) : std::nullopt},
        {"t", function_parameter_type::type, STR, {}, {}}};
    using C = std::variant<int, function_parameter_placeholder>;
    using T = std::variant<variable_type, function_parameter_placeholder>;
    auto count = [&](const char* l, int& fixed, int& ph) {
        const int k = mc::choose(6, l);
        fixed = 5;
        ph = k == 0 ? -2 : k - 2; // fixed, -1, 0 (real), 1 (integer), 2 (type), 3
        return k == 0 ? C(5) : C(function_parameter_placeholder{ph});
    };
    int gf, gp, cf, cp;
    const C g = count("group count", gf, gp), c = count("variable count", cf, cp);
    const int tk = mc::choose(5, "type: fixed, placeholders");
    const int tp = tk == 0 ? -2 : tk - 1; // fixed, 0, 1, 2, 3
    const T t = tk == 0 ? T(BOOL) : T(function_parameter_placeholder{tp});
    d.io_groups = {{"g", g, {{"v", t, variable_causality::input, c}}}, {"h", 1, {}}};

    function_parameter_value_map m;
    const auto iv = mc::pick(std::vector<std::optional<value>>{std::nullopt, 0, 1, 3, 4, 1.5, REAL}, "integer parameter");
    const auto tv = mc::pick(std::vector<std::optional<value>>{std::nullopt, INT, 2, 1.5}, "type parameter");
    if (iv) m[1] = *iv;
    if (tv) m[2] = *tv;

    auto countOk = [&](int ph, int fixed, int& result) {
        if (ph == -2) return result = fixed, true;
        if (ph != 1) return false;
        if (!iv) return result = 2, true;
        if (!std::holds_alternative<int>(*iv)) return false;
        result = std::get<int>(*iv);
        return !((bounds & 1 && result < 1) || (bounds & 2 && result > 3));
    };
    int gc = 0, cc = 0;
    variable_type vt = BOOL;
    bool ok = countOk(gp, gf, gc) & countOk(cp, cf, cc);
    if (tp != -2) {
        if (tp != 2) ok = false;
        else if (!tv) vt = STR;
        else if (std::holds_alternative<variable_type>(*tv)) vt = std::get<variable_type>(*tv);
        else ok = false;
    }
    // placeholders for parameters of another kind, whose values are of another kind than theirs, too
    if ((tp == 0 || tp == 1) && iv && std::holds_alternative<variable_type>(*iv)) mc::discard();
    if ((gp == 2 || cp == 2) && tv && std::holds_alternative<int>(*tv)) mc::discard();
    mc::transition();
    function_description r;
    const bool made = carried_out([&] { r = substitute_function_parameters(d, m); });
    mc::check(made == ok, ok ? "valid parameters were rejected" : "invalid parameter values or placeholders were accepted");
    if (made) {
        mc::check(r.io_groups.size() == 2 && r.io_groups[0].name == "g" && r.io_groups[1].name == "h" && r.io_groups[0].ios.size() == 1 && r.io_groups[1].ios.empty(), "groups");
        mc::check(std::get<int>(r.io_groups[0].count) == gc && std::get<int>(r.io_groups[1].count) == 1, "group count");
        auto& io = r.io_groups[0].ios[0];
        mc::check(io.name == "v" && io.causality == variable_causality::input && std::get<int>(io.count) == cc && std::get<variable_type>(io.type) == vt, "variable");
    }
    mc::outcome(made ? "made" : "rejected");
}
void parameters()
{
    // get_function_parameter(): all combinations of bounds and values
    function_type_description d;
    const bool real = mc::choose(2, "real");
    auto v = [&](double x) { return real ? value(x) : value((int)x); };
    const int lo = mc::choose(3, "lower bound: none, -1, 2"), hi = mc::choose(3, "upper bound: none, 2, 5");
    std::optional<value> l, h;
    if (lo) l = v(lo == 1 ? -1 : 2);
    if (hi) h = v(hi == 1 ? 2 : 5);
    d.parameters = {{"other", function_parameter_type::type, REAL, {}, {}}, {"p", real ? function_parameter_type::real : function_parameter_type::integer, v(2), l, h}};
    const int k = mc::choose(11, "value: none, -3..5, wrong type");
    function_parameter_value_map m;
    bool ok = true;
    double expect = 2;
    if (k == 10) {
        m[1] = real ? value(2) : value(2.0);
        ok = false;
    } else if (k) {
        expect = k - 4;
        m[1] = v(expect);
        if (lo && expect < (lo == 1 ? -1 : 2)) ok = false;
        if (hi && expect > (hi == 1 ? 2 : 5)) ok = false;
    }
    const int index = mc::choose(4, "index") - 1;
    if (index != 1) ok = false;
    double got = 0;
    mc::transition();
    const bool made = carried_out([&] { got = real ? get_function_parameter<double>(d, m, index) : get_function_parameter<int>(d, m, index); });
    mc::check(made == ok, ok ? "a valid parameter value was rejected" : "an invalid parameter value was accepted");
    if (made) mc::check(got == expect, "parameter value");
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C23";
    s.assumptions = {"values are such that neither rounding nor overflow matters", "an output is only defined once all inputs have been set and calculate() has been called since"};
    const bool th = mc::thorough();
    s.add("linear", [th] { linear(th ? 6 : 4); });
    s.add("linear_access", linear_access);
    s.add("vector_params", vector_params);
    s.add("vector_direct", vector_direct);
    s.add("vector_sequences", [th] { vector_sequences(3, 3, th ? 4 : 3); });
    s.add("placeholders", placeholders);
    s.add("parameters", parameters);
}
