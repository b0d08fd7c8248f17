// Drives cosim::system_structure, variable_value_map, the built-in functions
// and function parameter handling, and records every result.
#include "vh.hpp"

#include <cosim/exception.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/utility.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>

#include <memory>

using namespace vh;

namespace
{
constexpr double QUANT = 16.0;

cosim::variable_type vtype(long long t)
{
    switch (t) {
        case 1: return cosim::variable_type::real;
        case 2: return cosim::variable_type::integer;
        case 3: return cosim::variable_type::boolean;
        default: return cosim::variable_type::string;
    }
}
long long code(cosim::variable_type t)
{
    switch (t) {
        case cosim::variable_type::real: return 1;
        case cosim::variable_type::integer: return 2;
        case cosim::variable_type::boolean: return 3;
        case cosim::variable_type::string: return 4;
        default: return 9;
    }
}
const cosim::variable_causality cas[] = {cosim::variable_causality::input, cosim::variable_causality::output, cosim::variable_causality::parameter, cosim::variable_causality::calculated_parameter, cosim::variable_causality::local};
const cosim::variable_variability vbs[] = {cosim::variable_variability::constant, cosim::variable_variability::fixed, cosim::variable_variability::tunable, cosim::variable_variability::discrete, cosim::variable_variability::continuous};
template<typename T, std::size_t N>
long long code(const T (&table)[N], T x)
{
    for (std::size_t k = 0; k < N; ++k)
        if (table[k] == x) return static_cast<long long>(k) + 1;
    return 99;
}
long long rtok(double d)
{
    const double x = d * QUANT;
    return std::isfinite(x) && std::nearbyint(x) == x && std::fabs(x) < 1e9 ? static_cast<long long>(x) : BAD;
}
cosim::function_parameter_value pval(long long t, long long v)
{
    if (t == 1) return static_cast<double>(v) / QUANT;
    if (t == 2) return static_cast<int>(v);
    return vtype(v);
}
std::string q(const std::string& s) { return s == "-" ? std::string() : s; } // "-" stands for the empty string
std::string js(const std::string& s) { return "\"" + s + "\""; }
std::string pjson(const cosim::function_parameter_value& v)
{
    if (const auto p = std::get_if<double>(&v)) return "1," + std::to_string(rtok(*p));
    if (const auto p = std::get_if<int>(&v)) return "2," + std::to_string(*p);
    return "3," + std::to_string(code(std::get<cosim::variable_type>(v)));
}
std::string only(const cosim::function_parameter_value& v)
{
    const auto s = pjson(v);
    return s.substr(2);
}
std::string pjson(const cosim::function_parameter_value_map& m)
{
    std::map<int, cosim::function_parameter_value> sorted(m.begin(), m.end());
    std::string r = "[";
    for (const auto& [k, v] : sorted) r += std::string(r.size() > 1 ? "," : "") + "[" + std::to_string(k) + "," + pjson(v) + "]";
    return r + "]";
}
template<typename T, typename F>
std::string field(const std::variant<T, cosim::function_parameter_placeholder>& v, bool instance, F f)
{
    if (const auto p = std::get_if<T>(&v)) return instance ? f(*p) : "[0," + f(*p) + "]";
    if (instance) return "\"placeholder\"";
    return "[1," + std::to_string(std::get<cosim::function_parameter_placeholder>(v).parameter_index) + "]";
}
std::string groups(const cosim::function_description& d, bool instance)
{
    const auto num_ = [](int n) { return std::to_string(n); };
    const auto typ = [](cosim::variable_type t) { return std::to_string(code(t)); };
    std::string r = "[";
    for (const auto& g : d.io_groups) {
        r += std::string(r.size() > 1 ? "," : "") + "{\"name\":" + js(g.name) + ",\"cnt\":" + field<int>(g.count, instance, num_) + ",\"ios\":[";
        bool first = true;
        for (const auto& io : g.ios) {
            r += std::string(first ? "" : ",") + "{\"name\":" + js(io.name) + ",\"ty\":" + field<cosim::variable_type>(io.type, instance, typ) +
                ",\"ca\":" + std::to_string(code(cas, io.causality)) + ",\"cnt\":" + field<int>(io.count, instance, num_) + "}";
            first = false;
        }
        r += "]}";
    }
    return r + "]";
}
long long ptype(cosim::function_parameter_type t)
{
    return t == cosim::function_parameter_type::real ? 1 : t == cosim::function_parameter_type::integer ? 2 : 3;
}
std::string type_json(const cosim::function_type_description& d)
{
    std::string r = "{\"params\":[";
    bool first = true;
    for (const auto& p : d.parameters) {
        r += std::string(first ? "" : ",") + "{\"ty\":" + std::to_string(ptype(p.type)) + ",\"def\":" + only(p.default_value) +
            ",\"hasmin\":" + (p.min_value ? "1,\"min\":" + only(*p.min_value) : "0,\"min\":0") +
            ",\"hasmax\":" + (p.max_value ? "1,\"max\":" + only(*p.max_value) : "0,\"max\":0") + "}";
        first = false;
    }
    return r + "],\"groups\":" + groups(d, false) + "}";
}

// A function type as described by tokens:
//   np { ty def hasmin min hasmax max } ng { name ck cv nio { name tk tv ca ck cv } }
cosim::function_type_description read_type(const tokens& l, std::size_t& k)
{
    cosim::function_type_description d;
    const auto next = [&] { return num(l.at(k++)); };
    const auto np = next();
    for (int n = 0; n < np; ++n) {
        cosim::function_parameter_description p;
        const auto ty = next(), def = next(), hmin = next(), mn = next(), hmax = next(), mx = next();
        p.name = "p" + std::to_string(n);
        p.type = ty == 1 ? cosim::function_parameter_type::real : ty == 2 ? cosim::function_parameter_type::integer : cosim::function_parameter_type::type;
        p.default_value = pval(ty, def);
        if (hmin) p.min_value = pval(ty, mn);
        if (hmax) p.max_value = pval(ty, mx);
        d.parameters.push_back(p);
    }
    const auto ng = next();
    const auto count = [&]() -> std::variant<int, cosim::function_parameter_placeholder> {
        const auto c = next(), v = next();
        if (c) return cosim::function_parameter_placeholder{static_cast<int>(v)};
        return static_cast<int>(v);
    };
    for (int n = 0; n < ng; ++n) {
        cosim::function_io_group_description g;
        g.name = q(l.at(k++));
        g.count = count();
        const auto nio = next();
        for (int i = 0; i < nio; ++i) {
            cosim::function_io_description io;
            io.name = q(l.at(k++));
            const auto c = next(), v = next();
            if (c) io.type = cosim::function_parameter_placeholder{static_cast<int>(v)};
            else io.type = vtype(v);
            io.causality = cas[next() - 1];
            io.count = count();
            g.ios.push_back(io);
        }
        d.io_groups.push_back(g);
    }
    return d;
}
cosim::function_parameter_value_map read_params(const tokens& l, std::size_t& k)
{
    cosim::function_parameter_value_map m;
    const auto n = num(l.at(k++));
    for (int i = 0; i < n; ++i) {
        const auto ix = num(l.at(k)), t = num(l.at(k + 1)), v = num(l.at(k + 2));
        k += 3;
        m[static_cast<int>(ix)] = pval(t, v);
    }
    return m;
}

class any_type : public cosim::function_type
{
public:
    explicit any_type(cosim::function_type_description d) : d_(std::move(d)) { }
    cosim::function_type_description description() const override { return d_; }
    std::unique_ptr<cosim::function> instantiate(const cosim::function_parameter_value_map&) override { return nullptr; }

private:
    cosim::function_type_description d_;
};
class any_model : public cosim::model
{
public:
    explicit any_model(std::shared_ptr<cosim::model_description> d) : d_(std::move(d)) { }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return d_; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
    std::shared_ptr<cosim::model_description> d_;
};

cosim::full_variable_name name5(const tokens& l, std::size_t& k)
{
    cosim::full_variable_name v(q(l.at(k)), q(l.at(k + 1)), static_cast<int>(num(l.at(k + 2))), q(l.at(k + 3)), static_cast<int>(num(l.at(k + 4))));
    k += 5;
    return v;
}
std::string json(const cosim::full_variable_name& v)
{
    return "[" + js(v.entity_name) + "," + js(v.variable_group_name) + "," + std::to_string(v.variable_group_instance) + "," + js(v.variable_name) + "," + std::to_string(v.variable_instance) + "]";
}
cosim::scalar_value scalar(long long ty, long long x)
{
    switch (ty) {
        case 1: return static_cast<double>(x) / QUANT;
        case 2: return static_cast<int>(x);
        case 3: return x != 0;
        default: return "s" + std::to_string(x);
    }
}
std::string json(const cosim::scalar_value& v)
{
    if (const auto p = std::get_if<double>(&v)) return "1," + std::to_string(rtok(*p));
    if (const auto p = std::get_if<int>(&v)) return "2," + std::to_string(*p);
    if (const auto p = std::get_if<bool>(&v)) return "3," + std::to_string(*p ? 1 : 0);
    return "4," + std::get<std::string>(v).substr(1);
}

// 1 accepted; 0 refused (iss tells whether with the documented error)
template<typename F>
obj& outcome(obj& o, F f)
{
    try {
        f();
        return o.i("ok", 1).i("iss", 0);
    } catch (const cosim::error& e) {
        return o.i("ok", 0).i("iss", e.code() == make_error_code(cosim::errc::invalid_system_structure));
    } catch (const std::exception&) {
        return o.i("ok", 0).i("iss", 0);
    }
}

void play(const scenario& sc, trace& t)
{
    cosim::system_structure ss;
    cosim::variable_value_map vals;
    std::vector<std::shared_ptr<any_model>> models;
    std::vector<std::shared_ptr<cosim::model_description>> descr;
    std::vector<std::shared_ptr<cosim::function_type>> ftypes;
    std::unique_ptr<cosim::function> fun;

    const auto row = [&](const cosim::system_structure::entity& e) {
        long long ty = 99;
        std::string kind;
        if (const auto m = cosim::entity_type_to<cosim::model>(e.type)) {
            kind = "sim";
            for (std::size_t n = 0; n < descr.size(); ++n)
                if (m->description() == descr[n]) ty = static_cast<long long>(n) + 1;
        } else {
            kind = "fun";
            const auto f = cosim::entity_type_to<cosim::function_type>(e.type);
            for (std::size_t n = 0; n < ftypes.size(); ++n)
                if (f == ftypes[n]) ty = static_cast<long long>(n) + 1;
        }
        return "[" + js(e.name) + "," + js(kind) + "," + std::to_string(ty) + "," + std::to_string(e.step_size_hint.count()) + "," + pjson(e.parameter_values) + "]";
    };

    for (const auto& l : sc.lines) {
        const auto& op = l[0];
        std::size_t k = 1;
        if (op == "model") {
            auto d = std::make_shared<cosim::model_description>();
            d->name = "m" + std::to_string(descr.size());
            d->uuid = "u" + std::to_string(descr.size());
            descr.push_back(d);
        } else if (op == "var") {
            cosim::variable_description v;
            v.name = q(l[1]);
            v.reference = static_cast<cosim::value_reference>(descr.back()->variables.size());
            v.type = vtype(num(l[2]));
            v.causality = cas[num(l[3]) - 1];
            v.variability = vbs[num(l[4]) - 1];
            descr.back()->variables.push_back(v);
        } else if (op == "ftype") {
            if (l[1] == "linear") ftypes.push_back(std::make_shared<cosim::linear_transformation_function_type>());
            else if (l[1] == "sum") ftypes.push_back(std::make_shared<cosim::vector_sum_function_type>());
            else ftypes.push_back(std::make_shared<any_type>(read_type(l, k)));
        } else if (op == "addsim") {
            const auto n = q(l[1]);
            const auto m = num(l[2]), h = num(l[3]);
            // sometimes a fresh model object for the same description
            auto md = std::make_shared<any_model>(descr.at(m - 1));
            obj o("addsim");
            o.s("n", n).i("m", m).i("h", h);
            t.ev(outcome(o, [&] {
                if (num(l[4])) ss.add_entity(n, md, cosim::duration(h));
                else ss.add_entity({n, md, cosim::duration(h), {}});
            }));
        } else if (op == "addfun") {
            const auto n = q(l[1]);
            const auto f = num(l[2]);
            k = 4;
            const auto p = read_params(l, k);
            obj o("addfun");
            o.s("n", n).i("m", f).raw("p", pjson(p));
            t.ev(outcome(o, [&] {
                if (num(l[3])) ss.add_entity(n, ftypes.at(f - 1), p);
                else ss.add_entity({n, ftypes.at(f - 1), {}, p});
            }));
        } else if (op == "conn") {
            const auto s = name5(l, k), g = name5(l, k);
            obj o("conn");
            o.raw("s", json(s)).raw("t", json(g));
            // what the functions for single checks say: 1 valid, 0 not, 2 not askable, 9 they contradict themselves
            long long vc = 2;
            try {
                const auto ask = [&](const auto& a, const auto& b) {
                    std::string why;
                    const bool w = cosim::is_valid_connection(a, b, &why);
                    vc = cosim::is_valid_connection(a, b, nullptr) == w && why.empty() == w ? w : 9;
                };
                if (s.is_simulator_variable() && g.is_simulator_variable()) ask(ss.get_variable_description(s), ss.get_variable_description(g));
                else if (s.is_simulator_variable()) ask(ss.get_variable_description(s), ss.get_function_io_description(g).description);
                else if (g.is_simulator_variable()) ask(ss.get_function_io_description(s).description, ss.get_variable_description(g));
            } catch (const cosim::error&) { }
            t.ev(outcome(o, [&] { ss.connect_variables(s, g); }).i("vc", vc));
        } else if (op == "val") {
            const auto v = name5(l, k);
            const auto ty = num(l[k]), x = num(l[k + 1]);
            obj o("val");
            o.raw("v", json(v)).i("ty", ty).i("x", x);
            long long vc = 2;
            try {
                std::string why;
                const auto& d = ss.get_variable_description(v);
                const bool w = cosim::is_valid_variable_value(d, scalar(ty, x), &why);
                vc = cosim::is_valid_variable_value(d, scalar(ty, x), nullptr) == w && why.empty() == w ? w : 9;
            } catch (const cosim::error&) { }
            o.i("vc", vc);
            t.ev(outcome(o, [&] { cosim::add_variable_value(vals, ss, v, scalar(ty, x)); }));
        } else if (op == "getvar") {
            const auto v = name5(l, k);
            obj o("getvar");
            std::string d = "[]";
            outcome(o, [&] {
                const auto& r = ss.get_variable_description(v);
                d = "[" + js(r.name) + "," + std::to_string(code(r.type)) + "," + std::to_string(code(cas, r.causality)) + "," + std::to_string(code(vbs, r.variability)) + "]";
            });
            t.ev(o.raw("v", json(v)).raw("d", d));
        } else if (op == "getio") {
            const auto v = name5(l, k);
            obj o("getio");
            std::string d = "[]";
            outcome(o, [&] {
                const auto& r = ss.get_function_io_description(v);
                d = "[" + std::to_string(r.group_index) + "," + std::to_string(r.io_index) + "," + js(r.description.name) + "," + std::to_string(code(std::get<cosim::variable_type>(r.description.type))) + "," +
                    std::to_string(code(cas, r.description.causality)) + "," + std::to_string(std::get<int>(r.description.count)) + "]";
            });
            t.ev(o.raw("v", json(v)).raw("d", d));
        } else if (op == "find") {
            const auto e = ss.find_entity(q(l[1]));
            obj o("find");
            o.s("n", q(l[1])).i("ok", e != nullptr);
            if (e) o.raw("row", row(*e));
            t.ev(o);
        } else if (op == "ents") {
            std::string r = "[";
            for (const auto& e : ss.entities()) r += std::string(r.size() > 1 ? "," : "") + row(e);
            t.ev(obj("ents").raw("rows", r + "]"));
        } else if (op == "conns") {
            std::string r = "[";
            for (const auto& c : ss.connections()) r += std::string(r.size() > 1 ? "," : "") + "[" + json(c.source) + "," + json(c.target) + "]";
            t.ev(obj("conns").raw("rows", r + "]"));
        } else if (op == "vals") {
            std::string r = "[";
            for (const auto& [n, v] : vals) r += std::string(r.size() > 1 ? "," : "") + "[" + json(n) + "," + json(v) + "]";
            t.ev(obj("vals").raw("rows", r + "]"));
        } else if (op == "inst") {
            const auto kind = num(l[1]);
            k = 2;
            const auto p = read_params(l, k);
            obj o("inst");
            o.i("k", kind).raw("p", pjson(p));
            std::unique_ptr<cosim::function> f;
            outcome(o, [&] {
                if (kind == 1) f = cosim::linear_transformation_function_type().instantiate(p);
                else f = cosim::vector_sum_function_type().instantiate(p);
            });
            if (f) fun = std::move(f);
            t.ev(o);
        } else if (op == "linear") {
            fun = std::make_unique<cosim::linear_transformation_function>(num(l[1]) / QUANT, num(l[2]) / QUANT);
            t.ev(obj("linear").i("off", num(l[1])).i("fac", num(l[2])));
        } else if (op == "sum") {
            obj o("sum");
            o.i("ty", num(l[1])).i("n", num(l[2])).i("dim", num(l[3]));
            std::unique_ptr<cosim::function> f;
            outcome(o, [&] {
                if (num(l[1]) == 1) f = std::make_unique<cosim::vector_sum_function<double>>(static_cast<int>(num(l[2])), static_cast<int>(num(l[3])));
                else f = std::make_unique<cosim::vector_sum_function<int>>(static_cast<int>(num(l[2])), static_cast<int>(num(l[3])));
            });
            if (f) fun = std::move(f);
            t.ev(o);
        } else if (op == "set" || op == "get") {
            if (!fun) continue;
            const auto ty = num(l[1]);
            const cosim::function_io_reference r{static_cast<int>(num(l[2])), static_cast<int>(num(l[3])), static_cast<int>(num(l[4])), static_cast<int>(num(l[5]))};
            long long x = op == "set" ? num(l[6]) : 0;
            obj o(op.c_str());
            outcome(o, [&] {
                if (op == "set") {
                    if (ty == 1) fun->set_real(r, x / QUANT);
                    else if (ty == 2) fun->set_integer(r, static_cast<int>(x));
                    else if (ty == 3) fun->set_boolean(r, x != 0);
                    else fun->set_string(r, "s" + std::to_string(x));
                } else {
                    if (ty == 1) x = rtok(fun->get_real(r));
                    else if (ty == 2) x = fun->get_integer(r);
                    else if (ty == 3) x = fun->get_boolean(r);
                    else x = static_cast<long long>(fun->get_string(r).size());
                }
            });
            t.ev(o.i("ty", ty).a("r", {r.group, r.group_instance, r.io, r.io_instance}).i("x", x));
        } else if (op == "calc") {
            if (!fun) continue;
            fun->calculate();
            t.ev(obj("calc"));
        } else if (op == "desc") {
            if (!fun) continue;
            t.ev(obj("desc").raw("d", groups(fun->description(), true)));
        } else if (op == "type") {
            const auto d = num(l[1]) == 1 ? cosim::linear_transformation_function_type().description() : cosim::vector_sum_function_type().description();
            std::string names = "[";
            for (const auto& p : d.parameters) names += std::string(names.size() > 1 ? "," : "") + js(p.name);
            t.ev(obj("type").i("k", num(l[1])).raw("d", type_json(d)).raw("names", names + "]"));
        } else if (op == "subst") {
            const auto p = read_params(l, k);
            const auto d = read_type(l, k);
            obj o("subst");
            std::string r = "[]";
            outcome(o, [&] { r = groups(cosim::substitute_function_parameters(d, p), true); });
            t.ev(o.raw("p", pjson(p)).raw("ft", type_json(d)).raw("d", r));
        } else if (op == "param") {
            const auto ix = static_cast<int>(num(l[1]));
            k = 2;
            const auto p = read_params(l, k);
            const auto d = read_type(l, k);
            obj o("param");
            long long x = 0;
            outcome(o, [&] {
                switch (ptype(d.parameters.at(ix).type)) {
                    case 1: x = rtok(cosim::get_function_parameter<double>(d, p, ix)); break;
                    case 2: x = cosim::get_function_parameter<int>(d, p, ix); break;
                    default: x = code(cosim::get_function_parameter<cosim::variable_type>(d, p, ix));
                }
            });
            t.ev(o.i("k", ix).raw("p", pjson(p)).raw("ft", type_json(d)).i("x", x));
        } else {
            std::fprintf(stderr, "unknown op %s\n", op.c_str());
            _exit(96);
        }
    }
}
} // namespace

int main(int argc, char** argv) { return run(argc, argv, play); }
