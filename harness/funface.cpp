// Functions of a user's own in a co-simulation with fixed steps.
#include "vh.hpp"

#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/function.hpp>
#include <cosim/slave.hpp>

#include <memory>
#include <optional>
#include <utility>

using namespace vh;
namespace
{
constexpr long long B = 1000003;
struct boom { int k; };
struct bang : std::runtime_error { int k; explicit bang(int x) : std::runtime_error("bang"), k(x) { } };
[[noreturn]] void raise(long long k)
{
    if (k % 2) throw boom{static_cast<int>(k)};
    throw bang(static_cast<int>(k));
}
const cosim::variable_type TY[] = {cosim::variable_type::real, cosim::variable_type::integer, cosim::variable_type::string, cosim::variable_type::boolean};
int ours(cosim::variable_type t)
{
    for (int k = 0; k < 4; ++k) if (TY[k] == t) return k;
    return 4;
}
long long norm(int ty, long long x) { return ty == 3 ? (x % 2 + 2) % 2 : x; }

// Outputs have references 0 and 1, inputs 2 and 3, in each type.
class mock : public cosim::slave
{
public:
    trace& t;
    int s;
    long long V[4][2] = {};
    long long k = 0;
    mock(trace& tr, int n) : t(tr), s(n) { }
    cosim::model_description model_description() const override
    {
        using namespace cosim;
        cosim::model_description d;
        d.name = "m";
        for (int ty = 3; ty >= 0; --ty)
            for (int r = 0; r < 4; ++r) {
                variable_description v;
                v.name = "v" + std::to_string(ty) + "_" + std::to_string(r);
                v.reference = static_cast<value_reference>(r);
                v.type = TY[ty];
                v.causality = r < 2 ? variable_causality::output : variable_causality::input;
                v.variability = ty ? variable_variability::discrete : variable_variability::continuous;
                d.variables.push_back(v);
            }
        return d;
    }
    long long value(int ty, long long r) const { return r >= 2 ? V[ty][r - 2] : norm(ty, 7 * k + 3 * r + ty + 2 * s + k / 2); }
    void call(const char* e, long long dt)
    {
        std::vector<long long> in, out;
        for (auto& a : V) for (auto x : a) in.push_back(x);
        t.ev_locked([&] {
            ++k;
            for (int ty = 0; ty < 4; ++ty) for (int r = 0; r < 2; ++r) out.push_back(value(ty, r));
            return obj(e).i("s", s).i("d", dt).a("V", in).a("O", out);
        });
    }
    void setup(cosim::time_point, std::optional<cosim::time_point>, std::optional<double>) override { call("setup", 0); }
    void start_simulation() override { call("start", 0); }
    void end_simulation() override { }
    cosim::step_result do_step(cosim::time_point, cosim::duration d) override
    {
        call("step", d.count() % B ? BAD : d.count() / B);
        return cosim::step_result::complete;
    }
    void put(int ty, cosim::value_reference r, long long x)
    {
        if (r == 2 || r == 3) V[ty][r - 2] = x;
        else t.ev(obj("unexpected"));
    }
    using refs = gsl::span<const cosim::value_reference>;
    void get_real_variables(refs v, gsl::span<double> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = real_of(value(0, v[n])); }
    void get_integer_variables(refs v, gsl::span<int> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = static_cast<int>(value(1, v[n])); }
    void get_string_variables(refs v, gsl::span<std::string> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = text_of(value(2, v[n])); }
    void get_boolean_variables(refs v, gsl::span<bool> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = value(3, v[n]) != 0; }
    void set_real_variables(refs v, gsl::span<const double> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(0, v[n], real_token(x[n])); }
    void set_integer_variables(refs v, gsl::span<const int> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(1, v[n], x[n]); }
    void set_string_variables(refs v, gsl::span<const std::string> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(2, v[n], text_token(x[n])); }
    void set_boolean_variables(refs v, gsl::span<const bool> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(3, v[n], x[n]); }
};

// Inputs: group 0 (two instances), one for each type (three instances), of which <0, 0> and <1, 2> are ours.
// Outputs: group 1, one for each type, in the opposite order (two instances), of which 1 is ours.
class fun : public cosim::function
{
public:
    trace& t;
    int f;
    long long I[4][2] = {}, O[4] = {}, n = 0;
    long long failset = 0, failcalc = 0;
    bool tells;
    mutable std::string text;
    fun(trace& tr, int k, bool b) : t(tr), f(k), tells(b) { }
    static cosim::function_io_reference in(int ty, int k) { return {0, k, ty, 2 * k}; }
    static cosim::function_io_reference out(int ty) { return {1, 0, 3 - ty, 1}; }
    // Any call ends the life of the text given out last.
    void touch() const { text.assign(text.size(), '#'); }
    cosim::function_description description() const override
    {
        using namespace cosim;
        function_description d;
        function_io_group_description g, h;
        g.name = "g";
        g.count = 2;
        h.name = "h";
        h.count = 1;
        for (int k = 0; k < 4; ++k) {
            function_io_description v;
            v.name = "in" + std::to_string(k);
            v.type = TY[k];
            v.causality = variable_causality::input;
            v.count = 3;
            g.ios.push_back(v);
            v.name = "out" + std::to_string(k);
            v.type = TY[3 - k];
            v.causality = variable_causality::output;
            v.count = 2;
            h.ios.push_back(v);
        }
        d.io_groups = {g, h};
        return d;
    }
    void put(int ty, const cosim::function_io_reference& r, long long x)
    {
        touch();
        const int k = r.group_instance;
        if ((k != 0 && k != 1) || r != in(ty, k)) { t.ev(obj("unexpected")); return; }
        const auto g = std::exchange(failset, 0);
        t.ev(obj("fs").i("f", f).i("ty", ty).i("in", k).i("x", x).i("g", g));
        if (g) raise(g);
        I[ty][k] = x;
    }
    long long take(int ty, const cosim::function_io_reference& r) const
    {
        touch();
        if (r != out(ty)) { t.ev(obj("unexpected")); return 0; }
        t.ev(obj("fg").i("f", f).i("ty", ty).i("x", O[ty]));
        return O[ty];
    }
    void set_real(const cosim::function_io_reference& r, double x) override { put(0, r, real_token(x)); }
    void set_integer(const cosim::function_io_reference& r, int x) override { put(1, r, x); }
    void set_string(const cosim::function_io_reference& r, std::string_view x) override { put(2, r, text_token(x)); }
    void set_boolean(const cosim::function_io_reference& r, bool x) override { put(3, r, x); }
    double get_real(const cosim::function_io_reference& r) const override { return real_of(take(0, r)); }
    int get_integer(const cosim::function_io_reference& r) const override { return static_cast<int>(take(1, r)); }
    std::string_view get_string(const cosim::function_io_reference& r) const override
    {
        text = text_of(take(2, r));
        return text;
    }
    bool get_boolean(const cosim::function_io_reference& r) const override { return take(3, r) != 0; }
    void calculate() override
    {
        touch();
        const auto g = std::exchange(failcalc, 0);
        ++n;
        std::vector<long long> i, o;
        for (auto& a : I) for (auto x : a) i.push_back(x);
        for (int ty = 0; ty < 4; ++ty) {
            O[ty] = norm(ty, I[ty][0] + 2 * I[ty][1] + I[(ty + 1) % 4][0] + n);
            o.push_back(O[ty]);
        }
        t.ev(obj("fc").i("f", f).a("I", i).a("O", o).i("g", g));
        if (g) raise(g);
    }
};

void play(const scenario& sc, trace& t)
{
    std::optional<cosim::execution> exe;
    std::shared_ptr<cosim::fixed_step_algorithm> alg;
    std::vector<std::shared_ptr<mock>> sims;
    std::vector<std::shared_ptr<fun>> funs;
    for (const auto& l : sc.lines) {
        const auto& op = l[0];
        const auto a = [&](std::size_t k) { return static_cast<int>(num(l[k])); };
        if (op == "new") { // threads
            const auto n = num(l[1]);
            alg = std::make_shared<cosim::fixed_step_algorithm>(cosim::duration(B), n < 0 ? std::nullopt : std::optional<unsigned>(static_cast<unsigned>(n)));
            exe.emplace(cosim::time_point(cosim::duration(B * 3)), alg);
        } else if (op == "sim") {
            sims.push_back(std::make_shared<mock>(t, static_cast<int>(sims.size()) + 1));
            exe->add_slave(sims.back(), "s" + std::to_string(sims.size()), cosim::duration(num(l[1]) * B));
            t.ev(obj("sim").i("d", num(l[1])));
        } else if (op == "dec") {
            alg->set_stepsize_decimation_factor(a(1) - 1, a(2));
            t.ev(obj("dec").i("s", a(1)).i("d", a(2)));
        } else if (op == "fun") {
            funs.push_back(std::make_shared<fun>(t, static_cast<int>(funs.size()) + 1, true));
            exe->add_function(funs.back());
            t.ev(obj("fun"));
        } else if (op == "to") { // s ty at f in
            const cosim::variable_id o{a(1) - 1, TY[a(2)], static_cast<cosim::value_reference>(a(3))};
            exe->connect_variables(o, cosim::function_io_id{a(4) - 1, TY[a(2)], fun::in(a(2), a(5))});
            t.ev(obj("to").i("s", a(1)).i("ty", a(2)).i("at", a(3)).i("f", a(4)).i("in", a(5)));
        } else if (op == "from") { // f ty s at
            const cosim::variable_id i{a(3) - 1, TY[a(2)], static_cast<cosim::value_reference>(2 + a(4))};
            exe->connect_variables(cosim::function_io_id{a(1) - 1, TY[a(2)], fun::out(a(2))}, i);
            t.ev(obj("from").i("f", a(1)).i("ty", a(2)).i("s", a(3)).i("at", a(4)));
        } else if (op == "fail") { // f what code
            (a(2) ? funs[static_cast<std::size_t>(a(1) - 1)]->failcalc : funs[static_cast<std::size_t>(a(1) - 1)]->failset) = a(3);
        } else if (op == "step") {
            t.ev(obj("begin"));
            int f = 0;
            try { exe->step(); }
            catch (const bang& e) { f = e.k; }
            catch (const boom& e) { f = e.k; }
            catch (const std::exception&) { f = -1; }
            t.ev(obj("r").i("f", f));
            if (f) return;
        } else _exit(96);
    }
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
