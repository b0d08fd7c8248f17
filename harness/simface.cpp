// A simulator as handed to an algorithm, an observer and a manipulator, used directly.
#include "vh.hpp"

#include <cosim/algorithm/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/manipulator/manipulator.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/slave.hpp>

#include <memory>
#include <optional>

using namespace vh;
namespace
{
constexpr long long B = 1000003;
struct boom { int k; };
struct bang : std::runtime_error { int k; explicit bang(int x) : std::runtime_error("bang"), k(x) { } };
[[noreturn]] void raise(long long k)
{
    if (k % 2) throw boom{static_cast<int>(k)};
    throw bang(static_cast<int>(k));
}
long long ticks(cosim::duration d) { return d.count() % B ? BAD : d.count() / B; }
long long ticks(cosim::time_point t) { return ticks(t.time_since_epoch()); }
// our types: 0 real, 1 integer, 2 string, 3 boolean
const cosim::variable_type TY[] = {cosim::variable_type::real, cosim::variable_type::integer, cosim::variable_type::string, cosim::variable_type::boolean};
long long norm(int ty, long long x) { return ty == 3 ? (x % 2 + 2) % 2 : x; }
long long start_of(int ty, int r) { return r == 3 ? 0 : norm(ty, 10 * ty + r); }

class mock : public cosim::slave
{
public:
    trace& t;
    long long V[4][3]; // references 2..4
    long long k = 0;
    long long fail = 0;
    int result = 0;
    explicit mock(trace& tr) : t(tr)
    {
        for (int ty = 0; ty < 4; ++ty) for (int r = 2; r < 5; ++r) V[ty][r - 2] = start_of(ty, r);
    }
    cosim::model_description model_description() const override
    {
        using namespace cosim;
        cosim::model_description d;
        d.name = "m";
        // a variable's place in the list says nothing about it
        for (int r = 5; r >= 0; --r)
            for (int ty = 0; ty < 4; ++ty) {
                variable_description v;
                v.name = "v" + std::to_string(ty) + "_" + std::to_string(r);
                v.reference = ref(r);
                v.type = TY[ty];
                v.causality = r < 2 ? variable_causality::output : r < 4 ? variable_causality::input : r == 4 ? variable_causality::parameter : variable_causality::calculated_parameter;
                v.variability = ty ? variable_variability::discrete : variable_variability::continuous;
                if (r == 4) v.variability = variable_variability::tunable;
                if (r == 2 || r == 4) {
                    const auto x = start_of(ty, r);
                    if (ty == 0) v.start = real_of(x);
                    if (ty == 1) v.start = static_cast<int>(x);
                    if (ty == 2) v.start = text_of(x);
                    if (ty == 3) v.start = x != 0;
                }
                d.variables.push_back(v);
            }
        return d;
    }
    static cosim::value_reference ref(int r) { return static_cast<cosim::value_reference>(r == 5 ? 4000000000u : r); }
    static int unref(cosim::value_reference r) { return r == 4000000000u ? 5 : static_cast<int>(r); }
    std::string view() const
    {
        std::string s = "[";
        for (auto& a : V) for (auto x : a) s += (s.size() > 1 ? "," : "") + std::to_string(x);
        return s + "]";
    }
    void call(obj o)
    {
        t.ev(o.raw("V", view()).i("f", fail));
        ++k;
        if (fail) raise(fail);
    }
    void setup(cosim::time_point s, std::optional<cosim::time_point> e, std::optional<double> tol) override
    {
        call(obj("su").i("t", ticks(s)).i("stop", e ? ticks(*e) : -1).i("tol", tol ? real_token(*tol) : -1));
    }
    void start_simulation() override { call(obj("ss")); }
    void end_simulation() override { t.ev(obj("unexpected")); }
    long long want = 0;
    cosim::step_result do_step(cosim::time_point s, cosim::duration d) override
    {
        call(obj("sd").i("t", ticks(s)).i("dt", ticks(d)).i("want", want));
        return result == 0 ? cosim::step_result::complete : result == 1 ? cosim::step_result::failed : cosim::step_result::canceled;
    }
    long long value(int ty, cosim::value_reference vr) const
    {
        const int r = unref(vr);
        if (r >= 2 && r <= 4) return V[ty][r - 2];
        return norm(ty, 10 * k + 3 * r + ty + V[ty][0]);
    }
    void put(int ty, cosim::value_reference vr, long long x)
    {
        const int r = unref(vr);
        if (r >= 2 && r <= 4) V[ty][r - 2] = x;
        else t.ev(obj("unexpected"));
    }
    using refs = gsl::span<const cosim::value_reference>;
    void get_real_variables(refs v, gsl::span<double> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = real_of(value(0, v[n])); }
    void get_integer_variables(refs v, gsl::span<int> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = static_cast<int>(value(1, v[n])); }
    void get_string_variables(refs v, gsl::span<std::string> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = text_of(value(2, v[n])); }
    void get_boolean_variables(refs v, gsl::span<bool> x) const override { for (std::size_t n = 0; n < v.size(); ++n) x[n] = value(3, v[n]) != 0; }
    void set_real_variables(refs v, gsl::span<const double> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(0, v[n], real_token(x[n])); }
    void set_integer_variables(refs v, gsl::span<const int> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(1, v[n], x[n]); }
    void set_string_variables(refs v, gsl::span<const std::string> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(2, v[n], text_token(x[n])); }
    void set_boolean_variables(refs v, gsl::span<const bool> x) override { for (std::size_t n = 0; n < v.size(); ++n) put(3, v[n], x[n]); }
};
struct faces
{
    std::shared_ptr<mock> slave;
    cosim::simulator* sim = nullptr;
    cosim::observable* obs = nullptr;
    cosim::manipulable* man = nullptr;
};
class algo : public cosim::algorithm
{
public:
    explicit algo(std::vector<faces>& f) : f_(f) { }
    void add_simulator(cosim::simulator_index i, cosim::simulator* s, cosim::duration) override { f_[static_cast<std::size_t>(i)].sim = s; }
    void remove_simulator(cosim::simulator_index) override { }
    void add_function(cosim::function_index, cosim::function*) override { }
    void connect_variables(cosim::variable_id, cosim::variable_id) override { }
    void connect_variables(cosim::variable_id, cosim::function_io_id) override { }
    void connect_variables(cosim::function_io_id, cosim::variable_id) override { }
    void disconnect_variable(cosim::variable_id) override { }
    void disconnect_variable(cosim::function_io_id) override { }
    void setup(cosim::time_point, std::optional<cosim::time_point>) override { }
    void initialize() override { }
    std::pair<cosim::duration, std::unordered_set<cosim::simulator_index>> do_step(cosim::time_point) override { return {}; }

private:
    std::vector<faces>& f_;
};
class obsr : public cosim::observer
{
public:
    explicit obsr(std::vector<faces>& f) : f_(f) { }
    void simulator_added(cosim::simulator_index i, cosim::observable* o, cosim::time_point) override { f_[static_cast<std::size_t>(i)].obs = o; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
    void simulation_initialized(cosim::step_number, cosim::time_point) override { }
    void simulator_step_complete(cosim::simulator_index, cosim::step_number, cosim::duration, cosim::time_point) override { }
    void step_complete(cosim::step_number, cosim::duration, cosim::time_point) override { }

private:
    std::vector<faces>& f_;
};
class man : public cosim::manipulator
{
public:
    explicit man(std::vector<faces>& f) : f_(f) { }
    void simulator_added(cosim::simulator_index i, cosim::manipulable* m, cosim::time_point) override { f_[static_cast<std::size_t>(i)].man = m; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void step_commencing(cosim::time_point) override { }

private:
    std::vector<faces>& f_;
};
long long apply(const std::string& k, long long c, int ty, long long x, cosim::duration d)
{
    return norm(ty, k == "add" ? x + c : k == "const" ? c : x + ticks(d) + c);
}
template<typename F>
int caught(F f)
{
    try { f(); }
    catch (const bang& e) { return e.k; }
    catch (const boom& e) { return e.k; }
    catch (const std::exception&) { return -1; }
    return 0;
}
void play(const scenario& sc, trace& t)
{
    std::vector<faces> f(2);
    cosim::execution exe(cosim::time_point(), std::make_shared<algo>(f));
    exe.add_observer(std::make_shared<obsr>(f));
    for (int i = 0; i < 2; ++i) {
        f[static_cast<std::size_t>(i)].slave = std::make_shared<mock>(t);
        exe.add_slave(f[static_cast<std::size_t>(i)].slave, "s" + std::to_string(i), cosim::duration(B));
    }
    exe.add_manipulator(std::make_shared<man>(f));
    std::size_t cur = 0;
    for (const auto& l : sc.lines) {
        const auto& op = l[0];
        auto& x = f[cur];
        auto& s = *x.slave;
        const int ty = l.size() > 2 ? static_cast<int>(num(l[1])) : 0;
        const int r = l.size() > 2 ? static_cast<int>(num(l[2])) : 0;
        const auto ref = mock::ref(r);
        const auto ev = [&](const char* e) { return obj(e).i("ty", ty).i("r", r); };
        if (op == "w") { cur = static_cast<std::size_t>(num(l[1]) - 1); t.ev(obj("sw").i("w", num(l[1]))); }
        else if (op == "exg") { x.obs->expose_for_getting(TY[ty], ref); t.ev(ev("exg")); }
        else if (op == "exs") t.ev(ev("exs").i("ok", !caught([&] { x.man->expose_for_setting(TY[ty], ref); })));
        else if (op == "set") {
            const auto v = norm(ty, num(l[3]));
            const bool ok = !caught([&] {
                if (ty == 0) x.sim->set_real(ref, real_of(v));
                if (ty == 1) x.sim->set_integer(ref, static_cast<int>(v));
                if (ty == 2) x.sim->set_string(ref, text_of(v));
                if (ty == 3) x.sim->set_boolean(ref, v != 0);
            });
            t.ev(ev("set").i("x", num(l[3])).i("ok", ok));
        } else if (op == "get") {
            long long v = 0;
            const bool ok = !caught([&] {
                if (ty == 0) v = real_token(x.obs->get_real(ref));
                if (ty == 1) v = x.obs->get_integer(ref);
                if (ty == 2) v = text_token(x.obs->get_string(ref));
                if (ty == 3) v = x.obs->get_boolean(ref);
            });
            t.ev(ev("get").i("x", v).i("ok", ok));
        } else if (op == "im" || op == "om") {
            const auto k = l[3];
            const auto c = num(l[4]);
            const bool none = k == "none";
            const bool ok = !caught([&] {
                if (ty == 0) {
                    std::function<double(double, cosim::duration)> m;
                    if (!none) m = [=](double v, cosim::duration d) { return real_of(apply(k, c, 0, real_token(v), d)); };
                    if (op == "im") x.man->set_real_input_modifier(ref, m); else x.man->set_real_output_modifier(ref, m);
                } else if (ty == 1) {
                    std::function<int(int, cosim::duration)> m;
                    if (!none) m = [=](int v, cosim::duration d) { return static_cast<int>(apply(k, c, 1, v, d)); };
                    if (op == "im") x.man->set_integer_input_modifier(ref, m); else x.man->set_integer_output_modifier(ref, m);
                } else if (ty == 2) {
                    std::function<std::string(std::string_view, cosim::duration)> m;
                    if (!none) m = [=](std::string_view v, cosim::duration d) { return text_of(apply(k, c, 2, text_token(v), d)); };
                    if (op == "im") x.man->set_string_input_modifier(ref, m); else x.man->set_string_output_modifier(ref, m);
                } else {
                    std::function<bool(bool, cosim::duration)> m;
                    if (!none) m = [=](bool v, cosim::duration d) { return apply(k, c, 3, v, d) != 0; };
                    if (op == "im") x.man->set_boolean_input_modifier(ref, m); else x.man->set_boolean_output_modifier(ref, m);
                }
            });
            t.ev(ev(op.c_str()).s("k", k).i("c", c).i("ok", ok));
        } else if (op == "list") {
            std::vector<long long> m;
            for (auto v : x.sim->get_modified_real_variables()) m.push_back(mock::unref(v));
            for (auto v : x.sim->get_modified_integer_variables()) m.push_back(10 + mock::unref(v));
            for (auto v : x.sim->get_modified_string_variables()) m.push_back(20 + mock::unref(v));
            for (auto v : x.sim->get_modified_boolean_variables()) m.push_back(30 + mock::unref(v));
            t.ev(obj("list").a("m", m));
        } else if (op == "iter") {
            x.sim->do_iteration();
            t.ev(obj("iter").raw("V", s.view()));
        } else {
            int res = 0;
            if (op == "setup") { // t stop tol fail
                t.ev(obj("setup"));
                s.fail = num(l[4]);
                const auto e = num(l[2]), tol = num(l[3]);
                const int c = caught([&] {
                    x.sim->setup(cosim::time_point(cosim::duration(num(l[1]) * B)),
                        e < 0 ? std::nullopt : std::optional<cosim::time_point>(cosim::time_point(cosim::duration(e * B))),
                        tol < 0 ? std::nullopt : std::optional<double>(real_of(tol)));
                });
                t.ev(obj("r").i("f", c).i("res", 0).i("want", 0));
            } else if (op == "start") {
                t.ev(obj("start"));
                s.fail = num(l[1]);
                const int c = caught([&] { x.sim->start_simulation(); });
                t.ev(obj("r").i("f", c).i("res", 0).i("want", 0));
            } else if (op == "step") { // t dt fail result
                t.ev(obj("step").i("dt", num(l[2])));
                s.want = num(l[1]);
                s.fail = num(l[3]);
                s.result = static_cast<int>(num(l[4]));
                const int c = caught([&] { res = static_cast<int>(x.sim->do_step(cosim::time_point(cosim::duration(num(l[1]) * B)), cosim::duration(num(l[2]) * B))); });
                const int want = c ? 0 : static_cast<int>(s.result == 0 ? cosim::step_result::complete : s.result == 1 ? cosim::step_result::failed : cosim::step_result::canceled);
                t.ev(obj("r").i("f", c).i("res", res).i("want", want));
            } else _exit(96);
        }
    }
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
