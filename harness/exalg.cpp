// cosim::execution with a scripted co-simulation algorithm.
#include "vh.hpp"

#include <cosim/algorithm/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/function.hpp>
#include <cosim/manipulator/manipulator.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/slave.hpp>

#include <deque>
#include <memory>
#include <optional>
#include <set>

using namespace vh;
namespace
{
struct boom { int k; };                    // what is no std::exception
struct bang : std::runtime_error { int k; explicit bang(int x) : std::runtime_error("bang"), k(x) { } };
[[noreturn]] void raise(long long k)
{
    if (k % 2) throw boom{static_cast<int>(k)};
    throw bang(static_cast<int>(k));
}
struct plan_step { long long dt, stop, fail; std::vector<long long> fin; };
struct world
{
    trace& t;
    int w;
    long long unit = 1;
    std::optional<cosim::execution> exe;
    std::deque<long long> inits, conns;
    std::deque<plan_step> steps;
    std::vector<cosim::function*> funs;
    int nobs = 0, nman = 0, nsim = 0;
    world(trace& tr, int k) : t(tr), w(k) { }
    long long ticks(cosim::duration d) { return d.count() % unit ? BAD : d.count() / unit; }
    long long ticks(cosim::time_point p) { return ticks(p.time_since_epoch()); }
    cosim::time_point at(long long x) { return cosim::time_point(cosim::duration(x * unit)); }
    long long now() { return exe ? ticks(exe->current_time()) : 0; }
    static long long take(std::deque<long long>& q) { if (q.empty()) return 0; const auto x = q.front(); q.pop_front(); return x; }
};
class mock : public cosim::slave
{
public:
    explicit mock(int i) : i_(i) { }
    cosim::model_description model_description() const override
    {
        using namespace cosim;
        cosim::model_description d;
        d.name = "m" + std::to_string(i_);
        for (int ty = 0; ty < 2; ++ty)
            for (unsigned r = 0; r < 4; ++r) {
                variable_description v;
                v.name = (ty ? "i" : "r") + std::to_string(r);
                v.reference = r;
                v.type = ty ? variable_type::integer : variable_type::real;
                v.causality = r < 2 ? variable_causality::output : variable_causality::input;
                v.variability = ty ? variable_variability::discrete : variable_variability::continuous;
                d.variables.push_back(v);
            }
        return d;
    }
    void setup(cosim::time_point, std::optional<cosim::time_point>, std::optional<double>) override { }
    void start_simulation() override { }
    void end_simulation() override { }
    cosim::step_result do_step(cosim::time_point, cosim::duration) override { return cosim::step_result::complete; }
    void get_real_variables(gsl::span<const cosim::value_reference>, gsl::span<double>) const override { }
    void get_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<int>) const override { }
    void get_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<bool>) const override { }
    void get_string_variables(gsl::span<const cosim::value_reference>, gsl::span<std::string>) const override { }
    void set_real_variables(gsl::span<const cosim::value_reference>, gsl::span<const double>) override { }
    void set_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<const int>) override { }
    void set_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<const bool>) override { }
    void set_string_variables(gsl::span<const cosim::value_reference>, gsl::span<const std::string>) override { }

private:
    int i_;
};
class fun : public cosim::function
{
public:
    cosim::function_description description() const override
    {
        using namespace cosim;
        function_description d;
        function_io_group_description g;
        g.name = "g";
        g.count = 2;
        function_io_description in, out;
        in.name = "in";
        in.type = variable_type::real;
        in.causality = variable_causality::input;
        in.count = 2;
        out.name = "out";
        out.type = variable_type::real;
        out.causality = variable_causality::output;
        out.count = 1;
        g.ios = {in, out};
        d.io_groups = {g};
        return d;
    }
    void set_real(const cosim::function_io_reference&, double) override { }
    void set_integer(const cosim::function_io_reference&, int) override { }
    void set_boolean(const cosim::function_io_reference&, bool) override { }
    void set_string(const cosim::function_io_reference&, std::string_view) override { }
    bool get_boolean(const cosim::function_io_reference&) const override { return false; }
    std::string_view get_string(const cosim::function_io_reference&) const override { return {}; }
    double get_real(const cosim::function_io_reference&) const override { return 0; }
    int get_integer(const cosim::function_io_reference&) const override { return 0; }
    void calculate() override { }
};
std::string end_of(const cosim::variable_id& v)
{
    return "[\"s\"," + std::to_string(v.simulator) + "," + std::to_string(static_cast<int>(v.type)) + "," + std::to_string(v.reference) + "]";
}
std::string end_of(const cosim::function_io_id& f)
{
    const auto& r = f.reference;
    return "[\"f\"," + std::to_string(f.function) + "," + std::to_string(static_cast<int>(f.type)) + "," + std::to_string(r.group) + "," +
        std::to_string(r.group_instance) + "," + std::to_string(r.io) + "," + std::to_string(r.io_instance) + "]";
}
int suffix(const std::string& s) { return s.size() < 2 ? -1 : std::atoi(s.c_str() + 1); }
class algo : public cosim::algorithm
{
public:
    explicit algo(world& w) : w_(w) { }
    void add_simulator(cosim::simulator_index i, cosim::simulator* s, cosim::duration h) override
    {
        w_.t.ev(obj("aas").i("i", i).i("h", w_.ticks(h)).i("nm", suffix(s->name())));
    }
    void remove_simulator(cosim::simulator_index) override { w_.t.ev(obj("unexpected")); }
    void add_function(cosim::function_index i, cosim::function* f) override
    {
        long long k = -1;
        for (std::size_t n = 0; n < w_.funs.size(); ++n) if (w_.funs[n] == f) k = static_cast<long long>(n);
        w_.t.ev(obj("aaf").i("i", i).i("nm", k));
    }
    template<typename O, typename I>
    void conn(const O& o, const I& i)
    {
        const auto f = world::take(w_.conns);
        w_.t.ev(obj("ac").raw("o", end_of(o)).raw("i", end_of(i)).i("f", f));
        if (f) raise(f);
    }
    void connect_variables(cosim::variable_id o, cosim::variable_id i) override { conn(o, i); }
    void connect_variables(cosim::variable_id o, cosim::function_io_id i) override { conn(o, i); }
    void connect_variables(cosim::function_io_id o, cosim::variable_id i) override { conn(o, i); }
    void disconnect_variable(cosim::variable_id) override { w_.t.ev(obj("unexpected")); }
    void disconnect_variable(cosim::function_io_id) override { w_.t.ev(obj("unexpected")); }
    void setup(cosim::time_point t, std::optional<cosim::time_point> e) override { w_.t.ev(obj("as").i("t", w_.ticks(t)).i("has", e.has_value())); }
    void initialize() override
    {
        const auto f = world::take(w_.inits);
        w_.t.ev(obj("ai").i("f", f));
        if (f) raise(f);
    }
    std::pair<cosim::duration, std::unordered_set<cosim::simulator_index>> do_step(cosim::time_point t) override
    {
        plan_step p{1, 0, 0, {}};
        bool planned = !w_.steps.empty();
        if (planned) { p = w_.steps.front(); w_.steps.pop_front(); }
        std::vector<long long> fin;
        for (auto i : p.fin) if (i < w_.nsim) fin.push_back(i);
        const bool run = w_.exe->is_running();
        // a run that its script does not end is ended by a stop request
        const bool stop = run && (p.stop || !planned);
        w_.t.ev(obj("ad").i("t", w_.ticks(t)).i("run", run).i("dt", p.dt).a("fin", fin).i("stop", stop && !p.fail).i("f", p.fail).i("ct", w_.now()));
        if (p.fail) raise(p.fail);
        if (stop) w_.exe->stop_simulation();
        std::unordered_set<cosim::simulator_index> s;
        for (auto i : fin) s.insert(static_cast<cosim::simulator_index>(i));
        return {cosim::duration(p.dt * w_.unit), s};
    }

private:
    world& w_;
};
class obsr : public cosim::observer
{
public:
    obsr(world& w, int x) : w_(w), x_(x) { }
    void cb(const char* k, long long i, long long n, long long dt, cosim::time_point t, long long nm = -1)
    {
        w_.t.ev(obj("o").i("x", x_).s("k", k).i("i", i).i("n", n).i("dt", dt).i("t", w_.ticks(t)).i("ct", w_.now()).i("nm", nm));
    }
    void simulator_added(cosim::simulator_index i, cosim::observable* o, cosim::time_point t) override { cb("added", i, 0, 0, t, suffix(o->name())); }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { w_.t.ev(obj("unexpected")); }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { w_.t.ev(obj("unexpected")); }
    void simulation_initialized(cosim::step_number n, cosim::time_point t) override { cb("init", -1, n, 0, t); }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number n, cosim::duration d, cosim::time_point t) override { cb("sim", i, n, w_.ticks(d), t); }
    void step_complete(cosim::step_number n, cosim::duration d, cosim::time_point t) override { cb("step", -1, n, w_.ticks(d), t); }

private:
    world& w_;
    int x_;
};
class man : public cosim::manipulator
{
public:
    man(world& w, int x) : w_(w), x_(x) { }
    void cb(const char* k, long long i, cosim::time_point t, long long nm = -1)
    {
        w_.t.ev(obj("m").i("x", x_).s("k", k).i("i", i).i("t", w_.ticks(t)).i("ct", w_.now()).i("nm", nm));
    }
    void simulator_added(cosim::simulator_index i, cosim::manipulable* m, cosim::time_point t) override { cb("added", i, t, suffix(m->name())); }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { w_.t.ev(obj("unexpected")); }
    void step_commencing(cosim::time_point t) override { cb("commence", -1, t); }

private:
    world& w_;
    int x_;
};
// s <sim> <type> <ref>  or  f <fun> <type> <group> <ginst> <io> <ioinst>
struct endpoint
{
    bool sim = true;
    cosim::variable_id v{};
    cosim::function_io_id f{};
    endpoint(const tokens& l, std::size_t& k)
    {
        sim = l[k++] == "s";
        const auto n = [&] { return static_cast<int>(num(l[k++])); };
        if (sim) {
            v.simulator = n();
            v.type = static_cast<cosim::variable_type>(n());
            v.reference = static_cast<cosim::value_reference>(n());
        } else {
            f.function = n();
            f.type = static_cast<cosim::variable_type>(n());
            f.reference.group = n();
            f.reference.group_instance = n();
            f.reference.io = n();
            f.reference.io_instance = n();
        }
    }
    std::string text() const { return sim ? end_of(v) : end_of(f); }
};

void play(const scenario& sc, trace& t)
{
    world both[2] = {{t, 1}, {t, 2}};
    int cur = 0;
    for (const auto& l : sc.lines) {
        auto& w = both[cur];
        const auto& op = l[0];
        long long v = 0, f = 0;
        const auto call = [&](auto g) {
            try { g(); }
            catch (const bang& e) { f = e.k; }
            catch (const boom& e) { f = e.k; }
            catch (const std::exception&) { f = -1; }
            catch (...) { f = -2; }
            t.ev(obj("r").i("f", f).i("v", v).i("t", w.now()).i("run", w.exe && w.exe->is_running()));
        };
        if (op == "unit") both[0].unit = both[1].unit = num(l[1]);
        else if (op == "w") { cur = static_cast<int>(num(l[1])) - 1; t.ev(obj("sw").i("w", cur + 1)); }
        else if (op == "pi") w.inits.push_back(num(l[1]));
        else if (op == "pc") w.conns.push_back(num(l[1]));
        else if (op == "ps") { // dt stop fail fin...
            plan_step p{num(l[1]), num(l[2]), num(l[3]), {}};
            for (std::size_t k = 4; k < l.size(); ++k) p.fin.push_back(num(l[k]));
            w.steps.push_back(p);
        } else if (op == "new") {
            t.ev(obj("new").i("t", num(l[1])));
            call([&] { w.exe.emplace(w.at(num(l[1])), std::make_shared<algo>(w)); });
        } else if (op == "sim") {
            const int i = w.nsim++;
            t.ev(obj("addsim").i("h", num(l[1])));
            call([&] { v = w.exe->add_slave(std::make_shared<mock>(i), "s" + std::to_string(i), cosim::duration(num(l[1]) * w.unit)); });
        } else if (op == "fun") {
            auto p = std::make_shared<fun>();
            w.funs.push_back(p.get());
            t.ev(obj("addfun"));
            call([&] { v = w.exe->add_function(p); });
        } else if (op == "obs") {
            t.ev(obj("addobs"));
            call([&] { w.exe->add_observer(std::make_shared<obsr>(w, ++w.nobs)); });
        } else if (op == "man") {
            t.ev(obj("addman"));
            call([&] { w.exe->add_manipulator(std::make_shared<man>(w, ++w.nman)); });
        } else if (op == "conn") {
            std::size_t k = 1;
            const endpoint o(l, k), i(l, k);
            t.ev(obj("conn").raw("o", o.text()).raw("i", i.text()));
            call([&] {
                if (o.sim && i.sim) w.exe->connect_variables(o.v, i.v);
                else if (o.sim) w.exe->connect_variables(o.v, i.f);
                else w.exe->connect_variables(o.f, i.v);
            });
        } else if (op == "iv") { // sim type ref
            t.ev(obj("iv"));
            const auto s = static_cast<int>(num(l[1]));
            const auto r = static_cast<cosim::value_reference>(num(l[3]));
            call([&] { if (num(l[2])) w.exe->set_integer_initial_value(s, r, 3); else w.exe->set_real_initial_value(s, r, 3.0); });
        } else if (op == "md") {
            t.ev(obj("md").i("i", num(l[1])));
            call([&] { v = suffix(w.exe->get_model_description(static_cast<int>(num(l[1]))).name); });
        } else if (op == "mv") {
            t.ev(obj("mv"));
            call([&] {
                cosim::execution other(std::move(*w.exe));
                if (num(l[1])) *w.exe = std::move(other);
                else w.exe.emplace(std::move(other));
            });
        } else if (op == "step") {
            t.ev(obj("step"));
            call([&] { v = w.ticks(w.exe->step()); });
        } else if (op == "until") { // async has T
            const bool async = num(l[1]) != 0, has = num(l[2]) != 0;
            const auto T = has ? std::optional<cosim::time_point>(w.at(num(l[3]))) : std::nullopt;
            t.ev(obj("until").i("has", has).i("t", has ? num(l[3]) : 0));
            call([&] { v = async ? w.exe->simulate_until_async(T).get() : w.exe->simulate_until(T); });
        } else _exit(96);
    }
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
