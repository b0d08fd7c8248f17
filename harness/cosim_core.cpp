// Drives cosim::execution + cosim::fixed_step_algorithm with instrumented
// slaves, observers and manipulators and records everything they see.
#include "vh.hpp"

#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/exception.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/manipulator/override_manipulator.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/slave.hpp>
#include <cosim/system_structure.hpp>

#include <algorithm>
#include <memory>
#include <optional>
#include <set>

using namespace vh;

namespace
{
struct var_decl
{
    int ty, ca;
    cosim::value_reference ref;
    long long st;
    bool hasStart;
    int rk;
    long long rb, ro;
};
struct sim_decl
{
    long long hint;
    int fk;
    long long fn;
    long long far = 0; // the real hint in base steps if the specification has FAR ones
    std::vector<var_decl> vars;
};
cosim::duration hint(const sim_decl&);
struct fun_decl { int kind; long long off, fac, n, dim; int ty; };
struct obs_decl { long long stopAt; std::vector<std::pair<int, int>> vars; };

long long unit = 1000000;
long long epoch = 0; // what the specification takes for time zero, in ns
unsigned jitter = 0;
bool retries = false;            // try again when a step has not been completed
std::atomic<bool> threw{false}; // by a slave

cosim::variable_type vtype(int t)
{
    switch (t) {
        case 1: return cosim::variable_type::real;
        case 2: return cosim::variable_type::integer;
        case 3: return cosim::variable_type::boolean;
        default: return cosim::variable_type::string;
    }
}
long long base = 1;      // the base step in units
long long longest = 0;   // the shortest step that the specification takes for FAR base steps
constexpr long long FAR = 1000;
long long units(cosim::duration d)
{
    if (longest > 0 && d.count() >= longest) return FAR * base;
    return d.count() % unit ? BAD : d.count() / unit;
}
cosim::duration hint(const sim_decl& d) { return cosim::duration((d.far ? d.far * base : d.hint) * unit); }
long long units(cosim::time_point t) { return units(t.time_since_epoch() - cosim::duration(epoch)); }
cosim::time_point tp(long long u) { return cosim::time_point(cosim::duration(epoch + u * unit)); }

long long tok(double d) { return real_token(d); }
long long tok(int i) { return i; }
long long tok(bool b) { return b ? 1 : 0; }
long long tok(std::string_view s)
{
    return text_token(s);
}
std::string stok(long long x) { return text_of(x); }
template<typename T> T value(long long x) { return static_cast<T>(x); }
template<> double value<double>(long long x) { return real_of(x); }

class mock : public cosim::slave
{
public:
    mock(int idx, sim_decl d, trace& t) : idx_(idx), d_(std::move(d)), t_(t), rng_(1000 + idx)
    {
        for (auto& v : d_.vars) sv_.push_back(v.st);
    }
    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "mock" + std::to_string(idx_);
        md.uuid = "uuid" + std::to_string(idx_);
        for (std::size_t k = 0; k < d_.vars.size(); ++k) {
            const auto& v = d_.vars[k];
            cosim::variable_description vd;
            vd.name = "v" + std::to_string(k);
            vd.reference = v.ref;
            vd.type = vtype(v.ty);
            vd.causality = v.ca == 1 ? cosim::variable_causality::input : v.ca == 2 ? cosim::variable_causality::output
                : v.ca == 3 ? cosim::variable_causality::parameter : v.ca == 4 ? cosim::variable_causality::calculated_parameter
                : cosim::variable_causality::local;
            vd.variability = v.ca == 3 ? cosim::variable_variability::tunable : cosim::variable_variability::discrete;
            if (v.hasStart) {
                switch (v.ty) {
                    case 1: vd.start = real_of(v.st); break;
                    case 2: vd.start = static_cast<int>(v.st); break;
                    case 3: vd.start = v.st != 0; break;
                    default: vd.start = stok(v.st);
                }
            }
            md.variables.push_back(vd);
        }
        return md;
    }
    void setup(cosim::time_point s, std::optional<cosim::time_point>, std::optional<double>) override
    {
        guard g(*this);
        t_.ev(obj("s").s("k", "setup").i("i", idx_).i("b", 1).i("t", units(s)));
        delay();
        t_.ev(obj("s").s("k", "setup").i("i", idx_).i("b", 0));
        if (d_.fk >= 3) threw = true;
        if (d_.fk == 3) boom("setup failed");
    }
    void start_simulation() override
    {
        guard g(*this);
        t_.ev(obj("s").s("k", "start").i("i", idx_).i("b", 1).a("vals", sv_));
        delay();
        t_.ev(obj("s").s("k", "start").i("i", idx_).i("b", 0));
        started_ = true;
        if (d_.fk == 4) boom("start failed");
    }
    void end_simulation() override { }
    void renumber(int idx) { idx_ = idx; }
    cosim::step_result do_step(cosim::time_point t, cosim::duration dt) override
    {
        guard g(*this);
        t_.ev(obj("s").s("k", "step").i("i", idx_).i("b", 1).i("t", units(t)).i("dt", units(dt)).a("vals", sv_));
        delay();
        const bool at = n_ + 1 == d_.fn;
        if (!(at && (d_.fk == 1 || d_.fk == 5))) ++n_;
        t_.ev(obj("s").s("k", "step").i("i", idx_).i("b", 0));
        if (at && (d_.fk == 1 || d_.fk == 5)) threw = true;
        if (at && d_.fk == 5) getFails_ = true;
        if (at && d_.fk == 1) boom("step failed");
        if (at && d_.fk == 2) return cosim::step_result::failed;
        return cosim::step_result::complete;
    }
    void get_real_variables(gsl::span<const cosim::value_reference> r, gsl::span<double> v) const override { get(1, r, v, [](long long x) { return real_of(x); }); }
    void get_integer_variables(gsl::span<const cosim::value_reference> r, gsl::span<int> v) const override { get(2, r, v, [](long long x) { return static_cast<int>(x); }); }
    void get_boolean_variables(gsl::span<const cosim::value_reference> r, gsl::span<bool> v) const override { get(3, r, v, [](long long x) { return x != 0; }); }
    void get_string_variables(gsl::span<const cosim::value_reference> r, gsl::span<std::string> v) const override { get(4, r, v, [](long long x) { return stok(x); }); }
    void set_real_variables(gsl::span<const cosim::value_reference> r, gsl::span<const double> v) override
    {
        if (d_.fk == 6 && started_ && n_ + 1 == d_.fn) {
            t_.ev(obj("s").s("k", "set").i("i", idx_));
            threw = true;
            boom("no values accepted");
        }
        set(1, r, v);
    }
    void set_integer_variables(gsl::span<const cosim::value_reference> r, gsl::span<const int> v) override { set(2, r, v); }
    void set_boolean_variables(gsl::span<const cosim::value_reference> r, gsl::span<const bool> v) override { set(3, r, v); }
    void set_string_variables(gsl::span<const cosim::value_reference> r, gsl::span<const std::string> v) override { set(4, r, v); }

private:
    struct guard
    {
        explicit guard(const mock& m) : m_(m)
        {
            if (m_.inside_.fetch_add(1) != 0) m_.t_.ev(obj("reentered").i("i", m_.idx_));
        }
        ~guard() { m_.inside_.fetch_sub(1); }
        const mock& m_;
    };
    // Exceptions may be of any type
    [[noreturn]] void boom(const char* what) const
    {
        if ((idx_ + d_.fn) % 3 == 0) throw 42;
        throw std::runtime_error(what);
    }
    void delay()
    {
        if (!jitter) return;
        const unsigned k = rng_.next(4);
        if (k == 0) return;
        std::this_thread::sleep_for(std::chrono::microseconds(rng_.next(jitter)));
    }
    int find(int ty, cosim::value_reference r) const
    {
        for (std::size_t k = 0; k < d_.vars.size(); ++k)
            if (d_.vars[k].ty == ty && d_.vars[k].ref == r) return static_cast<int>(k);
        t_.ev(obj("badref").i("i", idx_).i("ty", ty).i("ref", r));
        throw std::out_of_range("bad reference");
    }
    long long value(std::size_t k) const
    {
        const auto& v = d_.vars[k];
        long long x = v.rk == 1 ? v.rb + n_ : v.rk == 2 ? sv_[static_cast<std::size_t>(v.rb - 1)] + v.ro : sv_[k];
        return v.ty == 3 ? (((x % 2) + 2) % 2) : x;
    }
    template<typename T, typename F>
    void get(int ty, gsl::span<const cosim::value_reference> r, gsl::span<T> v, F conv) const
    {
        guard g(*this);
        if (getFails_) boom("no values");
        for (std::size_t k = 0; k < static_cast<std::size_t>(r.size()); ++k)
            v[k] = conv(value(static_cast<std::size_t>(find(ty, r[k]))));
    }
    template<typename T>
    void set(int ty, gsl::span<const cosim::value_reference> r, gsl::span<const T> v)
    {
        guard g(*this);
        for (std::size_t k = 0; k < static_cast<std::size_t>(r.size()); ++k)
            sv_[static_cast<std::size_t>(find(ty, r[k]))] = tok(v[k]);
    }
    int idx_;
    sim_decl d_;
    trace& t_;
    rng rng_;
    std::vector<long long> sv_;
    long long n_ = 0;
    bool started_ = false, getFails_ = false;
    mutable std::atomic<int> inside_{0};
};

template<typename O>
long long read_obs(O* o, const var_decl& v)
{
    try {
        switch (v.ty) {
            case 1: return tok(o->get_real(v.ref));
            case 2: return tok(o->get_integer(v.ref));
            case 3: return tok(o->get_boolean(v.ref));
            default: return tok(o->get_string(v.ref));
        }
    } catch (const std::exception&) {
        return BAD;
    }
}

struct world
{
    std::vector<sim_decl> sims;
    std::vector<fun_decl> funs;
    std::vector<obs_decl> obs;
    std::vector<int> mans;
    std::vector<std::pair<int, int>> manAdds;
    cosim::execution* exe = nullptr;
    trace* t = nullptr;
};

class test_observer : public cosim::observer
{
public:
    test_observer(world& w, int n, obs_decl d) : w_(w), n_(n), d_(std::move(d)) { }
    void simulator_added(cosim::simulator_index i, cosim::observable* o, cosim::time_point t) override
    {
        sims_[i + 1] = o;
        w_.t->ev(obj("c").s("k", "oadd").i("o", n_).i("i", i + 1).i("t", units(t)));
        for (auto [s, v] : d_.vars)
            if (s == i + 1) o->expose_for_getting(vtype(decl(s, v).ty), decl(s, v).ref);
    }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
    void simulation_initialized(cosim::step_number n, cosim::time_point t) override
    {
        w_.t->ev(obj("c").s("k", "oinit").i("o", n_).i("n", n).i("t", units(t)).a("vals", vals()));
    }
    void step_complete(cosim::step_number n, cosim::duration dt, cosim::time_point t) override
    {
        const bool stops = n == d_.stopAt;
        w_.t->ev(obj("c").s("k", "ostep").i("o", n_).i("n", n).i("dt", units(dt)).i("t", units(t)).i("run", w_.exe->is_running()).i("stops", stops).a("vals", vals()));
        if (stops) w_.exe->stop_simulation();
    }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number n, cosim::duration dt, cosim::time_point t) override
    {
        w_.t->ev(obj("c").s("k", "osim").i("o", n_).i("i", i + 1).i("n", n).i("dt", units(dt)).i("t", units(t)).a("vals", vals()));
    }

private:
    const var_decl& decl(int s, int v) { return w_.sims.at(s - 1).vars.at(v - 1); }
    std::vector<long long> vals()
    {
        std::vector<long long> r;
        for (auto [s, v] : d_.vars) {
            const auto it = sims_.find(s);
            r.push_back(it == sims_.end() ? 0 : read_obs(it->second, decl(s, v)));
        }
        return r;
    }
    world& w_;
    int n_;
    obs_decl d_;
    std::map<int, cosim::observable*> sims_;
};

struct request { int s; int v; int mk; long long ma; };

class test_manipulator : public cosim::manipulator
{
public:
    test_manipulator(world& w, int n) : w_(w), n_(n) { }
    void simulator_added(cosim::simulator_index i, cosim::manipulable* m, cosim::time_point t) override
    {
        sims_[i + 1] = m;
        w_.t->ev(obj("c").s("k", "madd").i("o", n_).i("i", i + 1).i("t", units(t)));
    }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void step_commencing(cosim::time_point t) override
    {
        const bool adds = onStep && ++steps_ == onStepAt;
        w_.t->ev(obj("c").s("k", "mstep").i("o", n_).i("t", units(t)).i("adds", adds ? adds_ : 0));
        for (const auto& r : q_) apply(r);
        q_.clear();
        if (adds) onStep();
    }
    // In its n-th step, it adds declared observer `o` to the execution.
    void add_observer_in_step(int n, int o, std::function<void()> f)
    {
        onStepAt = n;
        adds_ = o;
        onStep = std::move(f);
    }
    bool add(const request& r)
    {
        if (!sims_.count(r.s) || r.v < 1 || r.v > static_cast<int>(w_.sims[r.s - 1].vars.size())) return false;
        if (w_.sims[r.s - 1].vars[r.v - 1].ca == 5) return false;
        q_.push_back(r);
        return true;
    }

private:
    // Modifiers run in whatever thread steps the simulator, and take some time.
    static void delay()
    {
        static std::atomic<unsigned> n{0};
        if (!jitter) return;
        const unsigned k = n++ * 2654435761u >> 16;
        if (k % 4) std::this_thread::sleep_for(std::chrono::microseconds(k % jitter / 2));
    }
    template<typename T>
    static std::function<T(T, cosim::duration)> fun(const request& r)
    {
        const auto a = r.ma;
        switch (r.mk) {
            case 0: return nullptr;
            case 1: return [a](T, cosim::duration) { delay(); return value<T>(a); };
            case 2: return [a](T x, cosim::duration) { delay(); return static_cast<T>(x + value<T>(a)); };
            case 3: return [a](T x, cosim::duration d) { delay(); return static_cast<T>(x + value<T>(a * units(d))); };
            default: return [](T x, cosim::duration) { delay(); return static_cast<T>(1 - x); };
        }
    }
    void apply(const request& r)
    {
        const auto& v = w_.sims[r.s - 1].vars[r.v - 1];
        auto* m = sims_.at(r.s);
        const bool in = v.ca == 1 || v.ca == 3;
        if (in) m->expose_for_setting(vtype(v.ty), v.ref);
        else m->expose_for_getting(vtype(v.ty), v.ref);
        switch (v.ty) {
            case 1: in ? m->set_real_input_modifier(v.ref, fun<double>(r)) : m->set_real_output_modifier(v.ref, fun<double>(r)); break;
            case 2: in ? m->set_integer_input_modifier(v.ref, fun<int>(r)) : m->set_integer_output_modifier(v.ref, fun<int>(r)); break;
            case 3: {
                const auto a = r.ma;
                std::function<bool(bool, cosim::duration)> f;
                if (r.mk == 1) f = [a](bool, cosim::duration) { delay(); return a != 0; };
                else if (r.mk != 0) f = [](bool x, cosim::duration) { delay(); return !x; };
                in ? m->set_boolean_input_modifier(v.ref, f) : m->set_boolean_output_modifier(v.ref, f);
                break;
            }
            default: {
                const auto a = r.ma;
                std::function<std::string(std::string_view, cosim::duration)> f;
                if (r.mk == 1) f = [a](std::string_view, cosim::duration) { delay(); return stok(a); };
                else if (r.mk == 2) f = [a](std::string_view x, cosim::duration) { const auto y = stok(tok(x) + a); delay(); return y; };
                in ? m->set_string_input_modifier(v.ref, f) : m->set_string_output_modifier(v.ref, f);
            }
        }
    }
    world& w_;
    int n_;
    std::map<int, cosim::manipulable*> sims_;
    std::vector<request> q_;
    std::function<void()> onStep;
    int onStepAt = 0, adds_ = 0, steps_ = 0;
};

std::string name_of(int i) { return "sim_" + std::to_string(i) + "_"; }

// A model whose instances are told apart by their names.
class mock_model : public cosim::model
{
public:
    mock_model(std::shared_ptr<cosim::model_description> d, std::function<std::shared_ptr<cosim::slave>(std::string_view)> f) : d_(std::move(d)), f_(std::move(f)) { }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return d_; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view name) override { return f_(name); }

private:
    std::shared_ptr<cosim::model_description> d_;
    std::function<std::shared_ptr<cosim::slave>(std::string_view)> f_;
};

void play(const scenario& sc, trace& t)
{
    world w;
    w.t = &t;
    // (A scenario that runs beside another one has the same settings.)
    if (retries) retries = false;
    if (threw) threw = false;
    if (longest) longest = 0;
    std::shared_ptr<cosim::fixed_step_algorithm> algo;
    std::unique_ptr<cosim::execution> exe;
    std::vector<std::shared_ptr<test_observer>> obs;
    std::vector<std::shared_ptr<test_manipulator>> mans;
    std::vector<std::shared_ptr<cosim::override_manipulator>> ovr;
    int nSim = 0;
    // While a system structure is being built: operations go to it, and `build`
    // keeps what they are equivalent to; afterwards simulators and functions
    // have the numbers the injection gave them.
    bool structured = false;
    cosim::system_structure sys;
    cosim::variable_value_map sysVals;
    std::vector<std::function<void()>> build;
    std::map<std::string, std::shared_ptr<mock_model>> models;
    std::map<std::string, std::shared_ptr<mock>> slaves;
    std::vector<int> sx(64), fx(64); // declared number -> number
    for (int k = 0; k < 64; ++k) sx[k] = fx[k] = k;
    auto X = [&](int i) { return i >= 0 && i < 64 ? sx[i] : i; };
    auto Y = [&](int f) { return f >= 0 && f < 64 ? fx[f] : f; };
    std::vector<int> declared; // number -> declared number, after injection

    auto ret = [&](bool ok, long long idx = -1, long long dur = -1, int res = -1, std::vector<long long> bad = {}) {
        t.ev(obj("r").i("ok", ok).i("t", units(exe->current_time())).i("run", exe->is_running()).i("idx", idx).i("dur", dur).i("res", res).a("bad", bad));
    };
    auto retry = [&] {
        if (!retries || threw) return;
        t.ev(obj("retry"));
        bool ok = true;
        try { exe->step(); } catch (const std::exception&) { ok = false; }
        ret(ok);
    };
    auto culprits = [&](const std::string& what) {
        std::vector<long long> b;
        for (int i = 1; i <= nSim; ++i)
            if (what.find(name_of(declared.empty() ? i : declared[i - 1])) != std::string::npos) b.push_back(i);
        return b;
    };
    // Reference of variable v of simulator i as the user would state it; an
    // unknown simulator or variable is turned into an id that does not exist.
    auto vid = [&](int i, int v, int ty = 0) {
        cosim::variable_id id{i - 1, cosim::variable_type::real, 77};
        if (i >= 1 && i <= static_cast<int>(w.sims.size()) && v >= 1 && v <= static_cast<int>(w.sims[i - 1].vars.size())) {
            id.type = vtype(w.sims[i - 1].vars[v - 1].ty);
            id.reference = w.sims[i - 1].vars[v - 1].ref;
        }
        if (ty) id.type = vtype(ty);
        return id;
    };
    auto attempt = [&](auto f) {
        try { f(); return true; } catch (const std::exception&) { return false; }
    };
    auto io = [](const tokens& l, std::size_t k) {
        return cosim::function_io_reference{static_cast<int>(num(l[k])), static_cast<int>(num(l[k + 1])), static_cast<int>(num(l[k + 2])), static_cast<int>(num(l[k + 3]))};
    };
    auto rvec = [](const tokens& l, std::size_t k) {
        return std::vector<long long>{num(l[k]), num(l[k + 1]), num(l[k + 2]), num(l[k + 3])};
    };

    const auto svar = [](int i, int v) { return cosim::full_variable_name(name_of(i), "v" + std::to_string(v - 1)); };
    const auto fvar = [](int f, std::vector<long long> r) {
        return cosim::full_variable_name("fun_" + std::to_string(f), r[0] == 0 ? "in" : r[0] == 1 ? "out" : "nosuch", static_cast<int>(r[1]), r[2] == 0 ? "" : "nosuch", static_cast<int>(r[3]));
    };
    const auto link = [&](const cosim::full_variable_name& a, const cosim::full_variable_name& b) {
        try {
            sys.connect_variables(a, b);
            return true;
        } catch (const cosim::error&) { return false; }
    };

    for (const auto& l : sc.lines) {
        const auto& op = l[0];
        if (op == "structured") {
            structured = true;
        } else if (structured && op == "addsim") {
            const int i = static_cast<int>(num(l[1]));
            auto& d = w.sims[i - 1];
            std::string key;
            for (const auto& v : d.vars)
                for (long long x : {static_cast<long long>(v.ty), static_cast<long long>(v.ca), static_cast<long long>(v.ref), v.st, static_cast<long long>(v.hasStart)}) key += std::to_string(x) + " ";
            auto& m = models[key];
            if (!m) {
                auto md = std::make_shared<cosim::model_description>(mock(i, d, t).model_description());
                md->uuid = key;
                m = std::make_shared<mock_model>(md, [&](std::string_view n) {
                    const int k = std::stoi(std::string(n).substr(4));
                    return slaves[std::string(n)] = std::make_shared<mock>(k, w.sims[k - 1], t);
                });
            }
            sys.add_entity(name_of(i), std::shared_ptr<cosim::model>(m), hint(d));
            ++nSim;
        } else if (structured && op == "addfun") {
            const int i = static_cast<int>(num(l[1]));
            const auto& f = w.funs[i - 1];
            cosim::function_parameter_value_map p;
            if (f.kind == 1) {
                if (f.off != 0) p[0] = real_of(f.off);
                if (f.fac != 1) p[1] = static_cast<double>(f.fac);
                sys.add_entity("fun_" + std::to_string(i), std::make_shared<cosim::linear_transformation_function_type>(), p);
            } else {
                if (f.n != 1) p[0] = static_cast<int>(f.n);
                if (f.ty != 1) p[1] = vtype(f.ty);
                if (f.dim != 1) p[2] = static_cast<int>(f.dim);
                sys.add_entity("fun_" + std::to_string(i), std::make_shared<cosim::vector_sum_function_type>(), p);
            }
        } else if (structured && op == "ss") {
            const int i = num(l[1]), v = num(l[2]), j = num(l[3]), x = num(l[4]);
            const bool ok = link(svar(i, v), svar(j, x));
            build.push_back([=, &t, &X] { t.ev(obj("x").s("k", "ss").i("i", X(i)).i("v", v).i("j", X(j)).i("w", x).i("ok", ok)); });
        } else if (structured && op == "sf") {
            const int i = num(l[1]), v = num(l[2]), f = num(l[3]);
            const auto r = rvec(l, 4);
            const bool ok = link(svar(i, v), fvar(f, r));
            build.push_back([=, &t, &X, &Y] { t.ev(obj("x").s("k", "sf").i("i", X(i)).i("v", v).i("j", Y(f)).a("r", r).i("ok", ok)); });
        } else if (structured && op == "fs") {
            const int f = num(l[1]), j = num(l[6]), x = num(l[7]);
            const auto r = rvec(l, 2);
            const bool ok = link(fvar(f, r), svar(j, x));
            build.push_back([=, &t, &X, &Y] { t.ev(obj("x").s("k", "fs").i("i", Y(f)).a("r", r).i("j", X(j)).i("w", x).i("ok", ok)); });
        } else if (structured && op == "init") {
            const int i = num(l[1]), v = num(l[2]);
            const long long x = num(l[3]);
            bool ok = true;
            try {
                cosim::scalar_value val = real_of(x);
                switch (vid(i, v).type) {
                    case cosim::variable_type::real: break;
                    case cosim::variable_type::integer: val = static_cast<int>(x); break;
                    case cosim::variable_type::boolean: val = x != 0; break;
                    default: val = stok(x);
                }
                cosim::add_variable_value(sysVals, sys, svar(i, v), val);
            } catch (const cosim::error&) { ok = false; }
            build.push_back([=, &t, &X] { t.ev(obj("x").s("k", "init").i("i", X(i)).i("v", v).i("x", x).i("ok", ok)); });
        } else if (structured && op == "inject") {
            cosim::entity_index_maps maps;
            bool ok = true;
            try {
                maps = cosim::inject_system_structure(*exe, sys, sysVals);
            } catch (const std::exception&) { ok = false; }
            structured = false;
            const int nFun = static_cast<int>(maps.functions.size());
            std::vector<long long> sims(static_cast<std::size_t>(nSim), 0), funs(w.funs.size(), 0);
            for (const auto& [n, k] : maps.simulators)
                if (k >= 0 && k < nSim && n.rfind("sim_", 0) == 0) sims[static_cast<std::size_t>(k)] = std::stoi(n.substr(4));
            for (const auto& [n, k] : maps.functions)
                if (k >= 0 && k < static_cast<int>(funs.size()) && n.rfind("fun_", 0) == 0) funs[static_cast<std::size_t>(k)] = std::stoi(n.substr(4));
            t.ev(obj("inject").i("ok", ok).a("sims", sims).a("funs", funs).i("nsim", static_cast<long long>(maps.simulators.size())).i("nfun", nFun));
            if (!ok) return;
            auto oldS = w.sims;
            auto oldF = w.funs;
            for (int k = 0; k < nSim; ++k) {
                const int d = static_cast<int>(sims[static_cast<std::size_t>(k)]);
                if (d < 1) return;
                sx[d] = k + 1;
                w.sims[k] = oldS[d - 1];
                declared.push_back(d);
                if (slaves.count(name_of(d))) slaves[name_of(d)]->renumber(k + 1);
            }
            for (int k = 0; k < static_cast<int>(funs.size()); ++k) {
                const int d = static_cast<int>(funs[static_cast<std::size_t>(k)]);
                if (d < 1) return;
                fx[d] = k + 1;
                w.funs[k] = oldF[d - 1];
            }
            for (auto& o : w.obs)
                for (auto& [a, b] : o.vars) a = X(a);
            // the operations that build the same system by hand
            for (int k = 1; k <= nSim; ++k) {
                t.ev(obj("b").s("k", "addsim").i("i", k));
                ret(true, k);
            }
            for (int k = 1; k <= static_cast<int>(funs.size()); ++k) t.ev(obj("x").s("k", "addfun").i("i", k));
            for (const auto& b : build) b();
        } else if (op == "alg") {
            unit = num(l[4]);
            base = num(l[1]);
            jitter = static_cast<unsigned>(num(l[5]));
            if (l.size() > 6) epoch = num(l[6]);
            std::optional<unsigned> thr;
            if (num(l[2]) >= 0) thr = static_cast<unsigned>(num(l[2]));
            algo = std::make_shared<cosim::fixed_step_algorithm>(cosim::duration(num(l[1]) * unit), thr);
            exe = std::make_unique<cosim::execution>(tp(num(l[3])), algo);
            w.exe = exe.get();
        } else if (op == "retries") {
            retries = true;
        } else if (op == "simdecl") {
            w.sims.push_back({num(l[1]), static_cast<int>(num(l[2])), num(l[3]), l.size() > 4 ? num(l[4]) : 0, {}});
            if (w.sims.back().far) longest = (1LL << 30) * base * unit;
        } else if (op == "var") {
            w.sims.back().vars.push_back({static_cast<int>(num(l[1])), static_cast<int>(num(l[3])), static_cast<cosim::value_reference>(num(l[2])), num(l[4]), num(l[5]) != 0, static_cast<int>(num(l[6])), num(l[7]), num(l[8])});
        } else if (op == "fundecl") {
            w.funs.push_back({static_cast<int>(num(l[1])), num(l[2]), num(l[3]), num(l[4]), num(l[5]), static_cast<int>(num(l[6]))});
        } else if (op == "obsdecl") {
            obs_decl d{num(l[1]), {}};
            for (std::size_t k = 2; k + 1 < l.size(); k += 2) d.vars.emplace_back(num(l[k]), num(l[k + 1]));
            w.obs.push_back(d);
        } else if (op == "mandecl") {
            w.mans.push_back(static_cast<int>(num(l[1])));
            w.manAdds.emplace_back(l.size() > 3 ? num(l[2]) : 0, l.size() > 3 ? num(l[3]) : 0);
        } else if (op == "addsim") {
            const int i = static_cast<int>(num(l[1]));
            t.ev(obj("b").s("k", "addsim").i("i", i));
            const auto idx = exe->add_slave(std::make_shared<mock>(i, w.sims[i - 1], t), name_of(i), hint(w.sims[i - 1]));
            ++nSim;
            ret(true, idx + 1);
        } else if (op == "addfun") {
            const int i = static_cast<int>(num(l[1]));
            const auto& f = w.funs[i - 1];
            std::shared_ptr<cosim::function> fun;
            if (f.kind == 1) fun = std::make_shared<cosim::linear_transformation_function>(real_of(f.off), static_cast<double>(f.fac));
            else if (f.ty == 1) fun = std::make_shared<cosim::vector_sum_function<double>>(static_cast<int>(f.n), static_cast<int>(f.dim));
            else fun = std::make_shared<cosim::vector_sum_function<int>>(static_cast<int>(f.n), static_cast<int>(f.dim));
            const auto idx = exe->add_function(fun);
            t.ev(obj("x").s("k", "addfun").i("i", idx + 1));
        } else if (op == "addobs") {
            const int i = static_cast<int>(num(l[1]));
            t.ev(obj("b").s("k", "addobs").i("i", i));
            obs.push_back(std::make_shared<test_observer>(w, static_cast<int>(obs.size()) + 1, w.obs[i - 1]));
            exe->add_observer(obs.back());
            ret(true);
        } else if (op == "addman") {
            const int i = static_cast<int>(num(l[1]));
            t.ev(obj("b").s("k", "addman").i("i", i));
            mans.emplace_back();
            ovr.emplace_back();
            if (w.mans[i - 1] == 1) {
                mans.back() = std::make_shared<test_manipulator>(w, static_cast<int>(mans.size()));
                if (const auto [n, o] = w.manAdds[i - 1]; o > 0) {
                    const int oi = o;
                    mans.back()->add_observer_in_step(n, o, [&, oi] {
                        obs.push_back(std::make_shared<test_observer>(w, static_cast<int>(obs.size()) + 1, w.obs[oi - 1]));
                        exe->add_observer(obs.back());
                    });
                }
                exe->add_manipulator(mans.back());
            } else {
                ovr.back() = std::make_shared<cosim::override_manipulator>();
                exe->add_manipulator(ovr.back());
            }
            ret(true);
        } else if (op == "ss") {
            const int i = X(num(l[1])), v = num(l[2]), j = X(num(l[3])), x = num(l[4]);
            const bool ok = attempt([&] { exe->connect_variables(vid(i, v), vid(j, x)); });
            t.ev(obj("x").s("k", "ss").i("i", i).i("v", v).i("j", j).i("w", x).i("ok", ok));
        } else if (op == "sf") {
            const int i = X(num(l[1])), v = num(l[2]), f = Y(num(l[3]));
            const bool ok = attempt([&] { exe->connect_variables(vid(i, v), cosim::function_io_id{f - 1, cosim::variable_type(static_cast<int>(vid(i, v).type)), io(l, 4)}); });
            t.ev(obj("x").s("k", "sf").i("i", i).i("v", v).i("j", f).a("r", rvec(l, 4)).i("ok", ok));
        } else if (op == "fs") {
            const int f = Y(num(l[1])), j = X(num(l[6])), x = num(l[7]);
            const bool ok = attempt([&] { exe->connect_variables(cosim::function_io_id{f - 1, vid(j, x).type, io(l, 2)}, vid(j, x)); });
            t.ev(obj("x").s("k", "fs").i("i", f).a("r", rvec(l, 2)).i("j", j).i("w", x).i("ok", ok));
        } else if (op == "disc") {
            const int i = X(num(l[1])), v = num(l[2]);
            algo->disconnect_variable(vid(i, v));
            t.ev(obj("x").s("k", "disc").i("i", i).i("v", v));
        } else if (op == "discf") {
            const int f = Y(num(l[1])), ty = num(l[6]);
            algo->disconnect_variable(cosim::function_io_id{f - 1, vtype(ty), io(l, 2)});
            t.ev(obj("x").s("k", "discf").i("i", f).a("r", rvec(l, 2)));
        } else if (op == "rmsim") {
            const int i = X(num(l[1]));
            algo->remove_simulator(i - 1);
            t.ev(obj("x").s("k", "rmsim").i("i", i));
        } else if (op == "dec") {
            const int i = X(num(l[1])), k = num(l[2]);
            const bool ok = attempt([&] { algo->set_stepsize_decimation_factor(i - 1, k); });
            t.ev(obj("x").s("k", "dec").i("i", i).i("v", k).i("ok", ok));
        } else if (op == "init") {
            const int i = X(num(l[1])), v = num(l[2]);
            const long long x = num(l[3]);
            const bool ok = attempt([&] {
                const auto id = vid(i, v);
                switch (id.type) {
                    case cosim::variable_type::real: exe->set_real_initial_value(id.simulator, id.reference, real_of(x)); break;
                    case cosim::variable_type::integer: exe->set_integer_initial_value(id.simulator, id.reference, static_cast<int>(x)); break;
                    case cosim::variable_type::boolean: exe->set_boolean_initial_value(id.simulator, id.reference, x != 0); break;
                    default: exe->set_string_initial_value(id.simulator, id.reference, stok(x));
                }
            });
            t.ev(obj("x").s("k", "init").i("i", i).i("v", v).i("x", x).i("ok", ok));
        } else if (op == "req") {
            const int m = num(l[1]), s = X(num(l[2])), v = num(l[3]), mk = num(l[4]);
            const long long a = num(l[5]);
            bool ok;
            if (mans[m - 1]) ok = mans[m - 1]->add({s, v, mk, a});
            else {
                const auto id = vid(s, v);
                auto& o = *ovr[m - 1];
                ok = attempt([&] {
                    if (mk == 0) { o.reset_variable(id.simulator, id.type, id.reference); return; }
                    switch (id.type) {
                        case cosim::variable_type::real: o.override_real_variable(id.simulator, id.reference, real_of(a)); break;
                        case cosim::variable_type::integer: o.override_integer_variable(id.simulator, id.reference, static_cast<int>(a)); break;
                        case cosim::variable_type::boolean: o.override_boolean_variable(id.simulator, id.reference, a != 0); break;
                        default: o.override_string_variable(id.simulator, id.reference, stok(a));
                    }
                });
            }
            t.ev(obj("x").s("k", "req").i("m", m).i("i", s).i("v", v).i("mk", mk).i("ma", a).i("ok", ok));
        } else if (op == "mods") {
            std::string r = "[";
            for (const auto& id : exe->get_modified_variables()) {
                long long v = BAD;
                const auto& vars = w.sims[id.simulator].vars;
                for (std::size_t k = 0; k < vars.size(); ++k)
                    if (vtype(vars[k].ty) == id.type && vars[k].ref == id.reference) v = static_cast<long long>(k) + 1;
                r += std::string(r.size() > 1 ? "," : "") + "[" + std::to_string(id.simulator + 1) + "," + std::to_string(v) + "]";
            }
            t.ev(obj("x").s("k", "mods").raw("mods", r + "]"));
        } else if (op == "step") {
            t.ev(obj("b").s("k", "step"));
            bool ok = true;
            long long dur = -1;
            std::vector<long long> bad;
            try { dur = units(exe->step()); } catch (const std::exception& e) { ok = false; bad = culprits(e.what()); }
            ret(ok, -1, dur, -1, bad);
            if (!ok) {
                retry();
                return;
            }
        } else if (op == "until") {
            const bool has = num(l[1]) != 0;
            t.ev(obj("b").s("k", "until").i("has", has).i("t", num(l[2])));
            bool ok = true;
            int res = -1;
            std::vector<long long> bad;
            try {
                res = exe->simulate_until(has ? std::optional<cosim::time_point>(tp(num(l[2]))) : std::nullopt);
            } catch (const std::exception& e) { ok = false; bad = culprits(e.what()); }
            ret(ok, -1, -1, res, bad);
            if (!ok) {
                retry();
                return;
            }
        } else {
            std::fprintf(stderr, "unknown op %s\n", op.c_str());
            _exit(96);
        }
    }
}
} // namespace

int main(int argc, char** argv) { return run(argc, argv, play); }
