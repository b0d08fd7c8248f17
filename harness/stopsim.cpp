// simulate_until(_async) against stop_simulation() called at chosen places.
#include "vh.hpp"

#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/manipulator/manipulator.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/slave.hpp>

#include <memory>
#include <optional>

using namespace vh;
namespace
{
constexpr long long B = 1000000;
struct world;
struct stopper
{
    std::string where;
    long long n; // step (relative to the run) or delay in microseconds
};
struct world
{
    trace& t;
    cosim::execution* exe = nullptr;
    std::mutex m;
    std::vector<stopper> plan;
    std::vector<std::thread> threads;
    std::atomic<int> ids{0};
    std::atomic<long long> step{0}; // step number within the run
    unsigned delay = 0;
    bool hold = false;
    explicit world(trace& tr) : t(tr) { }
    long long now() { return exe->current_time().time_since_epoch().count() / B; }
    void stop_here()
    {
        const int id = ++ids;
        t.ev(obj("xb").i("x", id));
        exe->stop_simulation();
        t.ev(obj("xe").i("x", id));
    }
    void at(const char* where)
    {
        std::vector<stopper> due;
        {
            std::lock_guard<std::mutex> g(m);
            for (std::size_t k = 0; k < plan.size();) {
                const bool thr = plan[k].where == std::string("t-") + where;
                if ((plan[k].where == where || thr) && plan[k].n == step) {
                    due.push_back(plan[k]);
                    plan.erase(plan.begin() + static_cast<long>(k));
                } else ++k;
            }
            for (auto& d : due)
                if (d.where[0] == 't') threads.emplace_back([this] { stop_here(); });
        }
        for (auto& d : due)
            if (d.where[0] != 't') stop_here();
    }
};
class mock : public cosim::slave
{
public:
    mock(int i, world& w) : i_(i), w_(w) { }
    cosim::model_description model_description() const override
    {
        cosim::model_description d;
        d.name = "m";
        return d;
    }
    void setup(cosim::time_point, std::optional<cosim::time_point>, std::optional<double>) override { }
    void start_simulation() override { }
    void end_simulation() override { }
    cosim::step_result do_step(cosim::time_point t, cosim::duration) override
    {
        w_.t.ev(obj("sb").i("i", i_).i("t", t.time_since_epoch().count() / B));
        if (i_ == 1) w_.at("slave");
        if (w_.delay) ::usleep(w_.delay);
        w_.t.ev(obj("se").i("i", i_));
        return cosim::step_result::complete;
    }
    void get_real_variables(gsl::span<const cosim::value_reference>, gsl::span<double>) const override { }
    void get_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<int>) const override { }
    void get_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<bool>) const override { }
    void get_string_variables(gsl::span<const cosim::value_reference>, gsl::span<std::string>) const override { }
    void set_real_variables(gsl::span<const cosim::value_reference>, gsl::span<const double>) override { }
    void set_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<const int>) override { }
    void set_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<const bool>) override { }
    void set_string_variables(gsl::span<const cosim::value_reference>, gsl::span<const std::string>) override { }

private:
    int i_;
    world& w_;
};
class obsr : public cosim::observer
{
public:
    explicit obsr(world& w) : w_(w) { }
    void simulator_added(cosim::simulator_index, cosim::observable*, cosim::time_point) override { }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
    void simulation_initialized(cosim::step_number, cosim::time_point) override { }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number, cosim::duration, cosim::time_point) override
    {
        if (i == 0) w_.at("osim");
    }
    void step_complete(cosim::step_number n, cosim::duration, cosim::time_point t) override
    {
        w_.t.ev_locked([&] {
            return obj("o").i("n", n).i("t", t.time_since_epoch().count() / B).i("run", w_.exe->is_running());
        });
        w_.at("obs");
        if (w_.hold) ::usleep(w_.delay);
    }

private:
    world& w_;
};
class man : public cosim::manipulator
{
public:
    explicit man(world& w) : w_(w) { }
    void simulator_added(cosim::simulator_index, cosim::manipulable*, cosim::time_point) override { }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void step_commencing(cosim::time_point t) override
    {
        w_.t.ev(obj("m").i("t", t.time_since_epoch().count() / B));
        ++w_.step;
        w_.at("man");
    }

private:
    world& w_;
};

void play(const scenario& sc, trace& t)
{
    world w(t);
    std::unique_ptr<cosim::execution> exe;
    for (const auto& l : sc.lines) {
        if (l[0] == "sys") { // sims threads delay hold
            auto algo = std::make_shared<cosim::fixed_step_algorithm>(cosim::duration(B), static_cast<unsigned>(num(l[2])));
            exe = std::make_unique<cosim::execution>(cosim::time_point(), algo);
            w.exe = exe.get();
            w.delay = static_cast<unsigned>(num(l[3]));
            w.hold = num(l[4]) != 0;
            for (int i = 1; i <= num(l[1]); ++i) exe->add_slave(std::make_shared<mock>(i, w), "s" + std::to_string(i));
            exe->add_observer(std::make_shared<obsr>(w));
            exe->add_manipulator(std::make_shared<man>(w));
        } else if (l[0] == "stop") { // where n
            std::lock_guard<std::mutex> g(w.m);
            w.plan.push_back({l[1], num(l[2])});
        } else if (l[0] == "run") { // async has T
            w.step = 0;
            const bool async = num(l[1]) != 0, has = num(l[2]) != 0;
            const auto T = has ? std::optional<cosim::time_point>(cosim::time_point(cosim::duration(num(l[3]) * B))) : std::nullopt;
            {
                std::lock_guard<std::mutex> g(w.m);
                for (std::size_t k = 0; k < w.plan.size();) {
                    if (w.plan[k].where == "delay") {
                        const auto us = w.plan[k].n;
                        w.threads.emplace_back([&w, us] { ::usleep(static_cast<useconds_t>(us)); w.stop_here(); });
                        w.plan.erase(w.plan.begin() + static_cast<long>(k));
                    } else ++k;
                }
            }
            t.ev(obj("b").i("has", has).i("t", has ? num(l[3]) : 0));
            bool res;
            if (async) res = exe->simulate_until_async(T).get();
            else res = exe->simulate_until(T);
            t.ev_locked([&] { return obj("r").i("res", res).i("t", w.now()).i("run", exe->is_running()); });
            std::vector<std::thread> th;
            { std::lock_guard<std::mutex> g(w.m); th.swap(w.threads); w.plan.clear(); }
            for (auto& x : th) x.join();
        } else _exit(96);
    }
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
