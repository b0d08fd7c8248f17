// simulate_until with real-time settings, against the wall clock.
#include "vh.hpp"

#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/manipulator/manipulator.hpp>
#include <cosim/observer/observer.hpp>

#include <cmath>
#include <memory>
#include <optional>

using namespace vh;
namespace
{
struct change { long long n; int on; int fn; int fd; int mn; int ms; };
struct world
{
    trace& t;
    cosim::execution* exe = nullptr;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::vector<change> plan;
    long long wall() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count(); }
    void apply(const change& c)
    {
        auto cfg = exe->get_real_time_config();
        cfg->real_time_simulation = c.on != 0;
        cfg->real_time_factor_target = static_cast<double>(c.fn) / c.fd;
        cfg->steps_to_monitor = c.mn;
        cfg->sampling_period_to_monitor = std::chrono::milliseconds(c.ms);
        t.ev(obj("cfg").i("on", c.on).i("fn", c.fn).i("fd", c.fd).i("mn", c.mn).i("ms", c.ms).i("w", wall()));
    }
    // Microseconds of wall-clock time per millisecond of simulated time, in hundredths.
    static long long inverse(double factor)
    {
        if (factor == 0.0) return -1;
        const auto g = 100000.0 / factor;
        return g >= 0.0 && g < 2e9 ? std::llround(g) : -2;
    }
    obj metrics(obj o)
    {
        const auto m = exe->get_real_time_metrics();
        o.i("tg", inverse(m->total_average_real_time_factor)).i("rg", inverse(m->rolling_average_real_time_factor));
        return o.i("w", wall());
    }
    std::vector<std::pair<long long, int>> busy;
};
class obsr : public cosim::observer
{
public:
    explicit obsr(world& w) : w_(w) { }
    void simulator_added(cosim::simulator_index, cosim::observable*, cosim::time_point) override { }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
    void simulation_initialized(cosim::step_number, cosim::time_point) override { }
    void simulator_step_complete(cosim::simulator_index, cosim::step_number, cosim::duration, cosim::time_point) override { }
    void step_complete(cosim::step_number n, cosim::duration dt, cosim::time_point) override
    {
        for (const auto& b : w_.busy) if (b.first == n) ::usleep(static_cast<useconds_t>(b.second * 1000));
        for (const auto& c : w_.plan) if (c.n == n) w_.apply(c);
        w_.t.ev(obj("o").i("dt", dt.count() / 1000000).i("w", w_.wall()));
    }

private:
    world& w_;
};
class man : public cosim::manipulator
{
public:
    explicit man(world& w) : w_(w) { }
    void simulator_added(cosim::simulator_index, cosim::manipulable*, cosim::time_point) override { }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void step_commencing(cosim::time_point) override { w_.t.ev(w_.metrics(obj("m"))); }

private:
    world& w_;
};
change settings(long long n, const std::vector<std::string>& l, std::size_t k)
{
    const auto v = [&](std::size_t j) { return static_cast<int>(num(l.at(k + j))); };
    return {n, v(0), v(1), v(2), l.size() > k + 3 ? v(3) : 5, l.size() > k + 4 ? v(4) : -1};
}
void play(const scenario& sc, trace& t)
{
    world w{t};
    std::unique_ptr<cosim::execution> exe;
    for (const auto& l : sc.lines) {
        if (l[0] == "sys") { // base ms, start ms
            auto algo = std::make_shared<cosim::fixed_step_algorithm>(cosim::duration(num(l[1]) * 1000000), 0);
            exe = std::make_unique<cosim::execution>(cosim::time_point(cosim::duration(num(l[2]) * 1000000)), algo);
            w.exe = exe.get();
            exe->add_observer(std::make_shared<obsr>(w));
            exe->add_manipulator(std::make_shared<man>(w));
        } else if (l[0] == "set") { // on fn fd : now
            w.apply(settings(0, l, 1));
        } else if (l[0] == "at") { // n on fn fd
            w.plan.push_back(settings(num(l[1]), l, 2));
        } else if (l[0] == "busy") { // n ms: the step takes that long
            w.busy.emplace_back(num(l[1]), static_cast<int>(num(l[2])));
        } else if (l[0] == "pause") {
            ::usleep(static_cast<useconds_t>(num(l[1]) * 1000));
        } else if (l[0] == "run") { // T ms
            t.ev(obj("run").i("w", w.wall()));
            exe->simulate_until(cosim::time_point(cosim::duration(num(l[1]) * 1000000)));
            t.ev(w.metrics(obj("r")));
        } else _exit(96);
    }
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
