ALG = "src/cosim/algorithm/fixed_step_algorithm.cpp"
EXE = "src/cosim/execution.cpp"
SIM = "src/cosim/slave_simulator.cpp"
POOL = "src/cosim/utility/thread_pool.hpp"
BUGS = [
 dict(id="A01-hint-rounded", property="A01",
  edits=[(ALG, "    const auto result = std::div(simulatorStepSize.count(), baseStepSize.count());",
               "    // Find the closest step size.\n    const auto result = std::div(simulatorStepSize.count() + baseStepSize.count() / 2, baseStepSize.count());")],
  needs="a step-size hint that is not a multiple of the base step and whose remainder is at least half a base step",
  breaks="the simulator gets steps of ceil(H/B) base steps instead of floor(H/B)",
  demo=r'''
#include "common.hpp"
int main()
{
    auto e = make_execution(0.0, 0.25, 0u);
    auto a = std::make_shared<prog_slave>();
    e.add_slave(a, "a", sec(0.70)); // 2.8 base steps
    for (int k = 0; k < 6; ++k) e.step();
    REQUIRE(a->steps.size() == 3);
    for (int k = 0; k < 3; ++k) {
        REQUIRE(a->steps[k].first == 0.5 * k);
        REQUIRE(a->steps[k].second == 0.5);
    }
}
'''),
 dict(id="A02-two-sided", property="A02",
  edits=[(EXE, "            return *endTime - currentTime < stepSize * relativeTolerance;",
               "            return std::chrono::abs(*endTime - currentTime) < stepSize * relativeTolerance;")],
  needs="a target that is not (nearly) a multiple of the step size, or already passed",
  breaks="simulate_until does not stop at the first grid point past the target",
  demo=r'''
#include "common.hpp"
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    int n = 0;
    a->onStep = [&](prog_slave&, double, double) { if (++n >= 20) e.stop_simulation(); };
    e.add_slave(a, "a");
    REQUIRE(e.simulate_until(at(2.5)));
    REQUIRE(e.current_time() == at(3.0));
}
'''),
 dict(id="A04-slow-source", property="A04",
  edits=[(ALG, """            const auto sdf = simulators_.at(c.source.simulator).decimationFactor;
            const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {""",
               """            const auto sdf = simulators_.at(c.source.simulator).decimationFactor;
            const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
            if (stepCounter_ % std::max(sdf, tdf) == 0) {""")],
  needs="a connection between simulators neither of whose step sizes is a multiple of the other, the source being the slower",
  breaks="the target's input is changed in the middle of one of its steps, so its next step runs with a value from a point that is not a joint communication point",
  demo=r'''
#include "common.hpp"
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto src = std::make_shared<prog_slave>();
    auto tgt = std::make_shared<prog_slave>();
    src->onStep = [](prog_slave& s, double t, double dt) { s.r[10] = t + dt; };
    const auto i = e.add_slave(src, "src", sec(3));
    const auto j = e.add_slave(tgt, "tgt", sec(2));
    e.connect_variables(rv(i, 10), rv(j, 0));
    for (int k = 0; k < 12; ++k) e.step();
    const double expected[] = {0, 0, 0, 6, 6, 6};
    REQUIRE(tgt->atStep.size() == 6);
    for (int k = 0; k < 6; ++k) REQUIRE(tgt->atStep[k][0] == expected[k]);
}
'''),
 dict(id="A07-remove-one", property="A07",
  edits=[(ALG, """            auto& connections = s.second.outgoingSimConnections;
            const auto newEnd = std::remove_if(
                connections.begin(),
                connections.end(),
                [i](const auto& c) { return c.target.simulator == i; });
            connections.erase(newEnd, connections.end());
        }
        for (auto& f : functions_) {""",
               """            auto& connections = s.second.outgoingSimConnections;
            const auto it = std::find_if(
                connections.begin(),
                connections.end(),
                [i](const auto& c) { return c.target.simulator == i; });
            if (it != connections.end()) connections.erase(it);
        }
        for (auto& f : functions_) {""")],
  needs="an algorithm from which a simulator is removed that has two inputs connected to the same source simulator",
  breaks="a connection into the removed simulator stays and is used at the next transfer",
  demo=r'''
#include "common.hpp"
struct fake : cosim::simulator
{
    int gets = 0, sets = 0;
    std::string name() const override { return "fake"; }
    cosim::model_description model_description() const override { return {}; }
    void expose_for_getting(cosim::variable_type, cosim::value_reference) override {}
    double get_real(cosim::value_reference) const override { ++const_cast<fake*>(this)->gets; return 1; }
    int get_integer(cosim::value_reference) const override { return 0; }
    bool get_boolean(cosim::value_reference) const override { return false; }
    std::string_view get_string(cosim::value_reference) const override { return ""; }
    void expose_for_setting(cosim::variable_type, cosim::value_reference) override {}
    void set_real(cosim::value_reference, double) override { ++sets; }
    void set_integer(cosim::value_reference, int) override {}
    void set_boolean(cosim::value_reference, bool) override {}
    void set_string(cosim::value_reference, std::string_view) override {}
    void set_real_input_modifier(cosim::value_reference, std::function<double(double, cosim::duration)>) override {}
    void set_integer_input_modifier(cosim::value_reference, std::function<int(int, cosim::duration)>) override {}
    void set_boolean_input_modifier(cosim::value_reference, std::function<bool(bool, cosim::duration)>) override {}
    void set_string_input_modifier(cosim::value_reference, std::function<std::string(std::string_view, cosim::duration)>) override {}
    void set_real_output_modifier(cosim::value_reference, std::function<double(double, cosim::duration)>) override {}
    void set_integer_output_modifier(cosim::value_reference, std::function<int(int, cosim::duration)>) override {}
    void set_boolean_output_modifier(cosim::value_reference, std::function<bool(bool, cosim::duration)>) override {}
    void set_string_output_modifier(cosim::value_reference, std::function<std::string(std::string_view, cosim::duration)>) override {}
    const std::unordered_set<cosim::value_reference>& get_modified_real_variables() const override { return none; }
    const std::unordered_set<cosim::value_reference>& get_modified_integer_variables() const override { return none; }
    const std::unordered_set<cosim::value_reference>& get_modified_boolean_variables() const override { return none; }
    const std::unordered_set<cosim::value_reference>& get_modified_string_variables() const override { return none; }
    void setup(cosim::time_point, std::optional<cosim::time_point>, std::optional<double>) override {}
    void do_iteration() override {}
    void start_simulation() override {}
    cosim::step_result do_step(cosim::time_point, cosim::duration) override { return cosim::step_result::complete; }
    std::unordered_set<cosim::value_reference> none;
};
int main()
{
    cosim::log::setup_simple_console_logging();
    cosim::fixed_step_algorithm alg(sec(1.0), 0u);
    fake a, b, c;
    alg.add_simulator(0, &a, sec(1));
    alg.add_simulator(1, &b, sec(1));
    alg.add_simulator(2, &c, sec(1));
    alg.connect_variables(rv(0, 10), rv(1, 0));
    alg.connect_variables(rv(0, 11), rv(1, 1));
    alg.connect_variables(rv(0, 12), rv(2, 2));
    alg.setup(at(0), std::nullopt);
    alg.initialize();
    alg.do_step(at(0));
    alg.remove_simulator(1);
    const int g = a.gets, s = b.sets, cs = c.sets;
    try {
        alg.do_step(at(1));
    } catch (const std::exception& x) {
        std::fprintf(stderr, "step failed: %s\n", x.what());
        return 1;
    }
    REQUIRE(b.sets == s);
    REQUIRE(c.sets == cs + 1);
    REQUIRE(a.gets == g + 1);
}
'''),
 dict(id="A08-first-failure-only", property="A08",
  edits=[(ALG, """                        if (info.stepResult != step_result::complete) {
                            std::lock_guard<std::mutex> lck(m);
                            errMessages""",
               """                        if (info.stepResult != step_result::complete) {
                            std::lock_guard<std::mutex> lck(m);
                            if (failed) return;
                            errMessages""")],
  needs="two slaves that fail in the same step, one of them by not completing the step after the other has failed",
  breaks="the error does not name every slave that failed",
  demo=r'''
#include "common.hpp"
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    for (int k = 0; k < 3; ++k) {
        auto s = std::make_shared<prog_slave>();
        s->completes = [k](prog_slave&, double t) { return k == 1 || t < 2.0; };
        e.add_slave(s, "slave_" + std::to_string(k));
    }
    e.step();
    e.step();
    try {
        e.step();
        REQUIRE(!"step succeeded");
    } catch (const cosim::error& x) {
        const std::string w = x.what();
        REQUIRE(w.find("slave_0") != std::string::npos);
        REQUIRE(w.find("slave_2") != std::string::npos);
        REQUIRE(w.find("slave_1") == std::string::npos);
    }
    REQUIRE(e.current_time() == at(2.0));
}
'''),
 dict(id="A09-late-manipulator", property="A09",
  edits=[(EXE, """        observers_.push_back(obs);
        for (std::size_t i = 0; i < simulators_.size(); ++i) {
            obs->simulator_added(
                static_cast<simulator_index>(i),
                simulators_[i].get(),
                currentTime_);
        }
        if (initialized_) {
            obs->simulation_initialized(lastStep_, currentTime_);
        }""",
   """        observers_.push_back(obs);
        for (std::size_t i = 0; i < simulators_.size(); ++i) {
            obs->simulator_added(
                static_cast<simulator_index>(i),
                simulators_[i].get(),
                currentTime_);
        }
        if (initialized_ && lastStep_ > 0) {
            obs->simulation_initialized(lastStep_, currentTime_);
        }""")],
  needs="an observer that is added after initialization but before the first step has completed (the first step failed)",
  breaks="the observer is never told that the simulation is initialized",
  demo=r'''
#include "common.hpp"
struct obs : cosim::observer
{
    int init = 0, added = 0, steps = 0;
    void simulator_added(cosim::simulator_index, cosim::observable*, cosim::time_point) override { ++added; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override {}
    void variable_disconnected(cosim::variable_id, cosim::time_point) override {}
    void simulation_initialized(cosim::step_number, cosim::time_point) override { ++init; }
    void step_complete(cosim::step_number, cosim::duration, cosim::time_point) override { ++steps; }
    void simulator_step_complete(cosim::simulator_index, cosim::step_number, cosim::duration, cosim::time_point) override {}
};
struct man : cosim::manipulator
{
    std::function<void()> f;
    void simulator_added(cosim::simulator_index, cosim::manipulable*, cosim::time_point) override {}
    void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
    void step_commencing(cosim::time_point) override { if (f) f(); }
};
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    e.add_slave(std::make_shared<prog_slave>(), "a");
    // A manipulator that adds an observer when the first step commences.
    auto late = std::make_shared<obs>();
    auto m = std::make_shared<man>();
    bool done = false;
    m->f = [&] { if (!done) { done = true; e.add_observer(late); } };
    e.add_manipulator(m);
    e.step();
    e.step();
    REQUIRE(late->added == 1);
    REQUIRE(late->init == 1);
    REQUIRE(late->steps == 2);
}
'''),
]
BUGS = [b for b in BUGS if b["demo"]]
