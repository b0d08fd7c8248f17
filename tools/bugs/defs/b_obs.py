EXE = "src/cosim/execution.cpp"
TS = "src/cosim/observer/time_series_observer.cpp"
FO = "src/cosim/observer/file_observer.cpp"
SVP = "src/cosim/observer/slave_value_provider.cpp"
LV = "src/cosim/observer/last_value_observer.cpp"
OM = "src/cosim/manipulator/override_manipulator.cpp"
SM = "src/cosim/manipulator/scenario_manager.cpp"
SP = "src/cosim/scenario_parser.cpp"
TM = "src/cosim/timer.cpp"
SS = "src/cosim/system_structure.cpp"
FU = "src/cosim/function/utility.cpp"
VS = "include/cosim/function/vector_sum.hpp"
BUGS = [
 dict(id="O01-strings-by-reference", property="O01",
  edits=[(LV, """    valueProviders_.at(index)->observe();
}

void last_value_observer::get_real(""",
  """    for (const auto& entry : valueProviders_) {
        if (entry.first <= index) entry.second->observe();
    }
}

void last_value_observer::get_real(""")],
  needs="simulators with different step sizes, where the slower one has the lower index and an output modifier or input changes its values between its own steps",
  breaks="the observer shows values of a simulator from a moment at which that simulator did not complete a step",
  demo=r'''
#include "common.hpp"
#include <cosim/observer/last_value_observer.hpp>
struct man : cosim::manipulator
{
    cosim::manipulable* m = nullptr;
    std::function<void(double)> f;
    void simulator_added(cosim::simulator_index, cosim::manipulable*, cosim::time_point) override {}
    void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
    void step_commencing(cosim::time_point t) override { f(cosim::to_double_time_point(t)); }
};
int main()
{
    // The observer is driven directly: the value of simulator 0 changes although
    // it completed no step.
    struct src : cosim::observable
    {
        double v = 0;
        std::string name() const override { return "src"; }
        cosim::model_description model_description() const override
        {
            cosim::model_description md;
            md.variables.push_back({"x", 0, cosim::variable_type::real, cosim::variable_causality::output, cosim::variable_variability::continuous, 0.0});
            return md;
        }
        void expose_for_getting(cosim::variable_type, cosim::value_reference) override {}
        double get_real(cosim::value_reference) const override { return v; }
        int get_integer(cosim::value_reference) const override { return 0; }
        bool get_boolean(cosim::value_reference) const override { return false; }
        std::string_view get_string(cosim::value_reference) const override { return ""; }
    } a, b;
    cosim::last_value_observer o;
    o.simulator_added(0, &a, at(0));
    o.simulator_added(1, &b, at(0));
    a.v = 1; b.v = 2;
    o.simulation_initialized(0, at(0));
    a.v = 10; b.v = 20;
    o.simulator_step_complete(1, 1, sec(1), at(1));
    o.step_complete(1, sec(1), at(1));
    const cosim::value_reference ref[] = {0};
    double x[1];
    o.get_real(0, ref, x);
    REQUIRE(x[0] == 1);
    o.get_real(1, ref, x);
    REQUIRE(x[0] == 20);
}
'''),
 dict(id="O04-restart-row", property="O04",
  edits=[(FO, """            if (timeStep % decimationFactor_ == 0) {
""", """            if (timeStep % decimationFactor_ == 0 || !realSamples_.empty() || timeStep < static_cast<step_number>(decimationFactor_) - 1) {
""")],
  needs="a log decimation of at least three",
  breaks="rows are written for steps that are not multiples of the decimation",
  demo=r'''
#include "common.hpp"
#include <cosim/observer/file_observer.hpp>
#include <fstream>
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    cosim::file_observer_config c;
    c.set_timestamped_filenames(false).log_simulator_variables("a", {"r10"}, 3);
    {
        auto o = std::make_shared<cosim::file_observer>("log", c);
        e.add_slave(std::make_shared<prog_slave>(), "a");
        e.add_observer(o);
        for (int k = 0; k < 7; ++k) e.step();
        o->stop_recording();
    }
    std::ifstream f("log/a.csv");
    std::string line, all;
    while (std::getline(f, line)) all += line + "\n";
    REQUIRE(all == "Time,StepCount,r10\n0,0,0\n3,3,0\n6,6,0\n");
}
'''),
 dict(id="O05-unlocked-strings", property="O05",
  edits=[(SVP, """    std::lock_guard<std::mutex> lock(lock_);

    for (auto& [idx, value] : realSamples_) {
        value = observable_->get_real(idx);
    }
    for (auto& [idx, value] : intSamples_) {
        value = observable_->get_integer(idx);
    }""", """    for (auto& [idx, value] : realSamples_) {
        const auto sample = observable_->get_real(idx);
        std::lock_guard<std::mutex> lock(lock_);
        value = sample;
    }
    std::lock_guard<std::mutex> lock(lock_);
    for (auto& [idx, value] : intSamples_) {
        value = observable_->get_integer(idx);
    }""")],
  needs="a query of several real variables from another thread just while a completed step is being recorded",
  breaks="the values returned by one query belong to different steps",
  demo=r'''
#include "common.hpp"
#include <cosim/observer/last_value_observer.hpp>
#include <atomic>
int main()
{
    // An observable whose values are read slowly, so that a query falls into the recording.
    struct src : cosim::observable
    {
        std::atomic<int> step{0};
        std::atomic<bool> slow{false};
        std::string name() const override { return "src"; }
        cosim::model_description model_description() const override
        {
            cosim::model_description md;
            for (unsigned k = 0; k < 4; ++k)
                md.variables.push_back({"x" + std::to_string(k), k, cosim::variable_type::real, cosim::variable_causality::output, cosim::variable_variability::continuous, 0.0});
            return md;
        }
        void expose_for_getting(cosim::variable_type, cosim::value_reference) override {}
        double get_real(cosim::value_reference) const override
        {
            if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(20));
            return step;
        }
        int get_integer(cosim::value_reference) const override { return 0; }
        bool get_boolean(cosim::value_reference) const override { return false; }
        std::string_view get_string(cosim::value_reference) const override { return ""; }
    } a;
    cosim::last_value_observer o;
    o.simulator_added(0, &a, at(0));
    o.simulation_initialized(0, at(0));
    a.slow = true;
    std::atomic<bool> stop{false}, torn{false};
    std::thread reader([&] {
        const cosim::value_reference ref[] = {0, 1, 2, 3};
        while (!stop) {
            double x[4];
            o.get_real(0, ref, x);
            for (double y : x) if (y != x[0]) torn = true;
            std::this_thread::sleep_for(std::chrono::milliseconds(5));
        }
    });
    for (int k = 1; k <= 5; ++k) {
        a.step = k;
        o.simulator_step_complete(0, k, sec(1), at(k));
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
    }
    stop = true;
    reader.join();
    REQUIRE(!torn);
}
'''),
 dict(id="M03-default-model", property="M03",
  edits=[(SP, """    if (j[name]) {
        return j[name].as<std::string>();
    } else if (defaultOption.has_value()) {""", """    if (j[name] && !(defaultOption.has_value() && name == "model")) {
        return j[name].as<std::string>();
    } else if (defaultOption.has_value()) {""")],
  needs="a scenario file with a default model in which one event names another model",
  breaks="the event is loaded for the wrong simulator",
  demo=r'''
#include "common.hpp"
#include <cosim/manipulator/scenario_manager.hpp>
#include <fstream>
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto m = std::make_shared<cosim::scenario_manager>();
    auto a = std::make_shared<prog_slave>(), b = std::make_shared<prog_slave>();
    e.add_slave(a, "a");
    e.add_slave(b, "b");
    e.add_manipulator(m);
    std::ofstream("s.yml") << "defaults: {model: a, action: override}\n"
                              "events:\n"
                              "  - {time: 0.5, variable: r1, value: 3.0}\n"
                              "  - {time: 0.5, model: b, variable: r2, value: 4.0}\n"
                              "end: 10\n";
    m->load_scenario(cosim::filesystem::path("s.yml"), at(0));
    for (int k = 0; k < 3; ++k) e.step();
    REQUIRE(a->r[1] == 3.0 && b->r[2] == 4.0);
    REQUIRE(a->r[2] == 0.0);
}
'''),
 dict(id="R01-restart-from-step", property="R01",
  edits=[(TM, """            const auto elapsed = Time::now() - startTime_;
            const auto expectedSimulationTime = (currentTime - simulationStartTime_) / rtfTarget;""",
              """            const auto elapsed = Time::now() - startTime_;
            const auto expectedSimulationTime = (currentTime - simulationStartTime_) / std::max(rtfTarget, 1.0);""")],
  needs="a real-time factor target below one",
  breaks="the simulation runs ahead of the target",
  demo=r'''
#include "common.hpp"
#include <chrono>
int main()
{
    auto e = make_execution(0.0, 0.05, 0u);
    e.add_slave(std::make_shared<prog_slave>(), "a");
    auto c = e.get_real_time_config();
    c->real_time_simulation = true;
    c->real_time_factor_target = 0.5;
    e.step();
    e.simulate_until(at(0.1));
    const auto t0 = std::chrono::steady_clock::now();
    e.simulate_until(at(0.4)); // 0.3 s, hence at least 0.6 s of real time
    const double used = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    REQUIRE(used > 0.5);
}
'''),
 dict(id="S01-cache-by-name", property="S01",
  edits=[(SS, """    if (entities_.count(e.name)) {
        throw error(
            make_error_code(errc::invalid_system_structure),
            "Duplicate entity name: " + e.name);
    }
    assert(!functionCache_.count(e.name));
""", """    if (functionCache_.count(e.name) || (entities_.count(e.name) && entity_type_to<cosim::model>(e.type))) {
        throw error(
            make_error_code(errc::invalid_system_structure),
            "Duplicate entity name: " + e.name);
    }
""")],
  needs="a function that is added under the name of an existing simulator",
  breaks="the duplicate name is accepted",
  demo=r'''
#include "common.hpp"
#include <cosim/function/linear_transformation.hpp>
#include <cosim/model_description.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>
struct my_model : cosim::model
{
    std::shared_ptr<const cosim::model_description> description() const noexcept override
    {
        return std::make_shared<cosim::model_description>(prog_slave().model_description());
    }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return std::make_shared<prog_slave>(); }
};
int main()
{
    cosim::system_structure s;
    s.add_entity("x", std::make_shared<my_model>());
    bool refused = false;
    try {
        s.add_entity("x", std::make_shared<cosim::linear_transformation_function_type>(), {});
    } catch (const cosim::error&) {
        refused = true;
    }
    REQUIRE(refused);
}
'''),
 dict(id="S02-instances-swapped", property="S02",
  edits=[(EXE, """            variableDescription.group_index,
            variableName.variable_group_instance,
            variableDescription.io_index,
            variableName.variable_instance}};""",
   """            variableDescription.group_index,
            variableName.variable_instance,
            variableDescription.io_index,
            variableName.variable_group_instance}};""")],
  needs="a function variable whose group instance and own instance differ",
  breaks="the connection is made to another variable of the function",
  demo=r'''
#include "common.hpp"
#include <cosim/function/vector_sum.hpp>
#include <cosim/model_description.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>
struct my_model : cosim::model
{
    std::shared_ptr<prog_slave> s = std::make_shared<prog_slave>();
    std::shared_ptr<const cosim::model_description> description() const noexcept override
    {
        auto d = s->model_description();
        return std::make_shared<cosim::model_description>(d);
    }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return s; }
};
int main()
{
    using namespace cosim;
    auto m = std::make_shared<my_model>();
    system_structure s;
    s.add_entity("a", m);
    // three input vectors of dimension 3
    s.add_entity("f", std::make_shared<vector_sum_function_type>(), {{0, 3}, {1, variable_type::real}, {2, 3}});
    s.connect_variables({"a", "r10"}, {"f", "in", 2, "", 0});
    s.connect_variables({"a", "r11"}, {"f", "in", 0, "", 1});
    s.connect_variables({"f", "out", 0, "", 0}, {"a", "r0"});
    auto e = make_execution(0.0, 1.0, 0u);
    m->s->onStep = [](prog_slave& p, double, double) { p.r[10] = 5; p.r[11] = 7; };
    try {
        inject_system_structure(e, s, {});
        e.step();
        e.step();
    } catch (const std::exception& x) {
        std::fprintf(stderr, "refused: %s\n", x.what());
        return 1;
    }
    REQUIRE(m->s->atStep[1][0] == 5);
}
'''),
 dict(id="S03-max-only-int", property="S03",
  edits=[("include/cosim/function/utility.hpp", """        if ((description.min_value && value < std::get<T>(*description.min_value)) ||""",
   """        if ((description.min_value && value < std::get<T>(*description.min_value) && !description.max_value) ||""")],
  needs="a parameter that has both a lower and an upper limit and a value below the lower one",
  breaks="a value outside the described range is accepted when the function is instantiated",
  demo=r'''
#include "common.hpp"
#include <cosim/function/utility.hpp>
int main()
{
    using namespace cosim;
    function_type_description d;
    d.parameters = {function_parameter_description{"p", function_parameter_type::integer, 5, 2, 9}};
    for (int v = 0; v < 12; ++v) {
        bool ok = true;
        int got = -1;
        try {
            got = get_function_parameter<int>(d, {{0, v}}, 0);
        } catch (const std::domain_error&) {
            ok = false;
        }
        REQUIRE(ok == (v >= 2 && v <= 9));
        if (ok) REQUIRE(got == v);
    }
    REQUIRE(get_function_parameter<int>(d, {}, 0) == 5);
}
'''),
 dict(id="S03-sum-skips", property="S03",
  edits=[(VS, """            for (std::size_t j = 0; j < output_.size(); ++j) {
                output_[j] += inputs_[i][j];""", """            for (std::size_t j = 0; j < std::min(output_.size(), inputs_.size()); ++j) {
                output_[j] += inputs_[i][j];""")],
  needs="a vector sum whose dimension is greater than its number of inputs",
  breaks="the last components of the sum miss all inputs but the first",
  demo=r'''
#include "common.hpp"
#include <cosim/function/vector_sum.hpp>
int main()
{
    using F = cosim::vector_sum_function<int>;
    F f(2, 3);
    for (int v = 0; v < 2; ++v)
        for (int c = 0; c < 3; ++c) f.set_integer(F::in_io_reference(v, c), 10 * v + c);
    f.calculate();
    for (int c = 0; c < 3; ++c) REQUIRE(f.get_integer(F::out_io_reference(c)) == 10 + 2 * c);
}
'''),
]
BUGS = [b for b in BUGS if b["demo"] and b["id"] != "O02-full-buffer"]
