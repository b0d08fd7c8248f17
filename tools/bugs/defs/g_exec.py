EXE = "src/cosim/execution.cpp"
FSA = "src/cosim/algorithm/fixed_step_algorithm.cpp"
ALG = r'''
#include "common.hpp"
#include <deque>
struct script : cosim::algorithm
{
    std::deque<double> lengths;
    int failInit = 0, inits = 0, steps = 0;
    void add_simulator(cosim::simulator_index, cosim::simulator*, cosim::duration) override { }
    void remove_simulator(cosim::simulator_index) override { }
    void add_function(cosim::function_index, cosim::function*) override { }
    void connect_variables(cosim::variable_id, cosim::variable_id) override { }
    void connect_variables(cosim::variable_id, cosim::function_io_id) override { }
    void connect_variables(cosim::function_io_id, cosim::variable_id) override { }
    void disconnect_variable(cosim::variable_id) override { }
    void disconnect_variable(cosim::function_io_id) override { }
    void setup(cosim::time_point, std::optional<cosim::time_point>) override { }
    void initialize() override
    {
        ++inits;
        if (inits <= failInit) throw std::runtime_error("not yet");
    }
    std::pair<cosim::duration, std::unordered_set<cosim::simulator_index>> do_step(cosim::time_point) override
    {
        ++steps;
        const double d = lengths.front();
        if (lengths.size() > 1) lengths.pop_front();
        return {sec(d), {}};
    }
};
'''
BUGS = [
dict(id="A11-longest-step", property="A11",
  needs="an algorithm with steps of different lengths, the last ones much shorter than an earlier one, and a target between",
  breaks="simulate_until ends before the target, by more than 1 % of the last step",
  edits=[(EXE, """        duration stepSize;
        do {
            stepSize = step();
""", """        duration stepSize = duration::zero();
        do {
            // A step may be shorter than the others to hit a particular time.
            stepSize = std::max(stepSize, step());
""")],
  demo=ALG + r'''
int main()
{
    auto a = std::make_shared<script>();
    a->lengths = {100.0, 0.25};
    cosim::execution e(at(0), a);
    REQUIRE(e.simulate_until(at(101.0)));
    REQUIRE(e.current_time() == at(101.0));
    REQUIRE(a->steps == 5);
}
'''),
dict(id="A11-init-once", property="A11",
  needs="an initialization that fails, and another attempt to step",
  breaks="the algorithm's do_step is called though it was never initialized",
  edits=[(EXE, """            algorithm_->initialize();
            initialized_ = true;
""", """            initialized_ = true;
            algorithm_->initialize();
""")],
  demo=ALG + r'''
int main()
{
    auto a = std::make_shared<script>();
    a->lengths = {1.0};
    a->failInit = 2;
    cosim::execution e(at(0), a);
    for (int k = 0; k < 2; ++k) {
        bool thrown = false;
        try { e.step(); } catch (const std::exception&) { thrown = true; }
        REQUIRE(thrown && a->steps == 0);
    }
    e.step();
    REQUIRE(a->inits == 3 && a->steps == 1);
}
'''),
dict(id="A04-stale-function-rate", property="A04",
  needs="a function with targets of different rates, one of which is disconnected between steps",
  breaks="the function's other targets go on getting values at the old, slower rate",
  edits=[(FSA, """                conns.erase(it);
                update_function_decimation_factor(f.second);
                return;
""", """                conns.erase(it);
                // Without targets there is nothing to calculate for.
                if (conns.empty()) update_function_decimation_factor(f.second);
                return;
""")],
  demo=r'''
#include "common.hpp"
#include <cosim/function/linear_transformation.hpp>
int main()
{
    auto algo = std::make_shared<cosim::fixed_step_algorithm>(sec(1.0), 0u);
    cosim::execution e(at(0), algo);
    auto src = std::make_shared<prog_slave>(), fast = std::make_shared<prog_slave>(), slow = std::make_shared<prog_slave>();
    src->onStep = [](prog_slave& s, double, double) { s.r[10] += 1; };
    const int a = e.add_slave(src, "src"), b = e.add_slave(fast, "fast"), c = e.add_slave(slow, "slow", sec(3.0));
    const int f = e.add_function(std::make_shared<cosim::linear_transformation_function>(0.0, 2.0));
    using cosim::variable_type;
    const cosim::function_io_id in{f, variable_type::real, cosim::linear_transformation_function::in_io_reference};
    const cosim::function_io_id out{f, variable_type::real, cosim::linear_transformation_function::out_io_reference};
    e.connect_variables(rv(a, 10), in);
    e.connect_variables(out, rv(b, 0));
    e.connect_variables(out, rv(c, 0));
    for (int k = 0; k < 3; ++k) e.step();
    algo->disconnect_variable(rv(c, 0));
    for (int k = 0; k < 5; ++k) e.step();
    for (int k = 4; k < 8; ++k) REQUIRE(fast->atStep.at(static_cast<std::size_t>(k)).at(0) == 2.0 * k);
}
'''),
]
SSIM = "src/cosim/slave_simulator.cpp"
BUGS += [
dict(id="A12-reexpose", property="A12",
  needs="a variable that is exposed for setting a second time after a value was set, and a modifier that is set or removed later",
  breaks="the modifier acts on the start value instead of the value set last",
  edits=[(SSIM, "        exposedVariables_.emplace(r, exposed_variable{startValue, -1});",
                "        exposedVariables_[r].lastValue = startValue;")],
  demo=r'''
#include "common.hpp"
struct grab : cosim::manipulator
{
    cosim::manipulable* m = nullptr;
    void simulator_added(cosim::simulator_index, cosim::manipulable* x, cosim::time_point) override { m = x; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void step_commencing(cosim::time_point) override { }
};
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    const int i = e.add_slave(a, "a");
    auto g = std::make_shared<grab>();
    e.add_manipulator(g);
    e.set_real_initial_value(i, 20, 5.0);
    e.step();
    g->m->expose_for_setting(cosim::variable_type::real, 20);
    g->m->set_real_input_modifier(20, [](double x, cosim::duration) { return x + 1.0; });
    e.step();
    g->m->set_real_input_modifier(20, nullptr);
    e.step();
    REQUIRE(a->atStep.at(0).at(20) == 5.0);
    REQUIRE(a->atStep.at(1).at(20) == 6.0);
    REQUIRE(a->atStep.at(2).at(20) == 5.0);
}
'''),
]
