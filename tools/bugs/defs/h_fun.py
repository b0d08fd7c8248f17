FSA = "src/cosim/algorithm/fixed_step_algorithm.cpp"
FUNHEAD = r'''
#include "common.hpp"
// Counts its calculations; has a boolean input, and string outputs that share a buffer.
struct my_fun : cosim::function
{
    int n = 0;
    double in = 0;
    std::vector<double> had;
    mutable std::string buffer;
    cosim::function_description description() const override
    {
        using namespace cosim;
        function_description d;
        function_io_group_description g;
        g.name = "g";
        g.count = 1;
        function_io_description v;
        v.name = "in";
        v.type = variable_type::real;
        v.causality = variable_causality::input;
        v.count = 1;
        g.ios.push_back(v);
        v.name = "text";
        v.type = variable_type::string;
        v.causality = variable_causality::output;
        v.count = 2;
        g.ios.push_back(v);
        v.name = "out";
        v.type = variable_type::real;
        v.count = 1;
        g.ios.push_back(v);
        d.io_groups = {g};
        return d;
    }
    void set_real(const cosim::function_io_reference&, double x) override { in = x; }
    void set_integer(const cosim::function_io_reference&, int) override { }
    void set_boolean(const cosim::function_io_reference&, bool) override { }
    void set_string(const cosim::function_io_reference&, std::string_view) override { }
    double get_real(const cosim::function_io_reference&) const override { return n; }
    int get_integer(const cosim::function_io_reference&) const override { return 0; }
    bool get_boolean(const cosim::function_io_reference&) const override { return false; }
    std::string_view get_string(const cosim::function_io_reference& r) const override
    {
        buffer.assign(40, static_cast<char>('a' + r.io_instance));
        return buffer;
    }
    void calculate() override { ++n; had.push_back(in); }
};
using cosim::variable_type;
inline cosim::function_io_id fin(int f) { return {f, variable_type::real, {0, 0, 0, 0}}; }
inline cosim::function_io_id ftext(int f, int k) { return {f, variable_type::string, {0, 0, 1, k}}; }
inline cosim::function_io_id fout(int f) { return {f, variable_type::real, {0, 0, 2, 0}}; }
'''
BUGS = [
dict(id="A13-no-audience", property="A13",
  needs="a function that feeds no simulator (one that records or checks its inputs)",
  breaks="it is calculated while the system is initialised, and never after that",
  edits=[(FSA, "            if (stepCounter_ % f.second.decimationFactor == 0) {\n                f.second.fun->calculate();",
               "            const bool wanted = stepCounter_ == 0 || !f.second.outgoingSimConnections.empty();\n            if (wanted && stepCounter_ % f.second.decimationFactor == 0) {\n                f.second.fun->calculate();")],
  demo=FUNHEAD + r'''
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    a->onStep = [](prog_slave& s, double, double) { s.r[10] += 1; };
    const int i = e.add_slave(a, "a");
    auto f = std::make_shared<my_fun>();
    e.connect_variables(rv(i, 10), fin(e.add_function(f)));
    e.step();
    const int n = f->n;
    e.step();
    e.step();
    REQUIRE(f->n == n + 2);
    REQUIRE(f->had.back() == 3.0);
}
'''),
dict(id="A13-text-views", property="A13",
  needs="a function with two connected text outputs whose views share a buffer, as they may",
  breaks="both simulators are given the text of the output read last",
  edits=[(FSA, """            const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
                transfer_variable(c);
            }
        }
    }

    void transfer_variable(const connection_ss& c)""",
"""            const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
                if (c.source.type == variable_type::string) {
                    texts.emplace_back(&c, functions_.at(c.source.function).fun->get_string(c.source.reference));
                } else {
                    transfer_variable(c);
                }
            }
        }
        for (const auto& [c, text] : texts) {
            simulators_.at(c->target.simulator).sim->set_string(c->target.reference, text);
        }
    }

    void transfer_variable(const connection_ss& c)"""),
    (FSA, """    void transfer_variables(const std::vector<connection_fs>& connections)
    {
""", """    void transfer_variables(const std::vector<connection_fs>& connections)
    {
        std::vector<std::pair<const connection_fs*, std::string_view>> texts;
""")],
  demo=FUNHEAD + r'''
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    const int i = e.add_slave(a, "a");
    const int f = e.add_function(std::make_shared<my_fun>());
    e.connect_variables(ftext(f, 0), cosim::variable_id{i, variable_type::string, 0});
    e.connect_variables(ftext(f, 1), cosim::variable_id{i, variable_type::string, 1});
    e.step();
    REQUIRE(a->s.at(0) == std::string(40, 'a'));
    REQUIRE(a->s.at(1) == std::string(40, 'b'));
}
'''),
dict(id="A13-late-factor", property="A13",
  needs="a simulator that a function feeds is given a longer step after it was connected, all others having the base step",
  breaks="the function goes on being calculated at every base step, in the midst of the simulator's step",
  edits=[(FSA, "        for (auto& f : functions_) {\n            update_function_decimation_factor(f.second);\n        }\n    }\n\n\nprivate",
               "        for (auto& f : functions_) {\n            // Functions at the base rate have nothing to synchronise.\n            if (f.second.decimationFactor > 1) update_function_decimation_factor(f.second);\n        }\n    }\n\n\nprivate")],
  demo=FUNHEAD + r'''
int main()
{
    auto algo = std::make_shared<cosim::fixed_step_algorithm>(sec(1.0), 0u);
    cosim::execution e(at(0), algo);
    auto a = std::make_shared<prog_slave>(), b = std::make_shared<prog_slave>();
    const int i = e.add_slave(a, "a"), j = e.add_slave(b, "b");
    auto p = std::make_shared<my_fun>();
    const int f = e.add_function(p);
    e.connect_variables(rv(i, 10), fin(f));
    e.connect_variables(fout(f), rv(j, 0));
    algo->set_stepsize_decimation_factor(j, 4);
    e.step();
    const int n = p->n;
    for (int k = 1; k < 8; ++k) e.step();
    REQUIRE(p->n == n + 2);
}
'''),
]
