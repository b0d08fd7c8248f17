// Helpers for the demonstrations: a programmable slave and a few checks.
#pragma once
#include <cosim/algorithm.hpp>
#include <cosim/exception.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/function.hpp>
#include <cosim/log/simple.hpp>
#include <cosim/manipulator.hpp>
#include <cosim/observer.hpp>
#include <cosim/slave.hpp>
#include <cosim/time.hpp>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#define REQUIRE(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)

inline cosim::duration sec(double d) { return cosim::to_duration(d); }
inline cosim::time_point at(double d) { return cosim::to_time_point(d); }

// Variables 0..9 of each type are inputs, 10..19 outputs, 20..29 parameters,
// 30..39 calculated parameters.
class prog_slave : public cosim::slave
{
public:
    std::map<unsigned, double> r;
    std::map<unsigned, int> i;
    std::map<unsigned, bool> b;
    std::map<unsigned, std::string> s;
    std::function<void(prog_slave&)> onSetup, onStart;
    std::function<void(prog_slave&, double, double)> onStep;
    std::function<bool(prog_slave&, double)> completes;
    mutable std::function<void(const prog_slave&)> onGet;
    std::vector<std::pair<double, double>> steps;
    std::vector<std::map<unsigned, double>> atStep; // inputs seen at each step
    int starts = 0, setups = 0;

    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "prog_slave";
        md.uuid = "00000000-0000-0000-0000-000000000000";
        for (unsigned k = 0; k < 40; ++k) {
            const auto c = k < 10 ? cosim::variable_causality::input
                : k < 20          ? cosim::variable_causality::output
                : k < 30          ? cosim::variable_causality::parameter
                                  : cosim::variable_causality::calculated_parameter;
            const auto v = k < 20 ? cosim::variable_variability::continuous : cosim::variable_variability::tunable;
            const auto n = std::to_string(k);
            md.variables.push_back({"r" + n, k, cosim::variable_type::real, c, v, 0.0});
            md.variables.push_back({"i" + n, k, cosim::variable_type::integer, c, v, 0});
            md.variables.push_back({"b" + n, k, cosim::variable_type::boolean, c, v, false});
            md.variables.push_back({"s" + n, k, cosim::variable_type::string, c, v, std::string()});
        }
        return md;
    }
    void setup(cosim::time_point, std::optional<cosim::time_point>, std::optional<double>) override
    {
        ++setups;
        if (onSetup) onSetup(*this);
    }
    void start_simulation() override
    {
        ++starts;
        if (onStart) onStart(*this);
    }
    void end_simulation() override {}
    cosim::step_result do_step(cosim::time_point t, cosim::duration dt) override
    {
        const double T = cosim::to_double_time_point(t);
        const double D = cosim::to_double_duration(dt, t);
        steps.emplace_back(T, D);
        atStep.push_back(r);
        if (onStep) onStep(*this, T, D);
        if (completes && !completes(*this, T)) return cosim::step_result::failed;
        return cosim::step_result::complete;
    }
    template<typename M, typename V>
    static void get(const M& m, gsl::span<const cosim::value_reference> refs, V out)
    {
        for (std::size_t k = 0; k < refs.size(); ++k) {
            const auto it = m.find(refs[k]);
            out[k] = it == m.end() ? typename M::mapped_type() : it->second;
        }
    }
    template<typename M, typename V>
    static void set(M& m, gsl::span<const cosim::value_reference> refs, V in)
    {
        for (std::size_t k = 0; k < refs.size(); ++k) m[refs[k]] = in[k];
    }
    void get_real_variables(gsl::span<const cosim::value_reference> v, gsl::span<double> o) const override { if (onGet) onGet(*this); get(r, v, o); }
    void get_integer_variables(gsl::span<const cosim::value_reference> v, gsl::span<int> o) const override { get(i, v, o); }
    void get_boolean_variables(gsl::span<const cosim::value_reference> v, gsl::span<bool> o) const override { get(b, v, o); }
    void get_string_variables(gsl::span<const cosim::value_reference> v, gsl::span<std::string> o) const override { get(s, v, o); }
    void set_real_variables(gsl::span<const cosim::value_reference> v, gsl::span<const double> x) override { set(r, v, x); }
    void set_integer_variables(gsl::span<const cosim::value_reference> v, gsl::span<const int> x) override { set(i, v, x); }
    void set_boolean_variables(gsl::span<const cosim::value_reference> v, gsl::span<const bool> x) override { set(b, v, x); }
    void set_string_variables(gsl::span<const cosim::value_reference> v, gsl::span<const std::string> x) override { set(s, v, x); }
};

inline cosim::execution make_execution(double start, double base, std::optional<unsigned> workers = std::nullopt)
{
    cosim::log::setup_simple_console_logging();
    cosim::log::set_global_output_level(cosim::log::error);
    return cosim::execution(at(start), std::make_shared<cosim::fixed_step_algorithm>(sec(base), workers));
}

inline cosim::variable_id rv(int sim, unsigned ref) { return {sim, cosim::variable_type::real, ref}; }
