EXE = "src/cosim/execution.cpp"
ALG = "src/cosim/algorithm/fixed_step_algorithm.cpp"
POOL = "src/cosim/utility/thread_pool.hpp"
SIM = "src/cosim/slave_simulator.cpp"
OM = "src/cosim/manipulator/override_manipulator.cpp"
SM = "src/cosim/manipulator/scenario_manager.cpp"
TS = "src/cosim/observer/time_series_observer.cpp"
FC = "src/cosim/file_cache.cpp"
CON = "src/cosim/utility/concurrency.cpp"
URI = "src/cosim/uri.cpp"
ZIP = "src/cosim/utility/zip.cpp"
ORC = "src/cosim/orchestration.cpp"
OSP = "src/cosim/osp_config_parser.cpp"
SSPL = "src/cosim/ssp/ssp_loader.cpp"
SSPP = "src/cosim/ssp/ssp_parser.cpp"
BUGS = [
 dict(id="A03-first-step", property="A03",
  edits=[(EXE, """        stopped_ = false;
        const auto setStopped = gsl::finally([this] { stopped_ = true; });
        timer_.start(currentTime_);
        duration stepSize;
        do {
            stepSize = step();
            timer_.sleep(currentTime_);
        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
        return !stopped_;""", """        const auto setStopped = gsl::finally([this] { stopped_ = true; });
        timer_.start(currentTime_);
        // The first step is always performed.
        auto stepSize = step();
        timer_.sleep(currentTime_);
        stopped_ = false;
        while (!stopped_ && !timed_out(endTime, currentTime_, stepSize)) {
            stepSize = step();
            timer_.sleep(currentTime_);
        }
        return !stopped_;""")],
  needs="a stop request during the first step of a run",
  breaks="the request is lost and the simulation goes on to its target",
  demo=r'''
#include "common.hpp"
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    a->onStep = [&](prog_slave&, double t, double) { if (t == 2.0) e.stop_simulation(); };
    e.add_slave(a, "a");
    REQUIRE(e.simulate_until(at(2.0)));
    REQUIRE(!e.simulate_until(at(9.0)));
    REQUIRE(e.current_time() == at(3.0));
    REQUIRE(e.simulate_until(at(5.0)));
    REQUIRE(e.current_time() == at(5.0));
}
'''),
 dict(id="A06-late-boolean", property="A06",
  edits=[(EXE, """    void set_boolean_initial_value(simulator_index sim, value_reference var, bool value)
    {
        if (initialized_) {
            throw error(make_error_code(errc::unsupported_feature), "Initial values must be set before simulation is started");
        }
        simulators_.at(sim)->expose_for_setting(variable_type::boolean, var);
        simulators_.at(sim)->set_boolean(var, value);
    }""", """    void set_boolean_initial_value(simulator_index sim, value_reference var, bool value)
    {
        simulators_.at(sim)->expose_for_setting(variable_type::boolean, var);
        simulators_.at(sim)->set_boolean(var, value);
        if (initialized_) {
            throw error(make_error_code(errc::unsupported_feature), "Initial values must be set before simulation is started");
        }
    }""")],
  needs="an attempt to set the initial value of a Boolean variable after initialization",
  breaks="the refused value reaches the slave in the next step all the same",
  demo=r'''
#include "common.hpp"
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    const auto i = e.add_slave(a, "a");
    e.step();
    bool refused = false;
    try { e.set_boolean_initial_value(i, 20, true); } catch (const std::exception&) { refused = true; }
    REQUIRE(refused);
    e.step();
    e.step();
    REQUIRE(!a->b[20]);
}
'''),
 dict(id="A10-second-set", property="A10",
  edits=[(SIM, """        it->second.lastValue = v;
        if (it->second.arrayIndex < 0) {
            it->second.arrayIndex = references_.size();
            assert(references_.size() == values_.size());
            references_.emplace_back(r);
            values_.emplace_back(v);
        } else {""", """        if (it->second.arrayIndex < 0) {
            it->second.lastValue = v;
            it->second.arrayIndex = references_.size();
            assert(references_.size() == values_.size());
            references_.emplace_back(r);
            values_.emplace_back(v);
        } else {""")],
  needs="a variable that is set twice before a step (its initial value given twice), and later a modifier that depends on the original value",
  breaks="the modifier is applied to the first of the two values",
  demo=r'''
#include "common.hpp"
struct man : cosim::manipulator
{
    cosim::manipulable* m = nullptr;
    void simulator_added(cosim::simulator_index, cosim::manipulable* s, cosim::time_point) override { m = s; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
    void step_commencing(cosim::time_point t) override
    {
        if (t != at(2.0)) return;
        m->expose_for_setting(cosim::variable_type::real, 20);
        m->set_real_input_modifier(20, [](double x, cosim::duration) { return x + 0.5; });
    }
};
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    const auto i = e.add_slave(a, "a");
    e.add_manipulator(std::make_shared<man>());
    e.set_real_initial_value(i, 20, 3.0);
    e.set_real_initial_value(i, 20, 4.0);
    for (int k = 0; k < 4; ++k) e.step();
    REQUIRE(a->atStep[0][20] == 4.0 && a->atStep[1][20] == 4.0);
    REQUIRE(a->atStep[2][20] == 4.5 && a->atStep[3][20] == 4.5);
}
'''),
 dict(id="M01-lost-between", property="M01",
  edits=[(OM, """    std::lock_guard<std::mutex> lock(lock_);
    if (!actions_.empty()) {
        for (const auto& a : actions_) {
            auto sim""", """    std::unique_lock<std::mutex> lock(lock_);
    if (!actions_.empty()) {
        const auto pending = actions_;
        lock.unlock();
        for (const auto& a : pending) {
            auto sim"""),
   (OM, """        actions_.clear();
    }
}""", """        lock.lock();
        actions_.clear();
    }
}""")],
  needs="a request made by another thread while the requests before it are being applied",
  breaks="the request is lost",
  demo=r'''
#include "common.hpp"
#include <cosim/manipulator/override_manipulator.hpp>
struct sim : cosim::manipulable
{
    cosim::override_manipulator* o = nullptr;
    std::vector<std::thread> threads;
    std::map<cosim::value_reference, std::function<double(double, cosim::duration)>> f;
    std::string name() const override { return "sim"; }
    cosim::model_description model_description() const override { return prog_slave().model_description(); }
    double get_real(cosim::value_reference) const override { return 0; }
    int get_integer(cosim::value_reference) const override { return 0; }
    bool get_boolean(cosim::value_reference) const override { return false; }
    std::string_view get_string(cosim::value_reference) const override { return ""; }
    void expose_for_getting(cosim::variable_type, cosim::value_reference) override {}
    void expose_for_setting(cosim::variable_type, cosim::value_reference) override {}
    void set_real_input_modifier(cosim::value_reference r, std::function<double(double, cosim::duration)> m) override
    {
        f[r] = m;
        if (r != 1) return;
        // Meanwhile, another thread asks for something.  It may have to wait until we are done.
        threads.emplace_back([this] { o->override_real_variable(0, 2, 7.0); });
        std::this_thread::sleep_for(std::chrono::milliseconds(50));
    }
    void set_integer_input_modifier(cosim::value_reference, std::function<int(int, cosim::duration)>) override {}
    void set_boolean_input_modifier(cosim::value_reference, std::function<bool(bool, cosim::duration)>) override {}
    void set_string_input_modifier(cosim::value_reference, std::function<std::string(std::string_view, cosim::duration)>) override {}
    void set_real_output_modifier(cosim::value_reference, std::function<double(double, cosim::duration)>) override {}
    void set_integer_output_modifier(cosim::value_reference, std::function<int(int, cosim::duration)>) override {}
    void set_boolean_output_modifier(cosim::value_reference, std::function<bool(bool, cosim::duration)>) override {}
    void set_string_output_modifier(cosim::value_reference, std::function<std::string(std::string_view, cosim::duration)>) override {}
};
int main()
{
    cosim::override_manipulator o;
    sim s;
    s.o = &o;
    o.simulator_added(0, &s, at(0));
    o.override_real_variable(0, 1, 3.0);
    o.step_commencing(at(0));
    for (auto& t : s.threads) t.join();
    o.step_commencing(at(1));
    REQUIRE(s.f.count(1) && s.f[1](0, sec(1)) == 3.0);
    REQUIRE(s.f.count(2) && s.f[2](0, sec(1)) == 7.0);
}
'''),
 dict(id="M02-relative-to-first", property="M02",
  edits=[(SM, """        bool timedOut = state.endTime ? relativeTime >= *state.endTime : true;""",
               """        bool timedOut = state.endTime ? currentTime >= *state.endTime : true;""")],
  needs="a scenario with an end time that is loaded at a time other than zero",
  breaks="the scenario ends too early or too late",
  demo=r'''
#include "common.hpp"
#include <cosim/manipulator/scenario_manager.hpp>
int main()
{
    auto e = make_execution(10.0, 1.0, 0u);
    auto a = std::make_shared<prog_slave>();
    const auto i = e.add_slave(a, "a");
    auto m = std::make_shared<cosim::scenario_manager>();
    e.add_manipulator(m);
    cosim::scenario::scenario s;
    s.events.push_back({at(1.0), {i, 0, cosim::scenario::real_modifier{[](double, cosim::duration) { return 5.0; }}, true}});
    s.end = at(4.0);
    m->load_scenario(s, at(10.0));
    for (int k = 0; k < 6; ++k) e.step();
    const double expected[] = {0, 5, 5, 5, 0, 0};
    for (int k = 0; k < 6; ++k) REQUIRE(a->atStep[k][0] == expected[k]);
}
'''),
 dict(id="O02-restart-keeps", property="O02",
  edits=[(TS, "realSamples_[reference] = std::map<step_number, double>();", "realSamples_.emplace(reference, std::map<step_number, double>());")],
  needs="start_observing() of a real variable that is being observed already",
  breaks="samples from before the observation was restarted are returned",
  demo=r'''
#include "common.hpp"
#include <cosim/observer/time_series_observer.hpp>
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto o = std::make_shared<cosim::time_series_observer>();
    const auto i = e.add_slave(std::make_shared<prog_slave>(), "a");
    e.add_observer(o);
    o->start_observing(rv(i, 10));
    for (int k = 0; k < 4; ++k) e.step();
    o->start_observing(rv(i, 10));
    for (int k = 0; k < 3; ++k) e.step();
    double v[20];
    cosim::step_number n[20];
    cosim::time_point t[20];
    REQUIRE(o->get_real_samples(i, 10, 1, gsl::make_span(v), gsl::make_span(n), gsl::make_span(t)) == 3);
    REQUIRE(n[0] == 5);
}
'''),
 dict(id="O03-from-first", property="O03",
  edits=[(TS, "    for (auto step = fromStep; step < fromStep", "    fromStep = std::max({fromStep, realSamples1.begin()->first, realSamples2.begin()->first});\n    for (auto step = fromStep; step < fromStep")],
  needs="a query that starts before the oldest step of which there are samples",
  breaks="pairs from steps after the last one asked for are returned",
  demo=r'''
#include "common.hpp"
#include <cosim/observer/time_series_observer.hpp>
int main()
{
    auto e = make_execution(0.0, 1.0, 0u);
    auto o = std::make_shared<cosim::time_series_observer>(std::size_t(5));
    for (int k = 1; k <= 2; ++k) {
        auto a = std::make_shared<prog_slave>();
        a->onStep = [k](prog_slave& s, double t, double) { s.r[10] = 100 * k + t + 1; };
        e.add_slave(a, "a" + std::to_string(k));
    }
    e.add_observer(o);
    for (int k = 0; k < 2; ++k) o->start_observing(rv(k, 10));
    for (int k = 0; k < 10; ++k) e.step(); // steps 6..10 are in the buffer
    double x[4], y[4];
    REQUIRE(o->get_synchronized_real_series(0, 10, 1, 10, 4, gsl::make_span(x), gsl::make_span(y)) == 2);
    REQUIRE(x[0] == 106 && y[0] == 206 && x[1] == 107 && y[1] == 207);
}
'''),
 dict(id="F01-handles-and-cache", property="F01",
  edits=[(FC, """        : cache_(cache)
        , path_(path)
        , ownership_(ownership)
    {
    }

    cosim::filesystem::path path() const override
    {
        return path_;
    }

private:
    std::shared_ptr<utility::temp_dir> cache_;""", """        : cache_(cache)
        , path_(path)
        , ownership_(ownership)
    {
    }

    cosim::filesystem::path path() const override
    {
        return path_;
    }

private:
    std::weak_ptr<utility::temp_dir> cache_;""")],
  needs="a directory handle that is used after the cache object is gone",
  breaks="the directory is deleted while it is in use",
  demo=r'''
#include "common.hpp"
#include <cosim/file_cache.hpp>
#include <filesystem>
int main()
{
    setenv("TMPDIR", std::filesystem::current_path().c_str(), 1);
    auto c = std::make_unique<cosim::temporary_file_cache>();
    auto d = c->get_directory_rw("k");
    const auto p = d->path();
    c.reset();
    REQUIRE(std::filesystem::exists(p.string()));
    d.reset();
    REQUIRE(!std::filesystem::exists(p.string()));
}
'''),
 dict(id="T02-shared-while-waiting", property="T02",
  edits=[(CON, """    std::lock_guard<std::mutex> countLock(shareCountMutex_);
    assert(shareCount_ >= 0);
    if (shareCount_ == 0) {
        fileLock_.lock_sharable();
    }
    ++shareCount_;
}""", """    std::unique_lock<std::mutex> countLock(shareCountMutex_);
    assert(shareCount_ >= 0);
    if (++shareCount_ == 1) {
        countLock.unlock();
        fileLock_.lock_sharable();
    }
}""")],
  needs="a shared lock request while another thread of the process waits for a shared lock on a file that another process has locked exclusively",
  breaks="the second thread gets its shared lock at once, together with the other process's exclusive one",
  demo=r'''
#include "common.hpp"
#include <cosim/utility/concurrency.hpp>
#include <atomic>
#include <sys/wait.h>
#include <unistd.h>
int main()
{
    int up[2], down[2];
    REQUIRE(pipe(up) == 0 && pipe(down) == 0);
    const auto child = fork();
    if (child == 0) {
        char c = 'x';
        cosim::utility::file_lock l("lockfile");
        l.lock();
        if (write(up[1], &c, 1) != 1) _exit(1);
        if (read(down[0], &c, 1) != 1) _exit(1);
        l.unlock();
        _exit(0);
    }
    char c;
    REQUIRE(read(up[0], &c, 1) == 1);
    std::atomic<int> got{0};
    auto f = [&] {
        cosim::utility::file_lock l("lockfile");
        l.lock_shared();
        ++got;
        l.unlock_shared();
    };
    std::thread a(f);
    std::this_thread::sleep_for(std::chrono::milliseconds(200));
    std::thread b(f);
    std::this_thread::sleep_for(std::chrono::milliseconds(200));
    const int early = got;
    REQUIRE(write(down[1], &c, 1) == 1);
    a.join();
    b.join();
    waitpid(child, nullptr, 0);
    REQUIRE(early == 0);
    REQUIRE(got == 2);
}
'''),
 dict(id="U01-merge-no-authority", property="U01",
  edits=[(URI, "    if (baseHasAuthority && basePath.empty()) {", "    if (basePath.empty() || (baseHasAuthority && basePath == \"/\")) {")],
  needs="a relative reference and a base URI without authority and path",
  breaks="the resolved URI gets an absolute path",
  demo=r'''
#include "common.hpp"
#include <cosim/uri.hpp>
int main()
{
    REQUIRE(cosim::resolve_reference(cosim::uri("foo:"), cosim::uri("a/b")).view() == "foo:a/b");
    REQUIRE(cosim::resolve_reference(cosim::uri("foo://h"), cosim::uri("a/b")).view() == "foo://h/a/b");
}
'''),
 dict(id="U01-encode-signed", property="U01",
  edits=[(URI, "                << static_cast<int>(static_cast<unsigned char>(c));", "                << (static_cast<int>(c) & 0x7f);")],
  needs="bytes outside of ASCII in a path or key",
  breaks="such bytes are encoded as other ones",
  demo=r'''
#include "common.hpp"
#include <cosim/uri.hpp>
int main()
{
    REQUIRE(cosim::percent_encode("\xC3\xA6 ") == "%C3%A6%20");
    REQUIRE(cosim::percent_decode(cosim::percent_encode("\xC3\xA6/")) == "\xC3\xA6/");
}
'''),
 dict(id="Z01-append", property="Z01",
  edits=[(ZIP, "        std::ios_base::binary | std::ios_base::trunc);", "        std::ios_base::binary | std::ios_base::app);")],
  needs="a target directory that already has a file of the same name",
  breaks="the file ends up with the old contents and the new after it",
  demo=r'''
#include "common.hpp"
#include <cosim/utility/zip.hpp>
#include <fstream>
#include <sstream>
#include <zip.h>
int main()
{
    int err = 0;
    auto* z = zip_open("a.zip", ZIP_CREATE, &err);
    REQUIRE(z);
    zip_file_add(z, "f", zip_source_buffer(z, "new", 3, 0), 0);
    zip_close(z);
    std::ofstream("f") << "older";
    cosim::utility::zip::archive("a.zip").extract_all(".");
    std::ifstream i("f");
    std::stringstream s;
    s << i.rdbuf();
    REQUIRE(s.str() == "new");
}
'''),
 dict(id="L02-move-to-front", property="L02",
  edits=[(ORC, """    for (auto sr : subResolvers_) {
        if (auto r = sr->lookup_model(baseUri, modelUriReference)) return r;
    }""", """    for (auto it = subResolvers_.begin(); it != subResolvers_.end(); ++it) {
        if (auto r = (*it)->lookup_model(baseUri, modelUriReference)) {
            // It is likely to be asked for similar models again.
            std::iter_swap(subResolvers_.begin(), it);
            return r;
        }
    }""")],
  needs="an earlier lookup that went to a later sub-resolver, and a URI which several sub-resolvers know",
  breaks="the URI goes to a sub-resolver that is not the first one which knows it",
  demo=r'''
#include "common.hpp"
#include <cosim/orchestration.hpp>
struct mdl : cosim::model
{
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return nullptr; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
};
struct sub : cosim::model_uri_sub_resolver
{
    std::string only;
    int hits = 0;
    explicit sub(std::string o) : only(std::move(o)) {}
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        if (!only.empty() && u.path() != only) return nullptr;
        ++hits;
        return std::make_shared<mdl>();
    }
};
int main()
{
    cosim::model_uri_resolver r;
    auto a = std::make_shared<sub>("/a"), b = std::make_shared<sub>("");
    r.add_sub_resolver(a);
    r.add_sub_resolver(b);
    r.lookup_model(cosim::uri("x:/c"), cosim::uri("b"));
    REQUIRE(a->hits == 0 && b->hits == 1);
    r.lookup_model(cosim::uri("x:/c"), cosim::uri("a"));
    REQUIRE(a->hits == 1 && b->hits == 1);
}
'''),
 dict(id="N02-first-set-only", property="N02",
  edits=[(SSPL, """        if (!component.parameterSets.empty()) {
            add_parameter_set(""", """        if (!component.parameterSets.empty() && configuration.parameter_sets.at("").empty()) {
            add_parameter_set(""")],
  needs="more than one component with parameter sets",
  breaks="the default parameter set has the values of one component only",
  demo=r'''
#include "common.hpp"
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/ssp/ssp_loader.hpp>
// Not part of this build:
struct jm_callbacks {};
cosim::fmi::importer::importer(std::shared_ptr<cosim::file_cache> c)
    : fileCache_(std::move(c)), callbacks_(std::make_unique<jm_callbacks>()), handle_(nullptr, [](fmi_import_context_t*) {}) {}
std::shared_ptr<cosim::fmi::importer> cosim::fmi::importer::create(std::shared_ptr<cosim::file_cache> c) { return std::shared_ptr<importer>(new importer(std::move(c))); }
std::shared_ptr<cosim::fmi::fmu> cosim::fmi::importer::import(const cosim::filesystem::path&) { throw std::runtime_error("import"); }
#include <cosim/orchestration.hpp>
#include <fstream>
struct mdl : cosim::model
{
    std::shared_ptr<cosim::model_description> d = std::make_shared<cosim::model_description>(prog_slave().model_description());
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return d; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return std::make_shared<prog_slave>(); }
};
struct sub : cosim::model_uri_sub_resolver
{
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri&) override { return std::make_shared<mdl>(); }
};
int main()
{
    std::ofstream("SystemStructure.ssd") <<
        "<?xml version='1.0' encoding='UTF-8'?>"
        "<ssd:SystemStructureDescription name='s' version='1.0' xmlns:ssc='http://ssp-standard.org/SSP1/SystemStructureCommon' xmlns:ssd='http://ssp-standard.org/SSP1/SystemStructureDescription' xmlns:ssv='http://ssp-standard.org/SSP1/SystemStructureParameterValues'>"
        "<ssd:System name='r'><ssd:Elements>"
        "<ssd:Component name='a' source='a.fmu'><ssd:ParameterBindings><ssd:ParameterBinding><ssd:ParameterValues><ssv:ParameterSet version='1.0' name='p'><ssv:Parameters><ssv:Parameter name='r20'><ssv:Real value='3'/></ssv:Parameter></ssv:Parameters></ssv:ParameterSet></ssd:ParameterValues></ssd:ParameterBinding></ssd:ParameterBindings></ssd:Component>"
        "<ssd:Component name='b' source='b.fmu'><ssd:ParameterBindings><ssd:ParameterBinding><ssd:ParameterValues><ssv:ParameterSet version='1.0' name='q'><ssv:Parameters><ssv:Parameter name='r21'><ssv:Real value='4'/></ssv:Parameter></ssv:Parameters></ssv:ParameterSet></ssd:ParameterValues></ssd:ParameterBinding></ssd:ParameterBindings></ssd:Component>"
        "</ssd:Elements></ssd:System>"
        "</ssd:SystemStructureDescription>";
    auto r = std::make_shared<cosim::model_uri_resolver>();
    r->add_sub_resolver(std::make_shared<sub>());
    cosim::ssp_loader l;
    l.set_model_uri_resolver(r);
    const auto c = l.load(".");
    REQUIRE(c.parameter_sets.at("p").size() == 1);
    REQUIRE(c.parameter_sets.at("q").size() == 1);
    REQUIRE(c.parameter_sets.at("").size() == 2);
}
'''),
 dict(id="L01-calculated-source", property="L01",
  edits=[(OSP, """        if (causalityA == variable_causality::output ||
            causalityA == variable_causality::calculated_parameter) {
            systemStructure.connect_variables(variableA, variableB);""", """        if (causalityA == variable_causality::output) {
            systemStructure.connect_variables(variableA, variableB);""")],
  needs="a variable connection whose first end is a calculated parameter",
  breaks="a valid configuration is refused",
  demo=r'''
#include "common.hpp"
#include <cosim/osp_config_parser.hpp>
#include <cosim/orchestration.hpp>
#include <fstream>
struct mdl : cosim::model
{
    std::shared_ptr<cosim::model_description> d = std::make_shared<cosim::model_description>(prog_slave().model_description());
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return d; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return std::make_shared<prog_slave>(); }
};
struct sub : cosim::model_uri_sub_resolver
{
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri&) override { return std::make_shared<mdl>(); }
};
int main()
{
    std::ofstream("OspSystemStructure.xml") <<
        "<?xml version='1.0' encoding='UTF-8'?>"
        "<OspSystemStructure xmlns='http://opensimulationplatform.com/MSMI/OSPSystemStructure' version='0.1'>"
        "<BaseStepSize>0.1</BaseStepSize>"
        "<Simulators><Simulator name='a' source='a.fmu'/><Simulator name='b' source='b.fmu'/></Simulators>"
        "<Connections><VariableConnection><Variable simulator='a' name='r30'/><Variable simulator='b' name='r1'/></VariableConnection></Connections>"
        "</OspSystemStructure>";
    cosim::model_uri_resolver r;
    r.add_sub_resolver(std::make_shared<sub>());
    const auto c = cosim::load_osp_config(".", r);
    int n = 0;
    for (const auto& x : c.system_structure.connections()) {
        ++n;
        REQUIRE(x.source.variable_name == "r30" && x.target.variable_name == "r1");
    }
    REQUIRE(n == 1);
}
'''),
]
