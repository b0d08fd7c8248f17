// Drives override_manipulator (several threads) and scenario_manager with a
// hand-made manipulable that keeps the map of installed modifiers.
#include "vh.hpp"

#include <cosim/fs_portability.hpp>
#include <cosim/manipulator/override_manipulator.hpp>
#include <cosim/manipulator/scenario_manager.hpp>

#include <memory>
#include <set>

using namespace vh;
namespace
{
// from 1000 on, tokens of reals stand for numbers that are not whole
double mixed(long long x) { return x >= 1000 ? real_of(x - 1000) : static_cast<double>(x); }
long long mixed_token(int x) { return x; }
long long mixed_token(double d)
{
    if (std::nearbyint(d) == d && std::fabs(d) < 1000) return static_cast<long long>(d);
    const auto n = real_token(d);
    return n == BAD || n < 1 ? BAD : n + 1000;
}

struct var { std::string name; int ty, ca; cosim::value_reference ref; };
cosim::variable_type vtype(int t)
{
    return t == 1 ? cosim::variable_type::real : t == 2 ? cosim::variable_type::integer : t == 3 ? cosim::variable_type::boolean
        : t == 5                              ? cosim::variable_type::enumeration
                                              : cosim::variable_type::string;
}
thread_local long long unit = 1000000;
thread_local long long epoch = 0; // what the specification takes for time zero, in ns
unsigned slow = 0;
cosim::time_point tp(long long u) { return cosim::time_point(cosim::duration(u * unit)); }
cosim::time_point vnow(long long u) { return tp(u) + cosim::duration(epoch); }

class target : public cosim::manipulable
{
public:
    target(int i, std::string name, std::vector<var> vars, trace& t) : i_(i), name_(std::move(name)), vars_(std::move(vars)), t_(t) { }
    std::string name() const override { return name_; }
    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "m";
        for (const auto& v : vars_) {
            cosim::variable_description vd;
            vd.name = v.name;
            vd.reference = v.ref;
            vd.type = vtype(v.ty);
            vd.causality = v.ca == 1 ? cosim::variable_causality::input : v.ca == 2 ? cosim::variable_causality::output
                : v.ca == 3 ? cosim::variable_causality::parameter : v.ca == 4 ? cosim::variable_causality::calculated_parameter
                : cosim::variable_causality::local;
            vd.variability = cosim::variable_variability::discrete;
            md.variables.push_back(vd);
        }
        return md;
    }
    void expose_for_getting(cosim::variable_type t, cosim::value_reference r) override { get_.insert({static_cast<int>(t), r}); }
    void expose_for_setting(cosim::variable_type t, cosim::value_reference r) override { set_.insert({static_cast<int>(t), r}); }
    double get_real(cosim::value_reference) const override { return 0; }
    int get_integer(cosim::value_reference) const override { return 0; }
    bool get_boolean(cosim::value_reference) const override { return false; }
    std::string_view get_string(cosim::value_reference) const override { return ""; }
    void set_real_input_modifier(cosim::value_reference r, std::function<double(double, cosim::duration)> f) override { num_mod(1, true, r, f); }
    void set_integer_input_modifier(cosim::value_reference r, std::function<int(int, cosim::duration)> f) override { num_mod(2, true, r, f); }
    void set_boolean_input_modifier(cosim::value_reference r, std::function<bool(bool, cosim::duration)> f) override { bool_mod(true, r, f); }
    void set_string_input_modifier(cosim::value_reference r, std::function<std::string(std::string_view, cosim::duration)> f) override { str_mod(true, r, f); }
    void set_real_output_modifier(cosim::value_reference r, std::function<double(double, cosim::duration)> f) override { num_mod(1, false, r, f); }
    void set_integer_output_modifier(cosim::value_reference r, std::function<int(int, cosim::duration)> f) override { num_mod(2, false, r, f); }
    void set_boolean_output_modifier(cosim::value_reference r, std::function<bool(bool, cosim::duration)> f) override { bool_mod(false, r, f); }
    void set_string_output_modifier(cosim::value_reference r, std::function<std::string(std::string_view, cosim::duration)> f) override { str_mod(false, r, f); }

    std::mutex m;
    std::map<int, std::pair<long long, long long>> map; // variable -> kind, value

private:
    template<typename F>
    void num_mod(int ty, bool in, cosim::value_reference r, const F& f)
    {
        if (!f) return put(ty, in, r, 0, 0);
        const auto d = cosim::to_duration(1.0);
        const auto a = f(3, d), b = f(100, d);
        if (a == b) put(ty, in, r, 1, mixed_token(a));
        else if (a - 3 == b - 100) put(ty, in, r, 2, mixed_token(a - 3));
        else put(ty, in, r, BAD, BAD);
    }
    template<typename F>
    void bool_mod(bool in, cosim::value_reference r, const F& f)
    {
        if (!f) return put(3, in, r, 0, 0);
        const auto d = cosim::to_duration(1.0);
        const bool a = f(false, d), b = f(true, d);
        if (a == b) put(3, in, r, 1, a); else put(3, in, r, BAD, BAD);
    }
    template<typename F>
    void str_mod(bool in, cosim::value_reference r, const F& f)
    {
        if (!f) return put(4, in, r, 0, 0);
        const auto d = cosim::to_duration(1.0);
        const std::string a = f("a", d), b = f("bb", d);
        if (a == b) put(4, in, r, 1, text_token(a)); else put(4, in, r, BAD, BAD);
    }
    void put(int ty, bool in, cosim::value_reference r, long long k, long long x)
    {
        if (slow) std::this_thread::sleep_for(std::chrono::microseconds(slow));
        std::lock_guard<std::mutex> g(m);
        for (std::size_t n = 0; n < vars_.size(); ++n) {
            const auto& v = vars_[n];
            if (v.ty == ty && v.ref == r) {
                const bool isIn = v.ca == 1 || v.ca == 3;
                if (isIn != in) break;
                if (k != 0 && !(in ? set_ : get_).count({static_cast<int>(vtype(ty)), r})) {
                    t_.ev(obj("unexposed").i("i", i_).i("v", static_cast<long long>(n) + 1));
                    return;
                }
                if (k == 0) map.erase(static_cast<int>(n) + 1);
                else map[static_cast<int>(n) + 1] = {k, x};
                return;
            }
        }
        t_.ev(obj("badtarget").i("i", i_).i("ty", ty).i("ref", r).i("in", in));
    }
    int i_;
    std::string name_;
    std::vector<var> vars_;
    trace& t_;
    std::set<std::pair<int, cosim::value_reference>> get_, set_;
};

struct world
{
    trace& t;
    std::vector<std::pair<std::string, std::vector<var>>> decl;
    std::vector<std::unique_ptr<target>> sims;
    std::string map()
    {
        std::string s = "[";
        for (std::size_t i = 0; i < sims.size(); ++i) {
            std::lock_guard<std::mutex> g(sims[i]->m);
            for (const auto& [v, m] : sims[i]->map)
                s += std::string(s.size() > 1 ? "," : "") + "[" + std::to_string(i + 1) + "," + std::to_string(v) + "," + std::to_string(m.first) + "," + std::to_string(m.second) + "]";
        }
        return s + "]";
    }
    bool declare(const tokens& w)
    {
        if (w[0] == "unit") { unit = num(w[1]); if (w.size() > 2) epoch = num(w[2]); return true; }
        if (w[0] == "slow") { slow = static_cast<unsigned>(num(w[1])); return true; }
        if (w[0] == "sim") { decl.push_back({w[1], {}}); return true; }
        if (w[0] == "var") {
            decl.back().second.push_back({w[1], static_cast<int>(num(w[2])), static_cast<int>(num(w[3])), static_cast<cosim::value_reference>(num(w[4]))});
            return true;
        }
        return false;
    }
    void make()
    {
        for (std::size_t i = 0; i < decl.size(); ++i)
            sims.push_back(std::make_unique<target>(static_cast<int>(i) + 1, decl[i].first, decl[i].second, t));
    }
};

// lines: "th r i v ty ref kind x" / "0 step" / "th y us" / "0 map"
void play_override(const scenario& s, trace& t)
{
    world w{t, {}, {}};
    std::size_t k = 1;
    while (k < s.lines.size() && w.declare(s.lines[k])) ++k;
    w.make();
    cosim::override_manipulator om;
    for (std::size_t i = 0; i < w.sims.size(); ++i) om.simulator_added(static_cast<int>(i) + 1, w.sims[i].get(), vnow(0));
    std::map<int, std::vector<tokens>> prog;
    for (; k < s.lines.size(); ++k) prog[static_cast<int>(num(s.lines[k][0]))].push_back(s.lines[k]);
    std::atomic<int> ready{0};
    const int total = static_cast<int>(prog.size());
    long long now = 0;
    auto body = [&](int th) {
        ++ready;
        while (ready < total) { }
        for (const auto& a : prog[th]) {
            if (a[1] == "y") {
                std::this_thread::sleep_for(std::chrono::microseconds(num(a[2])));
            } else if (a[1] == "step") {
                t.ev_locked([&] { return obj("sb").i("n", ++now); });
                om.step_commencing(vnow(now));
                t.ev_locked([&] { return obj("se").raw("map", w.map()); });
            } else if (a[1] == "map") {
                t.ev_locked([&] { return obj("map").raw("map", w.map()); });
            } else {
                const int i = static_cast<int>(num(a[2])), kind = static_cast<int>(num(a[6]));
                const int ty = static_cast<int>(num(a[4]));
                const auto ref = static_cast<cosim::value_reference>(num(a[5]));
                const long long x = num(a[7]);
                t.ev(obj("rb").i("th", th).i("i", i).i("v", num(a[3])).i("k", kind).i("x", kind ? x : 0));
                bool ok = true;
                try {
                    if (kind == 0) om.reset_variable(i, vtype(ty), ref);
                    else if (ty == 1) om.override_real_variable(i, ref, mixed(x));
                    else if (ty == 2) om.override_integer_variable(i, ref, static_cast<int>(x));
                    else if (ty == 3) om.override_boolean_variable(i, ref, x != 0);
                    else om.override_string_variable(i, ref, text_of(x));
                } catch (const std::exception&) { ok = false; }
                t.ev(obj("re").i("th", th).i("ok", ok));
            }
        }
    };
    std::vector<std::thread> ts;
    for (const auto& p : prog) if (p.first != 0) ts.emplace_back(body, p.first);
    if (prog.count(0)) body(0);
    for (auto& x : ts) x.join();
    t.ev_locked([&] { return obj("sb").i("n", ++now); });
    om.step_commencing(vnow(now));
    t.ev_locked([&] { return obj("se").raw("map", w.map()); });
}

std::string unhex(const std::string& h)
{
    std::string s;
    for (std::size_t k = 0; k + 1 < h.size(); k += 2) s += static_cast<char>(std::stoi(h.substr(k, 2), nullptr, 16));
    return s;
}

void play_scenario(const scenario& s, trace& t)
{
    world w{t, {}, {}};
    std::size_t k = 1;
    while (k < s.lines.size() && w.declare(s.lines[k])) ++k;
    w.make();
    cosim::scenario_manager sm;
    for (std::size_t i = 0; i < w.sims.size(); ++i) sm.simulator_added(static_cast<int>(i) + 1, w.sims[i].get(), vnow(0));
    std::vector<cosim::scenario::scenario> lists;
    std::vector<std::pair<std::string, std::string>> docs; // extension, text
    auto seen = [&](obj o) { t.ev(o.raw("map", w.map()).i("run", sm.is_scenario_running())); };
    for (; k < s.lines.size(); ++k) {
        const auto& a = s.lines[k];
        auto n = [&](std::size_t m) { return num(a.at(m)); };
        if (a[0] == "list") { // list end
            lists.emplace_back();
            if (n(1) >= 0) lists.back().end = tp(n(1));
        } else if (a[0] == "event") { // t i v kind x
            const auto& v = w.decl.at(static_cast<std::size_t>(n(2) - 1)).second.at(static_cast<std::size_t>(n(3) - 1));
            const auto kind = n(4), x = n(5);
            cosim::scenario::variable_action act;
            act.simulator = static_cast<int>(n(2));
            act.variable = v.ref;
            act.is_input = v.ca == 1 || v.ca == 3;
            if (v.ty == 1) act.modifier = kind == 0 ? cosim::scenario::real_modifier{nullptr} : kind == 1 ? cosim::scenario::real_modifier{[x](double, cosim::duration) { return mixed(x); }} : cosim::scenario::real_modifier{[x](double o, cosim::duration) { return o + mixed(x); }};
            else if (v.ty == 2) act.modifier = kind == 0 ? cosim::scenario::integer_modifier{nullptr} : kind == 1 ? cosim::scenario::integer_modifier{[x](int, cosim::duration) { return int(x); }} : cosim::scenario::integer_modifier{[x](int o, cosim::duration) { return o + int(x); }};
            else if (v.ty == 3) act.modifier = kind == 0 ? cosim::scenario::boolean_modifier{nullptr} : cosim::scenario::boolean_modifier{[x](bool, cosim::duration) { return x != 0; }};
            else act.modifier = kind == 0 ? cosim::scenario::string_modifier{nullptr} : cosim::scenario::string_modifier{[x](std::string_view, cosim::duration) { return text_of(x); }};
            lists.back().events.push_back({tp(n(1)), act});
        } else if (a[0] == "doc") {
            docs.push_back({a[1], a.size() > 2 ? unhex(a[2]) : ""});
        } else if (a[0] == "load") {
            sm.load_scenario(lists.at(static_cast<std::size_t>(n(1) - 1)), vnow(n(2)));
            seen(obj("load").i("k", n(1)).i("t", n(2)));
        } else if (a[0] == "file") {
            const auto& d = docs.at(static_cast<std::size_t>(n(1) - 1));
            const char* dir = std::getenv("VH_SCRATCH");
            const auto p = std::string(dir ? dir : "/tmp") + "/doc_" + distinct() + "." + d.first;
            if (d.first != "missing") std::ofstream(p) << d.second;
            bool ok = true;
            std::string why; try { sm.load_scenario(cosim::filesystem::path(p), vnow(n(2))); } catch (const std::exception& e) { ok = false; why = e.what(); }
            ::unlink(p.c_str());
            seen(obj("file").i("k", n(1)).i("t", n(2)).i("ok", ok).s("why", why));
        } else if (a[0] == "abort") {
            sm.abort_scenario();
            seen(obj("abort"));
        } else if (a[0] == "step") {
            sm.step_commencing(vnow(n(1)));
            seen(obj("step").i("t", n(1)));
        } else if (a[0] == "other") {
            auto& sim = *w.sims.at(static_cast<std::size_t>(n(1) - 1));
            { std::lock_guard<std::mutex> g(sim.m); if (n(3) == 0) sim.map.erase(static_cast<int>(n(2))); else sim.map[static_cast<int>(n(2))] = {n(3), n(4)}; }
            seen(obj("other").i("i", n(1)).i("v", n(2)).a("m", {n(3), n(4)}));
        }
    }
}
} // namespace
int main(int argc, char** argv)
{
    return run(argc, argv, [](const scenario& s, trace& t) {
        slow = 0;
        if (s.lines.at(0).at(0) == "override") play_override(s, t); else play_scenario(s, t);
    });
}
