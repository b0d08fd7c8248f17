// Drives last_value_observer and time_series_observer with a hand-made
// observable and records what queries return.
#include "vh.hpp"

#include <cosim/observer/last_value_observer.hpp>
#include <cosim/observer/time_series_observer.hpp>

#include <memory>
#include <set>

using namespace vh;
namespace
{
thread_local long long unit = 1000000;
thread_local long long epoch = 0; // what the specification takes for time zero, in ns
cosim::time_point tp(long long u) { return cosim::time_point(cosim::duration(epoch + u * unit)); }
long long units(cosim::time_point t) { const auto d = t.time_since_epoch().count() - epoch; return d % unit ? BAD : d / unit; }
long long tok(double d) { return real_token(d); }

struct var { int ty; cosim::value_reference ref; };
cosim::variable_type vtype(int t)
{
    return t == 1 ? cosim::variable_type::real : t == 2 ? cosim::variable_type::integer : t == 3 ? cosim::variable_type::boolean : cosim::variable_type::string;
}

class source : public cosim::observable
{
public:
    source(int i, std::vector<var> vars, trace& t) : i_(i), vars_(std::move(vars)), cur(vars_.size(), 0), t_(t) { }
    std::string name() const override { return "sim" + std::to_string(i_); }
    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "m";
        for (std::size_t k = 0; k < vars_.size(); ++k) {
            cosim::variable_description vd;
            vd.name = "v" + std::to_string(k + 1);
            vd.reference = vars_[k].ref;
            vd.type = vtype(vars_[k].ty);
            vd.causality = cosim::variable_causality::output;
            vd.variability = cosim::variable_variability::discrete;
            md.variables.push_back(vd);
        }
        return md;
    }
    void expose_for_getting(cosim::variable_type t, cosim::value_reference r) override { exposed_.insert({static_cast<int>(t), r}); }
    double get_real(cosim::value_reference r) const override { return real_of(get(1, r)); }
    int get_integer(cosim::value_reference r) const override { return static_cast<int>(get(2, r)); }
    bool get_boolean(cosim::value_reference r) const override { return get(3, r) != 0; }
    std::string_view get_string(cosim::value_reference r) const override
    {
        const auto x = get(4, r);
        s_ = text_of(x);
        return s_;
    }

private:
    long long get(int ty, cosim::value_reference r) const
    {
        for (std::size_t k = 0; k < vars_.size(); ++k)
            if (vars_[k].ty == ty && vars_[k].ref == r && exposed_.count({static_cast<int>(vtype(ty)), r})) return cur[k];
        t_.ev(obj("badref").i("i", i_).i("ty", ty).i("r", r));
        throw std::out_of_range("badref");
    }
    int i_;

public:
    std::vector<var> vars_;
    std::vector<long long> cur;

private:
    std::set<std::pair<int, cosim::value_reference>> exposed_;
    mutable std::string s_;
    trace& t_;
};

void play(const scenario& s, trace& t)
{
    std::vector<std::vector<var>> decl;
    // each observer has its own: what one has exposed is of no help to the other
    std::map<int, std::unique_ptr<source>> src, lsrc;
    cosim::last_value_observer last;
    std::unique_ptr<cosim::time_series_observer> ts;
    auto info = [&](int i, int v) -> var { return decl.at(static_cast<std::size_t>(i - 1)).at(static_cast<std::size_t>(v - 1)); };
    for (const auto& w : s.lines) {
        auto n = [&](std::size_t k) { return num(w.at(k)); };
        auto in = [&](std::size_t k) { return static_cast<int>(num(w.at(k))); };
        if (w[0] == "buf") {
            unit = n(2);
            epoch = n(3);
            ts = n(1) < 0 ? std::make_unique<cosim::time_series_observer>() : std::make_unique<cosim::time_series_observer>(static_cast<std::size_t>(n(1)));
        } else if (w[0] == "small") { // may there be an observer that keeps so few samples?
            bool ok = true;
            try { cosim::time_series_observer o(static_cast<std::size_t>(n(1))); } catch (const std::exception&) { ok = false; }
            t.ev(obj("small").i("n", n(1)).i("ok", ok));
        } else if (w[0] == "sim") {
            decl.emplace_back();
            for (std::size_t k = 1; k + 1 < w.size(); k += 2) decl.back().push_back({in(k), static_cast<cosim::value_reference>(n(k + 1))});
        } else if (w[0] == "add") {
            const int i = in(1);
            src[i] = std::make_unique<source>(i, decl.at(static_cast<std::size_t>(i - 1)), t);
            lsrc[i] = std::make_unique<source>(i, decl.at(static_cast<std::size_t>(i - 1)), t);
            t.ev(obj("add").i("i", i).i("t", n(2)));
            last.simulator_added(i, lsrc[i].get(), tp(n(2)));
            ts->simulator_added(i, src[i].get(), tp(n(2)));
        } else if (w[0] == "rm") {
            const int i = in(1);
            t.ev(obj("rm").i("i", i));
            last.simulator_removed(i, tp(0));
            ts->simulator_removed(i, tp(0));
            src.erase(i);
            lsrc.erase(i);
        } else if (w[0] == "set") {
            src.at(in(1))->cur.at(static_cast<std::size_t>(n(2) - 1)) = lsrc.at(in(1))->cur.at(static_cast<std::size_t>(n(2) - 1)) = n(3);
            t.ev(obj("set").i("i", n(1)).i("v", n(2)).i("x", n(3)));
        } else if (w[0] == "init") {
            t.ev(obj("init").i("s", n(1)).i("t", n(2)));
            last.simulation_initialized(n(1), tp(n(2)));
            ts->simulation_initialized(n(1), tp(n(2)));
        } else if (w[0] == "step") {
            t.ev(obj("step").i("i", n(1)).i("s", n(2)).i("t", n(3)));
            const auto d = cosim::duration(n(4) * unit);
            last.simulator_step_complete(in(1), n(2), d, tp(n(3)));
            ts->simulator_step_complete(in(1), n(2), d, tp(n(3)));
            last.step_complete(n(2), d, tp(n(3)));
            ts->step_complete(n(2), d, tp(n(3)));
        } else if (w[0] == "start" || w[0] == "stop") {
            bool ok = true;
            const auto v = info(in(1), in(2));
            try {
                const cosim::variable_id id{in(1), vtype(v.ty), v.ref};
                if (w[0] == "start") ts->start_observing(id); else ts->stop_observing(id);
            } catch (const std::exception&) { ok = false; }
            t.ev(obj(w[0] == "start" ? "start" : "stop").i("i", n(1)).i("v", n(2)).i("ok", ok));
        } else if (w[0] == "ql") { // i ty v... : all of one type; v = 0 is an unknown reference
            const int i = in(1), ty = in(2);
            std::vector<cosim::value_reference> refs;
            std::vector<long long> vs, xs;
            bool bad = false, ok = true;
            for (std::size_t k = 3; k < w.size(); ++k) {
                vs.push_back(n(k));
                if (n(k) == 0) { refs.push_back(9999); bad = true; } else refs.push_back(info(i, in(k)).ref);
            }
            const auto m = refs.size();
            try {
                if (ty == 1) { std::vector<double> o(m, -7); last.get_real(i, refs, o); for (auto x : o) xs.push_back(tok(x)); }
                else if (ty == 2) { std::vector<int> o(m, -7); last.get_integer(i, refs, o); for (auto x : o) xs.push_back(x); }
                else if (ty == 3) { std::unique_ptr<bool[]> o(new bool[m]); last.get_boolean(i, refs, gsl::span<bool>(o.get(), m)); for (std::size_t k = 0; k < m; ++k) xs.push_back(o[k]); }
                else { std::vector<std::string> o(m); last.get_string(i, refs, o); for (auto& x : o) xs.push_back(text_token(x)); }
            } catch (const std::exception&) { ok = false; xs.clear(); }
            t.ev(obj("ql").i("i", i).i("ok", ok).i("bad", bad).a("v", vs).a("x", xs));
        } else if (w[0] == "qs") { // i v from n
            const auto v = info(in(1), in(2));
            const auto m = static_cast<std::size_t>(n(4));
            std::vector<cosim::step_number> st(m, -7);
            std::vector<cosim::time_point> tm(m);
            std::vector<long long> ss, tt, xx;
            std::size_t got = 0;
            bool ok = true;
            try {
                if (v.ty == 2) {
                    std::vector<int> o(m, -7);
                    got = ts->get_integer_samples(in(1), v.ref, n(3), o, st, tm);
                    for (std::size_t k = 0; k < got && k < m; ++k) xx.push_back(o[k]);
                } else {
                    std::vector<double> o(m, -7);
                    got = ts->get_real_samples(in(1), v.ref, n(3), o, st, tm);
                    for (std::size_t k = 0; k < got && k < m; ++k) xx.push_back(tok(o[k]));
                }
                for (std::size_t k = 0; k < got && k < m; ++k) { ss.push_back(st[k]); tt.push_back(units(tm[k])); }
            } catch (const std::exception&) { ok = false; }
            t.ev(obj("qs").i("i", n(1)).i("v", n(2)).i("from", n(3)).i("max", n(4)).i("ok", ok).i("n", static_cast<long long>(got)).a("s", ss).a("t", tt).a("x", xx));
        } else if (w[0] == "qy") { // i v j w from n
            const auto m = static_cast<std::size_t>(n(6));
            std::vector<double> a(m, -7), b(m, -7);
            std::vector<long long> xx, yy;
            std::size_t got = 0;
            bool ok = true;
            try {
                got = ts->get_synchronized_real_series(in(1), info(in(1), in(2)).ref, in(3), info(in(3), in(4)).ref, n(5), a, b);
                for (std::size_t k = 0; k < got && k < m; ++k) { xx.push_back(tok(a[k])); yy.push_back(tok(b[k])); }
            } catch (const std::exception&) { ok = false; }
            t.ev(obj("qy").i("i", n(1)).i("v", n(2)).i("j", n(3)).i("w", n(4)).i("from", n(5)).i("max", n(6)).i("ok", ok).i("n", static_cast<long long>(got)).a("x", xx).a("y", yy));
        } else if (w[0] == "qr" || w[0] == "qd") {
            cosim::step_number st[2] = {-7, -7};
            bool ok = true;
            try {
                if (w[0] == "qr") ts->get_step_numbers(in(1), tp(n(2)), tp(n(3)), gsl::span<cosim::step_number>(st, 2));
                else ts->get_step_numbers(in(1), cosim::duration(n(2) * unit), gsl::span<cosim::step_number>(st, 2));
            } catch (const std::exception&) { ok = false; }
            if (w[0] == "qr") t.ev(obj("qr").i("i", n(1)).i("a", n(2)).i("b", n(3)).i("ok", ok).a("s", {st[0], st[1]}));
            else t.ev(obj("qd").i("i", n(1)).i("d", n(2)).i("ok", ok).a("s", {st[0], st[1]}));
        }
    }
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
