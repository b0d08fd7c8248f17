// last_value_observer and time_series_observer: reader threads against the
// notifying thread.  Every variable of a simulator has the number of its
// current step as value.
#include "vh.hpp"

#include <cosim/observer/last_value_observer.hpp>
#include <cosim/observer/time_series_observer.hpp>

#include <memory>

using namespace vh;
namespace
{
constexpr long long dt = 10;
cosim::time_point tp(long long u) { return cosim::time_point(cosim::duration(u * 1000)); }
long long units(cosim::time_point t) { const auto d = t.time_since_epoch().count(); return d % 1000 ? BAD : d / 1000; }
long long tok(double d) { return real_token(d); }
unsigned pauseEvery = 5;

class source : public cosim::observable
{
public:
    source(int i, int nv) : i_(i), nv_(nv) { }
    std::string name() const override { return "sim" + std::to_string(i_); }
    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "m";
        for (int k = 0; k < nv_; ++k)
            for (auto t : {cosim::variable_type::real, cosim::variable_type::integer, cosim::variable_type::string}) {
                cosim::variable_description vd;
                vd.name = "v" + std::to_string(k) + cosim::to_text(t);
                vd.reference = static_cast<cosim::value_reference>(k);
                vd.type = t;
                vd.causality = cosim::variable_causality::output;
                vd.variability = cosim::variable_variability::discrete;
                md.variables.push_back(vd);
            }
        return md;
    }
    void expose_for_getting(cosim::variable_type, cosim::value_reference) override { }
    double get_real(cosim::value_reference) const override { slow(); return real_of(cur.load()); }
    int get_integer(cosim::value_reference) const override { slow(); return static_cast<int>(cur.load()); }
    bool get_boolean(cosim::value_reference) const override { return false; }
    std::string_view get_string(cosim::value_reference) const override
    {
        slow();
        s_ = "a rather long string, to be allocated " + std::to_string(cur.load());
        return s_;
    }
    std::atomic<long long> cur{-1};

private:
    void slow() const
    {
        if (pauseEvery && ++n_ % pauseEvery == 0) std::this_thread::sleep_for(std::chrono::microseconds(1 + n_ % 30));
    }
    int i_, nv_;
    mutable unsigned n_ = 0;
    mutable std::string s_;
};

void play(const scenario& s, trace& t)
{
    int n = 1, nv = 4, steps = 20, readers = 1, queries = 20;
    long long buf = 5;
    unsigned long long seed = 1;
    int storm = 0; // threads that do nothing but start and stop series of their own
    for (const auto& w : s.lines) {
        n = static_cast<int>(num(w[0])); nv = static_cast<int>(num(w[1])); steps = static_cast<int>(num(w[2]));
        readers = static_cast<int>(num(w[3])); queries = static_cast<int>(num(w[4])); buf = num(w[5]);
        seed = static_cast<unsigned long long>(num(w[6])); pauseEvery = static_cast<unsigned>(num(w[7]));
        if (w.size() > 8) storm = static_cast<int>(num(w[8]));
    }
    cosim::last_value_observer last;
    cosim::time_series_observer ts(static_cast<std::size_t>(buf));
    std::vector<std::unique_ptr<source>> src;
    for (int i = 1; i <= n; ++i) {
        src.push_back(std::make_unique<source>(i, nv));
        last.simulator_added(i, src.back().get(), tp(0));
        ts.simulator_added(i, src.back().get(), tp(0));
        for (int k = 0; k < nv; ++k) {
            ts.start_observing({i, cosim::variable_type::real, static_cast<cosim::value_reference>(k)});
            ts.start_observing({i, cosim::variable_type::integer, static_cast<cosim::value_reference>(k)});
        }
        src.back()->cur = 0;
    }
    for (int i = 1; i <= n; ++i) t.ev(obj("sb").i("i", i).i("k", 0));
    last.simulation_initialized(0, tp(0));
    ts.simulation_initialized(0, tp(0));
    for (int i = 1; i <= n; ++i) t.ev(obj("se").i("i", i).i("k", 0));
    std::atomic<bool> go{false};
    auto reader = [&](int th) {
        rng r(seed * 100 + static_cast<unsigned long long>(th));
        while (!go) { }
        long long seen = 0;
        std::map<int, bool> on;
        for (int q = 0; q < queries; ++q) {
            const int i = 1 + static_cast<int>(r.next(static_cast<unsigned>(n))), j = 1 + static_cast<int>(r.next(static_cast<unsigned>(n)));
            const auto kind = r.next(9);
            const auto m = static_cast<std::size_t>(1 + r.next(8));
            const long long from = std::max(0LL, seen - static_cast<long long>(r.next(6)));
            const auto v = static_cast<cosim::value_reference>(r.next(static_cast<unsigned>(nv)));
            std::vector<long long> xs, ys, ss, tt;
            t.ev(obj("qb").i("th", th));
            if (kind < 2) {
                std::vector<cosim::value_reference> refs;
                for (int k = 0; k < nv; ++k) refs.push_back(static_cast<cosim::value_reference>(r.next(2) ? k : nv - 1 - k));
                const auto w = r.next(3);
                if (w == 0) { std::vector<double> o(refs.size()); last.get_real(i, refs, o); for (auto x : o) xs.push_back(tok(x)); }
                else if (w == 1) { std::vector<int> o(refs.size()); last.get_integer(i, refs, o); for (auto x : o) xs.push_back(x); }
                else { std::vector<std::string> o(refs.size()); last.get_string(i, refs, o); for (auto& x : o) xs.push_back(x.size() > 38 && x[0] == 'a' ? std::atoll(x.c_str() + 38) : BAD); }
                if (!xs.empty()) seen = xs[0];
                t.ev(obj("ql").i("th", th).i("i", i).a("x", xs));
            } else if (kind < 4) {
                std::vector<cosim::step_number> st(m);
                std::vector<cosim::time_point> tm(m);
                if (r.next(2)) { std::vector<double> o(m); const auto g = ts.get_real_samples(i, v, from, o, st, tm); for (std::size_t k = 0; k < g; ++k) xs.push_back(tok(o[k])); }
                else { std::vector<int> o(m); const auto g = ts.get_integer_samples(i, v, from, o, st, tm); for (std::size_t k = 0; k < g; ++k) xs.push_back(o[k]); }
                for (std::size_t k = 0; k < xs.size(); ++k) { ss.push_back(st[k]); tt.push_back(units(tm[k])); }
                if (!ss.empty()) seen = std::max(seen, ss.back());
                t.ev(obj("qs").i("th", th).i("i", i).i("from", from).i("max", static_cast<long long>(m)).a("s", ss).a("t", tt).a("x", xs));
            } else if (kind == 4) {
                std::vector<double> a(m), b(m);
                const auto g = ts.get_synchronized_real_series(i, v, j, 0, from, a, b);
                for (std::size_t k = 0; k < g; ++k) { xs.push_back(tok(a[k])); ys.push_back(tok(b[k])); }
                t.ev(obj("qy").i("th", th).i("i", i).i("j", j).i("from", from).i("max", static_cast<long long>(m)).a("x", xs).a("y", ys));
            } else if (kind >= 6) {
                // a series of its own, which only this thread starts, reads and stops
                const auto own = static_cast<cosim::value_reference>(nv + th);
                const auto type = th % 2 ? cosim::variable_type::real : cosim::variable_type::integer;
                if (kind == 6) {
                    auto& is = on[i];
                    if (is && r.next(2)) { ts.stop_observing({i, type, own}); is = false; t.ev(obj("tp").i("th", th).i("i", i)); }
                    else { ts.start_observing({i, type, own}); is = true; t.ev(obj("ts").i("th", th).i("i", i)); }
                } else {
                    std::vector<cosim::step_number> st(m);
                    std::vector<cosim::time_point> tm(m);
                    std::size_t g = 0;
                    bool ok = true;
                    try {
                    if (th % 2) { std::vector<double> o(m); g = ts.get_real_samples(i, own, from, o, st, tm); for (std::size_t k = 0; k < g; ++k) xs.push_back(tok(o[k])); }
                    else { std::vector<int> o(m); g = ts.get_integer_samples(i, own, from, o, st, tm); for (std::size_t k = 0; k < g; ++k) xs.push_back(o[k]); }
                    for (std::size_t k = 0; k < g; ++k) { ss.push_back(st[k]); tt.push_back(units(tm[k])); }
                    } catch (const std::out_of_range&) { ok = false; }
                    t.ev(obj("qm").i("th", th).i("i", i).i("from", from).i("max", static_cast<long long>(m)).raw("ok", ok ? "true" : "false").a("s", ss).a("t", tt).a("x", xs));
                }
            } else {
                cosim::step_number st[2] = {-7, -7};
                const long long d = r.next(80);
                ts.get_step_numbers(i, cosim::duration(d * 1000), gsl::span<cosim::step_number>(st, 2));
                t.ev(obj("qd").i("th", th).i("i", i).i("d", d).a("s", {st[0], st[1]}));
            }
            if (r.next(3) == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.next(100)));
        }
    };
    std::vector<std::thread> rs;
    for (int th = 1; th <= readers; ++th) rs.emplace_back(reader, th);
    std::atomic<bool> over{false};
    // ... and as many that do nothing but query, as fast as they can: every value is the number of its step
    for (int th = 1; th <= storm; ++th)
        rs.emplace_back([&, th] {
            rng r(seed * 100 + 80 + static_cast<unsigned long long>(th));
            constexpr std::size_t m = 6;
            double a[m], b[m];
            int c[m];
            cosim::step_number st[m];
            cosim::time_point tm[m];
            while (!go) { }
            long long seen = 0;
            while (!over) {
                const int i = 1 + static_cast<int>(r.next(static_cast<unsigned>(n))), j = 1 + static_cast<int>(r.next(static_cast<unsigned>(n)));
                const auto v = static_cast<cosim::value_reference>(r.next(static_cast<unsigned>(nv)));
                const long long from = std::max(0LL, seen - static_cast<long long>(r.next(5)));
                bool good = true;
                switch (r.next(5)) {
                    case 0: case 1: {
                        const auto g = ts.get_synchronized_real_series(i, v, j, 0, from, a, b);
                        for (std::size_t k = 0; k < g; ++k) good = good && tok(a[k]) == tok(b[k]) && tok(a[k]) == tok(a[0]) + static_cast<long long>(k);
                        break;
                    }
                    case 2: {
                        const auto g = ts.get_real_samples(i, v, from, a, st, tm);
                        for (std::size_t k = 0; k < g; ++k) good = good && tok(a[k]) == st[k] && st[k] == st[0] + static_cast<long long>(k) && units(tm[k]) == dt * st[k];
                        break;
                    }
                    case 3: {
                        const auto g = ts.get_integer_samples(i, v, from, c, st, tm);
                        for (std::size_t k = 0; k < g; ++k) good = good && c[k] == st[k] && st[k] == st[0] + static_cast<long long>(k) && units(tm[k]) == dt * st[k];
                        break;
                    }
                    default: {
                        ts.get_step_numbers(i, cosim::duration(dt * 1000), gsl::span<cosim::step_number>(st, 2));
                        good = st[1] >= seen && (st[0] == st[1] - 1 || (st[0] == st[1] && (buf == 1 || st[0] == 0)));
                        seen = 0;
                        ts.get_step_numbers(1, cosim::duration(0), gsl::span<cosim::step_number>(st, 2));
                        seen = st[0];
                        if (i != 1 || n > 1) seen = std::max(0LL, seen - 1);
                    }
                }
                if (!good) { t.ev(obj("bad").i("i", i).i("j", j)); return; }
            }
        });
    for (int th = 1; th <= storm; ++th)
        rs.emplace_back([&, th] {
            rng r(seed * 100 + 50 + static_cast<unsigned long long>(th));
            while (!go) { }
            while (!over) {
                const int i = 1 + static_cast<int>(r.next(static_cast<unsigned>(n)));
                const cosim::variable_id id{i, r.next(2) ? cosim::variable_type::real : cosim::variable_type::integer, static_cast<cosim::value_reference>(100 * th) + r.next(3)};
                if (r.next(4)) ts.start_observing(id); else ts.stop_observing(id);
            }
        });
    go = true;
    for (int k = 1; k <= steps; ++k) {
        for (int i = 1; i <= n; ++i) src[static_cast<std::size_t>(i - 1)]->cur = k;
        for (int i = 1; i <= n; ++i) {
            t.ev(obj("sb").i("i", i).i("k", k));
            last.simulator_step_complete(i, k, cosim::duration(dt * 1000), tp(k * dt));
            ts.simulator_step_complete(i, k, cosim::duration(dt * 1000), tp(k * dt));
            t.ev(obj("se").i("i", i).i("k", k));
        }
        last.step_complete(k, cosim::duration(dt * 1000), tp(k * dt));
        ts.step_complete(k, cosim::duration(dt * 1000), tp(k * dt));
    }
    over = true;
    for (auto& x : rs) x.join();
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
