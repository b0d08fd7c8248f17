// Drives file_observer with hand-made observables, in a scratch directory, and
// reads back the files it leaves.
#include "vh.hpp"

#include <cosim/fs_portability.hpp>
#include <cosim/observer/file_observer.hpp>

#include <algorithm>
#include <memory>
#include <set>

using namespace vh;
namespace fs = cosim::filesystem;
namespace
{
struct var { std::string name; int ty, ca; cosim::value_reference ref; };
cosim::variable_type vtype(int t)
{
    return t == 1 ? cosim::variable_type::real : t == 2 ? cosim::variable_type::integer : t == 3 ? cosim::variable_type::boolean : cosim::variable_type::string;
}
thread_local long long unit = 500000000;
cosim::time_point tp(long long u) { return cosim::time_point(cosim::duration(u * unit)); }

bool small(long long x) { return -1000 < x && x < 1000; }

cosim::variable_variability variability(cosim::value_reference r)
{
    using vv = cosim::variable_variability;
    return std::vector<vv>{vv::constant, vv::fixed, vv::tunable, vv::discrete, vv::continuous}.at(r % 5);
}
std::optional<cosim::scalar_value> start(const var& v)
{
    if (v.ref % 3 == 0) return {};
    const auto x = static_cast<int>(v.ref);
    if (v.ty == 1) return x + 0.5;
    if (v.ty == 2) return x;
    if (v.ty == 3) return x % 2 == 1;
    return "s" + std::to_string(x);
}

class source : public cosim::observable
{
public:
    source(int i, std::string name, std::vector<var> vars, trace& t) : i_(i), name_(std::move(name)), vars_(std::move(vars)), cur(vars_.size(), 0), t_(t) { }
    std::string name() const override { return name_; }
    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "model";
        md.uuid = "uuid";
        for (const auto& v : vars_) {
            cosim::variable_description vd;
            vd.name = v.name;
            vd.reference = v.ref;
            vd.type = vtype(v.ty);
            vd.causality = v.ca == 1 ? cosim::variable_causality::input : v.ca == 2 ? cosim::variable_causality::output
                : v.ca == 3 ? cosim::variable_causality::parameter : v.ca == 4 ? cosim::variable_causality::calculated_parameter
                : cosim::variable_causality::local;
            vd.variability = variability(v.ref);
            vd.start = start(v);
            md.variables.push_back(vd);
        }
        return md;
    }
    void expose_for_getting(cosim::variable_type t, cosim::value_reference r) override { exposed_.insert({static_cast<int>(t), r}); }
    double get_real(cosim::value_reference r) const override { const auto x = get(1, r); return static_cast<double>(x) + (small(x) ? 0.25 : 0); }
    int get_integer(cosim::value_reference r) const override { return static_cast<int>(get(2, r)); }
    bool get_boolean(cosim::value_reference r) const override { return get(3, r) != 0; }
    std::string_view get_string(cosim::value_reference r) const override
    {
        const auto x = get(4, r);
        auto& s = s_[r]; // stays valid, as promised, only until the value changes
        s = text_of(x);
        return s;
    }

private:
    long long get(int ty, cosim::value_reference r) const
    {
        for (std::size_t k = 0; k < vars_.size(); ++k)
            if (vars_[k].ty == ty && vars_[k].ref == r && exposed_.count({static_cast<int>(vtype(ty)), r})) return cur[k];
        t_.ev(obj("badref").i("i", i_).i("ty", ty).i("r", r));
        throw std::out_of_range("badref");
    }
    int i_;
    std::string name_;

public:
    std::vector<var> vars_;
    std::vector<long long> cur;

private:
    std::set<std::pair<int, cosim::value_reference>> exposed_;
    mutable std::map<cosim::value_reference, std::string> s_;
    trace& t_;
};

std::vector<std::string> split(const std::string& l)
{
    std::vector<std::string> r(1);
    for (char c : l) { if (c == ',') r.emplace_back(); else r.back() += c; }
    return r;
}
std::string jq(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) r += (static_cast<unsigned char>(c) < 32 || c == '"' || c == '\\') ? '?' : c;
    return r + "\"";
}
long long number(const std::string& s, double scale = 1)
{
    try {
        std::size_t p = 0;
        const double d = std::stod(s, &p) * scale;
        return p == s.size() && std::fabs(d) < 1e9 && std::nearbyint(d) == d ? static_cast<long long>(d) : BAD;
    } catch (const std::exception&) { return BAD; }
}
// Reals are a quarter above small tokens; logs show them with `precision` decimals, if one was set
long long real_number(const std::string& s, int precision)
{
    try {
        std::size_t p = 0;
        const double d = std::stod(s, &p);
        if (p != s.size() || !(std::fabs(d) < 1e9)) return BAD;
        const auto x = static_cast<long long>(std::floor(d));
        return d - static_cast<double>(x) == (small(x) && precision != 0 ? 0.25 : 0) ? x : BAD;
    } catch (const std::exception&) { return BAD; }
}
std::vector<fs::path> matching(const fs::path& dir, const std::string& name, const std::string& tail, bool stamped)
{
    std::vector<fs::path> r;
    if (!fs::exists(dir)) return r;
    for (const auto& e : fs::directory_iterator(dir)) {
        const auto f = e.path().filename().string();
        const bool meta = f.size() > 14 && f.rfind("_metadata.yaml") == f.size() - 14;
        if (tail == ".csv" ? meta : !meta) continue;
        if (stamped) {
            const auto rest = f.size() > name.size() + 1 && f.rfind(name + "_", 0) == 0 ? f.substr(name.size() + 1) : "";
            // <name>_YYYYMMDD_HHMMSS_ffffff
            if (rest.empty() || !std::isdigit(static_cast<unsigned char>(rest[0]))) continue;
        } else if (f != name + tail) continue;
        r.push_back(e.path());
    }
    std::sort(r.begin(), r.end());
    return r;
}
std::string contents(const fs::path& dir, const source& s, bool stamped, int precision)
{
    std::string out = "[";
    for (const auto& p : matching(dir, s.name(), ".csv", stamped)) {
        std::ifstream in(p.string());
        std::stringstream all;
        all << in.rdbuf();
        std::string text = all.str(), file;
        std::vector<int> types;
        if (text.empty()) continue;
        std::size_t a = 0;
        while (a < text.size()) {
            auto b = text.find('\n', a);
            if (b == std::string::npos) { file += std::string(file.empty() ? "" : ",") + "[\"incomplete\"]"; break; }
            const auto f = split(text.substr(a, b - a));
            a = b + 1;
            std::string e;
            if (f.size() >= 2 && f[0] == "Time" && f[1] == "StepCount") {
                e = "[\"h\"";
                types.clear();
                for (std::size_t k = 2; k < f.size(); ++k) {
                    e += "," + jq(f[k]);
                    int ty = 0;
                    for (const auto& v : s.vars_) if (v.name == f[k]) ty = v.ty;
                    types.push_back(ty);
                }
            } else if (f.size() >= 2) {
                e = "[\"r\"," + std::to_string(number(f[0], 2)) + "," + std::to_string(number(f[1]));
                for (std::size_t k = 2; k < f.size(); ++k) {
                    const int ty = k - 2 < types.size() ? types[k - 2] : 0;
                    long long x = BAD;
                    if (ty == 4) x = text_token(f[k]);
                    else if (ty == 1) x = real_number(f[k], precision);
                    else if (ty) x = number(f[k]);
                    e += "," + std::to_string(x);
                }
            } else {
                e = "[\"odd\"";
            }
            file += std::string(file.empty() ? "" : ",") + e + "]";
        }
        out += std::string(out.size() > 1 ? "," : "") + "[" + file + "]";
    }
    return out + "]";
}
// What the metadata should say about a variable, beyond its name
bool described(const source& s, const std::string& name, std::vector<std::string> lines)
{
    static const std::map<int, std::string> TY{{1, "real"}, {2, "integer"}, {3, "boolean"}, {4, "string"}};
    static const std::map<int, std::string> CA{{1, "input"}, {2, "output"}, {3, "parameter"}, {4, "calculated_parameter"}, {5, "local"}};
    for (const auto& v : s.vars_) {
        if (v.name != name) continue;
        std::vector<std::string> want{"reference:" + std::to_string(v.ref), "type:" + TY.at(v.ty), "causality:" + CA.at(v.ca),
            "variability:" + std::string(std::vector<const char*>{"constant", "fixed", "tunable", "discrete", "continuous"}.at(v.ref % 5))};
        std::ostringstream st;
        if (const auto x = start(v)) {
            std::visit([&](const auto& y) { st << y; }, *x);
            want.push_back("startvalue:" + st.str());
        }
        for (auto& l : lines) l.erase(std::remove(l.begin(), l.end(), ' '), l.end());
        return lines == want;
    }
    return false;
}
std::string metadata(const fs::path& dir, const source& s, bool stamped)
{
    std::string out = "[";
    for (const auto& p : matching(dir, s.name(), "_metadata.yaml", stamped)) {
        std::ifstream in(p.string());
        std::string line, list;
        bool any = false, first = true;
        std::string name;
        std::vector<std::string> said;
        auto entry = [&] {
            if (!name.empty()) list += std::string(first ? "" : ",") + jq(name + (described(s, name, said) ? "" : "!"));
            if (!name.empty()) first = false;
            name.clear();
            said.clear();
        };
        auto flush = [&] { entry(); if (any) { out += std::string(out.size() > 1 ? "," : "") + "[" + list + "]"; } list.clear(); first = true; };
        while (std::getline(in, line)) {
            if (line.rfind("variables:", 0) == 0) { flush(); any = true; }
            const auto k = line.find("- name:");
            if (k != std::string::npos) {
                auto v = line.substr(k + 7);
                v.erase(0, v.find_first_not_of(' '));
                entry();
                name = v;
            } else if (line.rfind("    ", 0) == 0) said.push_back(line);
            else if (!name.empty()) flush(), any = false;
        }
        flush();
    }
    return out + "]";
}

void play(const scenario& s, trace& t)
{
    const char* base = std::getenv("VH_SCRATCH");
    const fs::path top = fs::path(base ? base : "/tmp") / ("fl_" + distinct());
    fs::create_directories(top);
    const fs::path dir = top / "log";
    std::vector<std::pair<std::string, std::vector<var>>> decl;
    std::vector<std::unique_ptr<source>> src;
    std::unique_ptr<cosim::file_observer> fo;
    cosim::file_observer_config conf;
    bool stamped = true, config = false;
    int precision = -1;
    bool stale = false; // logs of an earlier run are still there
    std::set<std::string> logged;
    std::string xml;
    std::set<int> present;
    auto files = [&](int i) {
        t.ev(obj("files").i("i", i).raw("files", contents(dir, *src.at(static_cast<std::size_t>(i - 1)), stamped, precision)));
        t.ev(obj("meta").i("i", i).raw("meta", metadata(dir, *src.at(static_cast<std::size_t>(i - 1)), stamped)));
    };
    for (const auto& w : s.lines) {
        auto n = [&](std::size_t k) { return num(w.at(k)); };
        if (w[0] == "stale") stale = true;
        else if (w[0] == "sim") decl.push_back({w[1], {}});
        else if (w[0] == "var") decl.back().second.push_back({w[1], static_cast<int>(n(2)), static_cast<int>(n(3)), static_cast<cosim::value_reference>(n(4))});
        else if (w[0] == "conf") { // name decimation vars...; decimation 0: none given
            config = true;
            logged.insert(w[1]);
            std::vector<std::string> vs(w.begin() + 3, w.end());
            std::optional<std::size_t> dec;
            if (n(2) > 0) dec = static_cast<std::size_t>(n(2));
            if (vs.empty() && s.lines.size() % 2) conf.log_all_simulator_variables(w[1], dec);
            else conf.log_simulator_variables(w[1], vs, dec);
            xml += "<simulator name=\"" + w[1] + "\"" + (dec ? " decimationFactor=\"" + w[2] + "\"" : "") + ">";
            for (auto& v : vs) xml += "<variable name=\"" + v + "\"/>";
            xml += "</simulator>\n";
        } else if (w[0] == "make") { // stamped xml precision
            stamped = n(1) != 0;
            if (!config) fo = std::make_unique<cosim::file_observer>(dir);
            else if (n(2)) {
                std::ofstream((top / "c.xml").string()) << "<?xml version=\"1.0\"?>\n<simulators>" << xml << "</simulators>";
                fo = std::make_unique<cosim::file_observer>(dir, top / "c.xml");
            } else {
                conf.set_timestamped_filenames(stamped);
                precision = static_cast<int>(n(3));
                if (precision >= 0) conf.fixed_precision(precision);
                fo = std::make_unique<cosim::file_observer>(dir, conf);
            }
            for (std::size_t i = 0; i < decl.size(); ++i)
                src.push_back(std::make_unique<source>(static_cast<int>(i) + 1, decl[i].first, decl[i].second, t));
        } else if (w[0] == "add") {
            bool ok = true;
            const auto& nm = src.at(static_cast<std::size_t>(n(1) - 1))->name();
            const bool left = stale && !stamped && logged.count(nm);
            if (left) {
                fs::create_directories(dir);
                std::ofstream((dir / (nm + ".csv")).string()) << "Time,StepCount,old\n" << std::string(700, '0') << ",0,1\n";
            }
            try { fo->simulator_added(static_cast<int>(n(1)), src.at(static_cast<std::size_t>(n(1) - 1)).get(), tp(0)); } catch (const std::exception&) { ok = false; }
            if (left && !ok) fs::remove(dir / (nm + ".csv"));
            t.ev(obj("add").i("i", n(1)).i("ok", ok));
        } else if (w[0] == "rm") {
            fo->simulator_removed(static_cast<int>(n(1)), tp(0));
            files(static_cast<int>(n(1)));
            t.ev(obj("rm").i("i", n(1)));
            fs::remove_all(dir / "nothing");
            for (const auto& p : matching(dir, src.at(static_cast<std::size_t>(n(1) - 1))->name(), ".csv", stamped)) fs::remove(p);
            for (const auto& p : matching(dir, src.at(static_cast<std::size_t>(n(1) - 1))->name(), "_metadata.yaml", stamped)) fs::remove(p);
        } else if (w[0] == "set") {
            src.at(static_cast<std::size_t>(n(1) - 1))->cur.at(static_cast<std::size_t>(n(2) - 1)) = n(3);
            t.ev(obj("set").i("i", n(1)).i("v", n(2)).i("x", n(3)));
        } else if (w[0] == "init") {
            t.ev(obj("init").i("s", n(1)).i("t", n(2)));
            fo->simulation_initialized(n(1), tp(n(2)));
        } else if (w[0] == "step") {
            t.ev(obj("step").i("i", n(1)).i("s", n(2)).i("t", n(3)));
            fo->simulator_step_complete(static_cast<int>(n(1)), n(2), cosim::duration(unit), tp(n(3)));
        } else if (w[0] == "start" || w[0] == "stop") {
            bool ok = true;
            try { if (w[0] == "start") fo->start_recording(); else fo->stop_recording(); } catch (const std::exception&) { ok = false; }
            t.ev(obj(w[0] == "start" ? "start" : "stop").i("ok", ok));
            if (w[0] == "stop" && ok) for (std::size_t i = 1; i <= src.size(); ++i) files(static_cast<int>(i));
        } else if (w[0] == "rec") {
            t.ev(obj("rec").i("ok", fo->is_recording()));
        }
    }
    fo.reset();
    for (std::size_t i = 1; i <= src.size(); ++i) files(static_cast<int>(i));
    fs::remove_all(top);
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
