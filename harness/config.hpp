// Stand-ins and output shared by the harnesses of the configuration loaders.
#ifndef CONFIG_HPP
#define CONFIG_HPP
#include "vh.hpp"
#include <cosim/fs_portability.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/model_description.hpp>
#include <cosim/system_structure.hpp>
#include <cosim/uri.hpp>
#include <clocale>
#include <map>
#include <optional>

using vh::obj;
namespace fs = cosim::filesystem;

static std::string unhex(const std::string& t)
{
    std::string o;
    if (t == ".") return o;
    for (std::size_t i = 0; i + 1 < t.size(); i += 2) o += static_cast<char>(std::stoi(t.substr(i, 2), nullptr, 16));
    return o;
}
// names with anything but plain characters are written with %XX
static std::string nm(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c < 32 || c > 126 || c == '"' || c == '\\' || c == '%') {
            char b[8];
            std::snprintf(b, sizeof b, "%%%02X", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}
static std::string num(double d)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", d);
    return b;
}
// whole microseconds, or -1
static long long us(cosim::duration d)
{
    const long long n = d.count(), m = (n + (n < 0 ? -500 : 500)) / 1000;
    return std::llabs(n - m * 1000) <= 1 && std::llabs(m) < 2000000000 ? m : -1;
}

struct fake_model : cosim::model
{
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return desc; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
    std::shared_ptr<cosim::model_description> desc;
    std::string src;
};
struct sub : cosim::model_uri_sub_resolver
{
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        std::string p;
        if (u.scheme() == "file") {
            p = cosim::file_uri_to_path(u).string();
            if (!archive) p = fs::path(p).lexically_relative(root).string();
            else {
                // the unpacked archive must be there, and be elsewhere
                const bool there = fs::exists(fs::path(p).parent_path()) && p.rfind(root + "/", 0) != 0;
                const auto at = p.find("/resources/");
                p = (there ? "archive" : "nowhere") + (at == std::string::npos ? "/" + fs::path(p).filename().string() : p.substr(at));
            }
        } else if (u.scheme() == "fake") {
            p = std::string(u.view());
        } else {
            return nullptr;
        }
        auto stem = fs::path(p).filename().string();
        const auto eq = stem.rfind('=');
        if (eq != std::string::npos) stem = stem.substr(eq + 1);
        if (stem.rfind("fake:", 0) == 0) stem = stem.substr(5);
        if (stem.size() > 4 && stem.substr(stem.size() - 4) == ".fmu") stem.resize(stem.size() - 4);
        const auto it = models.find(stem);
        if (it == models.end()) return nullptr;
        auto m = std::make_shared<fake_model>();
        m->desc = std::make_shared<cosim::model_description>(it->second);
        m->src = p;
        for (auto x : {"=file://localhost", "=file://", "="}) {
            const auto full = x + root + "/";
            const auto at = p.find(full);
            if (at != std::string::npos) {
                m->src = p.substr(0, at) + "=file:" + p.substr(at + full.size());
                break;
            }
        }
        return m;
    }
    std::string root;
    bool archive = false;
    std::map<std::string, cosim::model_description> models;
};

static std::string end(const cosim::full_variable_name& v)
{
    if (v.is_simulator_variable()) return "[\"s\"," + nm(v.entity_name) + "," + nm(v.variable_name) + ",0,0]";
    return "[\"f\"," + nm(v.entity_name) + "," + nm(v.variable_group_name + v.variable_name) + "," + std::to_string(v.variable_group_instance) + "," + std::to_string(v.variable_instance) + "]";
}

static void add_model(sub& s, const vh::tokens& t)
{
    cosim::model_description d;
    d.name = t[1];
    d.uuid = "uuid-" + t[1];
    std::istringstream ss(t[2]);
    std::string w;
    cosim::value_reference n = 0;
    while (std::getline(ss, w, ',')) {
        std::vector<std::string> f;
        std::istringstream fsx(w);
        std::string x;
        while (std::getline(fsx, x, ':')) f.push_back(x);
        cosim::variable_description v;
        v.name = unhex(f[0]);
        v.reference = n++;
        v.type = f[1] == "real" ? cosim::variable_type::real : f[1] == "int" ? cosim::variable_type::integer : f[1] == "bool" ? cosim::variable_type::boolean : f[1] == "str" ? cosim::variable_type::string : cosim::variable_type::enumeration;
        v.causality = f[2] == "in" ? cosim::variable_causality::input : f[2] == "out" ? cosim::variable_causality::output : f[2] == "calc" ? cosim::variable_causality::calculated_parameter : f[2] == "param" ? cosim::variable_causality::parameter : cosim::variable_causality::local;
        v.variability = f[3] == "constant" ? cosim::variable_variability::constant : f[3] == "fixed" ? cosim::variable_variability::fixed : f[3] == "tunable" ? cosim::variable_variability::tunable : f[3] == "discrete" ? cosim::variable_variability::discrete : cosim::variable_variability::continuous;
        d.variables.push_back(v);
    }
    s.models[t[1]] = d;
}
static void add_file(const std::string& root, const vh::tokens& t)
{
    const auto p = fs::path(root) / t[1];
    fs::create_directories(p.parent_path());
    auto c = unhex(t[2]);
    for (std::size_t a; (a = c.find("@ROOT@")) != std::string::npos;) c.replace(a, 6, root);
    std::ofstream(p.string(), std::ios::binary) << c;
}
// type and text of a value
static std::pair<std::string, std::string> shown(const cosim::scalar_value& x)
{
    std::string ty, val;
    if (auto d = std::get_if<double>(&x)) ty = "real", val = num(*d);
    else if (auto i = std::get_if<int>(&x)) ty = "int", val = std::to_string(*i);
    else if (auto b = std::get_if<bool>(&x)) ty = "bool", val = *b ? "true" : "false";
    else ty = "str", val = std::get<std::string>(x);
    return {ty, val};
}
struct scratch_dir
{
    scratch_dir()
    {
        const char* base = std::getenv("VH_SCRATCH");
        path = std::string(base ? base : "/tmp") + "/cfg_" + vh::distinct();
        std::filesystem::create_directories(path);
    }
    ~scratch_dir()
    {
        std::error_code ec;
        std::filesystem::remove_all(path, ec);
    }
    std::string path;
};
static std::string plain(std::string what, const std::string& root)
{
    for (std::size_t a; (a = what.find(root)) != std::string::npos;) what.replace(a, root.size(), "");
    return nm(what);
}
#endif
