// The sub-resolver for FMUs which run elsewhere, with a stand-in for the proxyfmu
// client that records what it is asked for (spec ProxyUri).
// Lines (everything in hex; the text @ROOT@ becomes the scratch directory, percent-coded in URIs):
//     file <path> | gone <path>
//     look sub|all <base or -> <ref>        asks the sub-resolver itself, or the default resolver
#include "vh.hpp"
#include <cosim/file_cache.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/proxy/proxy_uri_sub_resolver.hpp>
#include <cosim/proxy/remote_slave.hpp>
#include <proxyfmu/client/proxy_fmu.hpp>

#include <filesystem>

using vh::obj;

struct jm_callbacks { };
namespace cosim::fmi
{
importer::importer(std::shared_ptr<file_cache> cache)
    : fileCache_(std::move(cache)), callbacks_(std::make_unique<jm_callbacks>()), handle_(nullptr, [](fmi_import_context_t*) {})
{
}
std::shared_ptr<importer> importer::create(std::shared_ptr<file_cache> cache)
{
    return std::shared_ptr<importer>(new importer(std::move(cache)));
}
std::shared_ptr<fmu> importer::import(const cosim::filesystem::path&) { return nullptr; }
} // namespace cosim::fmi

namespace
{
struct scratch_dir
{
    scratch_dir()
    {
        const char* base = std::getenv("VH_SCRATCH");
        path = std::string(base ? base : "/tmp") + "/cfg_" + vh::distinct();
        std::filesystem::create_directories(path);
    }
    ~scratch_dir()
    {
        std::error_code ec;
        std::filesystem::remove_all(path, ec);
    }
    std::string path;
};
struct server_error : std::runtime_error
{
    server_error() : std::runtime_error("scripted") { }
};
struct request
{
    std::string file;
    bool local;
    std::string host;
    int port;
};
thread_local std::vector<request> asked_;

std::string unhex(const std::string& t)
{
    std::string o;
    if (t == ".") return o;
    for (std::size_t i = 0; i + 1 < t.size(); i += 2) o += static_cast<char>(std::stoi(t.substr(i, 2), nullptr, 16));
    return o;
}
std::string arr(std::string_view s)
{
    std::string o = "[";
    for (unsigned char c : s) o += (o.size() > 1 ? "," : "") + std::to_string(c);
    return o + "]";
}
} // namespace

namespace proxyfmu::client
{
proxy_fmu::proxy_fmu(const filesystem::path& p, const std::optional<remote_info>& r)
{
    asked_.push_back({p.string(), !r, r ? r->host() : "", r ? r->port() : 0});
    const auto s = p.string();
    if (s.size() >= 7 && s.substr(s.size() - 7) == "bad.fmu") throw server_error();
    md_.modelName = s;
}
const fmi::model_description& proxy_fmu::get_model_description() const { return md_; }
std::unique_ptr<fmi::slave> proxy_fmu::new_instance(const std::string&) { return nullptr; }
} // namespace proxyfmu::client

static void run(const vh::scenario& sc, vh::trace& tr)
{
    const scratch_dir dir;
    namespace fs = std::filesystem;
    auto text = [&](const std::string& h) {
        auto s = unhex(h);
        for (std::size_t i; (i = s.find("@ROOT@")) != std::string::npos;) s.replace(i, 6, dir.path);
        return s;
    };
    auto sub = std::make_shared<cosim::proxy::proxy_uri_sub_resolver>();
    // FMU files are none of these scenarios' business: there is no importer here
    auto all = cosim::default_model_uri_resolver(std::make_shared<cosim::temporary_file_cache>());
    for (const auto& t : sc.lines) {
        if (t[0] == "file") {
            const auto p = text(t[1]);
            fs::create_directories(fs::path(p).parent_path());
            std::ofstream(p) << "x";
            if (!fs::exists(p)) std::exit(4);
            tr.ev(obj("file").raw("p", arr(p)));
        } else if (t[0] == "gone") {
            const auto p = text(t[1]);
            if (p.rfind(dir.path + "/", 0) == 0) ::unlink(p.c_str());
            tr.ev(obj("gone").raw("p", arr(p)));
        } else if (t[0] == "look") {
            const bool two = t[2] != "-";
            const auto b = two ? text(t[2]) : std::string(), r = text(t[3]);
            asked_.clear();
            std::string out;
            bool same = false;
            try {
                std::shared_ptr<cosim::model> m;
                std::shared_ptr<cosim::model_uri_sub_resolver> s = sub;
                if (t[1] == "sub") m = two ? s->lookup_model(cosim::uri(b), cosim::uri(r)) : s->lookup_model(cosim::uri(r));
                else m = two ? all->lookup_model(cosim::uri(b), cosim::uri(r)) : all->lookup_model(cosim::uri(r));
                out = m ? "model" : "pass";
                same = m && asked_.size() == 1 && m->description() && m->description()->name == asked_[0].file;
            } catch (const server_error&) {
                out = "server";
            } catch (const std::exception&) {
                out = "error";
            }
            std::string as = "[";
            for (auto& a : asked_)
                as += (as.size() > 1 ? "," : "") + ("{\"file\":" + arr(a.file)) + ",\"local\":" + (a.local ? "1" : "0") + ",\"host\":" + arr(a.host) + ",\"port\":" + std::to_string(a.port) + "}";
            tr.ev(obj("look").s("via", t[1]).raw("b", two ? "[" + arr(b) + "]" : "[]").raw("r", arr(r)).s("out", out).raw("asked", as + "]").i("same", same));
        }
    }
}
int main(int argc, char** argv) { return vh::run(argc, argv, run); }
