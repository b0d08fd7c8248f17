// Drives cosim::temporary_file_cache in a temporary directory of its own.
#include "vh.hpp"

#include <cosim/file_cache.hpp>

#include <filesystem>
#include <memory>
#include <optional>

using namespace vh;
namespace fs = std::filesystem;
namespace
{
std::string unhex(const std::string& s)
{
    std::string r;
    if (s == ".") return r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
std::string comps(const fs::path& p)
{
    std::string r = "[";
    for (const auto& c : p) {
        const auto n = c.string();
        if (n.empty()) continue;
        std::string q;
        for (unsigned char ch : n) {
            if (ch == '"' || ch == '\\' || ch < 32 || ch > 126) { char b[8]; std::snprintf(b, sizeof b, "<%02x>", ch); q += b; }
            else q += static_cast<char>(ch);
        }
        r += (r.size() > 1 ? ",\"" : "\"") + q + "\"";
    }
    return r + "]";
}
void play(const scenario& sc, trace& t)
{
    const fs::path tmp = fs::path(std::getenv("VH_SCRATCH")) / ("tc" + distinct());
    fs::create_directories(tmp);
    ::setenv("TMPDIR", tmp.c_str(), 1);
    std::map<long long, std::string> keys;
    std::map<long long, std::unique_ptr<cosim::file_cache::directory_rw>> rw;
    std::map<long long, std::unique_ptr<cosim::file_cache::directory_ro>> ro;
    auto cache = std::make_unique<cosim::temporary_file_cache>();
    std::vector<fs::path> roots;
    for (const auto& e : fs::directory_iterator(tmp)) roots.push_back(e.path());
    if (roots.size() != 1) { t.ev(obj("roots").i("n", static_cast<long long>(roots.size()))); return; }
    t.ev(obj("new").raw("root", comps(fs::canonical(roots[0]))));
    auto path = [&](long long h) { return rw.count(h) ? rw[h]->path() : ro[h]->path(); };
    for (const auto& l : sc.lines) {
        const auto& op = l[0];
        if (op == "key") keys[num(l[1])] = unhex(l[2]);
        else if (op == "rw" || op == "ro") {
            const long long k = num(l[1]), h = num(l[2]);
            fs::path p;
            bool ok = true;
            try {
                if (op == "rw") { auto x = cache->get_directory_rw(keys[k]); p = x->path(); rw[h] = std::move(x); }
                else { auto x = cache->get_directory_ro(keys[k]); p = x->path(); ro[h] = std::move(x); }
            } catch (const std::logic_error&) { ok = false; }
            const bool dir = ok && fs::is_directory(p);
            t.ev(obj(op.c_str()).i("k", k).i("h", h).i("ok", ok).i("isdir", dir).raw("p", dir ? comps(fs::canonical(p)) : "[]"));
        } else if (op == "release") {
            const long long h = num(l[1]);
            if (rw.erase(h) + ro.erase(h)) t.ev(obj("release").i("h", h));
        } else if (op == "write") {
            const long long h = num(l[1]);
            if (!rw.count(h)) continue;
            // never outside of the scratch directory
            const auto p = fs::weakly_canonical(path(h));
            if (p.string().rfind(fs::canonical(tmp).string(), 0) != 0) { t.ev(obj("outside")); return; }
            if (num(l[2]) % 3 == 0) fs::create_directories(p / "sub");
            std::ofstream(p / (num(l[2]) % 3 == 0 ? "sub/" + l[2] : l[2])) << l[3];
            t.ev(obj("write").i("h", h).i("f", num(l[2])).i("v", num(l[3])));
        } else if (op == "read") {
            const long long h = num(l[1]);
            if (!rw.count(h) && !ro.count(h)) continue;
            std::string s = "[";
            std::error_code ec;
            for (auto it = fs::recursive_directory_iterator(path(h), ec); it != fs::recursive_directory_iterator(); ++it) {
                if (it->is_directory() && it->path().filename() == "sub") continue;
                long long v = -1, f = -1;
                const auto name = it->path().filename().string();
                if (!name.empty() && name.find_first_not_of("0123456789") == std::string::npos) f = num(name);
                std::ifstream(it->path()) >> v;
                s += (s.size() > 1 ? ",[" : "[") + std::to_string(f) + "," + std::to_string(v) + "]";
            }
            t.ev(obj("read").i("h", h).raw("files", s + "]"));
        } else if (op == "move") {
            auto c2 = std::make_unique<cosim::temporary_file_cache>(std::move(*cache));
            if (num(l[1])) { cosim::temporary_file_cache c3; c3 = std::move(*c2); *c2 = std::move(c3); }
            cache = std::move(c2);
            t.ev(obj("move"));
        } else if (op == "destroy") {
            cache.reset();
            t.ev(obj("destroy"));
        } else if (op == "left") {
            long long n = 0;
            for ([[maybe_unused]] const auto& e : fs::directory_iterator(tmp)) ++n;
            t.ev(obj("left").i("n", n));
        }
    }
    rw.clear();
    ro.clear();
    cache.reset();
    fs::remove_all(tmp);
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
