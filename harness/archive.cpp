// Drives cosim::utility::zip::archive.  The target directory t and everything
// around it live several levels below a scratch directory of this process, so
// that names with a few ".." stay inside of it whatever the code does.
#include "vh.hpp"

#include <cosim/utility/zip.hpp>

#include <boost/crc.hpp>

#include <algorithm>
#include <filesystem>
#include <memory>
#include <tuple>

using namespace vh;
namespace fs = std::filesystem;
namespace
{
std::string unhex(const std::string& s)
{
    std::string r;
    if (s == ".") return r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
std::string comps(const fs::path& p)
{
    std::string r = "[";
    for (const auto& c : p) {
        if (c.string().empty()) continue;
        std::string q;
        for (char ch : c.string()) { if (ch == '\\' || ch == '"') q += '\\'; q += ch; }
        r += (r.size() > 1 ? ",\"" : "\"") + q + "\"";
    }
    return r + "]";
}
std::string content(const fs::path& p)
{
    std::ifstream in(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    boost::crc_32_type c;
    c.process_bytes(s.data(), s.size());
    return "[" + std::to_string(s.size()) + "," + std::to_string(c.checksum() & 0x3fffffff) + "]";
}
std::string list(const fs::path& top)
{
    std::string r;
    for (const auto& e : fs::recursive_directory_iterator(top)) {
        const bool d = e.is_directory();
        r += std::string(r.empty() ? "" : ",") + "{\"p\":" + comps(fs::relative(e.path(), top)) + ",\"d\":" + (d ? "1" : "0") + ",\"c\":" + (d ? "[]" : content(e.path())) + "}";
    }
    return "[" + r + "]";
}
void play(const scenario& sc, trace& t)
{
    const fs::path base = fs::path(std::getenv("VH_SCRATCH")) / ("ar" + distinct());
    const fs::path top = base / "1/2/3/4/5/w", tgt = top / "t";
    fs::create_directories(top);
    const fs::path zipfile = base / "a.zip";
    std::unique_ptr<cosim::utility::zip::archive> a;
    ::signal(SIGXFSZ, SIG_IGN);
    struct rlimit size;
    ::getrlimit(RLIMIT_FSIZE, &size);
    size.rlim_cur = size.rlim_max;
    ::setrlimit(RLIMIT_FSIZE, &size);
    for (const auto& l : sc.lines) {
        const auto& op = l[0];
        if (op == "zip") {
            auto data = unhex(l[1]);
            // @@@@...@ (a run as long as the path) stands for the directory above the target
            const auto abs = top.string();
            const std::string mark(200, '@');
            for (std::size_t p; (p = data.find(mark)) != std::string::npos;) {
                std::string q = "/" + std::string(200 - 1 - abs.size(), '/') + abs;
                data.replace(p, 200, q.substr(0, 200));
            }
            std::ofstream(zipfile, std::ios::binary) << data;
        } else if (op == "mkdir") fs::create_directories(top / unhex(l[1]));
        else if (op == "file") { std::ofstream(top / unhex(l[1])) << l[2]; }
        else if (op == "fs") t.ev(obj("fs").raw("q", list(top)));
        else if (op == "limit") {
            struct rlimit r;
            ::getrlimit(RLIMIT_FSIZE, &r);
            r.rlim_cur = num(l[1]) < 0 ? r.rlim_max : static_cast<rlim_t>(num(l[1]));
            ::setrlimit(RLIMIT_FSIZE, &r);
        } else if (op == "open") {
            bool ok = true;
            try { a = std::make_unique<cosim::utility::zip::archive>(zipfile); } catch (const cosim::utility::zip::error&) { ok = false; }
            t.ev(obj("open").i("ok", ok));
            if (!ok) break;
        } else if (op == "count") t.ev(obj("count").i("n", static_cast<long long>(a->entry_count())));
        else if (op == "name") {
            const auto i = static_cast<cosim::utility::zip::entry_index>(num(l[1]));
            t.ev(obj("name").i("i", num(l[1])).s("s", a->entry_name(i)).i("d", a->is_dir_entry(i)));
        } else if (op == "find") {
            const auto i = a->find_entry(unhex(l[1]));
            t.ev(obj("find").s("s", unhex(l[1])).i("i", i == cosim::utility::zip::invalid_entry_index ? -1 : static_cast<long long>(i)));
        } else if (op == "extract") {
            struct rlimit r, full;
            bool ok = true;
            std::string why;
            if (l.size() > 1) {
                ::getrlimit(RLIMIT_FSIZE, &r);
                full = r;
                r.rlim_cur = static_cast<rlim_t>(num(l[1]));
                ::setrlimit(RLIMIT_FSIZE, &r);
            }
            try { a->extract_all(tgt); } catch (const std::exception& e) { ok = false; why = e.what(); }
            if (l.size() > 1) ::setrlimit(RLIMIT_FSIZE, &full);
            t.ev(obj("extract").i("ok", ok).raw("q", list(top)));
        } else if (op == "to") {
            bool ok = true;
            fs::path p;
            try { p = a->extract_file_to(static_cast<cosim::utility::zip::entry_index>(num(l[1])), tgt); } catch (const std::exception&) { ok = false; }
            t.ev(obj("to").i("i", num(l[1])).i("ok", ok).raw("p", ok ? comps(fs::relative(p, top)) : "[]").raw("q", list(top)));
        } else if (op == "move") {
            cosim::utility::zip::archive b(std::move(*a));
            cosim::utility::zip::archive c;
            c = std::move(b);
            *a = std::move(c);
        }
    }
    a.reset();
    fs::remove_all(base);
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
