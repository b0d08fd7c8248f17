// Calls of the functions of cosim/uri.hpp (spec Uri).
#include "vh.hpp"
#include <cosim/uri.hpp>
#include <sstream>

using vh::obj;
using opt = std::optional<std::string>;

static std::string unhex(const std::string& t)
{
    std::string o;
    if (t == ".") return o;
    for (std::size_t i = 0; i + 1 < t.size(); i += 2) o += static_cast<char>(std::stoi(t.substr(i, 2), nullptr, 16));
    return o;
}
static opt ounhex(const std::string& t) { return t == "-" ? opt() : opt(unhex(t)); }
static std::string arr(std::string_view s)
{
    std::string o = "[";
    for (unsigned char c : s) o += (o.size() > 1 ? "," : "") + std::to_string(c);
    return o + "]";
}
template<typename S>
static std::string oarr(const std::optional<S>& s) { return s ? "[" + arr(*s) + "]" : "[]"; }
static void comps(obj& o, const cosim::uri& u)
{
    o.raw("v", arr(u.view())).raw("sc", oarr(u.scheme())).raw("au", oarr(u.authority())).raw("pa", arr(u.path()));
    o.raw("qu", oarr(u.query())).raw("fr", oarr(u.fragment()));
    // Emptiness, comparison and output agree with the text.
    std::ostringstream os;
    os << u;
    const cosim::uri none;
    const bool agree = os.str() == u.view() && u == cosim::uri(u) && !(u != cosim::uri(u)) && (u == none) == u.view().empty() && none.empty() && none.view().empty() && none.path().empty() && !none.scheme() && !none.authority() && !none.query() && !none.fragment();
    o.i("em", u.empty()).i("ag", agree);
}
static std::optional<std::string_view> sv(const opt& o) { return o ? std::optional<std::string_view>(*o) : std::nullopt; }

static void run(const vh::scenario& sc, vh::trace& tr)
{
    for (const auto& t : sc.lines) {
        obj o(t[0].c_str());
        int ok = 1;
        // Exact-size heap copies, so that reading past the end can be seen.
        const auto s = std::make_unique<std::string>(unhex(t[1] == "-" ? "." : t[1]));
        try {
            if (t[0] == "parse") {
                o.raw("s", arr(*s));
                const cosim::uri u(*s);
                const cosim::uri copy = u;
                comps(o, copy);
            } else if (t[0] == "compose" || t[0] == "encuri") {
                const auto c = ounhex(t[1]), a = ounhex(t[2]), q = ounhex(t[4]), f = ounhex(t[5]);
                const auto p = unhex(t[3]);
                o.raw("isc", oarr(c)).raw("iau", oarr(a)).raw("ipa", arr(p)).raw("iqu", oarr(q)).raw("ifr", oarr(f));
                if (t[0] == "compose") comps(o, cosim::uri(sv(c), sv(a), p, sv(q), sv(f)));
                else comps(o, cosim::percent_encode_uri(sv(c), sv(a), p, sv(q), sv(f)));
            } else if (t[0] == "resolve") {
                const auto r = unhex(t[2]);
                o.raw("b", arr(*s)).raw("s", arr(r));
                auto u = cosim::resolve_reference(cosim::uri(*s), cosim::uri(r));
                const auto moved = std::move(u);
                comps(o, moved);
            } else if (t[0] == "enc") {
                const auto x = unhex(t[2]);
                o.raw("s", arr(*s)).raw("x", arr(x));
                o.raw("v", arr(x.empty() ? cosim::percent_encode(*s) : cosim::percent_encode(*s, x.c_str())));
            } else if (t[0] == "dec") {
                o.raw("s", arr(*s));
                const std::vector<char> exact(s->begin(), s->end());
                o.raw("v", arr(cosim::percent_decode(std::string_view(exact.data(), exact.size()))));
            } else if (t[0] == "topath") {
                o.raw("s", arr(*s));
                o.raw("v", arr(cosim::file_uri_to_path(cosim::uri(*s)).string()));
            } else if (t[0] == "touri") {
                o.raw("s", arr(*s));
                const auto u = cosim::path_to_file_uri(cosim::filesystem::path(*s));
                std::string back;
                if (!s->empty()) back = cosim::file_uri_to_path(u).string();
                o.raw("v", arr(u.view())).raw("back", arr(back));
            }
        } catch (const std::exception&) {
            ok = 0;
        }
        o.i("ok", ok);
        tr.ev(o);
    }
}

int main(int argc, char** argv) { return vh::run(argc, argv, run); }
