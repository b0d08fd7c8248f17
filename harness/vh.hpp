// Common support for the conformance harnesses: scenario input, trace output,
// process isolation of each scenario.
//
// A scenario file is line based:
//     scenario <id>
//     cfg <json>                 (copied verbatim into the trace)
//     <tokens of one operation>
//     ...
//     end
// Operations marked with "~" are another scenario, which is run before it in the
// same process, unrecorded; those marked with "~~" one that runs beside it in
// another thread.  Neither may make a difference.
// Every scenario runs in its own forked child, which appends one JSON object
// per event to a scratch file.  The parent assembles one line per scenario:
//     {"id":..,"cfg":{..},"ev":[..]}
// An abnormal end of the child adds an event {"e":"crash"} or {"e":"hang"}.
#ifndef VH_HPP
#define VH_HPP
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <cerrno>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace vh
{
using tokens = std::vector<std::string>;

struct scenario
{
    std::string id;
    std::string cfg = "{}";
    std::vector<tokens> lines;
    std::vector<tokens> before, beside;
};

inline std::vector<scenario> read_scenarios(const char* path)
{
    std::ifstream in(path);
    if (!in) { std::cerr << "cannot read " << path << "\n"; std::exit(3); }
    std::vector<scenario> out;
    std::string line;
    while (std::getline(in, line)) {
        if (line.rfind("scenario ", 0) == 0) {
            out.emplace_back();
            out.back().id = line.substr(9);
        } else if (line.rfind("cfg ", 0) == 0) {
            out.back().cfg = line.substr(4);
        } else if (line == "end" || line.empty()) {
        } else {
            tokens t;
            std::istringstream ss(line);
            std::string w;
            while (ss >> w) t.push_back(w);
            if (t.empty()) continue;
            auto& to = t[0] == "~" ? out.back().before : t[0] == "~~" ? out.back().beside : out.back().lines;
            if (t[0] == "~" || t[0] == "~~") t.erase(t.begin());
            to.push_back(t);
        }
    }
    return out;
}

// A name for scratch files that nothing else uses at the same time; a run before this one has used the same.
inline thread_local bool aside = false;
inline std::string distinct() { return std::to_string(::getpid()) + (aside ? "s" : ""); }

// Builder for one flat JSON object.
class obj
{
public:
    explicit obj(const char* e) { s_ = std::string("{\"e\":\"") + e + "\""; }
    obj& s(const char* k, const std::string& v)
    {
        s_ += std::string(",\"") + k + "\":\"";
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { s_ += '\\'; s_ += static_cast<char>(c); }
            else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); s_ += b; }
            else s_ += static_cast<char>(c);
        }
        s_ += "\"";
        return *this;
    }
    obj& i(const char* k, long long v)
    {
        s_ += std::string(",\"") + k + "\":" + std::to_string(v);
        return *this;
    }
    obj& a(const char* k, const std::vector<long long>& v)
    {
        s_ += std::string(",\"") + k + "\":[";
        for (std::size_t n = 0; n < v.size(); ++n) s_ += (n ? "," : "") + std::to_string(v[n]);
        s_ += "]";
        return *this;
    }
    obj& raw(const char* k, const std::string& v)
    {
        s_ += std::string(",\"") + k + "\":" + v;
        return *this;
    }
    std::string str() const { return s_ + "}"; }

private:
    std::string s_;
};

// Totally ordered event log of one scenario (in its child process).  Written
// with O_APPEND so that several processes may share it.
class trace
{
public:
    explicit trace(int fd) : fd_(fd) { } // -1: nothing is kept
    void ev(const obj& o)
    {
        const std::string l = o.str() + "\n";
        std::lock_guard<std::mutex> g(m_);
        put(l);
    }
    // Runs f and logs what it returns while holding the trace lock.
    template<typename F>
    void ev_locked(F f)
    {
        std::lock_guard<std::mutex> g(m_);
        put(f().str() + "\n");
    }

private:
    void put(const std::string& l)
    {
        if (fd_ < 0) return;
        written_ += l.size();
        if (written_ > max_trace) {
            // The run does not end by itself.
            const char o[] = "{\"e\":\"overrun\"}\n";
            if (::write(fd_, o, sizeof o - 1) < 0) _exit(98);
            ::kill(0, SIGKILL);
        }
        std::size_t off = 0;
        while (off < l.size()) {
            const auto n = ::write(fd_, l.data() + off, l.size() - off);
            if (n <= 0) { if (errno == EINTR) continue; _exit(98); }
            off += static_cast<std::size_t>(n);
        }
    }
    static constexpr std::size_t max_trace = 8u << 20;
    int fd_;
    std::size_t written_ = 0;
    std::mutex m_;
};

inline long long num(const std::string& s) { return std::stoll(s); }

// Sentinel for "not a representable token".
constexpr long long BAD = 123456789;

// The values behind tokens: reals that neither a float nor an integer can stand for, and some long texts.
constexpr double ONE = 1 + 1.0 / (1 << 25);
inline double real_of(long long x) { return static_cast<double>(x) * ONE; }
inline long long real_token(double d)
{
    const double n = std::nearbyint(d / ONE);
    return std::isfinite(n) && std::fabs(n) < 1e8 && real_of(static_cast<long long>(n)) == d ? static_cast<long long>(n) : BAD;
}
inline std::string text_of(long long x)
{
    if (x == 0) return {};
    auto s = "s" + std::to_string(x);
    if (x % 5 == 3) s += std::string(static_cast<std::size_t>(20 + x % 7), 'q');
    if (x % 5 == 4) s += " " + std::string(500, 'w') + "x";
    return s;
}
inline long long text_token(std::string_view s)
{
    if (s.empty()) return 0;
    if (s[0] != 's') return BAD;
    try {
        const auto n = std::stoll(std::string(s.substr(1)));
        return text_of(n) == s ? n : BAD;
    } catch (const std::exception&) { return BAD; }
}

using handler = std::function<void(const scenario&, trace&)>;

inline int run(int argc, char** argv, handler h)
{
    if (argc < 3) { std::cerr << "usage: " << argv[0] << " scenarios out [jobs] [timeout_s]\n"; return 3; }
    const auto scen = read_scenarios(argv[1]);
    const int jobs = argc > 3 ? std::atoi(argv[3]) : 4;
    const double timeout = argc > 4 ? std::atof(argv[4]) : 30.0;
    std::ofstream out(argv[2]);
    struct child { pid_t pid; std::size_t k; std::chrono::steady_clock::time_point t0; };
    std::vector<child> live;
    std::vector<std::string> result(scen.size());
    std::size_t next = 0;
    int abnormal = 0; // crashes and hangs: after a few of them no more scenarios are started
    auto file = [&](std::size_t k) { return std::string(argv[2]) + "." + std::to_string(k) + ".tmp"; };
    auto collect = [&](std::size_t k, const std::string& extra) {
        std::ifstream in(file(k));
        std::string line, evs;
        while (std::getline(in, line)) {
            if (line.empty() || line.back() != '}') continue;
            if (!evs.empty()) evs += ",";
            evs += line;
        }
        if (!extra.empty()) { if (!evs.empty()) evs += ","; evs += extra; }
        result[k] = "{\"id\":\"" + scen[k].id + "\",\"cfg\":" + scen[k].cfg + ",\"ev\":[" + evs + "]}";
        ::unlink(file(k).c_str());
    };
    while (next < scen.size() || !live.empty()) {
        if (abnormal >= 4) next = scen.size();
        while (next < scen.size() && static_cast<int>(live.size()) < jobs) {
            const auto k = next++;
            const pid_t pid = ::fork();
            if (pid < 0) { std::perror("fork"); return 3; }
            if (pid == 0) {
                ::setpgid(0, 0);
                struct rlimit mem = {6ull << 30, 6ull << 30};
                ::setrlimit(RLIMIT_AS, &mem);
                const int fd = ::open(file(k).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
                if (fd < 0) _exit(97);
                const int nul = ::open("/dev/null", O_WRONLY);
                if (std::getenv("VH_VERBOSE") == nullptr) { ::dup2(nul, 1); ::dup2(nul, 2); }
                trace tr(fd);
                const auto other = [&](const std::vector<tokens>& lines, const char* mark) {
                    trace mute(-1);
                    scenario o;
                    o.id = scen[k].id + mark;
                    o.lines = lines;
                    try { h(o, mute); } catch (const std::exception&) { }
                };
                std::atomic<bool> over{false};
                std::thread side;
                try {
                    if (!scen[k].before.empty()) other(scen[k].before, "_b");
                    if (!scen[k].beside.empty()) side = std::thread([&] { aside = true; do other(scen[k].beside, "_s"); while (!over); });
                    h(scen[k], tr);
                    over = true;
                    if (side.joinable()) side.join();
                } catch (const std::exception& e) {
                    tr.ev(obj("uncaught").s("what", e.what()));
                    _exit(0);
                }
                _exit(0);
            }
            ::setpgid(pid, pid);
            live.push_back({pid, k, std::chrono::steady_clock::now()});
        }
        int st = 0;
        const pid_t p = ::waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (std::size_t n = 0; n < live.size(); ++n) {
                if (live[n].pid != p) continue;
                std::string extra;
                if (WIFSIGNALED(st)) ++abnormal;
                if (WIFSIGNALED(st)) extra = "{\"e\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}";
                else if (WEXITSTATUS(st) != 0) { std::cerr << "harness child error " << WEXITSTATUS(st) << "\n"; return 3; }
                ::kill(-p, SIGKILL);
                collect(live[n].k, extra);
                live.erase(live.begin() + static_cast<long>(n));
                break;
            }
            continue;
        }
        const auto now = std::chrono::steady_clock::now();
        for (auto& c : live) {
            if (std::chrono::duration<double>(now - c.t0).count() > timeout) {
                ::kill(-c.pid, SIGKILL);
                int s2 = 0;
                ::waitpid(c.pid, &s2, 0);
                collect(c.k, "{\"e\":\"hang\"}");
                ++abnormal;
                c.pid = -1;
            }
        }
        for (std::size_t n = 0; n < live.size();) {
            if (live[n].pid == -1) live.erase(live.begin() + static_cast<long>(n)); else ++n;
        }
        ::usleep(300);
    }
    for (auto& r : result) out << (r.empty() ? "null" : r) << "\n";
    return 0;
}

// Deterministic small random generator (per thread of use).
struct rng
{
    unsigned long long x;
    explicit rng(unsigned long long s) : x(s * 2862933555777941757ULL + 3037000493ULL) { }
    unsigned next(unsigned n)
    {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        return static_cast<unsigned>((x >> 11) % n);
    }
};

} // namespace vh
#endif
