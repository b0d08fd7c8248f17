// Drives cosim::persistent_file_cache from threads of several processes.
// Lines:  procs <n> <jitter>
//         key <index> <hex>
//         <thread> <op> ...     issued to that thread; the controller waits until
//                               the call has ended or cannot end now
//         & <thread> <op> ...   the same without waiting
//         found                 lists the directories, when nothing runs
//         kill <process>
// Threads are numbered from 1; three threads per process.  With jitter, calls that
// operate on files and locks take a random time now and then.
#include "jitter.hpp"
#include "vh.hpp"

#include <cosim/file_cache.hpp>

#include <poll.h>

#include <algorithm>
#include <deque>
#include <filesystem>
#include <memory>
#include <random>
#include <set>

using namespace vh;
namespace fs = std::filesystem;

namespace
{
constexpr int TPP = 3;

struct slot
{
    std::unique_ptr<cosim::file_cache::directory_rw> w;
    std::unique_ptr<cosim::file_cache::directory_ro> r;
    int k = -1;
    long long h = 0;
    fs::path path() const { return w ? w->path() : r->path(); }
};

std::string unhex(const std::string& h)
{
    std::string s;
    if (h == ".") return s;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    return s;
}

void thread_main(int t, int in, int out, const fs::path& dir, const std::map<int, std::string>& keys, trace& tr)
{
    std::map<int, slot> slots;
    std::string buf;
    long long next = t * 100000;
    jit::rng = static_cast<unsigned>(t) * 7919u + 13u;
    cosim::persistent_file_cache cache(t % 2 ? dir / "cache" : dir / "link");
    const auto canon = fs::canonical(dir / "cache");
    for (;;) {
        const auto nl = buf.find('\n');
        if (nl == std::string::npos) {
            char b[256];
            const auto n = ::read(in, b, sizeof b);
            if (n <= 0) return;
            buf.append(b, static_cast<std::size_t>(n));
            continue;
        }
        std::istringstream ss(buf.substr(0, nl));
        buf.erase(0, nl + 1);
        std::string op;
        int s = 0, k = 0;
        ss >> op >> s >> k;
        auto release = [&](slot& x) {
            if (x.k < 0) return;
            tr.ev(obj("rb").i("h", x.h));
            { jit::call c; x.w.reset(); x.r.reset(); }
            tr.ev(obj("re").i("h", x.h));
            x = slot{};
        };
        try {
            if (op == "rw" || op == "ro") {
                auto& x = slots[s];
                release(x);
                tr.ev(obj("ask").i("t", t).i("k", k).s("m", op));
                slot y;
                std::string why;
                bool refused = false;
                try {
                    jit::call c;
                    if (op == "rw") y.w = cache.get_directory_rw(keys.at(k));
                    else y.r = cache.get_directory_ro(keys.at(k));
                } catch (const std::logic_error& e) {
                    refused = true;
                    why = e.what();
                }
                if (refused) {
                    tr.ev(obj("refuse").i("t", t));
                } else {
                    y.k = k;
                    y.h = ++next;
                    const auto p = y.path();
                    const bool ex = fs::is_directory(p);
                    tr.ev(obj("grant").i("t", t).i("h", y.h).i("ex", ex).s("pa", fs::weakly_canonical(p).lexically_relative(canon).string()));
                    x = std::move(y);
                }
            } else if (op == "del") {
                release(slots[s]);
            } else if (op == "mv") { // from to (to is empty)
                if (slots[k].k < 0) { slots[k] = std::move(slots[s]); slots[s] = slot{}; }
            } else if (op == "wr") {
                auto& x = slots[s];
                if (x.w) {
                    tr.ev(obj("wb").i("h", x.h).i("v", k));
                    { std::ofstream f(x.path() / "v"); f << k; }
                    tr.ev(obj("we").i("h", x.h).i("v", k));
                }
            } else if (op == "rd") {
                auto& x = slots[s];
                if (x.k >= 0) {
                    int v = 0;
                    { std::ifstream f(x.path() / "v"); if (!(f >> v)) v = 0; }
                    tr.ev(obj("rd").i("h", x.h).i("v", v).i("ex", fs::is_directory(x.path())));
                }
            } else if (op == "clean") {
                tr.ev(obj("cb").i("t", t));
                { jit::call c; cache.cleanup(); }
                tr.ev(obj("ce").i("t", t));
            } else if (op == "y") {
                ::usleep(static_cast<useconds_t>(s));
            } else if (op == "drain") {
                for (auto& [n, x] : slots) release(x);
            }
        } catch (const std::exception& e) {
            tr.ev(obj("error").i("t", t).s("op", op).s("what", e.what()));
        }
        const std::string r = std::to_string(t) + "\n";
        if (::write(out, r.data(), r.size()) < 0) return;
    }
}

void play(const scenario& sc, trace& t)
{
    const fs::path dir = fs::path(std::getenv("VH_SCRATCH")) / ("fc" + std::to_string(::getpid()));
    fs::create_directories(dir / "cache");
    fs::create_directory_symlink(dir / "cache", dir / "link");
    const int np = static_cast<int>(num(sc.lines.at(0).at(1)));
    jit::amount = static_cast<int>(num(sc.lines.at(0).at(2)));
    std::map<int, std::string> keys;
    for (auto& l : sc.lines) if (l[0] == "key") keys[static_cast<int>(num(l[1]))] = unhex(l[2]);
    std::vector<pid_t> pid(static_cast<std::size_t>(np) + 1, 0);
    std::vector<int> to(static_cast<std::size_t>(np * TPP) + 1, -1);
    int reply[2];
    if (::pipe(reply)) throw std::runtime_error("pipe");
    for (int p = 1; p <= np; ++p) {
        int fd[TPP][2];
        for (auto& f : fd) if (::pipe(f)) throw std::runtime_error("pipe");
        pid[static_cast<std::size_t>(p)] = ::fork();
        if (pid[static_cast<std::size_t>(p)] == 0) {
            ::close(reply[0]);
            for (int k = 0; k < TPP; ++k) ::close(fd[k][1]);
            for (int k = 1; k < (p - 1) * TPP + 1; ++k) ::close(to[static_cast<std::size_t>(k)]);
            std::vector<std::thread> ths;
            for (int k = 0; k < TPP; ++k) ths.emplace_back([&, k] { thread_main((p - 1) * TPP + k + 1, fd[k][0], reply[1], dir, keys, t); });
            for (auto& x : ths) x.join();
            _exit(0);
        }
        for (int k = 0; k < TPP; ++k) { ::close(fd[k][0]); to[static_cast<std::size_t>((p - 1) * TPP + k + 1)] = fd[k][1]; }
    }
    // What the controller knows: unanswered commands per thread, and what the threads may
    // hold according to the commands that have been answered.
    std::map<int, std::deque<tokens>> pending;
    std::map<int, std::map<int, std::pair<int, char>>> held; // thread -> slot -> key, mode
    std::set<int> dead;
    std::string buf;
    auto answered = [&](int th) {
        const auto c = pending[th].front();
        pending[th].pop_front();
        const auto& op = c[0];
        const int s = c.size() > 1 ? static_cast<int>(num(c[1])) : 0;
        if (op == "rw" || op == "ro") held[th][s] = {static_cast<int>(num(c[2])), op[1]}; // if not refused
        else if (op == "del") held[th].erase(s);
        else if (op == "mv") {
            const int d = static_cast<int>(num(c[2]));
            if (held[th].count(s)) { held[th][d] = held[th][s]; held[th].erase(s); }
        } else if (op == "drain") held[th].clear();
    };
    auto collect = [&](int th, int ms) {
        for (;;) {
            bool open = false;
            for (auto& [k, q] : pending) open = open || (!q.empty() && (th == 0 || k == th));
            if (!open) return true;
            struct pollfd pf = {reply[0], POLLIN, 0};
            if (::poll(&pf, 1, ms) <= 0) return false;
            char b[512];
            const auto n = ::read(reply[0], b, sizeof b);
            if (n <= 0) return false;
            buf.append(b, static_cast<std::size_t>(n));
            for (std::size_t nl; (nl = buf.find('\n')) != std::string::npos; buf.erase(0, nl + 1)) answered(std::stoi(buf.substr(0, nl)));
        }
    };
    // Some pending call must be able to end: no one but the caller may hold its key.
    auto must_end = [&] {
        for (auto& [k, q] : pending) {
            if (q.empty()) continue;
            const auto& op = q.front()[0];
            if (op != "rw" && op != "ro") return true;
            const int key = static_cast<int>(num(q.front()[2]));
            bool free = true;
            for (auto& [k2, hs] : held)
                for (auto& [s2, h] : hs)
                    if (h.first == key && (h.second == 'w' || op == "rw") && !(k2 == k && s2 == num(q.front()[1]))) free = false;
            if (free) return true;
        }
        return false;
    };
    auto settle = [&](int th) {
        for (;;) {
            if (collect(th, 25)) return;
            if (!must_end()) return;
            if (collect(th, 10000)) return;
            if (!must_end()) return;
            t.ev(obj("quiet"));
            return;
        }
    };
    auto found = [&] {
        std::vector<std::string> names;
        for (auto& e : fs::recursive_directory_iterator(dir / "cache"))
            if (e.is_directory()) names.push_back(e.path().lexically_relative(dir / "cache").string());
        std::sort(names.begin(), names.end());
        std::string r = "[";
        for (auto& n : names) { const auto o = obj("x").s("n", n).str(); r += (r.size() > 1 ? "," : "") + o.substr(o.find("\"n\":") + 4, o.size() - o.find("\"n\":") - 5); }
        t.ev(obj("found").raw("d", r + "]"));
    };
    for (std::size_t n = 1; n < sc.lines.size(); ++n) {
        auto l = sc.lines[n];
        if (l[0] == "key") continue;
        if (l[0] == "found") {
            if (collect(0, 25)) found();
            continue;
        }
        const bool wait = l[0] != "&";
        if (!wait) l.erase(l.begin());
        if (l[0] == "kill") {
            const int p = static_cast<int>(num(l[1]));
            if (dead.count(p)) continue;
            collect(0, 25);
            dead.insert(p);
            t.ev(obj("kb").i("p", p));
            ::kill(pid[static_cast<std::size_t>(p)], SIGKILL);
            ::waitpid(pid[static_cast<std::size_t>(p)], nullptr, 0);
            collect(0, 0);
            t.ev(obj("kill").i("p", p));
            for (int k = 0; k < TPP; ++k) { pending.erase((p - 1) * TPP + k + 1); held.erase((p - 1) * TPP + k + 1); }
            continue;
        }
        const int th = static_cast<int>(num(l[0]));
        if (dead.count((th - 1) / TPP + 1)) continue;
        if (wait && !pending[th].empty()) settle(th);
        std::string line;
        for (std::size_t k = 1; k < l.size(); ++k) line += (k > 1 ? " " : "") + l[k];
        line += "\n";
        pending[th].push_back(tokens(l.begin() + 1, l.end()));
        if (::write(to[static_cast<std::size_t>(th)], line.data(), line.size()) < 0) throw std::runtime_error("write");
        if (wait) settle(th);
    }
    // Everybody lets go; everyone must get through.
    for (int th = 1; th <= np * TPP; ++th) {
        if (dead.count((th - 1) / TPP + 1)) continue;
        pending[th].push_back({"drain"});
        if (::write(to[static_cast<std::size_t>(th)], "drain\n", 6) < 0) throw std::runtime_error("write");
    }
    if (!collect(0, 10000)) t.ev(obj("stuck"));
    else found();
    for (int p = 1; p <= np; ++p) if (!dead.count(p)) {
        ::kill(pid[static_cast<std::size_t>(p)], SIGKILL);
        ::waitpid(pid[static_cast<std::size_t>(p)], nullptr, 0);
    }
    fs::remove_all(dir);
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
