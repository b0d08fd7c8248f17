// Drives cosim::utility::file_lock from threads of several processes.
// Lines:  <thread> <op> ...     issued to that thread; the controller waits until
//                               the call has ended or cannot end now
//         & <thread> <op> ...   the same without waiting
// Threads are numbered from 1; three threads per process.  First line: procs <n> [jitter].
#include "jitter.hpp"
#include "vh.hpp"

#include <cosim/utility/concurrency.hpp>

#include <sys/socket.h>
#include <poll.h>

#include <condition_variable>
#include <deque>
#include <filesystem>
#include <memory>
#include <set>
#include <variant>

using namespace vh;
namespace fs = std::filesystem;
using cosim::utility::file_lock;
using cosim::utility::file_lock_initial_state;
namespace
{
constexpr int TPP = 3;

struct slot
{
    std::unique_ptr<file_lock> l;
    int f = 0;
    char held = 0; // 'X', 'S' or 0
};

void thread_main(int t, int in, int out, const fs::path& dir, trace& tr)
{
    std::map<int, slot> slots;
    std::string buf;
    jit::rng = static_cast<unsigned>(t) * 7919u + 13u;
    auto alias = [&](int f, int a) {
        const std::string n = "f" + std::to_string(f);
        return a == 0 ? dir / n : a == 1 ? dir / "sub" / ".." / n : dir / "link" / n;
    };
    auto ev = [&](const char* e, int f, const char* op, int ok) { tr.ev(obj(e).i("t", t).i("f", f).s("op", op).i("ok", ok)); };
    for (;;) {
        const auto nl = buf.find('\n');
        if (nl == std::string::npos) {
            char b[256];
            const auto n = ::read(in, b, sizeof b);
            if (n <= 0) return;
            buf.append(b, static_cast<std::size_t>(n));
            continue;
        }
        std::istringstream ss(buf.substr(0, nl));
        buf.erase(0, nl + 1);
        std::string op;
        int s = 0, f = 0, a = 0;
        ss >> op >> s >> f >> a;
        auto unlock = [&](slot& x, bool destroy) {
            if (!x.held) { if (destroy) x.l.reset(); return; }
            ev("b", x.f, "u", 1);
            {
                jit::call c;
                if (destroy) x.l.reset();
                else if (x.held == 'X') x.l->unlock();
                else x.l->unlock_shared();
            }
            x.held = 0;
            ev("e", x.f, "u", 1);
        };
        if (op == "new") { // slot file alias
            unlock(slots[s], true);
            slots[s] = slot{std::make_unique<file_lock>(alias(f, a)), f, 0};
        } else if (op == "newX" || op == "newS") {
            unlock(slots[s], true);
            const bool x = op == "newX";
            ev("b", f, x ? "X" : "S", 1);
            jit::call c;
            slots[s] = slot{std::make_unique<file_lock>(alias(f, a), x ? file_lock_initial_state::locked : file_lock_initial_state::locked_shared), f, x ? 'X' : 'S'};
            ev("e", f, x ? "X" : "S", 1);
        } else if (op == "X" || op == "S" || op == "tX" || op == "tS") {
            auto& x = slots[s];
            if (x.l && !x.held) {
                ev("b", x.f, op.c_str(), 1);
                bool ok = true;
                jit::call c;
                if (op == "X") x.l->lock();
                else if (op == "S") x.l->lock_shared();
                else if (op == "tX") ok = x.l->try_lock();
                else ok = x.l->try_lock_shared();
                if (ok) x.held = op.back();
                ev("e", x.f, op.c_str(), ok);
            }
        } else if (op == "u") {
            unlock(slots[s], false);
        } else if (op == "del") {
            unlock(slots[s], true);
        } else if (op == "mv") { // from to (to is empty)
            slots[f].l = slots[s].l ? std::make_unique<file_lock>(std::move(*slots[s].l)) : nullptr;
            slots[f].f = slots[s].f;
            slots[f].held = slots[s].held;
            slots[s] = slot{};
        } else if (op == "y") {
            ::usleep(static_cast<useconds_t>(s));
        } else if (op == "drain") {
            for (auto& [k, x] : slots) unlock(x, true);
        }
        const std::string r = std::to_string(t) + "\n";
        if (::write(out, r.data(), r.size()) < 0) return;
    }
}

void play(const scenario& sc, trace& t)
{
    const fs::path dir = fs::path(std::getenv("VH_SCRATCH")) / ("fl" + std::to_string(::getpid()));
    fs::create_directories(dir / "sub");
    fs::create_directory_symlink(dir, dir / "link");
    const int np = static_cast<int>(num(sc.lines.at(0).at(1)));
    jit::amount = sc.lines.at(0).size() > 2 ? static_cast<int>(num(sc.lines.at(0).at(2))) : 0;
    std::vector<pid_t> pid(static_cast<std::size_t>(np) + 1, 0);
    std::vector<int> to(static_cast<std::size_t>(np * TPP) + 1, -1);
    int reply[2];
    if (::pipe(reply)) throw std::runtime_error("pipe");
    for (int p = 1; p <= np; ++p) {
        int fd[TPP][2];
        for (auto& f : fd) if (::pipe(f)) throw std::runtime_error("pipe");
        pid[static_cast<std::size_t>(p)] = ::fork();
        if (pid[static_cast<std::size_t>(p)] == 0) {
            ::close(reply[0]);
            for (int k = 0; k < TPP; ++k) ::close(fd[k][1]);
            for (int k = 1; k < (p - 1) * TPP + 1; ++k) ::close(to[static_cast<std::size_t>(k)]);
            std::vector<std::thread> ths;
            for (int k = 0; k < TPP; ++k) ths.emplace_back([&, k] { thread_main((p - 1) * TPP + k + 1, fd[k][0], reply[1], dir, t); });
            for (auto& x : ths) x.join();
            _exit(0);
        }
        for (int k = 0; k < TPP; ++k) { ::close(fd[k][0]); to[static_cast<std::size_t>((p - 1) * TPP + k + 1)] = fd[k][1]; }
    }
    // What the controller knows: number of unanswered commands per thread, and what the
    // threads hold or ask for according to the commands that have been answered.
    struct want { char m; int f; bool done; };
    std::map<int, std::deque<tokens>> pending;
    std::map<int, std::map<int, std::pair<int, char>>> held; // thread -> slot -> file, mode
    std::map<int, std::map<int, int>> file;
    std::set<int> dead;
    std::string buf;
    auto answered = [&](int th) {
        const auto c = pending[th].front();
        pending[th].pop_front();
        const auto& op = c[0];
        const int s = c.size() > 1 ? static_cast<int>(num(c[1])) : 0;
        if (op == "new" || op == "newX" || op == "newS") {
            file[th][s] = static_cast<int>(num(c[2]));
            held[th].erase(s);
            if (op != "new") held[th][s] = {file[th][s], op.back()};
        } else if (op == "X" || op == "S") { if (file[th].count(s) && !held[th].count(s)) held[th][s] = {file[th][s], op[0]}; }
        else if (op == "tX" || op == "tS") held[th][s + 1000] = {0, 'X'}; // not known
        else if (op == "u" || op == "del") { held[th].erase(s); held[th].erase(s + 1000); }
        else if (op == "mv") {
            const int d = static_cast<int>(num(c[2]));
            for (int o : {0, 1000}) if (held[th].count(s + o)) { held[th][d + o] = held[th][s + o]; held[th].erase(s + o); }
            file[th][d] = file[th][s];
        } else if (op == "drain") held[th].clear();
    };
    // Reads answers until nothing is pending (for `th`, or at all if 0), or for `ms`
    // without an answer; true if all were answered.
    auto collect = [&](int th, int ms) {
        for (;;) {
            bool open = false;
            for (auto& [k, q] : pending) open = open || (!q.empty() && (th == 0 || k == th));
            if (!open) return true;
            struct pollfd pf = {reply[0], POLLIN, 0};
            if (::poll(&pf, 1, ms) <= 0) return false;
            char b[512];
            const auto n = ::read(reply[0], b, sizeof b);
            if (n <= 0) return false;
            buf.append(b, static_cast<std::size_t>(n));
            for (std::size_t nl; (nl = buf.find('\n')) != std::string::npos; buf.erase(0, nl + 1)) answered(std::stoi(buf.substr(0, nl)));
        }
    };
    // Some pending call must be able to end: nothing that is held stands in its way, and
    // nobody else is waiting in the first place.
    auto must_end = [&] {
        int waiting = 0;
        bool free = true;
        for (auto& [k, q] : pending) {
            if (q.empty()) continue;
            ++waiting;
            const auto& c = q.front();
            const auto& op = c[0];
            char m = 0;
            int f = 0;
            if (op == "newX" || op == "newS") { m = op.back(); f = static_cast<int>(num(c[2])); }
            else if (op == "X" || op == "S") { m = op[0]; f = file[k].count(static_cast<int>(num(c[1]))) ? file[k][static_cast<int>(num(c[1]))] : -1; }
            else return true; // never blocks
            for (auto& [k2, hs] : held)
                for (auto& [s2, h] : hs)
                    if (h.first == 0 || (h.first == f && (h.second == 'X' || m == 'X'))) free = false;
        }
        return waiting == 1 && free;
    };
    auto settle = [&](int th) {
        for (;;) {
            if (collect(th, 12)) return;
            if (!must_end()) return;
            if (collect(th, 10000)) return;
            t.ev(obj("quiet"));
            return;
        }
    };
    for (std::size_t n = 1; n < sc.lines.size(); ++n) {
        auto l = sc.lines[n];
        const bool wait = l[0] != "&";
        if (!wait) l.erase(l.begin());
        if (l[0] == "kill") {
            const int p = static_cast<int>(num(l[1]));
            if (dead.count(p)) continue;
            // no write of an event must be cut off: let calls settle first
            collect(0, 12);
            dead.insert(p);
            t.ev(obj("kb").i("p", p));
            ::kill(pid[static_cast<std::size_t>(p)], SIGKILL);
            ::waitpid(pid[static_cast<std::size_t>(p)], nullptr, 0);
            collect(0, 0);
            t.ev(obj("kill").i("p", p));
            for (int k = 0; k < TPP; ++k) { pending.erase((p - 1) * TPP + k + 1); held.erase((p - 1) * TPP + k + 1); }
            continue;
        }
        const int th = static_cast<int>(num(l[0]));
        if (dead.count((th - 1) / TPP + 1)) continue;
        if (wait && !pending[th].empty()) settle(th);
        std::string line;
        for (std::size_t k = 1; k < l.size(); ++k) line += (k > 1 ? " " : "") + l[k];
        line += "\n";
        pending[th].push_back(tokens(l.begin() + 1, l.end()));
        if (::write(to[static_cast<std::size_t>(th)], line.data(), line.size()) < 0) throw std::runtime_error("write");
        if (wait) settle(th);
    }
    // Everybody lets go; everyone must get through.
    for (int th = 1; th <= np * TPP; ++th) {
        if (dead.count((th - 1) / TPP + 1)) continue;
        pending[th].push_back({"drain"});
        if (::write(to[static_cast<std::size_t>(th)], "drain\n", 6) < 0) throw std::runtime_error("write");
    }
    if (!collect(0, 10000)) t.ev(obj("quiet"));
    for (int p = 1; p <= np; ++p) if (!dead.count(p)) {
        ::kill(pid[static_cast<std::size_t>(p)], SIGKILL);
        ::waitpid(pid[static_cast<std::size_t>(p)], nullptr, 0);
    }
    fs::remove_all(dir);
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
