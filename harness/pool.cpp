// Drives cosim::utility::thread_pool.
#include "vh.hpp"

#include <cosim/utility/thread_pool.hpp>

#include <memory>

using namespace vh;
namespace
{
struct world
{
    trace& t;
    cosim::utility::thread_pool* pool = nullptr;
    std::mutex m;
    std::map<std::thread::id, int> ids;
    std::map<std::thread::id, bool> user;
    int th(bool isUser = false)
    {
        std::lock_guard<std::mutex> g(m);
        const auto me = std::this_thread::get_id();
        if (isUser) user[me] = true;
        const auto it = ids.find(me);
        if (it != ids.end()) return it->second;
        const int n = static_cast<int>(ids.size()) + 1;
        ids[me] = n;
        return n;
    }
    bool is_user() { std::lock_guard<std::mutex> g(m); return user.count(std::this_thread::get_id()) != 0; }
    // tokens: id duration [child duration]*
    void submit(const tokens& l, std::size_t k)
    {
        const long long id = num(l[k]), us = num(l[k + 1]);
        const bool nested = k + 3 < l.size();
        t.ev(obj("sb").i("k", id).i("th", th()));
        pool->submit([this, id, us, nested, l, k] {
            t.ev(obj("ts").i("k", id).i("th", th()).i("w", !is_user()));
            if (us) ::usleep(static_cast<useconds_t>(us));
            if (nested) submit(l, k + 2);
            t.ev(obj("te").i("k", id).i("th", th()));
        });
        t.ev(obj("se").i("k", id));
    }
};
void play(const scenario& sc, trace& t)
{
    world w{t};
    std::map<int, std::vector<tokens>> scripts;
    int workers = 0;
    for (const auto& l : sc.lines) {
        if (l[0] == "pool") workers = static_cast<int>(num(l[1]));
        else scripts[static_cast<int>(num(l[0]))].push_back(l);
    }
    w.pool = new cosim::utility::thread_pool(static_cast<unsigned>(workers));
    t.ev(obj("n").i("n", static_cast<long long>(w.pool->numWorkerThreads())));
    std::atomic<int> waits{0};
    auto exec = [&](const std::vector<tokens>& ls) {
        w.th(true);
        for (const auto& l : ls) {
            if (l[1] == "s") w.submit(l, 2);
            else if (l[1] == "w") {
                const int n = ++waits;
                t.ev(obj("wb").i("w", n));
                w.pool->wait_for_tasks_to_finish();
                t.ev(obj("we").i("w", n));
            } else if (l[1] == "stress") { // rounds, tasks per round
                // Rounds in which everything had ended when the wait returned are only
                // counted; the first one in which it had not is written out as a trace.
                const long long rounds = num(l[2]), k = num(l[3]);
                for (long long r = 0; r < rounds; ++r) {
                    std::atomic<int> done[64] = {};
                    for (long long i = 0; i < k; ++i) w.pool->submit([&done, i, r] {
                        if ((r + i) % 7 == 0) std::this_thread::yield();
                        done[i]++;
                    });
                    w.pool->wait_for_tasks_to_finish();
                    bool ok = true;
                    int seen[64];
                    for (long long i = 0; i < k; ++i) { seen[i] = done[i]; ok = ok && seen[i] == 1; }
                    if (!ok) {
                        for (long long i = 0; i < k; ++i) {
                            t.ev(obj("sb").i("k", 1000 + i).i("th", 1));
                            t.ev(obj("se").i("k", 1000 + i));
                            for (int n = 0; n < seen[i]; ++n) {
                                t.ev(obj("ts").i("k", 1000 + i).i("th", 99).i("w", 1));
                                t.ev(obj("te").i("k", 1000 + i).i("th", 99));
                            }
                        }
                        t.ev(obj("wb").i("w", 1000));
                        t.ev(obj("we").i("w", 1000));
                        _exit(0);
                    }
                }
                t.ev(obj("stress").i("rounds", rounds));
            } else if (l[1] == "y") ::usleep(static_cast<useconds_t>(num(l[2])));
        }
    };
    std::vector<std::thread> ths;
    for (auto& [k, ls] : scripts)
        if (k != 0) ths.emplace_back([&, k] { exec(scripts[k]); });
    exec(scripts[0]);
    for (auto& x : ths) x.join();
    t.ev(obj("db"));
    delete w.pool;
    t.ev(obj("de"));
}
} // namespace
int main(int argc, char** argv) { return run(argc, argv, play); }
