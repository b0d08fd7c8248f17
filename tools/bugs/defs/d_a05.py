FC = "src/cosim/file_cache.cpp"
TP = "src/cosim/utility/thread_pool.hpp"
BUGS = [
dict(id="A05-shared-buffer", property="A05",
  needs="two simulators with output modifiers that are stepped at the same time by different workers",
  breaks="values computed by one simulator's modifiers appear in another one",
  edits=[("src/cosim/slave_simulator.cpp",
'''        for (std::size_t i = 0; i < originalValues.size(); ++i) {
            if (modifiers[i]) {
                modifiedValues[i] = modifiers[i](originalValues[i], deltaT);
            } else {
                modifiedValues[i] = originalValues[i];
            }
        }
    }
''',
'''        // Values are modified in a buffer whose memory is reused, and published together.
        static boost::container::vector<T> buffer;
        buffer.assign(originalValues.begin(), originalValues.end());
        for (std::size_t i = 0; i < originalValues.size(); ++i) {
            if (modifiers[i]) buffer[i] = modifiers[i](originalValues[i], deltaT);
        }
        std::copy_n(buffer.begin(), std::min(buffer.size(), modifiedValues.size()), modifiedValues.begin());
    }
''')],
  demo=r'''
#include "common.hpp"
#include <atomic>
#include <chrono>
static std::atomic<int> steps{0}, inside{0};
// Lets the modifiers of both simulators overlap.
static double slow(double x)
{
    ++inside;
    for (int k = 0; k < 200 && inside < 2; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
    return x + 0.5;
}
struct man : cosim::manipulator
{
    int last = -1;
    void simulator_added(cosim::simulator_index i, cosim::manipulable* m, cosim::time_point) override
    {
        m->expose_for_getting(cosim::variable_type::real, 10);
        m->expose_for_getting(cosim::variable_type::real, 11);
        m->set_real_output_modifier(11, [i](double x, cosim::duration) { return i < 2 ? slow(x) : x; });
    }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override {}
    void step_commencing(cosim::time_point) override { inside = 0; }
};
int main()
{
    auto e = make_execution(0.0, 1.0, 2u);
    auto a = std::make_shared<prog_slave>(), b = std::make_shared<prog_slave>();
    auto c = std::make_shared<prog_slave>();
    const auto i = e.add_slave(a, "a"), j = e.add_slave(b, "b"), k = e.add_slave(c, "c");
    e.add_manipulator(std::make_shared<man>());
    e.connect_variables(rv(i, 10), rv(k, 0));
    e.connect_variables(rv(j, 10), rv(k, 1));
    e.connect_variables(rv(i, 11), rv(k, 2));
    e.connect_variables(rv(j, 11), rv(k, 3));
    a->onStep = [](prog_slave& s, double t, double) { s.r[10] = 100 + t; s.r[11] = 200 + t; };
    b->onStep = [](prog_slave& s, double t, double) { s.r[10] = 300 + t; s.r[11] = 400 + t; };
    for (int n = 0; n < 6; ++n) e.step();
    for (int n = 1; n < 6; ++n) {
        auto& in = c->atStep[n];
        REQUIRE(in[0] == 99 + n && in[1] == 299 + n && in[2] == 199.5 + n && in[3] == 399.5 + n);
    }
}
'''),
dict(id="T01-batch", property="T01",
  needs="more tasks in the queue than there are workers, and tasks that wait for each other or whose order matters",
  breaks="a task waits for another one that the same worker has claimed, while other workers start later tasks or have nothing to do",
  edits=[(TP, '''                work_queue_.pop();

                lck.unlock();

                // Run work function outside mutex lock context
                task();
''', '''                work_queue_.pop();

                // Take two tasks at a time if there are many, so that the workers don't
                // have to compete for the mutex that often.
                std::function<void()> next;
                if (work_queue_.size() > threads_.size()) {
                    next = std::move(work_queue_.front());
                    work_queue_.pop();
                }

                lck.unlock();

                // Run work function outside mutex lock context
                task();
                if (next) next();
''')],
  demo=r'''
#include "common.hpp"
#include <cosim/utility/thread_pool.hpp>
#include <atomic>
int main()
{
    cosim::utility::thread_pool pool(2);
    std::atomic<bool> go{false};
    std::atomic<int> started{0}, early{0};
    for (int k = 0; k < 2; ++k) pool.submit([&] { while (!go) std::this_thread::yield(); });
    std::atomic<bool> b{false};
    pool.submit([&] {
        // The next task starts in the other worker.
        for (int n = 0; n < 3000 && !b; ++n) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (!b) ++early;
    });
    pool.submit([&] { b = true; });
    for (int k = 0; k < 6; ++k) pool.submit([&] { ++started; });
    go = true;
    pool.wait_for_tasks_to_finish();
    REQUIRE(started == 6 && b && early == 0);
}
'''),
dict(id="F02-empty-key", property="F02",
  needs="a directory with the empty key that is open while cleanup() runs",
  breaks="cleanup looks at another lock file than the directory's users and removes it while it is in use",
  edits=[(FC, '''        auto p = root_;
        p /= percent_encode(key);
        p += ".lock";
        return p;
''', '''        return subdir_path(key).replace_extension(".lock");
''')],
  demo=r'''
#include "common.hpp"
#include <cosim/file_cache.hpp>
#include <cosim/fs_portability.hpp>
#include <cosim/utility/filesystem.hpp>
#include <fstream>
int main()
{
    cosim::utility::temp_dir dir;
    for (const std::string key : {"x", "x.y", "%", ""}) {
        cosim::persistent_file_cache a(dir.path() / "cache"), b(dir.path() / "cache");
        {
            auto d = a.get_directory_rw(key);
            std::ofstream((d->path() / "f").string()) << "1";
            b.cleanup();
            REQUIRE(cosim::filesystem::exists(d->path() / "f"));
        }
        b.cleanup();
        bool gone = false;
        try { b.get_directory_ro(key); } catch (const std::exception&) { gone = true; }
        REQUIRE(gone);
    }
}
'''),
]
