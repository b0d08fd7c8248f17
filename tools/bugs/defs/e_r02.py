TM = "src/cosim/timer.cpp"
BUGS = [
dict(id="R02-window-start", property="R02",
  needs="steps_to_monitor, and a run that begins after a pause",
  breaks="the first rolling average of a run includes time between the runs",
  edits=[(TM, """        startTime_ = Time::now();
        rtStartTime_ = startTime_;
        rtCounter_ = 0L;
""", """        startTime_ = Time::now();
        // The current window goes on if the monitored simulation does.
        if (rtCounter_ == 0L || currentTime != rtLastTime_) rtStartTime_ = startTime_;
        rtCounter_ = 0L;
"""), (TM, """        metrics_->total_average_real_time_factor =""", """        rtLastTime_ = currentSimulationTime;
        metrics_->total_average_real_time_factor ="""), (TM, """    time_point rtSimulationStartTime_;
""", """    time_point rtSimulationStartTime_;
    time_point rtLastTime_;
""")],
  demo=r'''
#include "common.hpp"
#include <chrono>
int main()
{
    auto e = make_execution(0.0, 0.01, 0u);
    e.add_slave(std::make_shared<prog_slave>(), "a");
    auto c = e.get_real_time_config();
    c->real_time_simulation = true;
    c->steps_to_monitor = 4;
    e.simulate_until(at(0.10));
    e.simulate_until(at(0.11)); // one step of an incomplete window
    e.simulate_until(at(0.12));
    std::this_thread::sleep_for(std::chrono::milliseconds(1000));
    e.simulate_until(at(0.20)); // 8 steps; the last window is of 4 after the pause
    const double second = e.get_real_time_metrics()->rolling_average_real_time_factor;
    REQUIRE(second > 0.2);
    e.simulate_until(at(0.22));
    std::this_thread::sleep_for(std::chrono::milliseconds(1000));
    e.simulate_until(at(0.26)); // exactly one window
    const double third = e.get_real_time_metrics()->rolling_average_real_time_factor;
    REQUIRE(third > 0.1);
}
'''),
]
