From fc1a6e2d9a2e72d328034cb9bf3427239c140f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 01/48] fix: refuse to connect an input that already has a
 source of another kind

An input variable could be connected to both a simulator output and a
function output, since each kind of connection was only checked against
its own kind.
---
 src/cosim/execution.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6f6b6bf..4d3d228 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -96,6 +96,7 @@ public:
 
     void connect_variables(variable_id output, variable_id input)
     {
+        require_unconnected(fsConnections_, input);
         connect_variables_impl(ssConnections_, output, input);
     }
 
@@ -106,6 +107,7 @@ public:
 
     void connect_variables(function_io_id output, variable_id input)
     {
+        require_unconnected(ssConnections_, input);
         connect_variables_impl(fsConnections_, output, input);
     }
 
@@ -268,11 +270,19 @@ private:
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
 
+        require_unconnected(connections, input);
+        algorithm_->connect_variables(output, input);
+        connections.emplace(input, output);
+    }
+
+    template<typename OutputID, typename InputID>
+    static void require_unconnected(
+        const std::unordered_map<InputID, OutputID>& connections,
+        InputID input)
+    {
         if (connections.count(input)) {
             throw std::logic_error("Input variable already connected");
         }
-        algorithm_->connect_variables(output, input);
-        connections.emplace(input, output);
     }
 
     void validate_variable(variable_id variable, variable_causality causality)
-- 
2.43.0


From 9482995ea61b544a0706b6c4580426c25f07673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 02/48] fix: check variable types and function variable
 instances when connecting

Connections between variables of different types, and to function
variable instances that do not exist, were accepted and only failed (or
hit an assertion) in the middle of the simulation.
---
 src/cosim/execution.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 4d3d228..b17c7a8 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -269,6 +269,9 @@ private:
     {
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
+        if (output.type != input.type) {
+            throw std::logic_error("Cannot connect variables of different types");
+        }
 
         require_unconnected(connections, input);
         algorithm_->connect_variables(output, input);
@@ -311,6 +314,16 @@ private:
         if (io.causality != causality) {
             throw std::logic_error("Error connecting function variable: Wrong causality");
         }
+        if (std::get<variable_type>(io.type) != variable.type) {
+            throw std::logic_error("Error connecting function variable: Wrong type");
+        }
+        const auto isInstance = [](int instance, const auto& count) {
+            return instance >= 0 && instance < std::get<int>(count);
+        };
+        if (!isInstance(variable.reference.group_instance, group.count) ||
+            !isInstance(variable.reference.io_instance, io.count)) {
+            throw std::out_of_range("Error connecting function variable: No such instance");
+        }
     }
 
     static bool timed_out(std::optional<time_point> endTime, time_point currentTime, duration stepSize)
-- 
2.43.0


From ec036fb4bf98e233d30d4a81247ae3aa69fe0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 03/48] fix: leave the running state when simulate_until ends
 by an exception

is_running() kept returning true after simulate_until() had thrown.
---
 src/cosim/execution.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index b17c7a8..05b29e7 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -10,6 +10,8 @@
 #include "cosim/slave_simulator.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <gsl/util>
+
 #include <algorithm>
 #include <atomic>
 #include <sstream>
@@ -148,15 +150,14 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
+        const auto setStopped = gsl::finally([this] { stopped_ = true; });
         timer_.start(currentTime_);
         duration stepSize;
         do {
             stepSize = step();
             timer_.sleep(currentTime_);
         } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
-        bool isStopped = stopped_;
-        stopped_ = true;
-        return !isStopped;
+        return !stopped_;
     }
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
-- 
2.43.0


From 74828a5e4fbb7252e409d01a26b577bbbabd9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 04/48] fix: report failures during initialization as errors

An exception from a slave in setup, initialisation or start ended the
process when it was thrown in a worker thread, and left the other slaves'
calls running when it was not.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 48 ++++++++++++--------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d59ae4e..8763796 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -151,32 +151,19 @@ public:
 
     void initialize()
     {
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->setup(startTime_, stopTime_, std::nullopt);
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_all_simulators([this](simulator& s) {
+            s.setup(startTime_, stopTime_, std::nullopt);
+        });
 
         // Run N iterations of the simulators' and functions' step/calculation
         // procedures, where N is the number of simulators in the system,
         // to propagate initial values.
         for (std::size_t i = 0; i < simulators_.size() + functions_.size(); ++i) {
-            for (auto& s : simulators_) {
-                pool_.submit([&] {
-                    s.second.sim->do_iteration();
-                });
-            }
-            pool_.wait_for_tasks_to_finish();
+            for_all_simulators([](simulator& s) { s.do_iteration(); });
             calculate_and_transfer();
         }
 
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->start_simulation();
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_all_simulators([](simulator& s) { s.start_simulation(); });
         calculate_and_transfer();
     }
 
@@ -273,6 +260,31 @@ private:
         std::vector<connection_fs> outgoingSimConnections;
     };
 
+    // Performs an action on all simulators in parallel and waits until they
+    // are all done.  Throws if the action failed for any of them.
+    template<typename F>
+    void for_all_simulators(F action)
+    {
+        std::mutex m;
+        bool failed = false;
+        std::stringstream errMessages;
+        for (auto& s : simulators_) {
+            pool_.submit([&] {
+                try {
+                    action(*s.second.sim);
+                } catch (const std::exception& ex) {
+                    std::lock_guard<std::mutex> lck(m);
+                    errMessages << s.second.sim->name() << ": " << ex.what() << '\n';
+                    failed = true;
+                }
+            });
+        }
+        pool_.wait_for_tasks_to_finish();
+        if (failed) {
+            throw error(make_error_code(errc::simulation_error), errMessages.str());
+        }
+    }
+
     void disconnect_simulator_variables(simulator_index i)
     {
         for (auto& s : simulators_) {
-- 
2.43.0


From f3fb46d1c6c254c4da781c815d49513049a57e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 05/48] fix: disconnect input variables from functions too

disconnect_variable() only considered connections from other simulators.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 8763796..57a4dda 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -124,6 +124,17 @@ public:
                 return;
             }
         }
+        for (auto& f : functions_) {
+            auto& conns = f.second.outgoingSimConnections;
+            const auto it = std::find_if(
+                conns.begin(),
+                conns.end(),
+                [input](const auto& c) { return c.target == input; });
+            if (it != conns.end()) {
+                conns.erase(it);
+                return;
+            }
+        }
     }
 
     void disconnect_variable(function_io_id input)
-- 
2.43.0


From 5d5ab91a23a45ca2991b9227a42606d5daf4f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 06/48] fix: keep function decimation factors up to date

The rate at which a function is calculated follows from the step sizes of
the simulators it is connected to, but it was not updated when a step size
was changed or a connection was removed, so values were transferred to
simulators at the wrong time.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 57a4dda..2f244a9 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -132,6 +132,7 @@ public:
                 [input](const auto& c) { return c.target == input; });
             if (it != conns.end()) {
                 conns.erase(it);
+                update_function_decimation_factor(f.second);
                 return;
             }
         }
@@ -233,6 +234,9 @@ public:
     {
         COSIM_INPUT_CHECK(factor > 0);
         simulators_.at(i).decimationFactor = factor;
+        for (auto& f : functions_) {
+            update_function_decimation_factor(f.second);
+        }
     }
 
 
@@ -313,6 +317,7 @@ private:
                 connections.end(),
                 [i](const auto& c) { return c.target.simulator == i; });
             connections.erase(newEnd, connections.end());
+            update_function_decimation_factor(f.second);
         }
     }
 
-- 
2.43.0


From b48dc726d9fb4dfb34f0668fd709720766455f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 07/48] fix: wake every thread that waits for the thread pool

Only one of several threads in wait_for_tasks_to_finish() was woken when
the last task ended; the others waited forever.
---
 src/cosim/utility/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/thread_pool.hpp b/src/cosim/utility/thread_pool.hpp
index 6765b03..2e6b9fd 100644
--- a/src/cosim/utility/thread_pool.hpp
+++ b/src/cosim/utility/thread_pool.hpp
@@ -54,7 +54,7 @@ private:
                 lck.lock();
                 pending_tasks_--;
                 lck.unlock();
-                cv_finished_.notify_one();
+                cv_finished_.notify_all();
             } else if (done_)
                 break;
         }
-- 
2.43.0


From 255191e3cb2917071f1e155fe0bddd657130515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 08/48] fix: apply scenario events in time order and undo a
 replaced scenario

---
 src/cosim/manipulator/scenario_manager.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 467dbb1..fb18369 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -11,6 +11,8 @@
 #include "cosim/scenario_parser.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <algorithm>
+#include <map>
 
 namespace cosim
 {
@@ -30,11 +32,20 @@ public:
 
     void load_scenario(const scenario::scenario& s, time_point currentTime)
     {
+        if (state.running) {
+            cleanup(state.executedEvents);
+        }
         state = scenario_state{};
         state.startTime = currentTime;
         state.endTime = s.end;
 
-        for (const auto& event : s.events) {
+        // Events are numbered, and later executed, in order of time.
+        auto events = s.events;
+        std::stable_sort(
+            events.begin(),
+            events.end(),
+            [](const auto& a, const auto& b) { return a.time < b.time; });
+        for (const auto& event : events) {
             const auto index = static_cast<int>(state.remainingEvents.size());
             state.remainingEvents[index] = event;
         }
@@ -67,6 +78,7 @@ public:
                 << ", performing cleanup";
             state.running = false;
             cleanup(state.executedEvents);
+            state.executedEvents.clear();
             return;
         }
 
@@ -110,8 +122,8 @@ public:
 private:
     struct scenario_state
     {
-        std::unordered_map<int, scenario::event> remainingEvents;
-        std::unordered_map<int, scenario::event> executedEvents;
+        std::map<int, scenario::event> remainingEvents;
+        std::map<int, scenario::event> executedEvents;
         time_point startTime;
         std::optional<time_point> endTime;
         bool running = false;
@@ -211,7 +223,7 @@ private:
             a.modifier);
     }
 
-    void cleanup(const std::unordered_map<int, scenario::event>& executedEvents)
+    void cleanup(const std::map<int, scenario::event>& executedEvents)
     {
         for (const auto& entry : executedEvents) {
             auto e = entry.second;
-- 
2.43.0


From 7fe458eb799a6b51efe5c46617c8c1b31888688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 09/48] fix: refuse scenario events for unknown variables

---
 src/cosim/scenario_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 6306429..4001157 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -215,8 +215,15 @@ scenario::scenario parse_scenario(
             find_simulator(simulators, specified_or_default(event, "model", defaultOpts.model));
         auto varName =
             specified_or_default(event, "variable", defaultOpts.variable);
-        const auto var =
-            *find_variable(simulator->model_description(), varName);
+        const auto foundVar =
+            find_variable(simulator->model_description(), varName);
+        if (!foundVar) {
+            std::ostringstream oss;
+            oss << "Can't find variable with name: " << varName
+                << " in model with name: " << simulator->name();
+            throw std::invalid_argument(oss.str());
+        }
+        const auto& var = *foundVar;
 
         auto mode = specified_or_default(event, "action", defaultOpts.action);
         bool isInput = is_input(var.causality);
-- 
2.43.0


From 4f544f105c45face8ead1615f77e76abb5fe01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 10/48] fix: refuse references to a wrong kind of entity or to
 a missing instance

connect_variables() and the variable lookups reported a simulator used as a
function, or the other way around, with std::logic_error instead of the
documented cosim::error, and accepted instance numbers outside the described
counts, which failed only when the structure was injected.
---
 src/cosim/system_structure.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 4e285c6..b462fde 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -210,7 +210,9 @@ const variable_description& system_structure::get_variable_description(
     }
     const auto model = entity_type_to<cosim::model>(sit->second.type);
     if (!model) {
-        throw std::logic_error("Not a simulator: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a simulator: " + to_text(v));
     }
     const auto& modelInfo = modelCache_.at(model->description()->uuid);
     const auto vit = modelInfo.variables.find(v.variable_name);
@@ -235,7 +237,9 @@ system_structure::get_function_io_description(
     }
     const auto functionType = entity_type_to<function_type>(fit->second.type);
     if (!functionType) {
-        throw std::logic_error("Not a function: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a function: " + to_text(v));
     }
     const auto& functionInfo = functionCache_.at(v.entity_name);
     const auto git = functionInfo.ios.find(v.variable_group_name);
@@ -250,6 +254,17 @@ system_structure::get_function_io_description(
             make_error_code(errc::invalid_system_structure),
             "No such variable: " + to_text(v));
     }
+    const auto& group =
+        functionInfo.description.io_groups[vit->second.group_index];
+    const auto& io = group.ios[vit->second.io_index];
+    if (v.variable_group_instance < 0 ||
+        v.variable_group_instance >= std::get<int>(group.count) ||
+        v.variable_instance < 0 ||
+        v.variable_instance >= std::get<int>(io.count)) {
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "No such variable instance: " + to_text(v));
+    }
     return vit->second;
 }
 
-- 
2.43.0


From deaba2798739831d272f899ab12a820562d3e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 11/48] fix: check every given function parameter value against
 its description

Only the parameters that a placeholder refers to were checked, so for example
an integer given for the factor of a linear transformation was accepted by
system_structure and failed when the structure was injected.
---
 src/cosim/function/utility.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cosim/function/utility.cpp b/src/cosim/function/utility.cpp
index 2dc0fd8..38b847c 100644
--- a/src/cosim/function/utility.cpp
+++ b/src/cosim/function/utility.cpp
@@ -72,6 +72,23 @@ private:
     const function_parameter_value_map& parameterValues_;
     const std::vector<function_parameter_description>& parameterDescriptions_;
 };
+
+void check_parameter_value(
+    const function_parameter_value& value,
+    const function_parameter_description& description)
+{
+    if (value.index() != description.default_value.index()) {
+        throw std::logic_error(
+            "Parameter '" + description.name + "': Illegal value type");
+    }
+    // Bounds only make sense for numeric parameters.
+    if (std::holds_alternative<variable_type>(value)) return;
+    if ((description.min_value && value < *description.min_value) ||
+        (description.max_value && value > *description.max_value)) {
+        throw std::domain_error(
+            "Parameter '" + description.name + "' is out of bounds");
+    }
+}
 } // namespace
 
 
@@ -79,6 +96,13 @@ function_description substitute_function_parameters(
     const function_type_description& functionTypeDescription,
     const function_parameter_value_map& parameterValues)
 {
+    for (std::size_t i = 0; i < functionTypeDescription.parameters.size(); ++i) {
+        const auto value = parameterValues.find(static_cast<int>(i));
+        if (value != parameterValues.end()) {
+            check_parameter_value(
+                value->second, functionTypeDescription.parameters[i]);
+        }
+    }
     auto functionDescription = function_description(functionTypeDescription);
     for (auto& group : functionDescription.io_groups) {
         group.count = std::visit(
-- 
2.43.0


From b8b0b3647ecfc266e7bccfb02bdf3d8bceee54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 12/48] fix: let an execution connect calculated parameters as
 sources

system_structure and the OSP configuration loader accept a calculated
parameter as the source of a connection, but injecting such a structure
failed because the execution only looked for outputs.
---
 src/cosim/execution.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 05b29e7..3cf8151 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -289,13 +289,21 @@ private:
         }
     }
 
+    // Calculated parameters may be the source of a connection, like outputs.
+    static bool has_role(variable_causality actual, variable_causality role)
+    {
+        return actual == role ||
+            (role == variable_causality::output &&
+                actual == variable_causality::calculated_parameter);
+    }
+
     void validate_variable(variable_id variable, variable_causality causality)
     {
         const auto variables = simulators_.at(variable.simulator)->model_description().variables;
         const auto it = std::find_if(
             variables.begin(),
             variables.end(),
-            [=](const auto& var) { return var.causality == causality && var.type == variable.type && var.reference == variable.reference; });
+            [=](const auto& var) { return has_role(var.causality, causality) && var.type == variable.type && var.reference == variable.reference; });
         if (it == variables.end()) {
             std::ostringstream oss;
             oss << "Problem adding connection: Cannot find variable with reference " << variable.reference
-- 
2.43.0


From 1d8ab9c2fe5b6d6b0427a7588854f69c363e5d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 13/48] fix: check the query, not the path, when composing a
 URI

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index a2889d8..1da15dd 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -186,7 +186,7 @@ uri::uri(
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
-    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, path));
+    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
         (scheme ? scheme->size() + 1 : 0) +
         (authority ? authority->size() + 2 : 0) +
-- 
2.43.0


From fd00326daf3d8ff8645d605d252a2ca1de90cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 14/48] fix: remove only the last segment for '..' after an
 empty segment

---
 src/cosim/uri.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index 1da15dd..c119ac9 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -309,10 +309,9 @@ std::string_view remove_dot_segments(
     outputBuffer.clear();
 
     const auto removeLastOutputSegment = [&] {
-        if (outputBuffer.empty()) return;
-        outputBuffer.pop_back();
-        while (!outputBuffer.empty() && outputBuffer.back() != '/') outputBuffer.pop_back();
-        if (!outputBuffer.empty()) outputBuffer.pop_back();
+        // The last segment may be empty.
+        const auto lastSlash = outputBuffer.find_last_of('/');
+        outputBuffer.erase(lastSlash == std::string::npos ? 0 : lastSlash);
     };
 
     while (!inputBuffer.empty()) {
-- 
2.43.0


From acb3dc090d1aa70bcb2fb08749c678028de103a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 15/48] fix: decode strings whose rest is shorter than an
 escape sequence

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index c119ac9..9754ef1 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -458,7 +458,7 @@ std::string percent_decode(std::string_view encoded)
     std::string decoded;
     while (!encoded.empty()) {
         const auto i = encoded.find('%');
-        if (i > encoded.size() - 3) {
+        if (i == std::string_view::npos || encoded.size() - i < 3) {
             decoded += encoded;
             encoded.remove_prefix(encoded.size());
         } else {
-- 
2.43.0


From 258245f2bc9b86282c63ec4a8bf64c6164b5015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 16/48] fix: give every key of a temporary file cache a
 directory of its own

Keys such as '..' or the empty string named the parent of the cache
directory or the cache directory itself.
---
 src/cosim/file_cache.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 36f5247..b50b0cf 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -84,7 +84,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
         cosim::filesystem::create_directories(path);
 
         auto ownership = std::make_shared<dummy>();
@@ -99,7 +99,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
 
         auto ownership = std::make_shared<dummy>();
         owns.ro = ownership;
@@ -113,6 +113,12 @@ private:
         std::weak_ptr<dummy> ro;
     };
 
+    cosim::filesystem::path subdir_path(std::string_view key) const
+    {
+        // The suffix prevents special names, such as "..".
+        return root_->path() / (percent_encode(key) + ".data");
+    }
+
     subdirectory_ownership& get_ownership(const std::string& key, bool create)
     {
         auto it = ownerships_.find(key);
-- 
2.43.0


From 8c0d18ed625ed154f7f35267e29433702c1c3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 17/48] fix: keep track of all read-only handles of a temporary
 file cache

A second read-only request forgot the first one, so that read-write
access was granted while the first handle was still alive.
---
 src/cosim/file_cache.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index b50b0cf..d1849c6 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -101,8 +101,13 @@ public:
         }
         const auto path = subdir_path(key);
 
-        auto ownership = std::make_shared<dummy>();
-        owns.ro = ownership;
+        // All read-only handles share ownership, so that it lasts as long as
+        // any one of them.
+        auto ownership = owns.ro.lock();
+        if (!ownership) {
+            ownership = std::make_shared<dummy>();
+            owns.ro = ownership;
+        }
         return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
     }
 
-- 
2.43.0


From 4922fb609caafa49f2c3627d532b6c076ec93fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 18/48] fix: refuse archive entries that refer to a parent
 directory

Such entries could be written outside of the target directory.
---
 src/cosim/utility/zip.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 0e156ee..56149e0 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -7,6 +7,7 @@
 
 #include <zip.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cerrno>
 #include <cstring>
@@ -256,6 +257,10 @@ void archive::extract_all(
                 throw error(
                     "Archive contains an entry with an absolute path: " + entryName);
             }
+            if (std::find(entryPath.begin(), entryPath.end(), "..") != entryPath.end()) {
+                throw error(
+                    "Archive contains an entry that refers to a parent directory: " + entryName);
+            }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
                 cosim::filesystem::create_directories(targetPath);
-- 
2.43.0


From 81592a3b298a56f9c60ecf2e23d70a233f214374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 19/48] fix: report errors when closing an extracted file

What was still buffered was lost without notice if it could not be
written when the file was closed.
---
 src/cosim/utility/zip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 56149e0..b53e9c1 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -227,6 +227,7 @@ void extract_file_as(
             targetPath.string());
     }
     copy_to_stream(srcFile, tgtFile, buffer);
+    tgtFile.close();
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
-- 
2.43.0


From a354b16f09e6cdaee580f15cda4aabe02ec3d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 20/48] fix: do not wait in try_lock_shared for another thread
 that waits for the file

A thread in lock_shared() holds the mutex of the share count while it
waits for another process to unlock the file.
---
 src/cosim/utility/concurrency.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c55d14a..8db6b7d 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -203,7 +203,10 @@ void file_lock::boost_wrapper::lock_shared()
 
 bool file_lock::boost_wrapper::try_lock_shared()
 {
-    std::lock_guard<std::mutex> countLock(shareCountMutex_);
+    // Another thread may hold shareCountMutex_ while it waits for the file lock
+    // in lock_shared(), so we cannot wait for it here.
+    std::unique_lock<std::mutex> countLock(shareCountMutex_, std::try_to_lock);
+    if (!countLock.owns_lock()) return false;
     assert(shareCount_ >= 0);
     if (shareCount_ == 0) {
         if (!fileLock_.try_lock_sharable()) return false;
-- 
2.43.0


From d6d4a671265371d8e1845224b79da23ed3687cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 21/48] fix: do not keep the root lock while waiting for a
 cache directory

A thread or process that waited for a subdirectory of a persistent cache kept
everybody else out of the whole cache.  If the holder of that subdirectory then
asked for another one, both waited forever or got a deadlock error.
---
 src/cosim/file_cache.cpp | 54 ++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index d1849c6..cc82c57 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -10,8 +10,10 @@
 #include "cosim/utility/concurrency.hpp"
 #include "cosim/utility/filesystem.hpp"
 
+#include <chrono>
 #include <stdexcept>
 #include <string>
+#include <thread>
 #include <unordered_map>
 
 
@@ -204,35 +206,43 @@ public:
 
     std::unique_ptr<directory_rw> get_directory_rw(std::string_view key)
     {
-        auto rootLock = utility::file_lock(
-            root_lock_file_path(),
-            utility::file_lock_initial_state::locked);
+        for (;; std::this_thread::sleep_for(retryInterval)) {
+            auto rootLock = utility::file_lock(
+                root_lock_file_path(),
+                utility::file_lock_initial_state::locked);
 
-        const auto path = subdir_path(key);
-        auto lock = utility::file_lock(
-            subdir_lock_file_path(key),
-            utility::file_lock_initial_state::locked);
+            const auto path = subdir_path(key);
+            auto lock = utility::file_lock(subdir_lock_file_path(key));
 
-        cosim::filesystem::create_directories(path);
-        return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+            // We must not hold the root lock while waiting for somebody to
+            // release the subdirectory, since they may need the former to get
+            // that far.
+            if (!lock.try_lock()) continue;
+
+            cosim::filesystem::create_directories(path);
+            return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+        }
     }
 
     std::unique_ptr<directory_ro> get_directory_ro(std::string_view key)
     {
-        auto rootLock = utility::file_lock(
-            root_lock_file_path(),
-            utility::file_lock_initial_state::locked_shared);
+        for (;; std::this_thread::sleep_for(retryInterval)) {
+            auto rootLock = utility::file_lock(
+                root_lock_file_path(),
+                utility::file_lock_initial_state::locked_shared);
 
-        const auto path = subdir_path(key);
-        auto lock = utility::file_lock(
-            subdir_lock_file_path(key),
-            utility::file_lock_initial_state::locked_shared);
+            const auto path = subdir_path(key);
+            auto lock = utility::file_lock(subdir_lock_file_path(key));
 
-        if (cosim::filesystem::exists(path)) {
-            return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
-        } else {
-            throw std::logic_error(
-                "Invalid cache subdirectory key: " + std::string(key));
+            // See note in get_directory_rw() above.
+            if (!lock.try_lock_shared()) continue;
+
+            if (cosim::filesystem::exists(path)) {
+                return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+            } else {
+                throw std::logic_error(
+                    "Invalid cache subdirectory key: " + std::string(key));
+            }
         }
     }
 
@@ -301,6 +311,8 @@ private:
         return p;
     }
 
+    static constexpr auto retryInterval = std::chrono::milliseconds(10);
+
     cosim::filesystem::path root_;
 };
 
-- 
2.43.0


From 6d16a5fc809125eea330423641d3ede42455c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 22/48] fix: recognise lock files by identity and not by path

If a lock file was deleted by another process or thread (as cache clean-up
does) while a lock object for it was still alive, creating any other lock threw
an exception, and if it had been created anew, the process went on to use
the deleted file.
---
 src/cosim/utility/concurrency.cpp | 49 +++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 8db6b7d..3728cb5 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -14,6 +14,8 @@
 #else
 #    include <cerrno>
 #    include <fcntl.h>
+#    include <sys/stat.h>
+#    include <utility>
 #endif
 
 
@@ -230,12 +232,53 @@ file_lock::file_mutex::file_mutex(const cosim::filesystem::path& path)
 { }
 
 
+namespace
+{
+#ifdef _WIN32
+using file_id = cosim::filesystem::path;
+
+file_id get_file_id(const cosim::filesystem::path& path)
+{
+    return cosim::filesystem::canonical(path);
+}
+
+bool is_same_file(const cosim::filesystem::path& path, const file_id& id)
+{
+    std::error_code ec;
+    return cosim::filesystem::equivalent(path, id, ec);
+}
+#else
+// Here, a file may be deleted, and another one be created in its place, while
+// it is kept open.  Its path is therefore not sufficient to recognise it.
+using file_id = std::pair<dev_t, ino_t>;
+
+file_id get_file_id(const cosim::filesystem::path& path)
+{
+    struct stat s;
+    if (stat(path.c_str(), &s) != 0) {
+        throw std::system_error(
+            errno,
+            std::system_category(),
+            "Failed to access lock file '" + path.string() + "'");
+    }
+    return {s.st_dev, s.st_ino};
+}
+
+bool is_same_file(const cosim::filesystem::path& path, const file_id& id)
+{
+    struct stat s;
+    return stat(path.c_str(), &s) == 0 && file_id(s.st_dev, s.st_ino) == id;
+}
+#endif
+} // namespace
+
+
 std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     const cosim::filesystem::path& path)
 {
     struct file_mutex_cache_entry
     {
-        cosim::filesystem::path path;
+        file_id id;
         std::weak_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
@@ -250,7 +293,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     if (cosim::filesystem::exists(path)) {
         for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
             if (auto fm = it->fileMutex.lock()) {
-                if (cosim::filesystem::equivalent(path, it->path)) {
+                if (is_same_file(path, it->id)) {
                     assert(!fileMutex);
                     fileMutex = std::move(fm);
                 }
@@ -264,7 +307,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // If no element corresponding to the given path was found, create one.
     if (!fileMutex) {
         fileMutex = std::make_shared<file_mutex>(path);
-        fileMutexCache.push_back({cosim::filesystem::canonical(path), fileMutex});
+        fileMutexCache.push_back({get_file_id(path), fileMutex});
     }
 
     return fileMutex;
-- 
2.43.0


From de64c1ce34f176fade75a3c995ad7e94051fff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 23/48] fix: do not close a lock file while it is being locked
 anew

Where closing a file releases the locks of the whole process (POSIX), a thread
that destroyed the last lock object for a file could silently release the lock
which another thread had just acquired through a new object.
---
 src/cosim/utility/concurrency.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 3728cb5..89ac036 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -310,7 +310,16 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
         fileMutexCache.push_back({get_file_id(path), fileMutex});
     }
 
-    return fileMutex;
+    // On some platforms, closing a file releases all locks which the process
+    // holds on it.  We must therefore ensure that a file_mutex object is never
+    // destroyed while another one is being created for the same file.
+    const auto ptr = fileMutex.get();
+    return std::shared_ptr<file_mutex>(
+        ptr,
+        [fm = std::move(fileMutex)](file_mutex*) mutable {
+            std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
+            fm.reset();
+        });
 }
 
 
-- 
2.43.0


From c0bd25c529b92f07509d89fbc502594abca3f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 24/48] fix: clean up the cache directory of the empty key

---
 src/cosim/file_cache.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index cc82c57..23d77d8 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -256,11 +256,11 @@ public:
              it != cosim::filesystem::directory_iterator();
              ++it) {
             if (cosim::filesystem::is_directory(*it) &&
-                it->path().extension() == ".data") {
+                has_suffix(it->path(), ".data")) {
 
                 // Remove non-locked subdirectories and their lock files
-                auto subdirLockFilePath = it->path();
-                subdirLockFilePath.replace_extension(".lock");
+                const auto subdirLockFilePath =
+                    replace_suffix(it->path(), ".data", ".lock");
                 auto subdirLock = utility::file_lock(
                     subdirLockFilePath,
                     utility::file_lock_initial_state::not_locked);
@@ -270,7 +270,7 @@ public:
                 cosim::filesystem::remove_all(*it, ignoredError);
                 cosim::filesystem::remove(subdirLockFilePath);
             } else if (cosim::filesystem::is_regular_file(*it) &&
-                it->path().extension() == ".lock") {
+                has_suffix(it->path(), ".lock")) {
 
                 // Remove lock files left over by get_directory_ro() for
                 // nonexistent subdirectories.
@@ -279,8 +279,8 @@ public:
                     utility::file_lock_initial_state::not_locked);
                 if (!subdirLock.try_lock()) continue;
 
-                auto subdirPath = it->path();
-                subdirPath.replace_extension(".data");
+                const auto subdirPath =
+                    replace_suffix(it->path(), ".lock", ".data");
                 if (!cosim::filesystem::exists(subdirPath)) {
                     std::error_code ignoredError;
                     cosim::filesystem::remove(*it, ignoredError);
@@ -290,6 +290,26 @@ public:
     }
 
 private:
+    // The following two are used rather than path::extension() and
+    // path::replace_extension(), because those don't recognise the extension
+    // if it is all there is, as is the case if the key is empty.
+    static bool has_suffix(const cosim::filesystem::path& path, std::string_view suffix)
+    {
+        const auto name = path.filename().string();
+        return name.size() >= suffix.size() &&
+            name.compare(name.size() - suffix.size(), suffix.size(), suffix) == 0;
+    }
+
+    static cosim::filesystem::path replace_suffix(
+        const cosim::filesystem::path& path,
+        std::string_view from,
+        std::string_view to)
+    {
+        auto name = path.filename().string();
+        name.replace(name.size() - from.size(), from.size(), to);
+        return path.parent_path() / name;
+    }
+
     cosim::filesystem::path root_lock_file_path() const
     {
         return root_ / "lock";
-- 
2.43.0


From 2c6b9dae61a20a56d6f0cc1c1ba62e90276b8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 25/48] fix: resolve absolute model URIs against relative base
 URIs

model_uri_resolver::lookup_model() requires only one of the URIs to be
absolute, but the default implementation in the sub-resolvers failed
unless the base URI was.
---
 src/cosim/orchestration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/orchestration.cpp b/src/cosim/orchestration.cpp
index c5afea9..7d5fb51 100644
--- a/src/cosim/orchestration.cpp
+++ b/src/cosim/orchestration.cpp
@@ -26,7 +26,10 @@ std::shared_ptr<model> model_uri_sub_resolver::lookup_model(
     const uri& baseUri,
     const uri& modelUriReference)
 {
-    return lookup_model(resolve_reference(baseUri, modelUriReference));
+    // An absolute URI is resolved independently of the base URI, so we don't
+    // require that the latter be absolute too in this case.
+    const auto& base = baseUri.scheme() ? baseUri : modelUriReference;
+    return lookup_model(resolve_reference(base, modelUriReference));
 }
 
 
-- 
2.43.0


From d59cf7a3aed8515dd6d3842e053188dbdc0739fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 26/48] fix: look up variable groups where they are referred to

Connections between two variable groups that do not exist were silently
accepted, groups nested more than one level deep were left unconnected,
and a nested group could be mixed up with another one of the same name.
---
 src/cosim/osp_config_parser.cpp | 163 ++++++++++++++------------------
 1 file changed, 72 insertions(+), 91 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b909f96..bc71559 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -632,8 +632,7 @@ struct extended_model_description
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
-            variable_group_description vgd = create_variable_group_description(variableGroupElement);
-            variableGroups[vgd.name] = std::move(vgd);
+            variableGroups.push_back(create_variable_group_description(variableGroupElement));
         }
     }
 
@@ -657,7 +656,7 @@ struct extended_model_description
         return variableGroupDescription;
     }
 
-    std::unordered_map<std::string, variable_group_description> variableGroups;
+    std::vector<variable_group_description> variableGroups;
 };
 
 namespace
@@ -705,111 +704,95 @@ void connect_variables(
     }
 }
 
-extended_model_description get_emd(
-    const std::unordered_map<std::string, extended_model_description>& emds,
-    const std::string& element)
+// Finds a variable group by name, first among the given groups and then, if
+// there is none, among the groups nested inside them.
+const variable_group_description* find_variable_group(
+    const std::vector<variable_group_description>& descriptions,
+    const std::string& name)
 {
-    auto emdIt = emds.find(element);
-    if (emdIt == emds.end()) {
-        std::ostringstream oss;
-        oss << "Cannot find extended model description for " << element;
-        throw std::out_of_range(oss.str());
+    for (const auto& description : descriptions) {
+        if (description.name == name) return &description;
     }
-    return emdIt->second;
-}
-
-std::vector<std::string> get_variable_group_variables(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const osp_config_parser::VariableEndpoint& endpoint)
-{
-    std::vector<std::string> groupVariables;
-    auto groupIt = descriptions.find(endpoint.name);
-    if (groupIt == descriptions.end()) {
-        for (const auto& description : descriptions) {
-            if (description.second.variable_group_descriptions.size() != 0) {
-                std::unordered_map<std::string, variable_group_description> nestedDescriptions;
-                for (const auto& variableGroupDescr : description.second.variable_group_descriptions) {
-                    nestedDescriptions.insert({variableGroupDescr.name, variableGroupDescr});
-                }
-                groupVariables = get_variable_group_variables(nestedDescriptions, endpoint);
-                if (groupVariables.size() > 0) {
-                    break;
-                }
-            }
+    for (const auto& description : descriptions) {
+        if (const auto nested = find_variable_group(description.variable_group_descriptions, name)) {
+            return nested;
         }
-    } else {
-        groupVariables = groupIt->second.variables;
     }
-    return groupVariables;
+    return nullptr;
 }
 
-std::vector<cosim::variable_group_description> get_variable_groups(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const std::string& connector)
+const variable_group_description& get_variable_group(
+    const std::unordered_map<std::string, extended_model_description>& emds,
+    const osp_config_parser::VariableEndpoint& endpoint)
 {
-    auto groupIt = descriptions.find(connector);
-    if (groupIt == descriptions.end()) {
-        return {};
+    const auto emdIt = emds.find(endpoint.simulator);
+    if (emdIt == emds.end()) {
+        std::ostringstream oss;
+        oss << "Cannot find extended model description for " << endpoint.simulator;
+        throw std::out_of_range(oss.str());
     }
-    return groupIt->second.variable_group_descriptions;
+    const auto group = find_variable_group(emdIt->second.variableGroups, endpoint.name);
+    if (!group) {
+        std::ostringstream oss;
+        oss << "Cannot find variable group " << endpoint.simulator << ":" << endpoint.name;
+        throw std::out_of_range(oss.str());
+    }
+    return *group;
 }
 
-
 void connect_variable_groups(
-    const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
-    system_structure& systemStructure,
-    const std::unordered_map<std::string, extended_model_description>& emds)
+    const std::string& simulatorA,
+    const variable_group_description& groupA,
+    const std::string& simulatorB,
+    const variable_group_description& groupB,
+    system_structure& systemStructure)
 {
-
-    for (const auto& connection : variableGroupConnections) {
-        const auto& emdA = get_emd(emds, connection.variableA.simulator);
-        const auto& emdB = get_emd(emds, connection.variableB.simulator);
-        const auto& variablesA = get_variable_group_variables(emdA.variableGroups, connection.variableA);
-        const auto& variablesB = get_variable_group_variables(emdB.variableGroups, connection.variableB);
-        const auto& variableGroupsA = get_variable_groups(emdA.variableGroups, connection.variableA.name);
-        const auto& variableGroupsB = get_variable_groups(emdB.variableGroups, connection.variableB.name);
-
-        if (variableGroupsA.size() != variableGroupsB.size()) {
+    const auto check_sizes = [&](std::size_t sizeA, std::size_t sizeB) {
+        if (sizeA != sizeB) {
             std::ostringstream oss;
             oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variableGroupsA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variableGroupsB.size() << "]";
+                << simulatorA << ":" << groupA.name
+                << " has different size [" << sizeA << "] than variable group "
+                << simulatorB << ":" << groupB.name
+                << " size [" << sizeB << "]";
             throw std::runtime_error(oss.str());
         }
+    };
 
-        std::vector<osp_config_parser::VariableConnection> nestedVariableGroupConnections;
-        // clang-format off
-        for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
-            nestedVariableGroupConnections.push_back({
-                {connection.variableA.simulator, variableGroupsA.at(i).name},
-                {connection.variableB.simulator, variableGroupsB.at(i).name}});
-        }
-        // clang-format on
-        connect_variable_groups(nestedVariableGroupConnections, systemStructure, emds);
+    const auto& nestedA = groupA.variable_group_descriptions;
+    const auto& nestedB = groupB.variable_group_descriptions;
+    check_sizes(nestedA.size(), nestedB.size());
+    for (std::size_t i = 0; i < nestedA.size(); ++i) {
+        connect_variable_groups(
+            simulatorA, nestedA.at(i), simulatorB, nestedB.at(i), systemStructure);
+    }
 
-        if (variablesA.size() != variablesB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variablesA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variablesB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
+    check_sizes(groupA.variables.size(), groupB.variables.size());
+    std::vector<osp_config_parser::VariableConnection> variableConnections;
 
-        std::vector<osp_config_parser::VariableConnection> variableConnections;
+    // clang-format off
+    for (std::size_t i = 0; i < groupA.variables.size(); ++i) {
+        variableConnections.push_back({
+            {simulatorA, groupA.variables.at(i)},
+            {simulatorB, groupB.variables.at(i)}});
+    }
+    // clang-format on
 
-        // clang-format off
-        for (std::size_t i = 0; i < variablesA.size(); ++i) {
-            variableConnections.push_back({
-                {connection.variableA.simulator, variablesA.at(i)},
-                {connection.variableB.simulator, variablesB.at(i)}});
-        }
-        // clang-format on
+    connect_variables(variableConnections, systemStructure);
+}
 
-        connect_variables(variableConnections, systemStructure);
+void connect_variable_groups(
+    const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
+    system_structure& systemStructure,
+    const std::unordered_map<std::string, extended_model_description>& emds)
+{
+    for (const auto& connection : variableGroupConnections) {
+        connect_variable_groups(
+            connection.variableA.simulator,
+            get_variable_group(emds, connection.variableA),
+            connection.variableB.simulator,
+            get_variable_group(emds, connection.variableB),
+            systemStructure);
     }
 }
 
@@ -882,8 +865,7 @@ void connect_vector_sum_functions(
         for (int i = 0; i < function.inputCount; ++i) {
             const auto inGroupConn = find_signal_connection(
                 signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-            const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+            const auto& inVariableGroup = get_variable_group(emds, inGroupConn.variable);
 
             for (int j = 0; j < function.dimension; ++j) {
                 const auto& inVariableName = inVariableGroup.variables.at(j);
@@ -895,8 +877,7 @@ void connect_vector_sum_functions(
 
         const auto outGroupConn = find_signal_connection(
             signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-        const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
+        const auto& outVariableGroup = get_variable_group(emds, outGroupConn.variable);
         for (int j = 0; j < function.dimension; ++j) {
             const auto& outVariableName = outVariableGroup.variables.at(j);
             systemStructure.connect_variables(
-- 
2.43.0


From 18daa9515fdee72a034bb5ae5e5cfcfda917730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 27/48] fix: connect all function signals in OSP system
 structures

Only the first of several connections to a function output was made, and
connections to function signals that do not exist (or to variable groups
with more members than the signal group) were silently dropped.
---
 src/cosim/osp_config_parser.cpp | 131 +++++++++++++++++++++++---------
 1 file changed, 97 insertions(+), 34 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index bc71559..65f832a 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -19,8 +19,11 @@
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <algorithm>
 #include <ios>
+#include <iterator>
 #include <memory>
+#include <set>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -662,21 +665,41 @@ struct extended_model_description
 namespace
 {
 
-osp_config_parser::SignalConnection find_signal_connection(
+// Returns all connections to a function signal (or signal group), of which
+// there must be at least one.
+std::vector<osp_config_parser::SignalConnection> find_signal_connections(
     const std::vector<osp_config_parser::SignalConnection>& signalConnections,
     const std::string& functionName,
     const std::string& signalName)
 {
-    auto it = std::find_if(
+    std::vector<osp_config_parser::SignalConnection> found;
+    std::copy_if(
         signalConnections.begin(),
         signalConnections.end(),
+        std::back_inserter(found),
         [&](const auto& conn) { return functionName == conn.signal.function && signalName == conn.signal.name; });
-    if (it == signalConnections.end()) {
+    if (found.empty()) {
         std::ostringstream oss;
         oss << "Missing expected connection to " << functionName << ":" << signalName;
         throw std::out_of_range(oss.str());
     }
-    return *it;
+    return found;
+}
+
+// Verifies that all connections are to function signals (or signal groups)
+// which exist.
+void check_signal_connections(
+    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
+    const std::set<std::pair<std::string, std::string>>& signals)
+{
+    for (const auto& conn : signalConnections) {
+        if (signals.count({conn.signal.function, conn.signal.name}) == 0) {
+            std::ostringstream oss;
+            oss << "Connection to nonexistent function signal "
+                << conn.signal.function << ":" << conn.signal.name;
+            throw std::out_of_range(oss.str());
+        }
+    }
 }
 
 } // namespace
@@ -810,14 +833,16 @@ void connect_linear_transformation_functions(
             std::make_shared<linear_transformation_function_type>(),
             functionParams);
 
-        const auto inConn = find_signal_connection(signalConnections, functionName, function.in.name);
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(inConn.variable.simulator, inConn.variable.name),
-            full_variable_name(functionName, "in", ""));
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.in.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                full_variable_name(functionName, "in", ""));
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        }
     }
 }
 
@@ -835,18 +860,38 @@ void connect_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; i++) {
-            const auto inConn = find_signal_connection(signalConnections, functionName, function.ins.at(i).name);
+            for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.ins.at(i).name)) {
+                systemStructure.connect_variables(
+                    full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                    full_variable_name(functionName, "in", i, "", 0));
+            }
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
             systemStructure.connect_variables(
-                full_variable_name(inConn.variable.simulator, inConn.variable.name),
-                full_variable_name(functionName, "in", i, "", 0));
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
         }
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
     }
 }
 
+// Returns the variables of a variable group that is to be connected to a
+// signal group with the given number of signals.
+const std::vector<std::string>& get_vector_variables(
+    const std::unordered_map<std::string, extended_model_description>& emds,
+    const osp_config_parser::VariableEndpoint& endpoint,
+    int dimension)
+{
+    const auto& group = get_variable_group(emds, endpoint);
+    if (group.variables.size() != static_cast<std::size_t>(dimension) ||
+        !group.variable_group_descriptions.empty()) {
+        std::ostringstream oss;
+        oss << "Variable group " << endpoint.simulator << ":" << endpoint.name
+            << " cannot be connected to a signal group of size [" << dimension << "]";
+        throw std::runtime_error(oss.str());
+    }
+    return group.variables;
+}
+
 void connect_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
     const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
@@ -863,26 +908,27 @@ void connect_vector_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; ++i) {
-            const auto inGroupConn = find_signal_connection(
+            const auto inGroupConns = find_signal_connections(
                 signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inVariableGroup = get_variable_group(emds, inGroupConn.variable);
-
-            for (int j = 0; j < function.dimension; ++j) {
-                const auto& inVariableName = inVariableGroup.variables.at(j);
-                systemStructure.connect_variables(
-                    full_variable_name(inGroupConn.variable.simulator, inVariableName),
-                    full_variable_name(functionName, "in", i, "", j));
+            for (const auto& inGroupConn : inGroupConns) {
+                const auto& inVariables = get_vector_variables(emds, inGroupConn.variable, function.dimension);
+                for (int j = 0; j < function.dimension; ++j) {
+                    systemStructure.connect_variables(
+                        full_variable_name(inGroupConn.variable.simulator, inVariables.at(j)),
+                        full_variable_name(functionName, "in", i, "", j));
+                }
             }
         }
 
-        const auto outGroupConn = find_signal_connection(
+        const auto outGroupConns = find_signal_connections(
             signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outVariableGroup = get_variable_group(emds, outGroupConn.variable);
-        for (int j = 0; j < function.dimension; ++j) {
-            const auto& outVariableName = outVariableGroup.variables.at(j);
-            systemStructure.connect_variables(
-                full_variable_name(functionName, "out", 0, "", j),
-                full_variable_name(outGroupConn.variable.simulator, outVariableName));
+        for (const auto& outGroupConn : outGroupConns) {
+            const auto& outVariables = get_vector_variables(emds, outGroupConn.variable, function.dimension);
+            for (int j = 0; j < function.dimension; ++j) {
+                systemStructure.connect_variables(
+                    full_variable_name(functionName, "out", 0, "", j),
+                    full_variable_name(outGroupConn.variable.simulator, outVariables.at(j)));
+            }
         }
     }
 }
@@ -974,6 +1020,23 @@ osp_config load_osp_config(
 
     connect_variables(parser.get_variable_connections(), config.system_structure);
     connect_variable_groups(parser.get_variable_group_connections(), config.system_structure, emds);
+
+    std::set<std::pair<std::string, std::string>> signals, signalGroups;
+    for (const auto& [name, function] : parser.get_linear_transformation_functions()) {
+        signals.emplace(name, function.in.name);
+        signals.emplace(name, function.out.name);
+    }
+    for (const auto& [name, function] : parser.get_sum_functions()) {
+        for (const auto& in : function.ins) signals.emplace(name, in.name);
+        signals.emplace(name, function.out.name);
+    }
+    for (const auto& [name, function] : parser.get_vector_sum_functions()) {
+        for (const auto& inGroup : function.inGroups) signalGroups.emplace(name, inGroup.name);
+        signalGroups.emplace(name, function.outGroup.name);
+    }
+    check_signal_connections(parser.get_signal_connections(), signals);
+    check_signal_connections(parser.get_signal_group_connections(), signalGroups);
+
     connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
     connect_sum_functions(parser.get_sum_functions(), parser.get_signal_connections(), config.system_structure);
     connect_vector_sum_functions(parser.get_vector_sum_functions(), parser.get_signal_group_connections(), config.system_structure, emds);
-- 
2.43.0


From 811a45521780e143f61cf5732a40a01947a13783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 28/48] fix: refuse OSP system structures with duplicate
 function names

One of the functions of the same name was silently left out.
---
 src/cosim/osp_config_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 65f832a..23a0ab9 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -356,6 +356,12 @@ osp_config_parser::osp_config_parser(
 
             const auto functionNodeName = std::string(tc(functionElement->getNodeName()).get());
             const auto functionName = std::string(tc(functionElement->getAttribute(tc("name").get())).get());
+            if (linearTransformationFunctions_.count(functionName) +
+                    sumFunctions_.count(functionName) +
+                    vectorSumFunctions_.count(functionName) >
+                0) {
+                throw std::runtime_error("Duplicate function name: " + functionName);
+            }
             if ("LinearTransformation" == functionNodeName) {
                 LinearTransformationFunction function;
                 function.name = functionName;
-- 
2.43.0


From 5b6d39204aa14278521dd791cd3c2e05ed432550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 29/48] fix: do not crash on malformed OSP model descriptions

---
 src/cosim/osp_config_parser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 23a0ab9..32114cc 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -627,19 +627,23 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
+        error_handler errorHandler;
+        parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
+
         const auto doc = parser->parseURI(ospModelDescription.string().c_str());
 
-        if (doc == nullptr) {
+        const auto rootElement = doc ? doc->getDocumentElement() : nullptr;
+        const auto variableGroupsElement = rootElement
+            ? static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0))
+            : nullptr;
+
+        if (errorHandler.failed() || variableGroupsElement == nullptr) {
             std::ostringstream oss;
             oss << "Validation of " << ospModelDescription.string() << " failed.";
             BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
             throw std::runtime_error(oss.str());
         }
 
-        const auto rootElement = doc->getDocumentElement();
-
-        const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
-
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variableGroups.push_back(create_variable_group_description(variableGroupElement));
         }
-- 
2.43.0


From 1a5f10cdd9297b725bca3931d0fc767d6af02b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 30/48] fix: refuse times that are not numbers or out of range

Start, end and step times like NaN, INF and 1e300 in OSP system structures
were converted to arbitrary values, and a step size of less than a
nanosecond to zero.
---
 src/cosim/osp_config_parser.cpp | 36 ++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 32114cc..9e7be0d 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -20,6 +20,8 @@
 #include <xercesc/util/XMLString.hpp>
 
 #include <algorithm>
+#include <chrono>
+#include <cmath>
 #include <ios>
 #include <iterator>
 #include <memory>
@@ -959,6 +961,22 @@ cosim::filesystem::path file_query_uri_to_path(
 
 } // namespace
 
+namespace
+{
+// Converts a configured time (or time step) in seconds.
+duration to_valid_duration(double t, const std::string& what)
+{
+    // Note that the condition is also false if `t` is NaN.
+    if (std::abs(t) < std::chrono::duration<double>(duration::max()).count()) {
+        return to_duration(t);
+    }
+    std::ostringstream oss;
+    oss << "Configured " << what << " [" << t << "] is not a valid time";
+    BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
+    throw std::invalid_argument(oss.str());
+}
+} // namespace
+
 osp_config load_osp_config(
     const cosim::filesystem::path& configPath,
     model_uri_resolver& resolver)
@@ -972,7 +990,14 @@ osp_config load_osp_config(
     const auto parser = osp_config_parser(configFile);
     const auto& simInfo = parser.get_simulation_information();
 
-    if (simInfo.stepSize <= 0.0) {
+    osp_config config;
+    config.start_time = time_point(to_valid_duration(simInfo.startTime, "start time"));
+    config.step_size = to_valid_duration(simInfo.stepSize, "base step size");
+    if (simInfo.endTime.has_value()) {
+        config.end_time = time_point(to_valid_duration(*simInfo.endTime, "end time"));
+    }
+
+    if (config.step_size <= duration::zero()) {
         std::ostringstream oss;
         oss << "Configured base step size [" << simInfo.stepSize << "] must be nonzero and positive";
         BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -986,13 +1011,6 @@ osp_config load_osp_config(
         throw std::invalid_argument(oss.str());
     }
 
-    osp_config config;
-    config.start_time = to_time_point(simInfo.startTime);
-    config.step_size = to_duration(simInfo.stepSize);
-    if (simInfo.endTime.has_value()) {
-        config.end_time = to_time_point(simInfo.endTime.value());
-    }
-
     auto simulators = parser.get_elements();
 
     std::unordered_map<std::string, extended_model_description> emds;
@@ -1001,7 +1019,7 @@ osp_config load_osp_config(
         config.system_structure.add_entity(
             simulator.name,
             model,
-            simulator.stepSize ? to_duration(*simulator.stepSize) : duration::zero());
+            simulator.stepSize ? to_valid_duration(*simulator.stepSize, "simulator step size") : duration::zero());
 
         for (const auto& p : simulator.initialValues) {
             add_variable_value(
-- 
2.43.0


From e8fa43cfa1ed57db861c448c3cc3859a9161928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 31/48] fix: look for OSP model descriptions beside the
 configuration file

For models with other than file URIs, those in the parent directory took
precedence.
---
 src/cosim/osp_config_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 9e7be0d..72f860d 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -956,7 +956,7 @@ cosim::filesystem::path file_query_uri_to_path(
         }
         return file_uri_to_path(std::string(baseParentUri.view()) + "/" + std::string(query->substr(5)));
     }
-    return file_uri_to_path(baseParentUri);
+    return file_uri_to_path(baseParentUri) / "";
 }
 
 } // namespace
-- 
2.43.0


From d363e8308413eff716b9604e5f980d9fe2895228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 32/48] fix: do not terminate on unsupported types in SSP
 system structures

Connectors and parameters of types Enumeration and Binary, and parameters
of unknown types, ended the process rather than failing to load.
---
 src/cosim/ssp/ssp_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 9ddb60a..a272b1f 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -39,9 +39,9 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:String")) {
         return variable_type::string;
     } else if (tree.get_child_optional("ssc:Enumeration")) {
-        COSIM_PANIC_M("Don't know how to handle Enumeration type!");
+        throw std::runtime_error("Don't know how to handle Enumeration type!");
     } else if (tree.get_child_optional("ssc:Binary")) {
-        COSIM_PANIC_M("Don't know how to handle Binary type!");
+        throw std::runtime_error("Don't know how to handle Binary type!");
     } else {
         throw std::invalid_argument("A valid connector type was not found!");
     }
@@ -66,7 +66,7 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
             const auto value = get_attribute<std::string>(*stringParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::string, value});
         } else {
-            COSIM_PANIC();
+            throw std::runtime_error("Don't know how to handle the type of parameter '" + name + "'!");
         }
     }
     return parameterSet;
-- 
2.43.0


From c81a0780c1c9a00e7e21a4d798a5c8cc2ecfd67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 33/48] fix: refuse SSP system structures with duplicate
 component names

Of components with the same name, all but the last were silently dropped.
---
 src/cosim/ssp/ssp_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index a272b1f..485831b 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -183,7 +183,9 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 }
             }
         }
-        elements_[comp.name] = comp;
+        if (!elements_.emplace(comp.name, comp).second) {
+            throw std::runtime_error("Duplicate component name: '" + comp.name + "'!");
+        }
     }
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
-- 
2.43.0


From 5424f0e0e48662f3cd9aee0409c70fb251a87e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 34/48] fix: refuse unsupported transformations in SSP system
 structures

Mapping transformations of connections were silently left out, so that the
receiver got untransformed values.
---
 src/cosim/ssp/ssp_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 485831b..6435e7e 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -201,6 +201,11 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 auto offset = get_attribute<double>(*l, "offset", 0);
                 auto factor = get_attribute<double>(*l, "factor", 1.0);
                 c.linearTransformation = {offset, factor};
+            } else if (connection.second.get_child_optional("ssc:BooleanMappingTransformation") ||
+                connection.second.get_child_optional("ssc:IntegerMappingTransformation") ||
+                connection.second.get_child_optional("ssc:EnumerationMappingTransformation")) {
+                throw std::runtime_error(
+                    "Unsupported transformation of connection to '" + c.endElement.name + ":" + c.endConnector.name + "'!");
             }
         }
     }
-- 
2.43.0


From 6089a658c11c6e52d922ce694811905791f3a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 35/48] fix: refuse times out of range in SSP system structures

Times like 1e300 were converted to arbitrary values.
---
 src/cosim/ssp/ssp_parser.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 6435e7e..6c13b74 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -9,6 +9,9 @@
 
 #include <boost/property_tree/xml_parser.hpp>
 
+#include <chrono>
+#include <cmath>
+
 namespace cosim
 {
 
@@ -28,6 +31,19 @@ std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree,
     return result ? *result : std::optional<T>();
 }
 
+// Gets an attribute which is a time (or time step) in seconds.
+double get_time_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<double> defaultValue = {})
+{
+    const auto t = get_attribute<double>(tree, key, defaultValue);
+    // Note that the condition is also false if `t` is NaN.
+    if (std::abs(t) < std::chrono::duration<double>(duration::max()).count()) {
+        return t;
+    }
+    std::ostringstream oss;
+    oss << "Attribute '" << key << "' is not a valid time: " << t;
+    throw std::runtime_error(oss.str());
+}
+
 variable_type parse_connector_type(const boost::property_tree::ptree& tree)
 {
     if (tree.get_child_optional("ssc:Real")) {
@@ -107,7 +123,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
     systemDescription_.version = get_attribute<std::string>(ssd, "version");
 
     if (const auto defaultExperiment = ssd.get_child_optional("ssd:DefaultExperiment")) {
-        defaultExperiment_.startTime = get_attribute<double>(*defaultExperiment, "startTime", 0.0);
+        defaultExperiment_.startTime = get_time_attribute(*defaultExperiment, "startTime", 0.0);
         defaultExperiment_.stopTime = get_optional_attribute<double>(*defaultExperiment, "stopTime");
 
         if (const auto annotations = defaultExperiment->get_child_optional("ssd:Annotations")) {
@@ -116,7 +132,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 if (annotationType == "com.opensimulationplatform") {
                     for (const auto& algorithm : annotation.second.get_child("osp:Algorithm")) {
                         if (algorithm.first == "osp:FixedStepAlgorithm") {
-                            auto baseStepSize = get_attribute<double>(algorithm.second, "baseStepSize");
+                            auto baseStepSize = get_time_attribute(algorithm.second, "baseStepSize");
                             auto numWorkerThreads = get_optional_attribute<unsigned int>(algorithm.second, "numWorkerThreads");
                             defaultExperiment_.algorithm = std::make_unique<cosim::fixed_step_algorithm>(cosim::to_duration(baseStepSize), numWorkerThreads);
                         } else {
@@ -178,7 +194,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 const auto& annotationType = get_attribute<std::string>(annotation.second, "type");
                 if (annotationType == "com.opensimulationplatform") {
                     if (const auto& stepSizeHint = annotation.second.get_child_optional("osp:StepSizeHint")) {
-                        comp.stepSizeHint = get_attribute<double>(*stepSizeHint, "value");
+                        comp.stepSizeHint = get_time_attribute(*stepSizeHint, "value");
                     }
                 }
             }
-- 
2.43.0


From 502f000f9e7b8466e8d92bb036a748bff5e6bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 36/48] fix: refuse malformed attributes in SSP system
 structures

Factors, offsets, start times and the like were silently replaced by their
defaults if they could not be parsed.
---
 src/cosim/ssp/ssp_parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 6c13b74..b8cd037 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -21,14 +21,16 @@ namespace
 template<typename T>
 T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
 {
-    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : tree.get<T>("<xmlattr>." + key, *defaultValue);
+    const auto path = "<xmlattr>." + key;
+    // Only a missing attribute has the default value; a malformed one is an error.
+    return defaultValue && !tree.get_child_optional(path) ? *defaultValue : tree.get<T>(path);
 }
 
 template<typename T>
 std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 {
-    const auto result = tree.get_optional<T>("<xmlattr>." + key);
-    return result ? *result : std::optional<T>();
+    const auto path = "<xmlattr>." + key;
+    return tree.get_child_optional(path) ? tree.get<T>(path) : std::optional<T>();
 }
 
 // Gets an attribute which is a time (or time step) in seconds.
-- 
2.43.0


From f45b1a35b52262282d36646c3e4000a20a8b261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 37/48] fix: free FMU handle when not a co-simulation FMU

---
 src/cosim/fmi/v1/fmu.cpp | 1 +
 src/cosim/fmi/v2/fmu.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index f7fc72c..ac44db5 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -53,6 +53,7 @@ fmu::fmu(
     const auto fmuKind = fmi1_import_get_fmu_kind(handle_);
     if (fmuKind != fmi1_fmu_kind_enu_cs_standalone &&
         fmuKind != fmi1_fmu_kind_enu_cs_tool) {
+        fmi1_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index 7267c38..e48a326 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -52,6 +52,7 @@ fmu::fmu(
     }
     const auto fmuKind = fmi2_import_get_fmu_kind(handle_);
     if (!(fmuKind & fmi2_fmu_kind_cs)) {
+        fmi2_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
-- 
2.43.0


From 2f26c25dce88358c5a88f1bf23a53c2c36435910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 38/48] fix: don't terminate FMI slaves after failure

---
 include/cosim/fmi/v1/fmu.hpp |  6 ++++-
 include/cosim/fmi/v2/fmu.hpp |  6 ++++-
 src/cosim/fmi/v1/fmu.cpp     | 45 ++++++++++++++---------------------
 src/cosim/fmi/v2/fmu.cpp     | 46 +++++++++++++++---------------------
 4 files changed, 47 insertions(+), 56 deletions(-)

diff --git a/include/cosim/fmi/v1/fmu.hpp b/include/cosim/fmi/v1/fmu.hpp
index ce3971a..dd3dd1f 100644
--- a/include/cosim/fmi/v1/fmu.hpp
+++ b/include/cosim/fmi/v1/fmu.hpp
@@ -178,10 +178,14 @@ public:
     fmi1_import_t* fmilib_handle() const;
 
 private:
+    // Reports that a function call to the slave has failed.  After this, the
+    // slave is only freed, since FMI does not permit any other calls.
+    [[noreturn]] void fail() const;
+
     std::shared_ptr<v1::fmu> fmu_;
     fmi1_import_t* handle_;
 
-    bool simStarted_ = false;
+    mutable bool simStarted_ = false;
 
     std::string instanceName_;
     time_point startTime_;
diff --git a/include/cosim/fmi/v2/fmu.hpp b/include/cosim/fmi/v2/fmu.hpp
index c383c00..73d6615 100644
--- a/include/cosim/fmi/v2/fmu.hpp
+++ b/include/cosim/fmi/v2/fmu.hpp
@@ -178,11 +178,15 @@ public:
     fmi2_import_t* fmilib_handle() const;
 
 private:
+    // Reports that a function call to the slave has failed.  After this, the
+    // slave is only freed, since FMI does not permit any other calls.
+    [[noreturn]] void fail() const;
+
     std::shared_ptr<v2::fmu> fmu_;
     fmi2_import_t* handle_;
 
     bool setupComplete_ = false;
-    bool simStarted_ = false;
+    mutable bool simStarted_ = false;
 
     std::string instanceName_;
 };
diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index ac44db5..d8287f7 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -368,6 +368,15 @@ void slave_instance::end_simulation()
 }
 
 
+void slave_instance::fail() const
+{
+    simStarted_ = false;
+    throw error(
+        make_error_code(errc::model_error),
+        last_log_record(instanceName_).message);
+}
+
+
 step_result slave_instance::do_step(time_point currentT, duration deltaT)
 {
     assert(simStarted_);
@@ -381,9 +390,7 @@ step_result slave_instance::do_step(time_point currentT, duration deltaT)
     } else if (rc == fmi1_status_discard) {
         return step_result::failed;
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -397,9 +404,7 @@ void slave_instance::get_real_variables(
     const auto status = fmi1_import_get_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -413,9 +418,7 @@ void slave_instance::get_integer_variables(
     const auto status = fmi1_import_get_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -430,9 +433,7 @@ void slave_instance::get_boolean_variables(
     const auto status = fmi1_import_get_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] != fmi1_false);
@@ -450,9 +451,7 @@ void slave_instance::get_string_variables(
     const auto status = fmi1_import_get_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] == nullptr) ? std::string()
@@ -474,9 +473,7 @@ void slave_instance::set_real_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -494,9 +491,7 @@ void slave_instance::set_integer_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -519,9 +514,7 @@ void slave_instance::set_boolean_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -543,9 +536,7 @@ void slave_instance::set_string_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index e48a326..71dc0ec 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -384,6 +384,15 @@ void slave_instance::end_simulation()
 }
 
 
+void slave_instance::fail() const
+{
+    simStarted_ = false;
+    throw error(
+        make_error_code(errc::model_error),
+        last_log_record(instanceName_).message);
+}
+
+
 step_result slave_instance::do_step(time_point currentT, duration deltaT)
 {
     assert(simStarted_);
@@ -397,13 +406,12 @@ step_result slave_instance::do_step(time_point currentT, duration deltaT)
     } else if (rc == fmi2_status_discard) {
         return step_result::failed;
     } else if (rc == fmi2_status_pending) {
+        simStarted_ = false;
         throw error(
             make_error_code(errc::unsupported_feature),
             "Slave performs time step asynchronously");
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -417,9 +425,7 @@ void slave_instance::get_real_variables(
     const auto status = fmi2_import_get_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -433,9 +439,7 @@ void slave_instance::get_integer_variables(
     const auto status = fmi2_import_get_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -450,9 +454,7 @@ void slave_instance::get_boolean_variables(
     const auto status = fmi2_import_get_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] != fmi2_false);
@@ -470,9 +472,7 @@ void slave_instance::get_string_variables(
     const auto status = fmi2_import_get_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] == nullptr) ? std::string()
@@ -494,9 +494,7 @@ void slave_instance::set_real_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -514,9 +512,7 @@ void slave_instance::set_integer_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -539,9 +535,7 @@ void slave_instance::set_boolean_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
@@ -563,9 +557,7 @@ void slave_instance::set_string_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        fail();
     }
 }
 
-- 
2.43.0


From 638a921d60251e0247d31c3a6c7a085ea15a3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 39/48] fix: only terminate remote slaves that are running

---
 src/cosim/proxy/remote_slave.cpp | 35 ++++++++++++++++----------------
 src/cosim/proxy/remote_slave.hpp |  6 +++++-
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 1144472..39aa34c 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -9,26 +9,20 @@
 
 #include <utility>
 
-
-namespace
-{
-
-void bad_status_throw(const std::string& method)
-{
-    std::string reason("Bad status returned from remote slave during call to '" + method + "'.");
-    throw cosim::error(make_error_code(cosim::errc::model_error), reason);
-}
-
-} // namespace
-
 cosim::proxy::remote_slave::remote_slave(
     std::unique_ptr<proxyfmu::fmi::slave> slave,
     std::shared_ptr<const cosim::model_description> modelDescription)
-    : terminated_(false)
-    , slave_(std::move(slave))
+    : slave_(std::move(slave))
     , modelDescription_(std::move(modelDescription))
 { }
 
+void cosim::proxy::remote_slave::bad_status_throw(const std::string& method) const
+{
+    simStarted_ = false;
+    std::string reason("Bad status returned from remote slave during call to '" + method + "'.");
+    throw cosim::error(make_error_code(cosim::errc::model_error), reason);
+}
+
 cosim::model_description cosim::proxy::remote_slave::model_description() const
 {
     return *modelDescription_;
@@ -59,13 +53,16 @@ void cosim::proxy::remote_slave::start_simulation()
     if (!status) {
         bad_status_throw("exit_initialization_mode");
     }
+    simStarted_ = true;
 }
 
 void cosim::proxy::remote_slave::end_simulation()
 {
-    if (!terminated_) {
-        slave_->terminate();
-        terminated_ = true;
+    if (!simStarted_) return;
+    simStarted_ = false;
+    auto status = slave_->terminate();
+    if (!status) {
+        bad_status_throw("terminate");
     }
 }
 
@@ -204,6 +201,8 @@ void cosim::proxy::remote_slave::set_string_variables(gsl::span<const cosim::val
 
 cosim::proxy::remote_slave::~remote_slave()
 {
-    remote_slave::end_simulation();
+    if (simStarted_) {
+        slave_->terminate();
+    }
     slave_->freeInstance();
 }
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 4f02aac..901be51 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -62,7 +62,11 @@ public:
     ~remote_slave() override;
 
 private:
-    bool terminated_;
+    // Reports that a function call to the slave has failed.  After this, the
+    // slave is only freed, since FMI does not permit any other calls.
+    [[noreturn]] void bad_status_throw(const std::string& method) const;
+
+    mutable bool simStarted_ = false;
     cosim::time_point startTime_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
-- 
2.43.0


From 87fbf2839dc833f7348feaf94a275701008fc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 40/48] fix: convert time steps for remote slaves at the
 current time

---
 src/cosim/proxy/remote_slave.cpp | 4 +---
 src/cosim/proxy/remote_slave.hpp | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 39aa34c..b3eb310 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -31,8 +31,6 @@ cosim::model_description cosim::proxy::remote_slave::model_description() const
 void cosim::proxy::remote_slave::setup(cosim::time_point startTime, std::optional<cosim::time_point> stopTime,
     std::optional<double> relativeTolerance)
 {
-    startTime_ = startTime;
-
     double start = to_double_time_point(startTime);
     double stop = to_double_time_point(stopTime.value_or(cosim::to_time_point(0)));
     double tolerance = relativeTolerance.value_or(0);
@@ -68,7 +66,7 @@ void cosim::proxy::remote_slave::end_simulation()
 
 cosim::step_result cosim::proxy::remote_slave::do_step(cosim::time_point currentTime, cosim::duration deltaT)
 {
-    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, startTime_));
+    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, currentTime));
     if (!status) {
         bad_status_throw("step");
     }
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 901be51..3233943 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -67,7 +67,6 @@ private:
     [[noreturn]] void bad_status_throw(const std::string& method) const;
 
     mutable bool simStarted_ = false;
-    cosim::time_point startTime_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
 };
-- 
2.43.0


From 85495ea14a5ad886238655220698c517ce71d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 41/48] fix: don't use FMUs whose unpacking was interrupted

---
 src/cosim/fmi/importer.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index 9e4fa90..fa66b61 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -20,7 +20,9 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <fstream>
 #include <new>
+#include <stdexcept>
 
 
 namespace cosim
@@ -196,16 +198,18 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
     auto fmuUnpackDir = fileCache_->get_directory_rw(guidStr);
 
     // Unzip the entire FMU if necessary.
-    const auto modelDescriptionPath = fmuUnpackDir->path() / "modelDescription.xml";
-    if (is_outdated(modelDescriptionPath, fmuPath)) {
-        try {
-            zip.extract_all(fmuUnpackDir->path());
-        } catch (...) {
-            // Remove model description again, so we don't erroneously think
-            // that the unpacking was successful the next time we try it.
-            std::error_code ignoredError;
-            cosim::filesystem::remove(modelDescriptionPath, ignoredError);
-            throw;
+    //
+    // The marker file is created after everything else, so that an unpacking
+    // operation which failed or was interrupted isn't mistaken for a complete
+    // one the next time we get here.
+    const auto markerPath = fmuUnpackDir->path() / "libcosim-unpacked";
+    if (is_outdated(markerPath, fmuPath)) {
+        cosim::filesystem::remove(markerPath);
+        zip.extract_all(fmuUnpackDir->path());
+        std::ofstream marker(markerPath.string());
+        marker.close();
+        if (!marker) {
+            throw std::runtime_error("Failed to create file: " + markerPath.string());
         }
     }
 
-- 
2.43.0


From 8b9aeaf5974b97c3a81b49f716709cf03049dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 42/48] fix: let the first window of the rolling real time
 factor have steps_to_monitor steps

---
 src/cosim/timer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cosim/timer.cpp b/src/cosim/timer.cpp
index 1a191ba..dab1000 100644
--- a/src/cosim/timer.cpp
+++ b/src/cosim/timer.cpp
@@ -34,8 +34,10 @@ public:
     void sleep(time_point currentTime)
     {
         const auto newHash = std::hash<real_time_config>()(*config_);
+        bool restarted = false;
         if (newHash != configHashValue_) {
             start(currentTime);
+            restarted = true;
             const auto sampling_period = config_->sampling_period_to_monitor.load();
             if (sampling_period.count() > 0) {
                 sampling_period_to_monitor_ = sampling_period;
@@ -54,6 +56,9 @@ public:
                 std::this_thread::sleep_for(simulationSleepTime);
             }
         }
+        // The step that has just been performed isn't part of the measurement
+        // if that was restarted after it.
+        if (!restarted) rtCounter_++;
         update_real_time_factor(Time::now(), currentTime);
     }
 
@@ -111,7 +116,6 @@ private:
             const auto elapsedRealTime = currentTime - rtStartTime_;
             update_rolling_average_real_time_factor(currentTime, currentSimulationTime, elapsedRealTime);
         }
-        rtCounter_++;
     }
 };
 
-- 
2.43.0


From c5573a2eb6c8dc89920647597806f852ecec708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:58 +0000
Subject: [PATCH 43/48] fix: report exceptions of any type from slaves instead
 of terminating the process

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 2f244a9..30292f1 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -208,6 +208,12 @@ public:
                             << info.sim->name() << ": "
                             << ex.what() << '\n';
                         failed = true;
+                    } catch (...) {
+                        std::lock_guard<std::mutex> lck(m);
+                        errMessages
+                            << info.sim->name() << ": "
+                            << "Unknown error" << '\n';
+                        failed = true;
                     }
                 });
             }
@@ -291,6 +297,10 @@ private:
                     std::lock_guard<std::mutex> lck(m);
                     errMessages << s.second.sim->name() << ": " << ex.what() << '\n';
                     failed = true;
+                } catch (...) {
+                    std::lock_guard<std::mutex> lck(m);
+                    errMessages << s.second.sim->name() << ": Unknown error\n";
+                    failed = true;
                 }
             });
         }
-- 
2.43.0


From 929aec25a0a3f9d6974d66413832cf6e21d47cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:14 +0000
Subject: [PATCH 44/48] fix: don't let decimation factors and their multiples
 overflow

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 30292f1..a49cb08 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -11,6 +11,7 @@
 #include "cosim/utility/thread_pool.hpp"
 
 #include <algorithm>
+#include <cstdint>
 #include <cstdlib>
 #include <numeric>
 #include <sstream>
@@ -23,14 +24,14 @@ namespace cosim
 namespace
 {
 
-int calculate_decimation_factor(
+std::int64_t calculate_decimation_factor(
     std::string_view name,
     duration baseStepSize,
     duration simulatorStepSize)
 {
     if (simulatorStepSize == duration::zero()) return 1;
     const auto result = std::div(simulatorStepSize.count(), baseStepSize.count());
-    const int factor = std::max<int>(1, static_cast<int>(result.quot));
+    const auto factor = std::max<std::int64_t>(1, result.quot);
     if (result.rem > 0 || result.quot < 1) {
         duration actualStepSize = baseStepSize * factor;
         const auto startTime = time_point();
@@ -268,7 +269,7 @@ private:
     struct simulator_info
     {
         simulator* sim;
-        int decimationFactor = 1;
+        std::int64_t decimationFactor = 1;
         step_result stepResult;
         std::vector<connection_ss> outgoingSimConnections;
         std::vector<connection_sf> outgoingFunConnections;
@@ -277,7 +278,7 @@ private:
     struct function_info
     {
         function* fun;
-        int decimationFactor = 1;
+        std::int64_t decimationFactor = 1;
         std::vector<connection_fs> outgoingSimConnections;
     };
 
@@ -336,8 +337,8 @@ private:
         f.decimationFactor = std::accumulate(
             f.outgoingSimConnections.begin(),
             f.outgoingSimConnections.end(),
-            1,
-            [&](int current, const auto& connection) {
+            std::int64_t(1),
+            [&](std::int64_t current, const auto& connection) {
                 return std::lcm(
                     current,
                     simulators_.at(connection.target.simulator).decimationFactor);
-- 
2.43.0


From 7e688516fc2678ede4e3a9da3e48ac1305fc33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 45/48] fix: resolve the file in proxyfmu URIs as a reference
 relative to the base URI

---
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index 1500741..e2d0d24 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -27,17 +27,11 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
 {
     const auto& mur = modelUriReference;
     const auto query = mur.query();
-    if (query) {
-        if (query->find("file=file:///") < query->size()) {
-            const auto newQuery = "file=" + std::string(query->substr(13));
-            return model_uri_sub_resolver::lookup_model(
-                baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
-        } else if (query->find("file=") < query->size()) {
-            const auto pathToAppend = cosim::file_uri_to_path(baseUri).parent_path().string();
-            const auto newQuery = "file=" + pathToAppend + "/" + std::string(query->substr(5));
-            return model_uri_sub_resolver::lookup_model(
-                baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
-        }
+    if (mur.scheme() == "proxyfmu" && baseUri.scheme() && query && query->substr(0, 5) == "file=") {
+        // The file is in itself a reference relative to the base URI.
+        const auto file = resolve_reference(baseUri, uri(std::string(query->substr(5))));
+        const auto newQuery = "file=" + std::string(file.view());
+        return lookup_model(uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
     }
     return model_uri_sub_resolver::lookup_model(baseUri, mur);
 }
@@ -52,7 +46,10 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
     const auto auth = parse_authority(*modelUri.authority());
     const auto query = *modelUri.query();
     if (query.substr(0, 5) == "file=") {
-        const auto file = cosim::filesystem::path(std::string(query.substr(5)));
+        const auto fileRef = query.substr(5);
+        const auto file = fileRef.substr(0, 5) == "file:"
+            ? file_uri_to_path(uri(std::string(fileRef)))
+            : cosim::filesystem::path(percent_decode(fileRef));
         if (!cosim::filesystem::exists(file)) {
             throw error(make_error_code(errc::bad_file), "No such file: " + file.string());
         }
-- 
2.43.0


From 8b5460bef883fae1a5c57fd975034e96c71ca823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 46/48] fix: resolve files in the queries of model URIs as
 references relative to the configuration

---
 src/cosim/osp_config_parser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 72f860d..e54aece 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -950,11 +950,13 @@ cosim::filesystem::path file_query_uri_to_path(
     const cosim::uri& queryUri)
 {
     const auto query = queryUri.query();
-    if (query && query->find("file=") < query->size()) {
-        if (query->find("file=file:///") < query->size()) {
-            return file_uri_to_path(std::string(query->substr(5)));
+    if (query && query->substr(0, 5) == "file=") {
+        const auto file = resolve_reference(
+            std::string(baseParentUri.view()) + "/",
+            std::string(query->substr(5)));
+        if (file.scheme() == "file" && file.authority().value_or("").empty()) {
+            return file_uri_to_path(file);
         }
-        return file_uri_to_path(std::string(baseParentUri.view()) + "/" + std::string(query->substr(5)));
     }
     return file_uri_to_path(baseParentUri) / "";
 }
-- 
2.43.0


From ddf59f31c950859e5f6165e93103b6d7bb0c95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:50 +0000
Subject: [PATCH 47/48] fix: refuse proxyfmu URIs whose port is not a port
 number

---
 src/cosim/osp_config_parser.cpp            |  3 ++-
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index e54aece..fb6f6c1 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -954,7 +954,8 @@ cosim::filesystem::path file_query_uri_to_path(
         const auto file = resolve_reference(
             std::string(baseParentUri.view()) + "/",
             std::string(query->substr(5)));
-        if (file.scheme() == "file" && file.authority().value_or("").empty()) {
+        const auto host = file.authority();
+        if (file.scheme() == "file" && host && (host->empty() || *host == "localhost")) {
             return file_uri_to_path(file);
         }
     }
diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index e2d0d24..3d7ad66 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -9,6 +9,10 @@
 #include <cosim/proxy/proxy_uri_sub_resolver.hpp>
 #include <cosim/proxy/remote_fmu.hpp>
 
+#include <charconv>
+#include <stdexcept>
+#include <system_error>
+
 std::pair<std::string, int> parse_authority(std::string_view auth)
 {
     const auto colonIdx = auth.find(':');
@@ -16,8 +20,13 @@ std::pair<std::string, int> parse_authority(std::string_view auth)
         return {std::string(auth), -1};
     } else {
         const auto host = std::string(auth.substr(0, colonIdx));
-        const auto port = std::stoi(std::string(auth.substr(colonIdx + 1)));
-        return {host, port};
+        const auto port = auth.substr(colonIdx + 1);
+        int portNumber = 0;
+        const auto [end, ec] = std::from_chars(port.data(), port.data() + port.size(), portNumber);
+        if (ec != std::errc() || end != port.data() + port.size() || portNumber < 1 || portNumber > 65535) {
+            throw std::invalid_argument("Invalid port: " + std::string(port));
+        }
+        return {host, portNumber};
     }
 }
 
-- 
2.43.0


From 3d3b0b447c2c8084fb71dd5da1f02330c46b7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 48/48] fix: a variable is modified while either of its
 modifiers is set

Removing a variable's input modifier took it off the list of modified
variables even if it had an output modifier, and vice versa.
---
 src/cosim/slave_simulator.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index f985ec2..824b55d 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -148,6 +148,12 @@ struct get_variable_cache
         modifiers[indexMapping[r]] = m;
     }
 
+    bool has_modifier(value_reference r) const
+    {
+        const auto it = indexMapping.find(r);
+        return it != indexMapping.end() && modifiers[it->second];
+    }
+
     void run_modifiers(duration deltaT)
     {
         for (std::size_t i = 0; i < originalValues.size(); ++i) {
@@ -216,6 +222,11 @@ public:
         }
     }
 
+    bool has_modifier(value_reference r) const
+    {
+        return modifiers_.count(r) > 0;
+    }
+
     std::pair<gsl::span<value_reference>, gsl::span<const T>> modify_and_get(duration deltaT)
     {
         if (!hasRunModifiers_) {
@@ -406,7 +417,7 @@ public:
         std::function<double(double, duration)> modifier)
     {
         realSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedRealVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedRealVariables_, ref, realSetCache_.has_modifier(ref) || realGetCache_.has_modifier(ref));
     }
 
     void set_integer_input_modifier(
@@ -414,7 +425,7 @@ public:
         std::function<int(int, duration)> modifier)
     {
         integerSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedIntegerVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedIntegerVariables_, ref, integerSetCache_.has_modifier(ref) || integerGetCache_.has_modifier(ref));
     }
 
     void set_boolean_input_modifier(
@@ -422,7 +433,7 @@ public:
         std::function<bool(bool, duration)> modifier)
     {
         booleanSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedBooleanVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedBooleanVariables_, ref, booleanSetCache_.has_modifier(ref) || booleanGetCache_.has_modifier(ref));
     }
 
     void set_string_input_modifier(
@@ -430,7 +441,7 @@ public:
         std::function<std::string(std::string_view, duration)> modifier)
     {
         stringSetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedStringVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedStringVariables_, ref, stringSetCache_.has_modifier(ref) || stringGetCache_.has_modifier(ref));
     }
 
     void set_real_output_modifier(
@@ -438,7 +449,7 @@ public:
         std::function<double(double, duration)> modifier)
     {
         realGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedRealVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedRealVariables_, ref, realSetCache_.has_modifier(ref) || realGetCache_.has_modifier(ref));
     }
 
     void set_integer_output_modifier(
@@ -446,7 +457,7 @@ public:
         std::function<int(int, duration)> modifier)
     {
         integerGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedIntegerVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedIntegerVariables_, ref, integerSetCache_.has_modifier(ref) || integerGetCache_.has_modifier(ref));
     }
 
     void set_boolean_output_modifier(
@@ -454,7 +465,7 @@ public:
         std::function<bool(bool, duration)> modifier)
     {
         booleanGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedBooleanVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedBooleanVariables_, ref, booleanSetCache_.has_modifier(ref) || booleanGetCache_.has_modifier(ref));
     }
 
     void set_string_output_modifier(
@@ -462,7 +473,7 @@ public:
         std::function<std::string(std::string_view, duration)> modifier)
     {
         stringGetCache_.set_modifier(ref, modifier);
-        set_modified_reference(modifiedStringVariables_, ref, modifier ? true : false);
+        set_modified_reference(modifiedStringVariables_, ref, stringSetCache_.has_modifier(ref) || stringGetCache_.has_modifier(ref));
     }
 
     std::unordered_set<value_reference>& get_modified_real_variables()
-- 
2.43.0

