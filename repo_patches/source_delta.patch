From ce844738908e23598de9802af9d7670ea672889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 01/65] fix: disconnect_variable() must also remove
 function-to-simulator connections

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d59ae4e..ca7b99d 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -124,6 +124,18 @@ public:
                 return;
             }
         }
+        for (auto& f : functions_) {
+            auto& conns = f.second.outgoingSimConnections;
+            const auto it = std::find_if(
+                conns.begin(),
+                conns.end(),
+                [input](const auto& c) { return c.target == input; });
+            if (it != conns.end()) {
+                conns.erase(it);
+                update_function_decimation_factor(f.second);
+                return;
+            }
+        }
     }
 
     void disconnect_variable(function_io_id input)
-- 
2.43.0


From 2d6ae77a62742a8f21653255a2eb762e40586a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 02/65] fix: keep function step size factors up to date when
 simulator factors or connections change

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index ca7b99d..d877c28 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -247,6 +247,10 @@ public:
     {
         COSIM_INPUT_CHECK(factor > 0);
         simulators_.at(i).decimationFactor = factor;
+        // The functions' factors depend on those of the simulators they feed.
+        for (auto& f : functions_) {
+            update_function_decimation_factor(f.second);
+        }
     }
 
 
@@ -302,6 +306,7 @@ private:
                 connections.end(),
                 [i](const auto& c) { return c.target.simulator == i; });
             connections.erase(newEnd, connections.end());
+            update_function_decimation_factor(f.second);
         }
     }
 
-- 
2.43.0


From 6ccdb70dc899368e0af7bff5a971361506ec16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 03/65] fix: variables exposed during a simulation must have
 their current value at once

---
 src/cosim/slave_simulator.cpp | 69 +++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 11 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index f985ec2..5f9f5d3 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -120,14 +120,23 @@ struct get_variable_cache
     std::vector<std::function<T(T, duration)>> modifiers;
     std::unordered_map<value_reference, std::size_t> indexMapping;
 
-    void expose(value_reference r)
+    // Returns whether the variable was not exposed before.
+    bool expose(value_reference r)
     {
-        if (indexMapping.count(r)) return;
+        if (indexMapping.count(r)) return false;
         references.push_back(r);
         originalValues.push_back(T()); // TODO: Use start value from model description
         modifiedValues.push_back(T());
         modifiers.emplace_back();
         indexMapping[r] = references.size() - 1;
+        return true;
+    }
+
+    void initialize(value_reference r, const T& value)
+    {
+        const auto index = indexMapping.at(r);
+        originalValues[index] = value;
+        modifiedValues[index] = value;
     }
 
     typename var_view_type<T>::type get(value_reference r) const
@@ -320,21 +329,53 @@ public:
         return modelDescription_;
     }
 
-    void expose_for_getting(variable_type type, value_reference ref)
+    // Returns whether the variable was not exposed before.
+    bool expose_for_getting(variable_type type, value_reference ref)
     {
         switch (type) {
             case variable_type::real:
-                realGetCache_.expose(ref);
-                break;
+                return realGetCache_.expose(ref);
             case variable_type::integer:
-                integerGetCache_.expose(ref);
-                break;
+                return integerGetCache_.expose(ref);
             case variable_type::boolean:
-                booleanGetCache_.expose(ref);
-                break;
+                return booleanGetCache_.expose(ref);
             case variable_type::string:
-                stringGetCache_.expose(ref);
+                return stringGetCache_.expose(ref);
+            case variable_type::enumeration:
+                COSIM_PANIC();
+        }
+        return false;
+    }
+
+    // Retrieves the current value of a single exposed variable from the slave.
+    void fetch_variable(variable_type type, value_reference ref)
+    {
+        const auto refs = gsl::span<const value_reference>(&ref, 1);
+        switch (type) {
+            case variable_type::real: {
+                double value = 0.0;
+                slave_->get_real_variables(refs, gsl::span<double>(&value, 1));
+                realGetCache_.initialize(ref, value);
+                break;
+            }
+            case variable_type::integer: {
+                int value = 0;
+                slave_->get_integer_variables(refs, gsl::span<int>(&value, 1));
+                integerGetCache_.initialize(ref, value);
+                break;
+            }
+            case variable_type::boolean: {
+                bool value = false;
+                slave_->get_boolean_variables(refs, gsl::span<bool>(&value, 1));
+                booleanGetCache_.initialize(ref, value);
+                break;
+            }
+            case variable_type::string: {
+                std::string value;
+                slave_->get_string_variables(refs, gsl::span<std::string>(&value, 1));
+                stringGetCache_.initialize(ref, value);
                 break;
+            }
             case variable_type::enumeration:
                 COSIM_PANIC();
         }
@@ -638,7 +679,13 @@ cosim::model_description slave_simulator::model_description() const
 
 void slave_simulator::expose_for_getting(variable_type type, value_reference ref)
 {
-    pimpl_->expose_for_getting(type, ref);
+    const bool isNew = pimpl_->expose_for_getting(type, ref);
+    if (isNew && (state_ == slave_state::initialisation || state_ == slave_state::simulation)) {
+        // The slave is already up and running, and its variables may be read
+        // before its next time step is performed.
+        state_guard guard(state_);
+        pimpl_->fetch_variable(type, ref);
+    }
 }
 
 
-- 
2.43.0


From fa8c2d48c4e18c9715bd850be28dcd021bd791e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 04/65] fix: errors during parallel initialisation must reach
 the caller rather than terminate the process

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 59 ++++++++++++++------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d877c28..b031962 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -163,32 +163,19 @@ public:
 
     void initialize()
     {
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->setup(startTime_, stopTime_, std::nullopt);
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_all_simulators([&](simulator& sim) {
+            sim.setup(startTime_, stopTime_, std::nullopt);
+        });
 
         // Run N iterations of the simulators' and functions' step/calculation
         // procedures, where N is the number of simulators in the system,
         // to propagate initial values.
         for (std::size_t i = 0; i < simulators_.size() + functions_.size(); ++i) {
-            for (auto& s : simulators_) {
-                pool_.submit([&] {
-                    s.second.sim->do_iteration();
-                });
-            }
-            pool_.wait_for_tasks_to_finish();
+            for_all_simulators([](simulator& sim) { sim.do_iteration(); });
             calculate_and_transfer();
         }
 
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->start_simulation();
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_all_simulators([](simulator& sim) { sim.start_simulation(); });
         calculate_and_transfer();
     }
 
@@ -221,6 +208,12 @@ public:
                             << info.sim->name() << ": "
                             << ex.what() << '\n';
                         failed = true;
+                    } catch (...) {
+                        std::lock_guard<std::mutex> lck(m);
+                        errMessages
+                            << info.sim->name() << ": "
+                            << "Unknown error" << '\n';
+                        failed = true;
                     }
                 });
             }
@@ -289,6 +282,36 @@ private:
         std::vector<connection_fs> outgoingSimConnections;
     };
 
+    // Performs some operation on all simulators in parallel.  Exceptions must
+    // not escape from the tasks, since these may run on worker threads.
+    template<typename F>
+    void for_all_simulators(const F& operation)
+    {
+        std::mutex m;
+        bool failed = false;
+        std::stringstream errMessages;
+        for (auto& s : simulators_) {
+            const auto sim = s.second.sim;
+            pool_.submit([&, sim] {
+                try {
+                    operation(*sim);
+                } catch (const std::exception& ex) {
+                    std::lock_guard<std::mutex> lck(m);
+                    errMessages << sim->name() << ": " << ex.what() << '\n';
+                    failed = true;
+                } catch (...) {
+                    std::lock_guard<std::mutex> lck(m);
+                    errMessages << sim->name() << ": Unknown error\n";
+                    failed = true;
+                }
+            });
+        }
+        pool_.wait_for_tasks_to_finish();
+        if (failed) {
+            throw error(make_error_code(errc::simulation_error), errMessages.str());
+        }
+    }
+
     void disconnect_simulator_variables(simulator_index i)
     {
         for (auto& s : simulators_) {
-- 
2.43.0


From c22cca7f6f23475af39cb135f78abfa1ef373cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 05/65] fix: refuse to continue a co-simulation that has failed

---
 src/cosim/execution.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6f6b6bf..fe1d393 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -13,6 +13,7 @@
 #include <algorithm>
 #include <atomic>
 #include <sstream>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 #include <vector>
@@ -28,6 +29,7 @@ public:
         : lastStep_(0)
         , currentTime_(startTime)
         , initialized_(false)
+        , failed_(false)
         , stopped_(true)
         , algorithm_(std::move(algo))
         , timer_()
@@ -121,8 +123,11 @@ public:
 
     duration step()
     {
+        if (failed_) {
+            throw error(make_error_code(errc::simulation_error), "The co-simulation has failed and cannot be continued");
+        }
         if (!initialized_) {
-            algorithm_->initialize();
+            fail_on_exception([&] { algorithm_->initialize(); });
             initialized_ = true;
             for (const auto& obs : observers_) {
                 obs->simulation_initialized(lastStep_, currentTime_);
@@ -131,7 +136,8 @@ public:
         for (const auto& man : manipulators_) {
             man->step_commencing(currentTime_);
         }
-        const auto [stepSize, finished] = algorithm_->do_step(currentTime_);
+        const auto [stepSize, finished] =
+            fail_on_exception([&] { return algorithm_->do_step(currentTime_); });
         currentTime_ += stepSize;
         ++lastStep_;
         for (const auto& obs : observers_) {
@@ -303,6 +309,19 @@ private:
         }
     }
 
+    // Performs an operation on the algorithm, after the failure of which the
+    // simulators are in an undefined state and must not be used anymore.
+    template<typename F>
+    std::invoke_result_t<F> fail_on_exception(const F& operation)
+    {
+        try {
+            return operation();
+        } catch (...) {
+            failed_ = true;
+            throw;
+        }
+    }
+
     static bool timed_out(std::optional<time_point> endTime, time_point currentTime, duration stepSize)
     {
         constexpr double relativeTolerance = 0.01;
@@ -315,6 +334,7 @@ private:
     step_number lastStep_;
     time_point currentTime_;
     bool initialized_;
+    bool failed_;
     std::atomic<bool> stopped_;
 
     std::shared_ptr<algorithm> algorithm_;
-- 
2.43.0


From e09c1da27457bdef0da301c67dc5dd231075571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 06/65] fix: asking for the model description of a failed slave
 must not terminate the process

---
 src/cosim/slave_simulator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 5f9f5d3..9bc2480 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -672,7 +672,6 @@ std::string slave_simulator::name() const
 
 cosim::model_description slave_simulator::model_description() const
 {
-    COSIM_PRECONDITION(state_ != slave_state::error);
     return pimpl_->model_description();
 }
 
-- 
2.43.0


From f04dfd7ba05a1148ad143ab4ffa70f45d863ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 07/65] fix: stepping a slave that has failed earlier must give
 an exception

---
 src/cosim/slave_simulator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 9bc2480..71a86f5 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -6,6 +6,7 @@
 #include "cosim/slave_simulator.hpp"
 
 #include "cosim/error.hpp"
+#include "cosim/exception.hpp"
 
 #include <algorithm>
 #include <cassert>
@@ -843,6 +844,11 @@ step_result slave_simulator::do_step(
     time_point currentT,
     duration deltaT)
 {
+    if (state_ == slave_state::error) {
+        throw error(
+            make_error_code(errc::simulation_error),
+            "The slave has failed earlier and cannot be used anymore");
+    }
     COSIM_PRECONDITION(state_ == slave_state::simulation);
     state_guard guard(state_);
     return pimpl_->do_step(currentT, deltaT);
-- 
2.43.0


From a95d5cf7e96d9404768f8642ecb7571bcc86c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 08/65] fix: connect_variables() must reject variables of
 different types and invalid function variables

---
 src/cosim/execution.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index fe1d393..c4d0f98 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -273,6 +273,9 @@ private:
     {
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
+        if (output.type != input.type) {
+            throw std::logic_error("Problem adding connection: Variable types differ");
+        }
 
         if (connections.count(input)) {
             throw std::logic_error("Input variable already connected");
@@ -307,6 +310,17 @@ private:
         if (io.causality != causality) {
             throw std::logic_error("Error connecting function variable: Wrong causality");
         }
+        if (const auto type = std::get_if<variable_type>(&io.type); type && *type != variable.type) {
+            throw std::logic_error("Error connecting function variable: Wrong type");
+        }
+        const auto validate_instance = [](const auto& count, int instance) {
+            const auto n = std::get_if<int>(&count);
+            if (instance < 0 || (n && instance >= *n)) {
+                throw std::out_of_range("Error connecting function variable: Invalid instance index");
+            }
+        };
+        validate_instance(group.count, variable.reference.group_instance);
+        validate_instance(io.count, variable.reference.io_instance);
     }
 
     // Performs an operation on the algorithm, after the failure of which the
-- 
2.43.0


From d1c3e1b57d32d200d8b4134fa5b2ea499ca3ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 09/65] fix: an input variable must not be connected to both a
 simulator and a function

---
 src/cosim/execution.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index c4d0f98..f3417fd 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -277,13 +277,23 @@ private:
             throw std::logic_error("Problem adding connection: Variable types differ");
         }
 
-        if (connections.count(input)) {
+        if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
 
+    bool is_connected(variable_id input) const
+    {
+        return ssConnections_.count(input) || fsConnections_.count(input);
+    }
+
+    bool is_connected(function_io_id input) const
+    {
+        return sfConnections_.count(input);
+    }
+
     void validate_variable(variable_id variable, variable_causality causality)
     {
         const auto variables = simulators_.at(variable.simulator)->model_description().variables;
-- 
2.43.0


From 7e434ddd911f474f8ee96060360d923d423139b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 10/65] fix: accept connections from calculated parameters in
 an execution, like in a system structure

---
 src/cosim/execution.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index f3417fd..08ab8a2 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -300,7 +300,13 @@ private:
         const auto it = std::find_if(
             variables.begin(),
             variables.end(),
-            [=](const auto& var) { return var.causality == causality && var.type == variable.type && var.reference == variable.reference; });
+            [=](const auto& var) {
+                // Like in `system_structure`, calculated parameters may be used as outputs.
+                const auto varCausality = var.causality == variable_causality::calculated_parameter
+                    ? variable_causality::output
+                    : var.causality;
+                return varCausality == causality && var.type == variable.type && var.reference == variable.reference;
+            });
         if (it == variables.end()) {
             std::ostringstream oss;
             oss << "Problem adding connection: Cannot find variable with reference " << variable.reference
-- 
2.43.0


From 1f2bc8cd17da139e6e4779d968f5c1e7a73a7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 11/65] fix: do not lose stop requests, and report truthfully
 whether a simulation is running

---
 src/cosim/execution.cpp | 60 +++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 08ab8a2..ab011be 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -30,7 +30,8 @@ public:
         , currentTime_(startTime)
         , initialized_(false)
         , failed_(false)
-        , stopped_(true)
+        , running_(false)
+        , stopRequested_(false)
         , algorithm_(std::move(algo))
         , timer_()
     {
@@ -118,7 +119,7 @@ public:
 
     bool is_running() const noexcept
     {
-        return !stopped_;
+        return running_;
     }
 
     duration step()
@@ -151,28 +152,28 @@ public:
 
     bool simulate_until(std::optional<time_point> endTime)
     {
-        stopped_ = false;
-        timer_.start(currentTime_);
-        duration stepSize;
-        do {
-            stepSize = step();
-            timer_.sleep(currentTime_);
-        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
-        bool isStopped = stopped_;
-        stopped_ = true;
-        return !isStopped;
+        request_run();
+        return run_until(endTime);
     }
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
     {
-        return std::async(std::launch::async, [this, endTime]{
-            return simulate_until(endTime);
-        });
+        // This must happen before we return, not when the new thread starts,
+        // or a subsequent call to `stop_simulation()` might have no effect.
+        request_run();
+        try {
+            return std::async(std::launch::async, [this, endTime]{
+                return run_until(endTime);
+            });
+        } catch (...) {
+            running_ = false;
+            throw;
+        }
     }
 
     void stop_simulation()
     {
-        stopped_ = true;
+        stopRequested_ = true;
     }
 
     std::shared_ptr<real_time_config> get_real_time_config() const
@@ -265,6 +266,30 @@ public:
     }
 
 private:
+    void request_run()
+    {
+        stopRequested_ = false;
+        running_ = true;
+    }
+
+    bool run_until(std::optional<time_point> endTime)
+    {
+        try {
+            timer_.start(currentTime_);
+            bool endTimeReached = false;
+            do {
+                const auto stepSize = step();
+                timer_.sleep(currentTime_);
+                endTimeReached = timed_out(endTime, currentTime_, stepSize);
+            } while (!stopRequested_ && !endTimeReached);
+            running_ = false;
+            return endTimeReached;
+        } catch (...) {
+            running_ = false;
+            throw;
+        }
+    }
+
     template<typename OutputID, typename InputID>
     void connect_variables_impl(
         std::unordered_map<InputID, OutputID>& connections,
@@ -365,7 +390,8 @@ private:
     time_point currentTime_;
     bool initialized_;
     bool failed_;
-    std::atomic<bool> stopped_;
+    std::atomic<bool> running_;
+    std::atomic<bool> stopRequested_;
 
     std::shared_ptr<algorithm> algorithm_;
     std::vector<std::shared_ptr<simulator>> simulators_;
-- 
2.43.0


From 9673f05595f0a635e5ad2ef47a73cd8531b606d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 12/65] fix: a slave that fails during initial value iteration
 must be considered broken

---
 src/cosim/slave_simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 71a86f5..23f2e31 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -830,6 +830,7 @@ void slave_simulator::setup(
 
 void slave_simulator::do_iteration()
 {
+    state_guard guard(state_);
     return pimpl_->do_iteration();
 }
 
-- 
2.43.0


From 14dcf4804e86b0622b5bd9fcd0a4f504f17a2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 13/65] fix: setting variables after a slave has failed must
 not violate internal invariants

---
 src/cosim/slave_simulator.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 23f2e31..3837981 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -567,15 +567,25 @@ private:
         const auto [integerRefs, integerValues] = integerSetCache_.modify_and_get(deltaT);
         const auto [booleanRefs, booleanValues] = booleanSetCache_.modify_and_get(deltaT);
         const auto [stringRefs, stringValues] = stringSetCache_.modify_and_get(deltaT);
-        slave_->set_variables(
-            gsl::make_span(realRefs),
-            gsl::make_span(realValues),
-            gsl::make_span(integerRefs),
-            gsl::make_span(integerValues),
-            gsl::make_span(booleanRefs),
-            gsl::make_span(booleanValues),
-            gsl::make_span(stringRefs),
-            gsl::make_span(stringValues));
+        try {
+            slave_->set_variables(
+                gsl::make_span(realRefs),
+                gsl::make_span(realValues),
+                gsl::make_span(integerRefs),
+                gsl::make_span(integerValues),
+                gsl::make_span(booleanRefs),
+                gsl::make_span(booleanValues),
+                gsl::make_span(stringRefs),
+                gsl::make_span(stringValues));
+        } catch (...) {
+            reset_set_caches();
+            throw;
+        }
+        reset_set_caches();
+    }
+
+    void reset_set_caches()
+    {
         realSetCache_.reset();
         integerSetCache_.reset();
         booleanSetCache_.reset();
-- 
2.43.0


From ad010284b16130c3151a36459b366ff575245ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 14/65] fix: tell observers about variable connections

---
 src/cosim/execution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index ab011be..7a7edff 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -81,6 +81,9 @@ public:
                 simulators_[i].get(),
                 currentTime_);
         }
+        for (const auto& [input, output] : ssConnections_) {
+            obs->variables_connected(output, input, currentTime_);
+        }
         if (initialized_) {
             obs->simulation_initialized(lastStep_, currentTime_);
         }
@@ -100,6 +103,9 @@ public:
     void connect_variables(variable_id output, variable_id input)
     {
         connect_variables_impl(ssConnections_, output, input);
+        for (const auto& obs : observers_) {
+            obs->variables_connected(output, input, currentTime_);
+        }
     }
 
     void connect_variables(variable_id output, function_io_id input)
-- 
2.43.0


From 1e9012e4edf537d71eecd660f78aa543bfefed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 15/65] fix: adding a slave after initialisation must give an
 exception rather than terminate at the next step

---
 src/cosim/execution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 7a7edff..8963af8 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -51,6 +51,9 @@ public:
         std::string_view name,
         duration stepSizeHint)
     {
+        if (initialized_) {
+            throw error(make_error_code(errc::unsupported_feature), "Slaves must be added before simulation is started");
+        }
         const auto index = static_cast<simulator_index>(simulators_.size());
         simulators_.push_back(std::make_unique<slave_simulator>(slave, name));
         algorithm_->add_simulator(index, simulators_.back().get(), stepSizeHint);
-- 
2.43.0


From 3ae3f447738e34e29a04533d7adc849e3dffece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 16/65] fix: setting an output modifier for an unexposed
 variable must not affect other variables

---
 src/cosim/slave_simulator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 3837981..73f40ab 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -155,7 +155,14 @@ struct get_variable_cache
 
     void set_modifier(value_reference r, std::function<T(T, duration)> m)
     {
-        modifiers[indexMapping[r]] = m;
+        const auto it = indexMapping.find(r);
+        if (it == indexMapping.end()) {
+            std::ostringstream oss;
+            oss << "Variable with reference " << r
+                << " not found in exposed variables. Variables must be exposed before calling set_modifier()";
+            throw std::out_of_range(oss.str());
+        }
+        modifiers[it->second] = m;
     }
 
     void run_modifiers(duration deltaT)
-- 
2.43.0


From 5c9f1e41325df96ee82bbd15a2b3506b83076f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 17/65] fix: enumeration variables must be refused or left out
 rather than terminate the process

---
 src/cosim/manipulator/override_manipulator.cpp | 2 +-
 src/cosim/observer/file_observer.cpp           | 4 ++--
 src/cosim/observer/slave_value_provider.cpp    | 1 +
 src/cosim/slave_simulator.cpp                  | 6 +++---
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cosim/manipulator/override_manipulator.cpp b/src/cosim/manipulator/override_manipulator.cpp
index f3a42e6..366bbbd 100644
--- a/src/cosim/manipulator/override_manipulator.cpp
+++ b/src/cosim/manipulator/override_manipulator.cpp
@@ -187,7 +187,7 @@ void override_manipulator::reset_variable(
             add_action(index, variable, variable_type::string, scenario::string_modifier{nullptr});
             break;
         default:
-            COSIM_PANIC();
+            throw std::invalid_argument("Can't reset variable since its type is not supported");
     }
 }
 
diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index eacfbcb..81e04e5 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -179,7 +179,7 @@ private:
         }
 
         for (const auto& vd : observable_->model_description().variables) {
-            if (vd.causality != variable_causality::local) {
+            if (vd.causality != variable_causality::local && vd.type != variable_type::enumeration) {
                 initialize_variable(vd);
             }
         }
@@ -537,7 +537,7 @@ file_observer::simulator_logging_config file_observer::parse_config(const std::s
                             BOOST_LOG_SEV(log::logger(), log::info) << "Logging variable: " << modelName << ":" << name;
                             break;
                         default:
-                            COSIM_PANIC_M("Variable type not supported.");
+                            throw std::runtime_error("Can't log variable with name " + name + " since its type is not supported");
                     }
                 }
             }
diff --git a/src/cosim/observer/slave_value_provider.cpp b/src/cosim/observer/slave_value_provider.cpp
index 14e60d1..f6d46ee 100644
--- a/src/cosim/observer/slave_value_provider.cpp
+++ b/src/cosim/observer/slave_value_provider.cpp
@@ -36,6 +36,7 @@ slave_value_provider::slave_value_provider(observable* observable)
     : observable_(observable)
 {
     for (const auto& vd : observable->model_description().variables) {
+        if (vd.type == variable_type::enumeration) continue; // not supported
         observable->expose_for_getting(vd.type, vd.reference);
         switch (vd.type) {
             case cosim::variable_type::real:
diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 73f40ab..7eb17ab 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -350,7 +350,7 @@ public:
             case variable_type::string:
                 return stringGetCache_.expose(ref);
             case variable_type::enumeration:
-                COSIM_PANIC();
+                throw error(make_error_code(errc::unsupported_feature), "Variables of enumeration type");
         }
         return false;
     }
@@ -385,7 +385,7 @@ public:
                 break;
             }
             case variable_type::enumeration:
-                COSIM_PANIC();
+                throw error(make_error_code(errc::unsupported_feature), "Variables of enumeration type");
         }
     }
 
@@ -426,7 +426,7 @@ public:
                 stringSetCache_.expose(ref, get_start_value<std::string>(vd));
                 break;
             case variable_type::enumeration:
-                COSIM_PANIC();
+                throw error(make_error_code(errc::unsupported_feature), "Variables of enumeration type");
         }
     }
 
-- 
2.43.0


From 66a8d4998c427b557afe7cff571b8d3daf097bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 18/65] fix: scenario events due at the same step must take
 effect in order of their time

---
 src/cosim/manipulator/scenario_manager.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 467dbb1..25e578a 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -11,6 +11,8 @@
 #include "cosim/scenario_parser.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <algorithm>
+#include <map>
 
 namespace cosim
 {
@@ -34,7 +36,12 @@ public:
         state.startTime = currentTime;
         state.endTime = s.end;
 
-        for (const auto& event : s.events) {
+        auto events = s.events;
+        std::stable_sort(
+            events.begin(),
+            events.end(),
+            [](const auto& a, const auto& b) { return a.time < b.time; });
+        for (const auto& event : events) {
             const auto index = static_cast<int>(state.remainingEvents.size());
             state.remainingEvents[index] = event;
         }
@@ -110,8 +117,8 @@ public:
 private:
     struct scenario_state
     {
-        std::unordered_map<int, scenario::event> remainingEvents;
-        std::unordered_map<int, scenario::event> executedEvents;
+        std::map<int, scenario::event> remainingEvents;
+        std::map<int, scenario::event> executedEvents;
         time_point startTime;
         std::optional<time_point> endTime;
         bool running = false;
@@ -211,7 +218,7 @@ private:
             a.modifier);
     }
 
-    void cleanup(const std::unordered_map<int, scenario::event>& executedEvents)
+    void cleanup(const std::map<int, scenario::event>& executedEvents)
     {
         for (const auto& entry : executedEvents) {
             auto e = entry.second;
-- 
2.43.0


From 66689cf117edbaa20b09dbcf0482751c5304c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 19/65] fix: a scenario that is replaced by another must be
 undone, and one that has ended only once

---
 src/cosim/manipulator/scenario_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 25e578a..10c1c51 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -32,6 +32,9 @@ public:
 
     void load_scenario(const scenario::scenario& s, time_point currentTime)
     {
+        if (state.running) {
+            cleanup(state.executedEvents);
+        }
         state = scenario_state{};
         state.startTime = currentTime;
         state.endTime = s.end;
@@ -74,6 +77,7 @@ public:
                 << ", performing cleanup";
             state.running = false;
             cleanup(state.executedEvents);
+            state.executedEvents.clear();
             return;
         }
 
-- 
2.43.0


From 52c3fed40e24b224f6b7ba2ed8363e1b8812fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 20/65] fix: reject scenario files which refer to unknown
 variables rather than crash

---
 src/cosim/scenario_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 6306429..4001157 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -215,8 +215,15 @@ scenario::scenario parse_scenario(
             find_simulator(simulators, specified_or_default(event, "model", defaultOpts.model));
         auto varName =
             specified_or_default(event, "variable", defaultOpts.variable);
-        const auto var =
-            *find_variable(simulator->model_description(), varName);
+        const auto foundVar =
+            find_variable(simulator->model_description(), varName);
+        if (!foundVar) {
+            std::ostringstream oss;
+            oss << "Can't find variable with name: " << varName
+                << " in model with name: " << simulator->name();
+            throw std::invalid_argument(oss.str());
+        }
+        const auto& var = *foundVar;
 
         auto mode = specified_or_default(event, "action", defaultOpts.action);
         bool isInput = is_input(var.causality);
-- 
2.43.0


From c9f45fa9688ae51a57e766b9f445671f64f49a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 21/65] fix: reject scenario files with times out of range or
 elements of the wrong kind rather than misread them

---
 src/cosim/scenario_parser.cpp | 37 ++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 4001157..aaf68d8 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -5,6 +5,7 @@
  */
 #include "cosim/scenario_parser.hpp"
 
+#include <cmath>
 #include <cstdlib>
 #include <fstream>
 #include <functional>
@@ -151,6 +152,32 @@ std::optional<std::string> parse_element(
     }
 }
 
+// Checks that a node, if present and not empty, has the expected kind, so that
+// its contents are not silently ignored.
+void check_node_type(
+    const YAML::Node& node,
+    YAML::NodeType::value expected,
+    const std::string& name)
+{
+    if (!node || node.IsNull() || node.Type() == expected) return;
+    std::ostringstream oss;
+    oss << "Invalid scenario: " << name << " must be a "
+        << (expected == YAML::NodeType::Map ? "mapping" : "sequence");
+    throw std::invalid_argument(oss.str());
+}
+
+cosim::time_point parse_time(const YAML::Node& node)
+{
+    const auto time = node.as<double>();
+    constexpr auto maxTime = to_double_time_point(time_point::max());
+    if (!(std::abs(time) < maxTime)) {
+        std::ostringstream oss;
+        oss << "Time out of range: " << time;
+        throw std::invalid_argument(oss.str());
+    }
+    return to_time_point(time);
+}
+
 defaults parse_defaults(const YAML::Node& scenario)
 {
     if (scenario["defaults"]) {
@@ -181,8 +208,7 @@ std::string specified_or_default(
 std::optional<cosim::time_point> parse_end_time(const YAML::Node& j)
 {
     if (j["end"]) {
-        auto endTime = j["end"].as<double>();
-        return to_time_point(endTime);
+        return parse_time(j["end"]);
     }
     return std::nullopt;
 }
@@ -202,14 +228,15 @@ scenario::scenario parse_scenario(
         throw std::system_error(errno, std::system_category(), oss.str());
     }
     YAML::Node j = YAML::Load(i);
+    check_node_type(j, YAML::NodeType::Map, "the top level element");
+    check_node_type(j["defaults"], YAML::NodeType::Map, "'defaults'");
+    check_node_type(j["events"], YAML::NodeType::Sequence, "'events'");
 
     std::vector<scenario::event> events;
     defaults defaultOpts = parse_defaults(j);
 
     for (const auto& event : j["events"]) {
-        auto trigger = event["time"];
-        auto triggerTime = trigger.as<double>();
-        auto time = to_time_point(triggerTime);
+        auto time = parse_time(event["time"]);
 
         const auto [index, simulator] =
             find_simulator(simulators, specified_or_default(event, "model", defaultOpts.model));
-- 
2.43.0


From 3b5900a84987d296074a5d2a95cb0876b80d18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 22/65] fix: refuse to expose variables which a slave does not
 have

---
 src/cosim/slave_simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 7eb17ab..38d81fb 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -340,6 +340,7 @@ public:
     // Returns whether the variable was not exposed before.
     bool expose_for_getting(variable_type type, value_reference ref)
     {
+        find_variable_description(ref, type); // throws if it does not exist
         switch (type) {
             case variable_type::real:
                 return realGetCache_.expose(ref);
-- 
2.43.0


From 9e949fefcc552ed4857ac5ce2dde29a6fb1928bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 23/65] fix: a time series observer added during a simulation
 must not report a step that never was

---
 src/cosim/observer/time_series_observer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cosim/observer/time_series_observer.cpp b/src/cosim/observer/time_series_observer.cpp
index 09d40b8..a418d2a 100644
--- a/src/cosim/observer/time_series_observer.cpp
+++ b/src/cosim/observer/time_series_observer.cpp
@@ -73,7 +73,9 @@ public:
         : observable_(observable)
         , bufSize_(bufSize)
     {
-        observe(0, startTime);
+        // This is replaced by the first actual observation, whose step number
+        // is not known yet.
+        timeSamples_[0] = startTime;
     }
 
     ~single_slave_observer() noexcept = default;
@@ -81,6 +83,10 @@ public:
     void observe(step_number timeStep, time_point currentTime)
     {
         std::lock_guard<std::mutex> lock(lock_);
+        if (!hasObserved_) {
+            timeSamples_.clear();
+            hasObserved_ = true;
+        }
         for (auto& [idx, samples] : realSamples_) {
             samples[timeStep] = observable_->get_real(idx);
             adjustIfFull(samples, bufSize_);
@@ -98,12 +104,12 @@ public:
         std::lock_guard<std::mutex> lock(lock_);
         switch (type) {
             case variable_type::real:
-                realSamples_[reference] = std::map<step_number, double>();
                 observable_->expose_for_getting(type, reference);
+                realSamples_[reference] = std::map<step_number, double>();
                 break;
             case variable_type::integer:
-                intSamples_[reference] = std::map<step_number, int>();
                 observable_->expose_for_getting(type, reference);
+                intSamples_[reference] = std::map<step_number, int>();
                 break;
             default:
                 std::ostringstream oss;
@@ -198,6 +204,7 @@ private:
     std::map<value_reference, std::map<step_number, double>> realSamples_;
     std::map<value_reference, std::map<step_number, int>> intSamples_;
     std::map<step_number, time_point> timeSamples_;
+    bool hasObserved_ = false;
     observable* observable_;
     size_t bufSize_;
     std::mutex lock_;
-- 
2.43.0


From a93ffe8602ca305be671a4f2ff22a47c5017da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 24/65] fix: only one of two simultaneous requests to start
 recording must succeed

---
 include/cosim/observer/file_observer.hpp | 2 ++
 src/cosim/observer/file_observer.cpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/cosim/observer/file_observer.hpp b/include/cosim/observer/file_observer.hpp
index 686cac2..2c784a2 100644
--- a/include/cosim/observer/file_observer.hpp
+++ b/include/cosim/observer/file_observer.hpp
@@ -15,6 +15,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 
 
@@ -203,6 +204,7 @@ private:
     std::optional<file_observer_config> config_;
     cosim::filesystem::path logDir_;
     std::atomic<bool> recording_ = true;
+    std::mutex startStopMutex_;
 };
 
 
diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index 81e04e5..cf87dea 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -459,6 +459,7 @@ bool file_observer::is_recording()
 
 void file_observer::start_recording()
 {
+    std::lock_guard<std::mutex> lock(startStopMutex_);
     if (recording_) {
         throw std::runtime_error("File observer is already recording");
     } else {
@@ -471,6 +472,7 @@ void file_observer::start_recording()
 
 void file_observer::stop_recording()
 {
+    std::lock_guard<std::mutex> lock(startStopMutex_);
     if (!recording_) {
         throw std::runtime_error("File observer has already stopped recording");
     } else {
-- 
2.43.0


From 2a29116165174180d222c20d2fd5c45d74f0d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 25/65] fix: refuse a decimation factor of zero for log files
 rather than crash

---
 src/cosim/observer/file_observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index cf87dea..296fef8 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -74,6 +74,7 @@ public:
         , timeStampedFileNames_(timeStampedFileNames)
         , precision_(precision)
     {
+        COSIM_INPUT_CHECK(decimationFactor > 0);
         initialize_config(variables);
     }
 
-- 
2.43.0


From 7fda22bfb241045cb78fd6e657a742eda1bb261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 26/65] fix: quote names and values in log files where this is
 needed to keep columns and rows apart

---
 src/cosim/observer/file_observer.cpp | 31 +++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index 296fef8..e849565 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -18,6 +18,8 @@
 #include <map>
 #include <mutex>
 #include <sstream>
+#include <string>
+#include <string_view>
 #include <utility>
 #include <vector>
 
@@ -38,6 +40,18 @@ std::string format_time(boost::posix_time::ptime now)
     return converter.to_bytes(wss.str());
 }
 
+// Quotes a string if it contains characters which have a meaning in CSV files.
+std::string to_csv_field(std::string_view s)
+{
+    if (s.find_first_of(",\"\r\n") == std::string_view::npos) return std::string(s);
+    std::string quoted = "\"";
+    for (const auto c : s) {
+        if (c == '"') quoted += '"';
+        quoted += c;
+    }
+    return quoted + '"';
+}
+
 void clear_file_contents_if_exists(const cosim::filesystem::path& filePath, std::ofstream& fsw)
 {
     if (cosim::filesystem::exists(filePath)) {
@@ -149,6 +163,13 @@ private:
         }
     }
 
+    void write(const std::vector<std::string_view>& values, std::stringstream& ss)
+    {
+        for (const auto value : values) {
+            ss << "," << to_csv_field(value);
+        }
+    }
+
     void initialize_variable(const variable_description& vd)
     {
         observable_->expose_for_getting(vd.type, vd.reference);
@@ -226,16 +247,16 @@ private:
 
         // Add variable names
         for (const auto& vd : realVars_) {
-            ss << "," << vd.name;
+            ss << "," << to_csv_field(vd.name);
         }
         for (const auto& vd : intVars_) {
-            ss << "," << vd.name;
+            ss << "," << to_csv_field(vd.name);
         }
         for (const auto& vd : boolVars_) {
-            ss << "," << vd.name;
+            ss << "," << to_csv_field(vd.name);
         }
         for (const auto& vd : stringVars_) {
-            ss << "," << vd.name;
+            ss << "," << to_csv_field(vd.name);
         }
 
         ss << std::endl;
@@ -326,7 +347,7 @@ private:
                 if (realSamples_.count(stepCount)) write<double>(realSamples_[stepCount], ss);
                 if (intSamples_.count(stepCount)) write<int>(intSamples_[stepCount], ss);
                 if (boolSamples_.count(stepCount)) write<bool>(boolSamples_[stepCount], ss);
-                if (stringSamples_.count(stepCount)) write<std::string_view>(stringSamples_[stepCount], ss);
+                if (stringSamples_.count(stepCount)) write(stringSamples_[stepCount], ss);
 
                 ss << std::endl;
             }
-- 
2.43.0


From 0f7be5535498450737ba3ed0979b878063811a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 27/65] fix: heed the timeStampedFileNames attribute in log
 configuration files

---
 src/cosim/observer/file_observer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index e849565..6a7e548 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -582,7 +582,11 @@ file_observer_config file_observer_config::parse(const filesystem::path& configP
         boost::property_tree::xml_parser::no_comments | boost::property_tree::xml_parser::trim_whitespace);
 
     file_observer_config config;
-    for (const auto& simulator : ptree.get_child("simulators")) {
+    const auto& simulators = ptree.get_child("simulators");
+    if (const auto flag = get_optional_attribute<bool>(simulators, "timeStampedFileNames")) {
+        config.set_timestamped_filenames(*flag);
+    }
+    for (const auto& simulator : simulators) {
         if (simulator.first == "simulator") {
             const auto modelName = get_attribute<std::string>(simulator.second, "name");
             const auto decimationFactor = get_optional_attribute<size_t>(simulator.second, "decimationFactor");
-- 
2.43.0


From c9c7528bf2d2ea49e9ae0ad41d6d7a3655fba95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 28/65] fix: referring to an entity of the wrong kind is an
 invalid system structure, not a logic error

---
 src/cosim/system_structure.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 4e285c6..69615d4 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -210,7 +210,9 @@ const variable_description& system_structure::get_variable_description(
     }
     const auto model = entity_type_to<cosim::model>(sit->second.type);
     if (!model) {
-        throw std::logic_error("Not a simulator: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a simulator: " + to_text(v));
     }
     const auto& modelInfo = modelCache_.at(model->description()->uuid);
     const auto vit = modelInfo.variables.find(v.variable_name);
@@ -235,7 +237,9 @@ system_structure::get_function_io_description(
     }
     const auto functionType = entity_type_to<function_type>(fit->second.type);
     if (!functionType) {
-        throw std::logic_error("Not a function: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a function: " + to_text(v));
     }
     const auto& functionInfo = functionCache_.at(v.entity_name);
     const auto git = functionInfo.ios.find(v.variable_group_name);
-- 
2.43.0


From 9b7f1c1084a41a813ecf8e7a55ad672e077a6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 29/65] fix: a system structure must not accept connections to
 function variable instances which do not exist

---
 src/cosim/system_structure.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 69615d4..20ac119 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -254,6 +254,16 @@ system_structure::get_function_io_description(
             make_error_code(errc::invalid_system_structure),
             "No such variable: " + to_text(v));
     }
+    const auto& group =
+        functionInfo.description.io_groups[vit->second.group_index];
+    const auto groupCount = std::get<int>(group.count);
+    const auto ioCount = std::get<int>(vit->second.description.count);
+    if (v.variable_group_instance < 0 || v.variable_group_instance >= groupCount ||
+        v.variable_instance < 0 || v.variable_instance >= ioCount) {
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "No such variable: " + to_text(v));
+    }
     return vit->second;
 }
 
-- 
2.43.0


From 7e7b7e1d7b933a787b5fd89e1ed349b4d7ecf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 30/65] fix: percent_decode() must not misread strings of fewer
 than three characters

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index a2889d8..d21b8be 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -459,7 +459,7 @@ std::string percent_decode(std::string_view encoded)
     std::string decoded;
     while (!encoded.empty()) {
         const auto i = encoded.find('%');
-        if (i > encoded.size() - 3) {
+        if (i == std::string_view::npos || encoded.size() - i < 3) {
             decoded += encoded;
             encoded.remove_prefix(encoded.size());
         } else {
-- 
2.43.0


From cbc2fee1e96a401128ce6000b318301b6bd8dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 31/65] fix: check the characters of the query, not those of
 the path, when composing a URI

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index d21b8be..e4d6686 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -186,7 +186,7 @@ uri::uri(
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
-    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, path));
+    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
         (scheme ? scheme->size() + 1 : 0) +
         (authority ? authority->size() + 2 : 0) +
-- 
2.43.0


From aabe86b85f9649f45bb7364bc618fc43fed942e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 32/65] fix: remove one segment only for each double-dot
 segment, also if it is empty

---
 src/cosim/uri.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index e4d6686..f43d9b4 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -309,10 +309,8 @@ std::string_view remove_dot_segments(
     outputBuffer.clear();
 
     const auto removeLastOutputSegment = [&] {
-        if (outputBuffer.empty()) return;
-        outputBuffer.pop_back();
-        while (!outputBuffer.empty() && outputBuffer.back() != '/') outputBuffer.pop_back();
-        if (!outputBuffer.empty()) outputBuffer.pop_back();
+        const auto lastSlash = outputBuffer.find_last_of('/');
+        outputBuffer.erase(lastSlash == std::string::npos ? 0 : lastSlash);
     };
 
     while (!inputBuffer.empty()) {
-- 
2.43.0


From 36bbcd20a41d59dfeedb2c168b8b88a9f863b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 33/65] fix: refuse to compose URIs from paths which would be
 taken for a scheme or authority

---
 src/cosim/uri.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index f43d9b4..451b37d 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -185,6 +185,9 @@ uri::uri(
         (!scheme->empty() && all_chars_satisfy(is_scheme_char, *scheme)));
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
+    COSIM_INPUT_CHECK(authority || path.substr(0, 2) != "//");
+    COSIM_INPUT_CHECK(scheme || authority ||
+        path.substr(0, path.find('/')).find(':') == std::string_view::npos);
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
     COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
-- 
2.43.0


From 03fd28ecb9185a4fee27991b0c5559ff770ccd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 34/65] fix: file_lock move assignment released the file before
 the locks on it

---
 src/cosim/utility/concurrency.cpp | 11 +++++++++++
 src/cosim/utility/concurrency.hpp |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c55d14a..7acc23b 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -40,6 +40,17 @@ file_lock::file_lock(
 }
 
 
+file_lock& file_lock::operator=(file_lock&& other) noexcept
+{
+    // Any locks we hold must be released before the objects they refer to, so
+    // the order here has to be the reverse of the declaration order.
+    fileLock_ = std::move(other.fileLock_);
+    mutexLock_ = std::move(other.mutexLock_);
+    fileMutex_ = std::move(other.fileMutex_);
+    return *this;
+}
+
+
 void file_lock::lock()
 {
     // NOTE: The reason we can't use std::lock() here is that we must make
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index ba0d7a5..bd885ee 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -91,6 +91,14 @@ public:
         const cosim::filesystem::path& path,
         file_lock_initial_state initialState = file_lock_initial_state::not_locked);
 
+    file_lock(const file_lock&) = delete;
+    file_lock& operator=(const file_lock&) = delete;
+
+    file_lock(file_lock&&) noexcept = default;
+    file_lock& operator=(file_lock&&) noexcept;
+
+    ~file_lock() noexcept = default;
+
     /**
      *  Acquires a lock on the file, blocking if necessary.
      *
-- 
2.43.0


From ebb147cec2bfd7858dc37f6993fc45323b154697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 35/65] fix: file_lock::try_lock_shared() blocked while another
 thread waited for a shared lock

---
 src/cosim/utility/concurrency.cpp | 20 +++++++++++++++++---
 src/cosim/utility/concurrency.hpp |  1 +
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 7acc23b..3be3130 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -203,10 +203,22 @@ void file_lock::boost_wrapper::unlock()
 
 void file_lock::boost_wrapper::lock_shared()
 {
-    std::lock_guard<std::mutex> countLock(shareCountMutex_);
+    std::unique_lock<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ >= 0);
     if (shareCount_ == 0) {
-        fileLock_.lock_sharable();
+        // The mutex must not be held while we wait for other processes, or
+        // try_lock_shared() would block too.
+        ++acquiring_;
+        countLock.unlock();
+        try {
+            fileLock_.lock_sharable();
+        } catch (...) {
+            countLock.lock();
+            if (--acquiring_ == 0 && shareCount_ == 0) fileLock_.unlock_sharable();
+            throw;
+        }
+        countLock.lock();
+        --acquiring_;
     }
     ++shareCount_;
 }
@@ -228,7 +240,9 @@ void file_lock::boost_wrapper::unlock_shared()
 {
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ > 0);
-    if (shareCount_ == 1) fileLock_.unlock_sharable();
+    // If another thread is in the process of acquiring a shared lock, we have
+    // to leave the file locked for it.
+    if (shareCount_ == 1 && acquiring_ == 0) fileLock_.unlock_sharable();
     --shareCount_;
 }
 
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index bd885ee..49e917a 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -180,6 +180,7 @@ private:
         boost::interprocess::file_lock fileLock_;
         std::mutex shareCountMutex_;
         int shareCount_ = 0; // -1 means exclusive lock
+        int acquiring_ = 0; // number of threads waiting for a shared file lock
     };
 
     // Holds the mutex and file lock associated with a particular file.
-- 
2.43.0


From c56089863850185815b262849665fa212a079f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 36/65] fix: closing a lock file released the lock another
 thread had just acquired on it

---
 src/cosim/utility/concurrency.cpp | 53 ++++++++++++++++++++++++++-----
 src/cosim/utility/concurrency.hpp |  7 +++-
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 3be3130..b54a8c5 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -26,11 +26,28 @@ namespace utility
 // file_lock
 // =============================================================================
 
+namespace
+{
+// Protects the process-wide file mutex cache, as well as the opening and
+// closing of lock files.
+std::mutex& file_mutex_cache_mutex()
+{
+    static std::mutex mutex;
+    return mutex;
+}
+} // namespace
+
+
+file_lock::file_lock(std::shared_ptr<file_mutex> fileMutex) noexcept
+    : fileMutex_(std::move(fileMutex))
+{
+}
+
 
 file_lock::file_lock(
     const cosim::filesystem::path& path,
     file_lock_initial_state initialState)
-    : fileMutex_(get_file_mutex(path))
+    : file_lock(get_file_mutex(path))
 {
     if (initialState == file_lock_initial_state::locked) {
         lock();
@@ -42,15 +59,36 @@ file_lock::file_lock(
 
 file_lock& file_lock::operator=(file_lock&& other) noexcept
 {
-    // Any locks we hold must be released before the objects they refer to, so
-    // the order here has to be the reverse of the declaration order.
-    fileLock_ = std::move(other.fileLock_);
-    mutexLock_ = std::move(other.mutexLock_);
-    fileMutex_ = std::move(other.fileMutex_);
+    if (this != &other) {
+        release();
+        fileMutex_ = std::move(other.fileMutex_);
+        mutexLock_ = std::move(other.mutexLock_);
+        fileLock_ = std::move(other.fileLock_);
+    }
     return *this;
 }
 
 
+file_lock::~file_lock() noexcept
+{
+    release();
+}
+
+
+void file_lock::release() noexcept
+{
+    // Any locks we hold must be released before the objects they refer to.
+    fileLock_ = std::unique_lock<boost_wrapper>();
+    mutexLock_ = std::unique_lock<std::shared_mutex>();
+
+    // On POSIX systems, closing a file releases all locks the process has on
+    // it.  Therefore, this must not happen after another thread has created
+    // a new file_mutex for the same file.
+    std::lock_guard<std::mutex> guard(file_mutex_cache_mutex());
+    fileMutex_.reset();
+}
+
+
 void file_lock::lock()
 {
     // NOTE: The reason we can't use std::lock() here is that we must make
@@ -261,14 +299,13 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
         std::weak_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
-    static std::mutex cacheMutex;
     std::shared_ptr<file_mutex> fileMutex;
 
     // If the file already exists, we need to check whether it is already
     // associated with a mutex.  We do so by performing a linear search for
     // an element corresponding to the given path in `fileMutexes`
     // (cleaning up any expired elements along the way).
-    std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
+    std::lock_guard<std::mutex> guard(file_mutex_cache_mutex());
     if (cosim::filesystem::exists(path)) {
         for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
             if (auto fm = it->fileMutex.lock()) {
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index 49e917a..efacc62 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -97,7 +97,7 @@ public:
     file_lock(file_lock&&) noexcept = default;
     file_lock& operator=(file_lock&&) noexcept;
 
-    ~file_lock() noexcept = default;
+    ~file_lock() noexcept;
 
     /**
      *  Acquires a lock on the file, blocking if necessary.
@@ -191,6 +191,11 @@ private:
         boost_wrapper file;
     };
 
+    explicit file_lock(std::shared_ptr<file_mutex> fileMutex) noexcept;
+
+    // Releases any locks we hold, as well as our reference to `fileMutex_`.
+    void release() noexcept;
+
     // Returns the mutex and file lock associated with the file at `path`.
     static std::shared_ptr<file_mutex> get_file_mutex(
         const cosim::filesystem::path& path);
-- 
2.43.0


From 95c332f098c22cc6c2fd1201b27bcbdb7590ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 37/65] fix: file_lock could not be created when another lock's
 file had been removed

---
 src/cosim/utility/concurrency.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index b54a8c5..0bf2a1d 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -309,7 +309,9 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     if (cosim::filesystem::exists(path)) {
         for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
             if (auto fm = it->fileMutex.lock()) {
-                if (cosim::filesystem::equivalent(path, it->path)) {
+                // Ignore errors, as other lock files may have been removed.
+                std::error_code ec;
+                if (cosim::filesystem::equivalent(path, it->path, ec)) {
                     assert(!fileMutex);
                     fileMutex = std::move(fm);
                 }
-- 
2.43.0


From c4191693d8d3a986ead72d3660e663028b66e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 38/65] fix: locking a file could fail with a spurious deadlock
 error

---
 src/cosim/utility/concurrency.cpp | 33 +++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 0bf2a1d..de66f79 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -6,7 +6,9 @@
 #include "cosim/utility/concurrency.hpp"
 
 #include <cassert>
+#include <chrono>
 #include <system_error>
+#include <thread>
 #include <vector>
 
 #ifdef _WIN32
@@ -151,6 +153,33 @@ void file_lock::unlock_shared()
 }
 
 
+namespace
+{
+// Performs a blocking lock operation, retrying on spurious deadlock errors.
+//
+// POSIX deadlock detection considers processes, not threads, so the OS may
+// report a deadlock even though it is a different thread than the waiting one
+// which holds a lock that other processes wait for.
+template<typename F>
+void retry_on_deadlock_error(F&& lockFunction)
+{
+#ifdef _WIN32
+    lockFunction();
+#else
+    for (;;) {
+        try {
+            lockFunction();
+            return;
+        } catch (const boost::interprocess::interprocess_exception& e) {
+            if (e.get_native_error() != EDEADLK) throw;
+        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    }
+#endif
+}
+} // namespace
+
+
 file_lock::boost_wrapper::boost_wrapper(const cosim::filesystem::path& path)
 {
 #ifdef _WIN32
@@ -215,7 +244,7 @@ void file_lock::boost_wrapper::lock()
 {
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ == 0);
-    fileLock_.lock();
+    retry_on_deadlock_error([this] { fileLock_.lock(); });
     shareCount_ = -1;
 }
 
@@ -249,7 +278,7 @@ void file_lock::boost_wrapper::lock_shared()
         ++acquiring_;
         countLock.unlock();
         try {
-            fileLock_.lock_sharable();
+            retry_on_deadlock_error([this] { fileLock_.lock_sharable(); });
         } catch (...) {
             countLock.lock();
             if (--acquiring_ == 0 && shareCount_ == 0) fileLock_.unlock_sharable();
-- 
2.43.0


From 9c8a91b10fe29af2a1f1dc223e490b56c9f78ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 39/65] fix: cleaning up a persistent file cache left the
 directory of the empty key

---
 src/cosim/file_cache.cpp | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 36f5247..8bd446e 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -182,6 +182,33 @@ private:
 };
 
 
+namespace
+{
+
+// These are used rather than `path::extension()` and
+// `path::replace_extension()` because the latter don't consider names which
+// contain nothing but a suffix (i.e., those which correspond to the empty key)
+// to have an extension.
+bool has_suffix(const cosim::filesystem::path& path, std::string_view suffix)
+{
+    const auto name = path.filename().string();
+    return name.size() >= suffix.size() &&
+        name.compare(name.size() - suffix.size(), suffix.size(), suffix) == 0;
+}
+
+cosim::filesystem::path replace_suffix(
+    const cosim::filesystem::path& path,
+    std::string_view oldSuffix,
+    std::string_view newSuffix)
+{
+    auto name = path.filename().string();
+    name.replace(name.size() - oldSuffix.size(), oldSuffix.size(), newSuffix);
+    return path.parent_path() / name;
+}
+
+} // namespace
+
+
 class persistent_file_cache::impl
 {
 public:
@@ -235,11 +262,11 @@ public:
              it != cosim::filesystem::directory_iterator();
              ++it) {
             if (cosim::filesystem::is_directory(*it) &&
-                it->path().extension() == ".data") {
+                has_suffix(it->path(), ".data")) {
 
                 // Remove non-locked subdirectories and their lock files
-                auto subdirLockFilePath = it->path();
-                subdirLockFilePath.replace_extension(".lock");
+                const auto subdirLockFilePath =
+                    replace_suffix(it->path(), ".data", ".lock");
                 auto subdirLock = utility::file_lock(
                     subdirLockFilePath,
                     utility::file_lock_initial_state::not_locked);
@@ -249,7 +276,7 @@ public:
                 cosim::filesystem::remove_all(*it, ignoredError);
                 cosim::filesystem::remove(subdirLockFilePath);
             } else if (cosim::filesystem::is_regular_file(*it) &&
-                it->path().extension() == ".lock") {
+                has_suffix(it->path(), ".lock")) {
 
                 // Remove lock files left over by get_directory_ro() for
                 // nonexistent subdirectories.
@@ -258,8 +285,8 @@ public:
                     utility::file_lock_initial_state::not_locked);
                 if (!subdirLock.try_lock()) continue;
 
-                auto subdirPath = it->path();
-                subdirPath.replace_extension(".data");
+                const auto subdirPath =
+                    replace_suffix(it->path(), ".lock", ".data");
                 if (!cosim::filesystem::exists(subdirPath)) {
                     std::error_code ignoredError;
                     cosim::filesystem::remove(*it, ignoredError);
-- 
2.43.0


From 76672a0c5d072e53157d3862ab6c80b7f779ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 40/65] fix: some keys gave access to directories outside a
 temporary file cache

---
 src/cosim/file_cache.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 8bd446e..27a8ca0 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -84,7 +84,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
         cosim::filesystem::create_directories(path);
 
         auto ownership = std::make_shared<dummy>();
@@ -99,7 +99,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
 
         auto ownership = std::make_shared<dummy>();
         owns.ro = ownership;
@@ -107,6 +107,13 @@ public:
     }
 
 private:
+    cosim::filesystem::path subdir_path(std::string_view key) const
+    {
+        // The suffix is there because the keys "", "." and ".." would
+        // otherwise refer to the cache root or its parent directory.
+        return root_->path() / (percent_encode(key) + ".data");
+    }
+
     struct subdirectory_ownership
     {
         std::weak_ptr<dummy> rw;
-- 
2.43.0


From 09b2f0f2c99b507afd07186ab592e8f91de7a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 41/65] fix: temporary_file_cache forgot about all but the last
 read-only owner of a directory

---
 src/cosim/file_cache.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 27a8ca0..8530fcb 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -101,8 +101,11 @@ public:
         }
         const auto path = subdir_path(key);
 
-        auto ownership = std::make_shared<dummy>();
-        owns.ro = ownership;
+        auto ownership = owns.ro.lock();
+        if (!ownership) {
+            ownership = std::make_shared<dummy>();
+            owns.ro = ownership;
+        }
         return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
     }
 
-- 
2.43.0


From 0c55e354170e3e1a2c03ebb48ce8421560069aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 42/65] fix: the first step of a run was not paced if real-time
 simulation was enabled before the run

---
 src/cosim/timer.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cosim/timer.cpp b/src/cosim/timer.cpp
index 1a191ba..7788828 100644
--- a/src/cosim/timer.cpp
+++ b/src/cosim/timer.cpp
@@ -29,20 +29,20 @@ public:
         startTime_ = Time::now();
         rtStartTime_ = startTime_;
         rtCounter_ = 0L;
+
+        const auto sampling_period = config_->sampling_period_to_monitor.load();
+        if (sampling_period.count() > 0) {
+            sampling_period_to_monitor_ = sampling_period;
+        } else {
+            sampling_period_to_monitor_ = std::nullopt;
+        }
+        configHashValue_ = std::hash<real_time_config>()(*config_);
     }
 
     void sleep(time_point currentTime)
     {
-        const auto newHash = std::hash<real_time_config>()(*config_);
-        if (newHash != configHashValue_) {
+        if (std::hash<real_time_config>()(*config_) != configHashValue_) {
             start(currentTime);
-            const auto sampling_period = config_->sampling_period_to_monitor.load();
-            if (sampling_period.count() > 0) {
-                sampling_period_to_monitor_ = sampling_period;
-            } else {
-                sampling_period_to_monitor_ = std::nullopt;
-            }
-            configHashValue_ = newHash;
         }
         double rtfTarget = config_->real_time_factor_target.load();
         if (config_->real_time_simulation && rtfTarget > 0.0) {
-- 
2.43.0


From 84aa8de0d394ced52b232341eb171af38bf7131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 43/65] fix: changing real-time monitoring settings reset the
 pacing

---
 src/cosim/timer.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/cosim/timer.cpp b/src/cosim/timer.cpp
index 7788828..2dfb11c 100644
--- a/src/cosim/timer.cpp
+++ b/src/cosim/timer.cpp
@@ -18,7 +18,6 @@ class real_time_timer::impl
 public:
     impl()
         : config_(std::make_shared<real_time_config>())
-        , configHashValue_(std::hash<real_time_config>()(*config_))
         , metrics_(std::make_shared<real_time_metrics>())
     { }
 
@@ -30,24 +29,21 @@ public:
         rtStartTime_ = startTime_;
         rtCounter_ = 0L;
 
-        const auto sampling_period = config_->sampling_period_to_monitor.load();
-        if (sampling_period.count() > 0) {
-            sampling_period_to_monitor_ = sampling_period;
-        } else {
-            sampling_period_to_monitor_ = std::nullopt;
-        }
-        configHashValue_ = std::hash<real_time_config>()(*config_);
+        realTimeSimulation_ = config_->real_time_simulation.load();
+        rtfTarget_ = config_->real_time_factor_target.load();
     }
 
     void sleep(time_point currentTime)
     {
-        if (std::hash<real_time_config>()(*config_) != configHashValue_) {
+        // Note that changes in the monitoring settings must not affect pacing.
+        if (config_->real_time_simulation != realTimeSimulation_ ||
+            config_->real_time_factor_target != rtfTarget_) {
             start(currentTime);
         }
-        double rtfTarget = config_->real_time_factor_target.load();
-        if (config_->real_time_simulation && rtfTarget > 0.0) {
+        update_sampling_period();
+        if (realTimeSimulation_ && rtfTarget_ > 0.0) {
             const auto elapsed = Time::now() - startTime_;
-            const auto expectedSimulationTime = (currentTime - simulationStartTime_) / rtfTarget;
+            const auto expectedSimulationTime = (currentTime - simulationStartTime_) / rtfTarget_;
             const auto simulationSleepTime = expectedSimulationTime - elapsed;
 
             if (simulationSleepTime > MIN_SLEEP) {
@@ -75,10 +71,21 @@ private:
     time_point simulationStartTime_;
     time_point rtSimulationStartTime_;
     std::shared_ptr<real_time_config> config_;
-    size_t configHashValue_;
+    bool realTimeSimulation_ = false;
+    double rtfTarget_ = 1.0;
     std::shared_ptr<real_time_metrics> metrics_;
     std::optional<std::chrono::milliseconds> sampling_period_to_monitor_ = std::nullopt;
 
+    void update_sampling_period()
+    {
+        const auto sampling_period = config_->sampling_period_to_monitor.load();
+        if (sampling_period.count() > 0) {
+            sampling_period_to_monitor_ = sampling_period;
+        } else {
+            sampling_period_to_monitor_ = std::nullopt;
+        }
+    }
+
     template<typename Rep, typename Period>
     void update_rolling_average_real_time_factor(
         const Time::time_point& currentTime,
-- 
2.43.0


From fe5a724d807aeaceccf6d75802a18da2acd60de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 44/65] fix: assigning a temp_dir to itself deleted the
 directory

---
 src/cosim/utility/filesystem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cosim/utility/filesystem.cpp b/src/cosim/utility/filesystem.cpp
index d8b43f6..d814e31 100644
--- a/src/cosim/utility/filesystem.cpp
+++ b/src/cosim/utility/filesystem.cpp
@@ -37,9 +37,11 @@ temp_dir::temp_dir(temp_dir&& other) noexcept
 
 temp_dir& temp_dir::operator=(temp_dir&& other) noexcept
 {
-    delete_noexcept();
-    path_ = std::move(other.path_);
-    other.path_.clear();
+    if (this != &other) {
+        delete_noexcept();
+        path_ = std::move(other.path_);
+        other.path_.clear();
+    }
     return *this;
 }
 
-- 
2.43.0


From 66ff1a0d836b378ce096810b78c154e7ceba4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 45/65] fix: refuse archive entries that lead outside the
 target directory

Names like '../x' or 'd/../../x' made extract_all() create and overwrite
files outside the directory it was told to extract to.
---
 src/cosim/utility/zip.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 0e156ee..9a85167 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -256,6 +256,18 @@ void archive::extract_all(
                 throw error(
                     "Archive contains an entry with an absolute path: " + entryName);
             }
+            int depth = 0;
+            for (const auto& component : entryPath) {
+                if (component == "..") {
+                    --depth;
+                } else if (!component.empty() && component != ".") {
+                    ++depth;
+                }
+                if (depth < 0) {
+                    throw error(
+                        "Archive contains an entry outside its root directory: " + entryName);
+                }
+            }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
                 cosim::filesystem::create_directories(targetPath);
-- 
2.43.0


From 1637da08e93de7d7f05d3a8af951133d715e13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 46/65] fix: do not read before the start of an empty archive
 entry name

---
 src/cosim/utility/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 9a85167..19bb7b2 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -182,7 +182,7 @@ bool archive::is_dir_entry(entry_index index) const
     }
     if ((zs.valid & ZIP_STAT_NAME) && (zs.valid & ZIP_STAT_SIZE) && (zs.valid & ZIP_STAT_CRC)) {
         const auto nameLen = std::strlen(zs.name);
-        return zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
+        return nameLen > 0 && zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
     } else {
         throw error("Cannot determine entry type");
     }
-- 
2.43.0


From 7590220daf656a3166d6581fdfb37ab98551d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 47/65] fix: report archive entries whose data are shorter than
 they should be

libzip reads an entry whose compressed size is zero as an empty file and
does not check it, so that corrupt entries were silently extracted as
empty files.
---
 src/cosim/utility/zip.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 19bb7b2..4536dd0 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -191,18 +191,22 @@ bool archive::is_dir_entry(entry_index index) const
 
 namespace
 {
-void copy_to_stream(
+// Returns the number of bytes copied.
+std::uint64_t copy_to_stream(
     auto_zip_file& source,
     std::ostream& target,
     std::vector<char>& buffer)
 {
     assert(target.good());
     assert(!buffer.empty());
+    std::uint64_t total = 0;
     for (;;) {
         const auto n = source.read(buffer.data(), buffer.size());
         if (n == 0) break;
         target.write(buffer.data(), n);
+        total += n;
     }
+    return total;
 }
 
 void extract_file_as(
@@ -225,12 +229,19 @@ void extract_file_as(
             std::generic_category(),
             targetPath.string());
     }
-    copy_to_stream(srcFile, tgtFile, buffer);
+    const auto bytesCopied = copy_to_stream(srcFile, tgtFile, buffer);
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
             targetPath.string());
     }
+    struct zip_stat zs;
+    if (zip_stat_index(archive, index, 0, &zs)) {
+        throw error(archive);
+    }
+    if ((zs.valid & ZIP_STAT_SIZE) && bytesCopied != zs.size) {
+        throw error("Archive entry is corrupt: " + targetPath.filename().string());
+    }
 }
 } // namespace
 
-- 
2.43.0


From 78d02983b2e5e69a88775e32557df440224085c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 48/65] fix: report failure to write the last part of an
 extracted file

The last part of each file (all of it, if it is small) is first written
when the stream is closed, which happened after the check for errors.
---
 src/cosim/utility/zip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 4536dd0..5a38b4c 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -230,6 +230,7 @@ void extract_file_as(
             targetPath.string());
     }
     const auto bytesCopied = copy_to_stream(srcFile, tgtFile, buffer);
+    tgtFile.close(); // so that failure to write buffered data is noticed too
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
-- 
2.43.0


From 96bcf9b45e082935595c044bb52073d299c4567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 49/65] fix: do not silently drop the data of archive entries
 named like directories

---
 src/cosim/utility/zip.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 5a38b4c..613c414 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -282,6 +282,9 @@ void archive::extract_all(
             }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
+                if (!is_dir_entry(index)) {
+                    throw error("Archive entry is a directory with contents: " + entryName);
+                }
                 cosim::filesystem::create_directories(targetPath);
             } else {
                 cosim::filesystem::create_directories(targetPath.parent_path());
-- 
2.43.0


From cb52a1a821b3f7cdd08a4fa0c71e50cf4f64aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 50/65] fix: refuse OSP configurations whose times or step
 sizes are out of range

---
 src/cosim/osp_config_parser.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b909f96..fd8f397 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -19,6 +19,8 @@
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <chrono>
+#include <cmath>
 #include <ios>
 #include <memory>
 #include <sstream>
@@ -920,6 +922,19 @@ cosim::filesystem::path file_query_uri_to_path(
     return file_uri_to_path(baseParentUri);
 }
 
+// Throws if a number of seconds is so large that it can't be represented as
+// a `duration` or `time_point`, or if it is not a number.
+void check_time_range(double seconds, const std::string& what)
+{
+    constexpr double limit = std::chrono::duration<double>(duration::max()).count();
+    if (!(std::abs(seconds) < limit)) {
+        std::ostringstream oss;
+        oss << "Configured " << what << " [" << seconds << "] is out of range";
+        BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
+        throw std::invalid_argument(oss.str());
+    }
+}
+
 } // namespace
 
 osp_config load_osp_config(
@@ -935,7 +950,13 @@ osp_config load_osp_config(
     const auto parser = osp_config_parser(configFile);
     const auto& simInfo = parser.get_simulation_information();
 
-    if (simInfo.stepSize <= 0.0) {
+    check_time_range(simInfo.startTime, "start time");
+    if (simInfo.endTime.has_value()) {
+        check_time_range(simInfo.endTime.value(), "end time");
+    }
+    check_time_range(simInfo.stepSize, "base step size");
+
+    if (to_duration(simInfo.stepSize) <= duration::zero()) {
         std::ostringstream oss;
         oss << "Configured base step size [" << simInfo.stepSize << "] must be nonzero and positive";
         BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -960,6 +981,9 @@ osp_config load_osp_config(
 
     std::unordered_map<std::string, extended_model_description> emds;
     for (const auto& simulator : simulators) {
+        if (simulator.stepSize) {
+            check_time_range(*simulator.stepSize, "step size of " + simulator.name);
+        }
         auto model = resolver.lookup_model(baseURI, simulator.source);
         config.system_structure.add_entity(
             simulator.name,
-- 
2.43.0


From f7ed08336555bab6287dd6d571db65d799510a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 51/65] fix: refuse OSP configurations with several functions
 of the same name

---
 src/cosim/osp_config_parser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index fd8f397..0c4c8da 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -257,6 +257,16 @@ T attribute_or(xercesc::DOMElement* el, const char* attributeName, T defaultValu
     }
 }
 
+template<typename Function>
+void add_function(
+    std::unordered_map<std::string, Function>& functions,
+    const Function& function)
+{
+    if (!functions.emplace(function.name, function).second) {
+        throw std::runtime_error("Found more than one function with name " + function.name);
+    }
+}
+
 } // namespace
 
 osp_config_parser::osp_config_parser(
@@ -365,7 +375,7 @@ osp_config_parser::osp_config_parser(
                 function.in = {"in", variable_type::real, variable_causality::input};
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                linearTransformationFunctions_[functionName] = function;
+                add_function(linearTransformationFunctions_, function);
 
             } else if ("Sum" == functionNodeName) {
                 SumFunction function;
@@ -380,7 +390,7 @@ osp_config_parser::osp_config_parser(
                 }
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                sumFunctions_[functionName] = function;
+                add_function(sumFunctions_, function);
 
             } else if ("VectorSum" == functionNodeName) {
                 VectorSumFunction function;
@@ -411,7 +421,7 @@ osp_config_parser::osp_config_parser(
                 }
                 function.outGroup = sg;
 
-                vectorSumFunctions_[functionName] = function;
+                add_function(vectorSumFunctions_, function);
 
             } else {
                 std::ostringstream oss;
-- 
2.43.0


From e18ccf95b93571e84e37cec41ef42d18023ffff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 52/65] fix: make all signal connections of OSP configurations,
 and refuse those to unknown signals

---
 src/cosim/osp_config_parser.cpp | 120 ++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 37 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 0c4c8da..56ac792 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -19,10 +19,13 @@
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <algorithm>
 #include <chrono>
 #include <cmath>
 #include <ios>
+#include <iterator>
 #include <memory>
+#include <set>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -675,21 +678,57 @@ struct extended_model_description
 namespace
 {
 
-osp_config_parser::SignalConnection find_signal_connection(
+// Returns all connections to the given signal, of which there must be at least one.
+std::vector<osp_config_parser::SignalConnection> find_signal_connections(
     const std::vector<osp_config_parser::SignalConnection>& signalConnections,
     const std::string& functionName,
     const std::string& signalName)
 {
-    auto it = std::find_if(
+    std::vector<osp_config_parser::SignalConnection> found;
+    std::copy_if(
         signalConnections.begin(),
         signalConnections.end(),
+        std::back_inserter(found),
         [&](const auto& conn) { return functionName == conn.signal.function && signalName == conn.signal.name; });
-    if (it == signalConnections.end()) {
+    if (found.empty()) {
         std::ostringstream oss;
         oss << "Missing expected connection to " << functionName << ":" << signalName;
         throw std::out_of_range(oss.str());
     }
-    return *it;
+    return found;
+}
+
+// Throws if there are connections to anything but the signals and signal
+// groups of the functions that have been declared.
+void check_signal_connections(const osp_config_parser& parser)
+{
+    std::set<std::pair<std::string, std::string>> signals;
+    std::set<std::pair<std::string, std::string>> signalGroups;
+    for (const auto& [name, function] : parser.get_linear_transformation_functions()) {
+        signals.emplace(name, function.in.name);
+        signals.emplace(name, function.out.name);
+    }
+    for (const auto& [name, function] : parser.get_sum_functions()) {
+        for (const auto& in : function.ins) signals.emplace(name, in.name);
+        signals.emplace(name, function.out.name);
+    }
+    for (const auto& [name, function] : parser.get_vector_sum_functions()) {
+        for (const auto& in : function.inGroups) signalGroups.emplace(name, in.name);
+        signalGroups.emplace(name, function.outGroup.name);
+    }
+
+    const auto check = [](const auto& known, const auto& connections, const char* what) {
+        for (const auto& connection : connections) {
+            if (known.count({connection.signal.function, connection.signal.name}) == 0) {
+                std::ostringstream oss;
+                oss << "Cannot connect to unknown " << what << " "
+                    << connection.signal.function << ":" << connection.signal.name;
+                throw std::out_of_range(oss.str());
+            }
+        }
+    };
+    check(signals, parser.get_signal_connections(), "signal");
+    check(signalGroups, parser.get_signal_group_connections(), "signal group");
 }
 
 } // namespace
@@ -839,14 +878,16 @@ void connect_linear_transformation_functions(
             std::make_shared<linear_transformation_function_type>(),
             functionParams);
 
-        const auto inConn = find_signal_connection(signalConnections, functionName, function.in.name);
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(inConn.variable.simulator, inConn.variable.name),
-            full_variable_name(functionName, "in", ""));
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.in.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                full_variable_name(functionName, "in", ""));
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        }
     }
 }
 
@@ -864,15 +905,17 @@ void connect_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; i++) {
-            const auto inConn = find_signal_connection(signalConnections, functionName, function.ins.at(i).name);
+            for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.ins.at(i).name)) {
+                systemStructure.connect_variables(
+                    full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                    full_variable_name(functionName, "in", i, "", 0));
+            }
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
             systemStructure.connect_variables(
-                full_variable_name(inConn.variable.simulator, inConn.variable.name),
-                full_variable_name(functionName, "in", i, "", 0));
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
         }
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
     }
 }
 
@@ -892,29 +935,31 @@ void connect_vector_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; ++i) {
-            const auto inGroupConn = find_signal_connection(
-                signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-            const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+            for (const auto& inGroupConn : find_signal_connections(
+                     signalGroupConnections, functionName, function.inGroups.at(i).name)) {
+                const auto& inEmd = emds.at(inGroupConn.variable.simulator);
+                const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+
+                for (int j = 0; j < function.dimension; ++j) {
+                    const auto& inVariableName = inVariableGroup.variables.at(j);
+                    systemStructure.connect_variables(
+                        full_variable_name(inGroupConn.variable.simulator, inVariableName),
+                        full_variable_name(functionName, "in", i, "", j));
+                }
+            }
+        }
 
+        for (const auto& outGroupConn : find_signal_connections(
+                 signalGroupConnections, functionName, function.outGroup.name)) {
+            const auto& outEmd = emds.at(outGroupConn.variable.simulator);
+            const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
             for (int j = 0; j < function.dimension; ++j) {
-                const auto& inVariableName = inVariableGroup.variables.at(j);
+                const auto& outVariableName = outVariableGroup.variables.at(j);
                 systemStructure.connect_variables(
-                    full_variable_name(inGroupConn.variable.simulator, inVariableName),
-                    full_variable_name(functionName, "in", i, "", j));
+                    full_variable_name(functionName, "out", 0, "", j),
+                    full_variable_name(outGroupConn.variable.simulator, outVariableName));
             }
         }
-
-        const auto outGroupConn = find_signal_connection(
-            signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-        const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
-        for (int j = 0; j < function.dimension; ++j) {
-            const auto& outVariableName = outVariableGroup.variables.at(j);
-            systemStructure.connect_variables(
-                full_variable_name(functionName, "out", 0, "", j),
-                full_variable_name(outGroupConn.variable.simulator, outVariableName));
-        }
     }
 }
 
@@ -1025,6 +1070,7 @@ osp_config load_osp_config(
         }
     }
 
+    check_signal_connections(parser);
     connect_variables(parser.get_variable_connections(), config.system_structure);
     connect_variable_groups(parser.get_variable_group_connections(), config.system_structure, emds);
     connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
-- 
2.43.0


From 0316fade43fb2ccd5c85039833b234d897a41697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 53/65] fix: refuse connections between signal groups and
 variable groups that do not match

---
 src/cosim/osp_config_parser.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 56ac792..a743f04 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -919,6 +919,26 @@ void connect_sum_functions(
     }
 }
 
+// Returns the variables of a group which is to be connected to a signal group.
+const std::vector<std::string>& get_signal_group_variables(
+    const std::unordered_map<std::string, extended_model_description>& emds,
+    const osp_config_parser::SignalConnection& connection,
+    int dimension)
+{
+    const auto& group = emds.at(connection.variable.simulator).variableGroups.at(connection.variable.name);
+    if (group.variables.size() != static_cast<std::size_t>(dimension) || !group.variable_group_descriptions.empty()) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between signal group "
+            << connection.signal.function << ":" << connection.signal.name << " of size [" << dimension
+            << "] and variable group "
+            << connection.variable.simulator << ":" << connection.variable.name
+            << " with [" << group.variables.size() << "] variables and ["
+            << group.variable_group_descriptions.size() << "] nested groups";
+        throw std::runtime_error(oss.str());
+    }
+    return group.variables;
+}
+
 void connect_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
     const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
@@ -937,11 +957,10 @@ void connect_vector_sum_functions(
         for (int i = 0; i < function.inputCount; ++i) {
             for (const auto& inGroupConn : find_signal_connections(
                      signalGroupConnections, functionName, function.inGroups.at(i).name)) {
-                const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-                const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+                const auto& inVariables = get_signal_group_variables(emds, inGroupConn, function.dimension);
 
                 for (int j = 0; j < function.dimension; ++j) {
-                    const auto& inVariableName = inVariableGroup.variables.at(j);
+                    const auto& inVariableName = inVariables.at(j);
                     systemStructure.connect_variables(
                         full_variable_name(inGroupConn.variable.simulator, inVariableName),
                         full_variable_name(functionName, "in", i, "", j));
@@ -951,10 +970,9 @@ void connect_vector_sum_functions(
 
         for (const auto& outGroupConn : find_signal_connections(
                  signalGroupConnections, functionName, function.outGroup.name)) {
-            const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-            const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
+            const auto& outVariables = get_signal_group_variables(emds, outGroupConn, function.dimension);
             for (int j = 0; j < function.dimension; ++j) {
-                const auto& outVariableName = outVariableGroup.variables.at(j);
+                const auto& outVariableName = outVariables.at(j);
                 systemStructure.connect_variables(
                     full_variable_name(functionName, "out", 0, "", j),
                     full_variable_name(outGroupConn.variable.simulator, outVariableName));
-- 
2.43.0


From b4208d259fd1fc135febecb8a203d7655c73cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 54/65] fix: connect variable groups by their structure, and
 refuse unknown groups

---
 src/cosim/osp_config_parser.cpp | 134 ++++++++++++++------------------
 1 file changed, 60 insertions(+), 74 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index a743f04..7bfaf23 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -756,7 +756,7 @@ void connect_variables(
     }
 }
 
-extended_model_description get_emd(
+const extended_model_description& get_emd(
     const std::unordered_map<std::string, extended_model_description>& emds,
     const std::string& element)
 {
@@ -769,98 +769,84 @@ extended_model_description get_emd(
     return emdIt->second;
 }
 
-std::vector<std::string> get_variable_group_variables(
+// Searches for a group by name among the nested groups of the given one.
+const variable_group_description* find_nested_variable_group(
+    const variable_group_description& parent,
+    const std::string& name)
+{
+    for (const auto& group : parent.variable_group_descriptions) {
+        if (group.name == name) return &group;
+        if (const auto nested = find_nested_variable_group(group, name)) return nested;
+    }
+    return nullptr;
+}
+
+const variable_group_description& get_variable_group(
     const std::unordered_map<std::string, variable_group_description>& descriptions,
     const osp_config_parser::VariableEndpoint& endpoint)
 {
-    std::vector<std::string> groupVariables;
-    auto groupIt = descriptions.find(endpoint.name);
-    if (groupIt == descriptions.end()) {
-        for (const auto& description : descriptions) {
-            if (description.second.variable_group_descriptions.size() != 0) {
-                std::unordered_map<std::string, variable_group_description> nestedDescriptions;
-                for (const auto& variableGroupDescr : description.second.variable_group_descriptions) {
-                    nestedDescriptions.insert({variableGroupDescr.name, variableGroupDescr});
-                }
-                groupVariables = get_variable_group_variables(nestedDescriptions, endpoint);
-                if (groupVariables.size() > 0) {
-                    break;
-                }
-            }
+    const auto groupIt = descriptions.find(endpoint.name);
+    if (groupIt != descriptions.end()) {
+        return groupIt->second;
+    }
+    for (const auto& description : descriptions) {
+        if (const auto nested = find_nested_variable_group(description.second, endpoint.name)) {
+            return *nested;
         }
-    } else {
-        groupVariables = groupIt->second.variables;
     }
-    return groupVariables;
+    std::ostringstream oss;
+    oss << "Cannot find variable group " << endpoint.simulator << ":" << endpoint.name;
+    throw std::out_of_range(oss.str());
 }
 
-std::vector<cosim::variable_group_description> get_variable_groups(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const std::string& connector)
+void connect_variable_groups(
+    const std::string& simulatorA,
+    const variable_group_description& groupA,
+    const std::string& simulatorB,
+    const variable_group_description& groupB,
+    system_structure& systemStructure)
 {
-    auto groupIt = descriptions.find(connector);
-    if (groupIt == descriptions.end()) {
-        return {};
+    const auto checkSizes = [&](std::size_t sizeA, std::size_t sizeB) {
+        if (sizeA != sizeB) {
+            std::ostringstream oss;
+            oss << "Cannot create connection between variable groups. Variable group "
+                << simulatorA << ":" << groupA.name
+                << " has different size [" << sizeA << "] than variable group "
+                << simulatorB << ":" << groupB.name
+                << " size [" << sizeB << "]";
+            throw std::runtime_error(oss.str());
+        }
+    };
+
+    const auto& nestedGroupsA = groupA.variable_group_descriptions;
+    const auto& nestedGroupsB = groupB.variable_group_descriptions;
+    checkSizes(nestedGroupsA.size(), nestedGroupsB.size());
+    for (std::size_t i = 0; i < nestedGroupsA.size(); ++i) {
+        connect_variable_groups(simulatorA, nestedGroupsA[i], simulatorB, nestedGroupsB[i], systemStructure);
     }
-    return groupIt->second.variable_group_descriptions;
-}
 
+    checkSizes(groupA.variables.size(), groupB.variables.size());
+    std::vector<osp_config_parser::VariableConnection> variableConnections;
+    for (std::size_t i = 0; i < groupA.variables.size(); ++i) {
+        variableConnections.push_back({{simulatorA, groupA.variables[i]}, {simulatorB, groupB.variables[i]}});
+    }
+    connect_variables(variableConnections, systemStructure);
+}
 
 void connect_variable_groups(
     const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
     system_structure& systemStructure,
     const std::unordered_map<std::string, extended_model_description>& emds)
 {
-
     for (const auto& connection : variableGroupConnections) {
         const auto& emdA = get_emd(emds, connection.variableA.simulator);
         const auto& emdB = get_emd(emds, connection.variableB.simulator);
-        const auto& variablesA = get_variable_group_variables(emdA.variableGroups, connection.variableA);
-        const auto& variablesB = get_variable_group_variables(emdB.variableGroups, connection.variableB);
-        const auto& variableGroupsA = get_variable_groups(emdA.variableGroups, connection.variableA.name);
-        const auto& variableGroupsB = get_variable_groups(emdB.variableGroups, connection.variableB.name);
-
-        if (variableGroupsA.size() != variableGroupsB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variableGroupsA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variableGroupsB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> nestedVariableGroupConnections;
-        // clang-format off
-        for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
-            nestedVariableGroupConnections.push_back({
-                {connection.variableA.simulator, variableGroupsA.at(i).name},
-                {connection.variableB.simulator, variableGroupsB.at(i).name}});
-        }
-        // clang-format on
-        connect_variable_groups(nestedVariableGroupConnections, systemStructure, emds);
-
-        if (variablesA.size() != variablesB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variablesA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variablesB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> variableConnections;
-
-        // clang-format off
-        for (std::size_t i = 0; i < variablesA.size(); ++i) {
-            variableConnections.push_back({
-                {connection.variableA.simulator, variablesA.at(i)},
-                {connection.variableB.simulator, variablesB.at(i)}});
-        }
-        // clang-format on
-
-        connect_variables(variableConnections, systemStructure);
+        connect_variable_groups(
+            connection.variableA.simulator,
+            get_variable_group(emdA.variableGroups, connection.variableA),
+            connection.variableB.simulator,
+            get_variable_group(emdB.variableGroups, connection.variableB),
+            systemStructure);
     }
 }
 
-- 
2.43.0


From 3c97ae0773769ae6065dd3ebafb2a465420bbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 55/65] fix: read OSP configurations and model descriptions
 which use namespace prefixes

---
 src/cosim/osp_config_parser.cpp | 50 ++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 7bfaf23..b80668f 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -321,7 +321,7 @@ osp_config_parser::osp_config_parser(
 
     const auto rootElement = doc->getDocumentElement();
 
-    const auto simulators = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Simulators").get())->item(0));
+    const auto simulators = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("Simulators").get())->item(0));
     for (auto element = simulators->getFirstElementChild(); element != nullptr; element = element->getNextElementSibling()) {
         std::string name = tc(element->getAttribute(tc("name").get())).get();
         std::string source = tc(element->getAttribute(tc("source").get())).get();
@@ -333,11 +333,11 @@ osp_config_parser::osp_config_parser(
         }
 
         std::vector<InitialValue> initialValues;
-        const auto initValsElement = static_cast<xercesc::DOMElement*>(element->getElementsByTagName(tc("InitialValues").get())->item(0));
+        const auto initValsElement = static_cast<xercesc::DOMElement*>(element->getElementsByTagNameNS(tc("*").get(), tc("InitialValues").get())->item(0));
         if (initValsElement) {
             for (auto initValElement = initValsElement->getFirstElementChild(); initValElement != nullptr; initValElement = initValElement->getNextElementSibling()) {
                 std::string varName = tc(initValElement->getAttribute(tc("variable").get())).get();
-                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getNodeName()).get()));
+                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getLocalName()).get()));
                 std::string varValue = tc(initValElement->getFirstElementChild()->getAttribute(tc("value").get())).get();
                 switch (varType) {
                     case variable_type::real:
@@ -361,12 +361,12 @@ osp_config_parser::osp_config_parser(
         simulators_.push_back({name, source, stepSize, initialValues});
     }
 
-    const auto functionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Functions").get())->item(0));
+    const auto functionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("Functions").get())->item(0));
     if (functionsElement != nullptr) {
         for (auto functionElement = functionsElement->getFirstElementChild(); functionElement != nullptr; functionElement = functionElement->getNextElementSibling()) {
 
 
-            const auto functionNodeName = std::string(tc(functionElement->getNodeName()).get());
+            const auto functionNodeName = std::string(tc(functionElement->getLocalName()).get());
             const auto functionName = std::string(tc(functionElement->getAttribute(tc("name").get())).get());
             if ("LinearTransformation" == functionNodeName) {
                 LinearTransformationFunction function;
@@ -434,33 +434,33 @@ osp_config_parser::osp_config_parser(
         }
     }
 
-    auto descNodes = rootElement->getElementsByTagName(tc("Description").get());
+    auto descNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("Description").get());
     if (descNodes->getLength() > 0) {
         simulationInformation_.description = tc(descNodes->item(0)->getTextContent()).get();
     }
 
-    auto ssNodes = rootElement->getElementsByTagName(tc("BaseStepSize").get());
+    auto ssNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("BaseStepSize").get());
     if (ssNodes->getLength() > 0) {
         simulationInformation_.stepSize = boost::lexical_cast<double>(tc(ssNodes->item(0)->getTextContent()));
     }
 
-    auto stNodes = rootElement->getElementsByTagName(tc("StartTime").get());
+    auto stNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("StartTime").get());
     if (stNodes->getLength() > 0) {
         simulationInformation_.startTime = boost::lexical_cast<double>(tc(stNodes->item(0)->getTextContent()).get());
     }
 
-    auto etNodes = rootElement->getElementsByTagName(tc("EndTime").get());
+    auto etNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("EndTime").get());
     if (etNodes->getLength() > 0) {
         simulationInformation_.endTime = boost::lexical_cast<double>(tc(etNodes->item(0)->getTextContent()).get());
     }
 
-    auto connectionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Connections").get())->item(0));
+    auto connectionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("Connections").get())->item(0));
     if (connectionsElement) {
-        auto variableConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableConnection").get());
+        auto variableConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("VariableConnection").get());
         for (size_t i = 0; i < variableConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(1));
+            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Variable").get())->item(0));
+            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Variable").get())->item(1));
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -473,11 +473,11 @@ osp_config_parser::osp_config_parser(
             variableConnections_.push_back({veA, veB});
         }
 
-        auto signalConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalConnection").get());
+        auto signalConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("SignalConnection").get());
         for (size_t i = 0; i < signalConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Signal").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
+            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Signal").get())->item(0));
+            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Variable").get())->item(0));
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
@@ -490,11 +490,11 @@ osp_config_parser::osp_config_parser(
             signalConnections_.push_back({signal, variable});
         }
 
-        auto variableGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableGroupConnection").get());
+        auto variableGroupConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroupConnection").get());
         for (size_t i = 0; i < variableGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableGroupConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(1));
+            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroup").get())->item(0));
+            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroup").get())->item(1));
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -507,11 +507,11 @@ osp_config_parser::osp_config_parser(
             variableGroupConnections_.push_back({veA, veB});
         }
 
-        auto signalGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalGroupConnection").get());
+        auto signalGroupConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("SignalGroupConnection").get());
         for (size_t i = 0; i < signalGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalGroupConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("SignalGroup").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
+            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("SignalGroup").get())->item(0));
+            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroup").get())->item(0));
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
@@ -644,7 +644,7 @@ struct extended_model_description
 
         const auto rootElement = doc->getDocumentElement();
 
-        const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
+        const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroups").get())->item(0));
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
@@ -657,10 +657,10 @@ struct extended_model_description
         variable_group_description variableGroupDescription;
 
         variableGroupDescription.name = tc(variableGroupElement->getAttribute(tc("name").get())).get();
-        variableGroupDescription.type = tc(variableGroupElement->getTagName()).get();
+        variableGroupDescription.type = tc(variableGroupElement->getLocalName()).get();
 
         for (auto variableGroupChildElement = variableGroupElement->getFirstElementChild(); variableGroupChildElement != nullptr; variableGroupChildElement = variableGroupChildElement->getNextElementSibling()) {
-            std::string tagName(tc(variableGroupChildElement->getTagName()).get());
+            std::string tagName(tc(variableGroupChildElement->getLocalName()).get());
             if (tagName == "Variable") {
                 std::string variableName = tc(variableGroupChildElement->getAttribute(tc("ref").get())).get();
                 variableGroupDescription.variables.push_back(std::move(variableName));
-- 
2.43.0


From 10dc02b443e81543499e4c03d2ff1efe9ca23c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 56/65] fix: refuse OSP configurations and model descriptions
 which cannot be parsed, with an exception

---
 src/cosim/osp_config_parser.cpp | 55 ++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b80668f..1244607 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -16,7 +16,9 @@
 #include <xercesc/dom/DOM.hpp>
 #include <xercesc/framework/MemBufInputSource.hpp>
 #include <xercesc/framework/Wrapper4InputSource.hpp>
+#include <xercesc/util/OutOfMemoryException.hpp>
 #include <xercesc/util/PlatformUtils.hpp>
+#include <xercesc/util/XMLException.hpp>
 #include <xercesc/util/XMLString.hpp>
 
 #include <algorithm>
@@ -25,6 +27,7 @@
 #include <ios>
 #include <iterator>
 #include <memory>
+#include <new>
 #include <set>
 #include <sstream>
 #include <stdexcept>
@@ -83,6 +86,35 @@ private:
     bool failed_;
 };
 
+// Parses a file, and throws an exception of a standard type if this fails or
+// if errors are found in it.
+const xercesc::DOMDocument* parse_file(
+    xercesc::DOMLSParser& parser,
+    const cosim::filesystem::path& path)
+{
+    error_handler errorHandler;
+    parser.getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
+
+    const xercesc::DOMDocument* doc = nullptr;
+    try {
+        doc = parser.parseURI(path.string().c_str());
+    } catch (const xercesc::OutOfMemoryException&) {
+        throw std::bad_alloc();
+    } catch (const xercesc::XMLException& e) {
+        BOOST_LOG_SEV(log::logger(), log::error) << tc(e.getMessage()).get();
+    } catch (const xercesc::DOMException& e) {
+        BOOST_LOG_SEV(log::logger(), log::error) << tc(e.getMessage()).get();
+    }
+
+    if (errorHandler.failed() || doc == nullptr || doc->getDocumentElement() == nullptr) {
+        std::ostringstream oss;
+        oss << "Validation of " << path.string() << " failed.";
+        BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
+        throw std::runtime_error(oss.str());
+    }
+    return doc;
+}
+
 // The following class was copied from Microsoft Guidelines Support Library
 // https://github.com/microsoft/GSL
 // final_action allows you to ensure something gets run at the end of a scope
@@ -286,8 +318,6 @@ osp_config_parser::osp_config_parser(
         xercesc::DOMImplementationLS::MODE_SYNCHRONOUS,
         tc("http://www.w3.org/2001/XMLSchema").get());
 
-    error_handler errorHandler;
-
     std::string xsd_str = osp_xsd;
 
     xercesc::MemBufInputSource mis(
@@ -298,7 +328,6 @@ osp_config_parser::osp_config_parser(
 
     parser->loadGrammar(&wmis, xercesc::Grammar::SchemaGrammarType, true);
 
-    parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgXercesUseCachedGrammarInParse, true);
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMComments, false);
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMDatatypeNormalization, true);
@@ -310,15 +339,7 @@ osp_config_parser::osp_config_parser(
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgXercesSchemaFullChecking, true);
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgXercesLoadSchema, false);
 
-    const auto doc = parser->parseURI(configPath.string().c_str());
-
-    if (errorHandler.failed()) {
-        std::ostringstream oss;
-        oss << "Validation of " << configPath.string() << " failed.";
-        BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
-        throw std::runtime_error(oss.str());
-    }
-
+    const auto doc = parse_file(*parser, configPath);
     const auto rootElement = doc->getDocumentElement();
 
     const auto simulators = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("Simulators").get())->item(0));
@@ -633,15 +654,7 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
-        const auto doc = parser->parseURI(ospModelDescription.string().c_str());
-
-        if (doc == nullptr) {
-            std::ostringstream oss;
-            oss << "Validation of " << ospModelDescription.string() << " failed.";
-            BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
-            throw std::runtime_error(oss.str());
-        }
-
+        const auto doc = parse_file(*parser, ospModelDescription);
         const auto rootElement = doc->getDocumentElement();
 
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroups").get())->item(0));
-- 
2.43.0


From f12cc0fb8b4fbc993738a3dd9c83b348dcfb3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 57/65] fix: accept OSP model descriptions without variable
 groups

---
 src/cosim/osp_config_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 1244607..dfa23cd 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -658,6 +658,7 @@ struct extended_model_description
         const auto rootElement = doc->getDocumentElement();
 
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroups").get())->item(0));
+        if (variableGroupsElement == nullptr) return;
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
-- 
2.43.0


From 8731442e7143475d303fd4c7085bffb10924dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 58/65] fix: do not use default values for invalid attributes
 in SSP files

---
 src/cosim/ssp/ssp_parser.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 9ddb60a..07cb4f8 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -16,16 +16,17 @@ namespace
 {
 
 template<typename T>
-T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
+std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 {
-    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : tree.get<T>("<xmlattr>." + key, *defaultValue);
+    // An attribute which is present must have a valid value, even if it is optional.
+    const auto attribute = tree.get_child_optional("<xmlattr>." + key);
+    return attribute ? std::optional<T>(attribute->get_value<T>()) : std::optional<T>();
 }
 
 template<typename T>
-std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
+T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
 {
-    const auto result = tree.get_optional<T>("<xmlattr>." + key);
-    return result ? *result : std::optional<T>();
+    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : get_optional_attribute<T>(tree, key).value_or(*defaultValue);
 }
 
 variable_type parse_connector_type(const boost::property_tree::ptree& tree)
-- 
2.43.0


From 6a49e8bb822014435f6fe4994cd7b47bf8514088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 59/65] fix: refuse SSP files whose times or step sizes are out
 of range

---
 src/cosim/ssp/ssp_parser.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 07cb4f8..06e59c5 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -9,6 +9,11 @@
 
 #include <boost/property_tree/xml_parser.hpp>
 
+#include <chrono>
+#include <cmath>
+#include <sstream>
+#include <stdexcept>
+
 namespace cosim
 {
 
@@ -29,6 +34,19 @@ T get_attribute(const boost::property_tree::ptree& tree, const std::string& key,
     return !defaultValue ? tree.get<T>("<xmlattr>." + key) : get_optional_attribute<T>(tree, key).value_or(*defaultValue);
 }
 
+// Throws if a number of seconds is so large that it can't be represented as
+// a `duration` or `time_point`, or if it is not a number.
+double check_time_range(double seconds, const std::string& what)
+{
+    constexpr double limit = std::chrono::duration<double>(duration::max()).count();
+    if (!(std::abs(seconds) < limit)) {
+        std::ostringstream oss;
+        oss << "The " << what << " " << seconds << " is out of range";
+        throw std::invalid_argument(oss.str());
+    }
+    return seconds;
+}
+
 variable_type parse_connector_type(const boost::property_tree::ptree& tree)
 {
     if (tree.get_child_optional("ssc:Real")) {
@@ -108,7 +126,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
     systemDescription_.version = get_attribute<std::string>(ssd, "version");
 
     if (const auto defaultExperiment = ssd.get_child_optional("ssd:DefaultExperiment")) {
-        defaultExperiment_.startTime = get_attribute<double>(*defaultExperiment, "startTime", 0.0);
+        defaultExperiment_.startTime = check_time_range(get_attribute<double>(*defaultExperiment, "startTime", 0.0), "start time");
         defaultExperiment_.stopTime = get_optional_attribute<double>(*defaultExperiment, "stopTime");
 
         if (const auto annotations = defaultExperiment->get_child_optional("ssd:Annotations")) {
@@ -117,7 +135,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 if (annotationType == "com.opensimulationplatform") {
                     for (const auto& algorithm : annotation.second.get_child("osp:Algorithm")) {
                         if (algorithm.first == "osp:FixedStepAlgorithm") {
-                            auto baseStepSize = get_attribute<double>(algorithm.second, "baseStepSize");
+                            auto baseStepSize = check_time_range(get_attribute<double>(algorithm.second, "baseStepSize"), "base step size");
                             auto numWorkerThreads = get_optional_attribute<unsigned int>(algorithm.second, "numWorkerThreads");
                             defaultExperiment_.algorithm = std::make_unique<cosim::fixed_step_algorithm>(cosim::to_duration(baseStepSize), numWorkerThreads);
                         } else {
@@ -179,7 +197,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 const auto& annotationType = get_attribute<std::string>(annotation.second, "type");
                 if (annotationType == "com.opensimulationplatform") {
                     if (const auto& stepSizeHint = annotation.second.get_child_optional("osp:StepSizeHint")) {
-                        comp.stepSizeHint = get_attribute<double>(*stepSizeHint, "value");
+                        comp.stepSizeHint = check_time_range(get_attribute<double>(*stepSizeHint, "value"), "step size hint");
                     }
                 }
             }
-- 
2.43.0


From aa182636bb3a4da609e7ff21fd6b9d7888f87b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 60/65] fix: refuse SSP files with several components of the
 same name

---
 src/cosim/ssp/ssp_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 06e59c5..fa7928c 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -202,7 +202,9 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 }
             }
         }
-        elements_[comp.name] = comp;
+        if (!elements_.emplace(comp.name, comp).second) {
+            throw std::runtime_error("There is more than one component named: '" + comp.name + "'!");
+        }
     }
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
-- 
2.43.0


From dbca377812ceb07d5791517a79ef1d9d6e6b6df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 61/65] fix: refuse SSP files with unsupported types instead of
 terminating the program

---
 src/cosim/ssp/ssp_parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index fa7928c..70c2e00 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -5,8 +5,6 @@
  */
 #include "cosim/ssp/ssp_parser.hpp"
 
-#include "cosim/error.hpp"
-
 #include <boost/property_tree/xml_parser.hpp>
 
 #include <chrono>
@@ -58,9 +56,9 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:String")) {
         return variable_type::string;
     } else if (tree.get_child_optional("ssc:Enumeration")) {
-        COSIM_PANIC_M("Don't know how to handle Enumeration type!");
+        throw std::invalid_argument("Don't know how to handle Enumeration type!");
     } else if (tree.get_child_optional("ssc:Binary")) {
-        COSIM_PANIC_M("Don't know how to handle Binary type!");
+        throw std::invalid_argument("Don't know how to handle Binary type!");
     } else {
         throw std::invalid_argument("A valid connector type was not found!");
     }
@@ -85,7 +83,7 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
             const auto value = get_attribute<std::string>(*stringParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::string, value});
         } else {
-            COSIM_PANIC();
+            throw std::invalid_argument("Parameter '" + name + "' does not have a type that can be handled!");
         }
     }
     return parameterSet;
-- 
2.43.0


From 283e868a4d245d066b48358829e4d199080f1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 62/65] fix: refuse SSP files with unsupported transformations
 instead of ignoring these

---
 src/cosim/ssp/ssp_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 70c2e00..dda598e 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -219,6 +219,12 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 auto factor = get_attribute<double>(*l, "factor", 1.0);
                 c.linearTransformation = {offset, factor};
             }
+            for (const auto& unsupported :
+                {"ssc:BooleanMappingTransformation", "ssc:IntegerMappingTransformation", "ssc:EnumerationMappingTransformation"}) {
+                if (connection.second.get_child_optional(unsupported)) {
+                    throw std::runtime_error(std::string("Don't know how to handle ") + unsupported + "!");
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 192993c6a282acb2b371cf4d3949cc0dea6a7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 63/65] fix: do not let the names of SSP linear transformations
 collide

---
 src/cosim/ssp/ssp_loader.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_loader.cpp b/src/cosim/ssp/ssp_loader.cpp
index 68104b3..5332d25 100644
--- a/src/cosim/ssp/ssp_loader.cpp
+++ b/src/cosim/ssp/ssp_loader.cpp
@@ -11,7 +11,7 @@
 #include "cosim/utility/filesystem.hpp"
 #include "cosim/utility/zip.hpp"
 
-#include <random>
+#include <string>
 
 
 namespace cosim
@@ -115,6 +115,7 @@ ssp_configuration ssp_loader::load(const cosim::filesystem::path& configPath)
         }
     }
 
+    int functionCount = 0;
     for (const auto& connection : parser.get_connections()) {
         const auto output = full_variable_name(
             connection.startElement.name,
@@ -124,8 +125,10 @@ ssp_configuration ssp_loader::load(const cosim::filesystem::path& configPath)
             connection.endConnector.name);
 
         if (const auto& l = connection.linearTransformation) {
-            const auto functionName =
-                "__linearTransformation__" + std::to_string(std::random_device{}());
+            std::string functionName;
+            do {
+                functionName = "__linearTransformation__" + std::to_string(functionCount++);
+            } while (elements.count(functionName) != 0);
 
             function_parameter_value_map functionParams;
             functionParams[linear_transformation_function_type::offset_parameter_index] = l->offset;
-- 
2.43.0


From bf760356cb9dec119bf46183d41ed08e950d9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:10 +0000
Subject: [PATCH 64/65] fix: look up absolute model URI references even if the
 base is not absolute

---
 src/cosim/orchestration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/orchestration.cpp b/src/cosim/orchestration.cpp
index c5afea9..caab536 100644
--- a/src/cosim/orchestration.cpp
+++ b/src/cosim/orchestration.cpp
@@ -26,7 +26,10 @@ std::shared_ptr<model> model_uri_sub_resolver::lookup_model(
     const uri& baseUri,
     const uri& modelUriReference)
 {
-    return lookup_model(resolve_reference(baseUri, modelUriReference));
+    // The base is irrelevant (and may be a relative reference itself) if the
+    // other one is absolute.
+    const auto& base = modelUriReference.scheme().has_value() ? modelUriReference : baseUri;
+    return lookup_model(resolve_reference(base, modelUriReference));
 }
 
 
-- 
2.43.0


From dc96a0da1d4d8a02f82df9d37418ca425f24ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 65/65] fix: a lock file which was removed and created anew
 could be confused with its predecessor

---
 src/cosim/utility/concurrency.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index de66f79..f5d6d45 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -79,14 +79,18 @@ file_lock::~file_lock() noexcept
 
 void file_lock::release() noexcept
 {
-    // Any locks we hold must be released before the objects they refer to.
-    fileLock_ = std::unique_lock<boost_wrapper>();
-    mutexLock_ = std::unique_lock<std::shared_mutex>();
-
     // On POSIX systems, closing a file releases all locks the process has on
     // it.  Therefore, this must not happen after another thread has created
     // a new file_mutex for the same file.
+    //
+    // Furthermore, once the locks have been released, others may remove the
+    // file and create it anew.  The file_mutex must not be found and used for
+    // the new file then, so it has to disappear together with the locks.
     std::lock_guard<std::mutex> guard(file_mutex_cache_mutex());
+
+    // Any locks we hold must be released before the objects they refer to.
+    fileLock_ = std::unique_lock<boost_wrapper>();
+    mutexLock_ = std::unique_lock<std::shared_mutex>();
     fileMutex_.reset();
 }
 
-- 
2.43.0

