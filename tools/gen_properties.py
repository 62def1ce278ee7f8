#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Worker pool runs every submitted task exactly once",
  "Every task handed to the worker pool is executed exactly once, and waiting for the pool returns only after every task submitted before the wait has finished, with all its effects visible to the waiting thread. The pool never deadlocks, loses a wake-up or drops a task, whatever the number of workers (including zero), and it can be reused for any number of submit/wait rounds and destroyed when idle.",
  ["schedules", "configurations"], "All interleavings of the submitting thread and 0..3 workers, over 1..3 rounds of 0..4 tasks.",
  "Tests only reach the interleavings the OS scheduler happens to produce; a lost wake-up needs one particular one.",
  ["src/cosim/utility/thread_pool.hpp"],
  ["thread_pool::submit", "thread_pool::wait_for_tasks_to_finish", "thread_pool::worker_thread loop"],
  [("pending_tasks_", "tasks queued or running"), ("work_queue_", "tasks not yet picked up")],
  ["thread_pool public interface"])

p("C02", "Results do not depend on worker count or thread schedule; no data races",
  "For a given system and sequence of operations, the values every simulator receives and produces, the step notifications and the simulation time are the same whatever number of worker threads is used and however they are scheduled. No two threads ever access the same data concurrently without synchronisation, and each individual simulator or function is only used by one thread at a time.",
  ["schedules", "configurations"], "All interleavings (up to a stated preemption bound) of an execution with 2-3 simulators and a function, 0..2 worker threads, over initialisation and several steps.",
  "A run of a unit test observes one schedule; races and order dependence need others.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/utility/thread_pool.hpp", "src/cosim/execution.cpp", "src/cosim/slave_simulator.cpp"],
  ["fixed_step_algorithm::impl::initialize", "fixed_step_algorithm::impl::do_step"],
  (), ["slave calls", "observer notifications"])

p("C03", "Each simulator is stepped exactly at its own rate with contiguous intervals",
  "Every simulator in a co-simulation is stepped over contiguous, non-overlapping intervals that start at the start time, each exactly its step size factor times the base step size long, and at exactly the base steps that are multiples of that factor. The simulation time after n steps is the start time plus n base steps, and the set of simulators reported as finished in a step is exactly those whose interval ends at that time.",
  ["configurations", "histories"], "All combinations of step size factors/hints for up to 3 simulators, base step sizes, start times, and interleaved operations over up to ~12 steps.",
  "Tests use one or two fixed rate combinations and check only final values.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/execution.cpp", "src/cosim/slave_simulator.cpp"],
  ["fixed_step_algorithm::impl::do_step", "calculate_decimation_factor", "execution::step"],
  [("stepCounter_", "base steps done"), ("decimationFactor", "per-simulator rate")], ["slave::do_step arguments", "observer::step_complete", "execution::current_time"])

p("C04", "Connected inputs always carry the latest source value",
  "After initialisation, and at every time that is a multiple of both endpoints' step sizes, each connected input is given exactly the source variable's current value (for a function output, the function applied to its inputs' current values), before either endpoint takes its next step; at other times and for unconnected inputs nothing is transferred. Connections can be added and removed between steps: a removed connection transfers nothing from then on, and an added one behaves as if always present.",
  ["configurations", "histories"], "All small topologies (simulator-simulator and simulator-function-simulator, all four variable types) with all rate combinations, and all sequences of connect / disconnect / step up to a depth.",
  "Tests cover one topology with static connections.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/execution.cpp", "src/cosim/slave_simulator.cpp"],
  ["transfer_variables", "calculate_functions", "connect_variables", "disconnect_variable"],
  [("outgoingSimConnections / outgoingFunConnections", "connection tables")], ["slave::set_*_variables", "slave::do_step"])

p("C05", "Slaves only ever see the documented call protocol",
  "Whatever sequence of operations the user performs, each slave sees setup exactly once and first, then only variable reads and writes until the simulation is started exactly once, then steps with contiguous times with variable access only in between, and never again any call after one of its calls has thrown, nor another step after one it did not complete. Variables written or read are only those that exist for that slave and each is given or requested with its own type.",
  ["histories", "configurations", "fault_sequences"], "All sequences of public operations up to a depth, over small systems, with each slave call possibly failing.",
  "Mock slaves in tests accept any call order.",
  ["src/cosim/slave_simulator.cpp", "src/cosim/execution.cpp", "src/cosim/algorithm/fixed_step_algorithm.cpp", "include/cosim/slave.hpp"],
  ["slave_simulator::impl state machine", "execution::initialize", "execution::step"],
  [("state_", "slave simulator state")], ["calls on the slave interface"])

p("C06", "A failing slave is reported to the caller, never a crash or hang",
  "If any call to a slave throws, or a step fails, the operation that caused it (initialising or stepping, directly or asynchronously) fails with an exception that reaches the caller, for every number of worker threads. The process is never terminated, no thread hangs, the remaining objects can be destroyed normally, and step notifications are not issued for a step that failed.",
  ["fault_sequences", "schedules", "configurations"], "Every slave call as the failing one, times 0..2 worker threads, times all schedules within the bound; synchronous and asynchronous running.",
  "No test injects a failing slave into a threaded run; failures on worker threads are never exercised.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/execution.cpp", "src/cosim/utility/thread_pool.hpp", "src/cosim/slave_simulator.cpp"],
  ["fixed_step_algorithm::impl::initialize", "fixed_step_algorithm::impl::do_step", "execution::simulate_until"],
  (), ["exceptions from execution methods", "std::terminate"])

p("C07", "A stop request is never lost and running state is reported truthfully",
  "A stop request issued at any moment after a run was requested makes that run end after at most the step in progress or about to begin, and never affects a later run. The execution reports that it is running from when a run has been requested or begun until it has ended normally, by stop or by failure; a run reports success exactly when it reached its end time, and after any ending other than a failure a new run can be made that continues from the current time, while after a failure further runs are refused with an exception.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of a controlling thread (start, stop, query, wait) with the simulation thread; sequences of up to 3 runs, including failing ones.",
  "Tests stop a run after sleeping; the windows around thread start and end are never hit.",
  ["src/cosim/execution.cpp"],
  ["execution::simulate_until_async", "execution::simulate_until", "execution::stop_simulation", "execution::is_running"],
  [("stopped_", "stop flag")], ["execution public interface"])

p("C08", "Running until a time ends exactly there",
  "Running until a target time performs exactly the base steps needed to reach it, so that the time reached is the target whenever it lies on a step boundary and otherwise within one step of it (targets missed by less than a hundredth of a step count as reached), and reports that it was not stopped. Splitting one run into several consecutive runs or single steps yields the same steps, times, step numbers and values as running at once.",
  ["inputs", "histories", "configurations"], "All grids of start times, base step sizes and target times (aligned, misaligned by every small fraction), and all ways of splitting a run.",
  "Tests use a handful of aligned targets.",
  ["src/cosim/execution.cpp"], ["execution::simulate_until", "timed_out", "execution::step"],
  [("currentTime_", "simulation time"), ("lastStep_", "step number")], ["execution::current_time", "observer::step_complete"])

p("C09", "Observers and manipulators are notified completely and in order",
  "Every observer is told of every simulator, of every connection between two simulators, and of initialisation, exactly once and before any step that involves it; each step then notifies every manipulator before any slave is stepped, with the time at the start of the step, and afterwards tells every observer of each finished simulator and then of the completed step with consecutive step numbers, the step's duration and its end time. This holds for observers and manipulators added at any point, including during a simulation.",
  ["histories", "configurations"], "All interleavings of adding simulators, functions, observers, manipulators, connections, initialising and stepping up to a depth.",
  "Tests register observers up front and look only at recorded samples.",
  ["src/cosim/execution.cpp", "include/cosim/observer/observer.hpp", "include/cosim/manipulator/manipulator.hpp"],
  ["execution::add_observer", "execution::add_manipulator", "execution::step", "execution::initialize"],
  (), ["observer and manipulator callbacks"])

p("C10", "Reads, writes and modifiers on a simulator's variables compose correctly",
  "A value set for an input reaches the slave exactly once before its next step, with the last value set winning, and an installed input modifier is applied to the last value set before each step until it is removed, after which the slave gets the unmodified value back. A read returns the slave's value as of the end of its last step passed through the output modifier the variable had during that step, if any, and the sets of currently modified variables are reported exactly.",
  ["histories"], "All sequences of expose / set / read / set-modifier / clear-modifier / initialise / step up to a depth for each variable type.",
  "Tests exercise single modifiers through long scripted scenarios only.",
  ["src/cosim/slave_simulator.cpp", "src/cosim/slave_simulator.hpp"],
  ["get_variable_cache", "set_variable_cache", "slave_simulator::impl::do_step"],
  [("lastValue / modifiedValues / originalValues", "cached values")], ["slave::set_*_variables", "simulator get/set methods"])

p("C11", "Overrides take effect at the next step and reset restores, from any thread",
  "Every override or reset requested through the override manipulator, from any thread at any time, takes effect as a whole at the beginning of the next step, in request order for each thread, so that the last request for a variable wins and stays in force until reset or replaced. No request is lost, duplicated or applied to another variable, and after a reset the variable carries its unmodified value again.",
  ["schedules", "histories"], "All sequences of override/reset requests and steps up to a depth, and all interleavings of up to two requesting threads with a stepping thread.",
  "Tests issue overrides from the stepping thread only.",
  ["src/cosim/manipulator/override_manipulator.cpp", "src/cosim/slave_simulator.cpp"],
  ["override_manipulator::add_action", "override_manipulator::step_commencing"],
  [("actions_", "queued requests")], ["values seen by slaves and observers"])

p("C12", "Scenario events fire at their time, in order, and are undone at the end",
  "In a running scenario each event takes effect exactly once, at the first step that begins at or after its time relative to when the scenario started, and events due at the same step take effect in order of their time. The scenario is reported running until all events have fired and its end time, if any, has passed, and when it ends or is aborted every variable it modified reverts to its unmodified value while unrelated variables are never touched.",
  ["histories", "inputs"], "All scenarios of up to 3 events on up to 2 variables with times on a small grid, with or without end time, with every abort point and load time, over a window of steps.",
  "Tests run three fixed scenarios.",
  ["src/cosim/manipulator/scenario_manager.cpp"],
  ["scenario_manager::impl::step_commencing", "execute_action", "cleanup", "abort_scenario"],
  [("remainingEvents / executedEvents", "scenario progress")], ["simulator modifiers", "is_scenario_running"])

p("C13", "Scenario files are read faithfully or rejected",
  "Reading a scenario file yields exactly the events, in file order, with the times, target variables, actions and end time written in it, taking omitted fields from the defaults. A file naming an unknown model, variable or action, an action not valid for the variable's type, a variable that cannot be modified, or missing fields is rejected with an exception; no input crashes the process or is silently misread.",
  ["inputs"], "All combinations of event field presence/values, defaults, actions, types and causalities from a small grammar.",
  "Tests parse one YAML and one JSON file.",
  ["src/cosim/scenario_parser.cpp"], ["parse_scenario", "generate_action", "specified_or_default"],
  (), ["returned scenario", "exceptions"])

p("C14", "Time series hold exactly the recorded samples, bounded and aligned",
  "For each observed variable the time series observer holds exactly the most recent samples since observation started, up to the configured capacity, each with the step number and time at which the variable had that value. A query from a step number returns exactly the samples in that window of steps in order, a query for a time interval gives the narrowest range of recorded steps that encloses it as far as recorded, two-variable queries return values belonging to the same steps, variables not observed yield no samples, and all this holds with queries made concurrently with stepping.",
  ["histories", "schedules", "configurations"], "All sequences of start/stop observing, steps and queries up to a depth with small buffers and multi-rate simulators; all interleavings of a query/start/stop thread with a stepping thread.",
  "Tests query after the run from one thread with one rate.",
  ["src/cosim/observer/time_series_observer.cpp"],
  ["single_slave_observer", "get_samples", "get_step_numbers", "get_synchronized_real_series"],
  [("bufSize_", "capacity")], ["time_series_provider interface"])

p("C15", "The last value observer returns the values of the last completed step",
  "Reading variables through the last value observer returns, for every simulator, variable and type, the value that the variable had when the simulator last completed a step (or initialisation), in the order requested. Reads made concurrently with stepping return, for one call, values all belonging to one and the same completed step of that simulator.",
  ["schedules", "histories"], "All read orders and subsets over steps of multi-rate simulators; all interleavings of a reader with a stepping thread.",
  "Tests read once after the run.",
  ["src/cosim/observer/last_value_observer.cpp", "src/cosim/observer/slave_value_provider.cpp"],
  ["slave_value_provider::observe", "slave_value_provider::get_*"],
  (), ["last_value_provider interface"])

p("C16", "Log files contain exactly the configured samples",
  "While recording, the file observer writes for each logged simulator one row for the initial state (or the state at which the observer joins) and one per step at which that simulator completed, as far as the step number is a multiple of the simulator's decimation factor, holding time, step number and the value of each selected variable under its column, and nothing while not recording. Only the simulators and variables selected by the configuration appear (without a configuration every simulator with its non-local variables, and for a simulator listed without variables all of them); rows are ordered, complete and never lost or torn even if recording is started or stopped concurrently with stepping, and starting twice or stopping when stopped is refused.",
  ["histories", "configurations", "schedules"], "All sequences of start/stop recording and steps up to a depth, all small configurations (selection, decimation, multi-rate), and interleavings of a controlling thread with a stepping thread.",
  "Tests check that files exist, not what they contain.",
  ["src/cosim/observer/file_observer.cpp"],
  ["slave_value_writer", "file_observer::start_recording", "file_observer::stop_recording", "file_observer::parse_config"],
  [("recording_", "recording flag")], ["CSV files"])

p("C17", "A system structure only ever holds valid, resolvable connections",
  "Adding an entity succeeds exactly when its name is non-empty and not in use, a simulator's step size hint is not negative, and a function's parameters which determine its variables are of the right type and within their bounds. Adding a connection succeeds exactly when both variables exist (for function variables, with instance indices in range), at least one of them is a simulator's, the source is an output or calculated parameter, the target a modifiable input of the same type, and the target has no other connection. Anything else is rejected with an exception (error code invalid_system_structure) and leaves the structure unchanged. Initial values are accepted exactly for existing simulator variables of matching type that are not constant, and lookups return exactly what was added.",
  ["histories", "inputs"], "All sequences of add-entity / connect / add-value operations up to a depth over a small alphabet of models, functions and variables of all types and causalities.",
  "Tests exercise one valid structure and a few invalid calls.",
  ["src/cosim/system_structure.cpp", "include/cosim/system_structure.hpp"],
  ["system_structure::add_entity", "system_structure::connect_variables", "add_variable_value"],
  (), ["system_structure interface"])

p("C18", "Loading a structure into an execution reproduces exactly that structure",
  "Injecting a valid system structure and initial values into an execution creates exactly one simulator per model entity and one function per function entity with their names, step sizes and parameters, makes exactly the listed connections, and sets exactly the listed initial values before initialisation. The returned map names exactly these, and direct connecting of variables in an execution refuses unknown variables, wrong directions and already connected inputs regardless of the kind of source.",
  ["configurations", "histories"], "All small structures over an alphabet of models and functions, and all sequences of direct connect/disconnect calls up to a depth.",
  "Tests inject one structure.",
  ["src/cosim/execution.cpp", "src/cosim/system_structure.cpp"],
  ["inject_system_structure", "execution::impl::connect_variables", "validate_variable"],
  (), ["execution interface", "slave calls"])

p("C19", "URIs are split, composed and validated per RFC 3986",
  "Parsing a string as a URI yields the components which RFC 3986 assigns (scheme before the first colon if it consists of scheme characters, authority after a double slash, path, query, fragment), such that putting them together again gives the original string; it fails when the scheme is empty. Building a URI from components either gives a URI that has exactly those components, also after being converted to text and parsed again, or is rejected with invalid_argument; it is rejected when a component contains one of the delimiters that end it or could be taken for another component. Copies, moved-to and assigned URIs keep their components.",
  ["inputs"], "All strings up to a length over an alphabet with every delimiter and one character of each class; all small component tuples.",
  "Tests check a list of example URIs.",
  ["src/cosim/uri.cpp"], ["uri::uri", "parse functions", "all_chars_satisfy"],
  (), ["uri interface"])

p("C20", "Reference resolution and percent or file-path conversion follow the standard",
  "Resolving a reference against an absolute base URI gives the result of the RFC 3986 algorithm for every base and reference, including dot segments and empty segments in any position; a base without scheme is refused. Percent-encoding leaves only unreserved characters and the given exceptions unencoded, percent-decoding inverts it for every string and rejects escape sequences with invalid digits, and converting an absolute path to a file URI and back yields the same path. Only file URIs with an empty or localhost authority convert to paths.",
  ["inputs"], "All base/reference path combinations up to a length over an alphabet with dots and slashes; all strings up to length 4-5 over a small alphabet incl. non-ASCII.",
  "Tests check the RFC's example table only.",
  ["src/cosim/uri.cpp"], ["resolve_reference", "remove_dot_segments", "percent_encode", "percent_decode", "path_to_file_uri", "file_uri_to_path"],
  (), ["uri free functions"])

p("C21", "File locks give mutual exclusion between threads and processes",
  "At any time a lock file is held either by at most one exclusive owner or by any number of shared owners, across all lock objects, threads and processes that refer to the same file by any path. Non-blocking attempts never block and succeed whenever nothing conflicts, blocking ones succeed once conflicting owners are gone, and releasing one owner, or destroying or moving lock objects, never releases or corrupts another owner's lock.",
  ["schedules", "histories"], "All interleavings of 2-3 threads in up to 2 simulated processes doing lock/try-lock/shared variants and unlock on one or two files.",
  "Tests run one sequential script of try-lock calls with threads at fixed points.",
  ["src/cosim/utility/concurrency.cpp", "src/cosim/utility/concurrency.hpp"],
  ["file_lock::lock/try_lock/...", "boost_wrapper share counting", "file_lock::get_file_mutex"],
  [("shareCount_", "shared owners"), ("fileMutexCache", "path to mutex map")], ["file_lock interface"])

p("C22", "Cache directories are exclusive to one writer or shared by readers",
  "For each cache key there is at any time either one read-write owner or any number of read-only owners, across threads and processes, and ownership lasts until the handle is destroyed; conflicting requests wait or are refused as documented and never deadlock when callers hold no other handle. Distinct keys always map to distinct directories strictly inside the cache, the content written by a writer is what later owners of the same key see, and cleaning up removes only directories nobody owns.",
  ["schedules", "histories", "inputs"], "All sequences of acquire/release/cleanup over 2-3 keys and adversarial key strings; all interleavings of 2-3 threads in up to 2 simulated processes.",
  "Caches are not exercised by the stable tests at all.",
  ["src/cosim/file_cache.cpp"], ["temporary_file_cache", "persistent_file_cache", "file_cache::directory_ro/rw"],
  [("ownership records", "who owns a directory")], ["file_cache interface", "file system"])

p("C23", "Built-in functions compute their definition for every parameterisation",
  "A linear transformation outputs offset plus factor times input, and a vector sum outputs for each dimension the sum over all inputs, for every valid parameter combination and every order of setting inputs, calculating and reading. Descriptions list exactly the inputs and outputs that can be accessed, and parameter values of wrong type, out of range, or references outside the described range are rejected with an exception.",
  ["inputs", "histories", "configurations"], "All parameter values on a grid including wrong types and out-of-range ones, and all set/calculate/get sequences up to a depth.",
  "Tests cover one instance of each function.",
  ["src/cosim/function/linear_transformation.cpp", "src/cosim/function/vector_sum.cpp", "src/cosim/function/utility.cpp"],
  ["function_type::instantiate", "substitute_function_parameters", "function_instance set/get/calculate"],
  (), ["function interface"])

p("C24", "Real-time pacing never runs ahead and never sleeps when disabled",
  "With real-time pacing enabled, simulation time since pacing began never gets ahead of elapsed wall-clock time multiplied by the target factor by more than the documented tolerance, and no waiting is done beyond what that requires; with pacing disabled no waiting is ever done. Changing the target factor or toggling pacing during a run takes effect from the next step on, measured from that point, and reported real-time factors equal simulated time over elapsed wall-clock time.",
  ["histories", "configurations"], "All sequences of per-step compute delays, factor changes and enable/disable toggles up to a depth under a virtual clock.",
  "Tests measure one run with real sleeping and wide tolerances.",
  ["src/cosim/timer.cpp"], ["real_time_timer::impl::sleep", "start", "update_real_time_factor"],
  (), ["clock reads and sleeps", "real_time_metrics"])

p("C25", "Archives are unpacked faithfully and only inside the target directory",
  "Extracting an archive recreates exactly the files and directories it contains, byte for byte, below the target directory, and never creates, changes or removes anything outside it whatever the entry names are; names that would lead outside are rejected. Corrupt archives and I/O failures are reported as exceptions, never as silent truncation.",
  ["inputs", "fault_sequences"], "All archives of up to 2-3 entries with names from an alphabet including '..', absolute, empty, duplicate and directory names, several sizes, and every single-byte or truncation corruption of a small archive.",
  "Tests extract one benign archive.",
  ["src/cosim/utility/zip.cpp"], ["archive::extract_all", "archive::extract_file_to", "extract_file_as"],
  (), ["file system"])

p("C26", "OSP configuration files are loaded exactly as written",
  "Loading an OSP system configuration yields exactly the simulators, step sizes, initial values, functions, variable, signal and (nested) group connections, and start, end and base step times written in the file, with each connection oriented from output to input whichever order it is written in. Files that refer to unknown simulators, variables, functions, groups or mismatched groups, or have invalid times or values, are rejected with an exception rather than partially loaded or crashing.",
  ["inputs", "configurations"], "All small configurations generated from a grammar: simulators, optional attributes, initial values of all types, function kinds, connection kinds and orders, nested groups; and single mutations of them.",
  "Stable tests load no OSP configuration successfully (no FMU support in the build).",
  ["src/cosim/osp_config_parser.cpp"], ["load_osp_config", "osp_config_parser", "connect_variable_groups"],
  (), ["osp_config"])

p("C27", "SSP configurations are loaded exactly as written",
  "Loading an SSP system description, as a file, directory or archive, yields exactly the components, step size hints, parameter sets (with each component's first set as the default), connections including linear transformations, algorithm settings and start time written in it. Descriptions with missing mandatory data or connections to unknown components or connectors are rejected with an exception.",
  ["inputs", "configurations"], "All small descriptions generated from a grammar, loaded in each of the three ways, and single mutations of them.",
  "Stable tests load no SSP successfully (no FMU support in the build).",
  ["src/cosim/ssp/ssp_loader.cpp", "src/cosim/ssp/ssp_parser.cpp"], ["ssp_loader::load", "ssp_parser", "add_parameter_set"],
  (), ["ssp_configuration"])

p("C28", "Initial values propagate through every acyclic chain before the first step",
  "When a slave's simulation is started, every connected input holds the value its source has given all initial values; before any slave takes its first step, it holds the value its source has once all simulations have been started (the same value, unless starting changed the source's output); and observers which are told that the simulation is initialised see the corresponding outputs. This holds for any chain of direct-feedthrough simulators and functions of length up to the number of entities, in any order of registration. Initial values set by the user are in effect from setup onwards and can only be set before initialisation, and explicit connections take precedence over initial values.",
  ["configurations", "histories"], "All registration orders and all chains/trees of up to 4 simulators and functions, with initial values on every subset of inputs.",
  "Tests start from a single registration order.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/execution.cpp", "src/cosim/slave_simulator.cpp"],
  ["fixed_step_algorithm::impl::initialize", "execution::set_*_initial_value"],
  (), ["slave inputs at start of simulation"])

p("C29", "Model lookup asks resolvers in order and resolves relative references",
  "Looking up a model by URI asks the registered resolvers in registration order until one answers, passes each the absolute URI that the reference denotes relative to the base, returns the first answer, and fails with an exception if none answers or no absolute URI is given. A resolver failing with an exception is reported to the caller and not masked by later resolvers.",
  ["histories", "inputs"], "All sequences of up to 3 resolvers with each answer (model, none, exception), times base/reference forms.",
  "Orchestration tests need FMU support and do not run.",
  ["src/cosim/orchestration.cpp"], ["model_uri_resolver::lookup_model", "model_uri_sub_resolver::lookup_model"],
  (), ["model_uri_resolver interface"])

p("C30", "Temporary directories are unique and removed exactly with their owner",
  "Each temporary directory object owns a newly created directory which is distinct from all others, including those of other threads and processes, and which exists until the object that owns it is destroyed or assigned to, and is then removed with all its contents; moving transfers ownership, and no directory is removed twice, leaked or removed while another object owns it.",
  ["histories", "schedules"], "All sequences of create / move-construct / move-assign (including to itself) / destroy over 3 objects up to a depth; all schedules of three threads up to a preemption bound; up to three processes with several directories each; many directories at once.",
  "The test covers one create-move-destroy script.",
  ["src/cosim/utility/filesystem.cpp"], ["temp_dir move operations", "temp_dir::delete_noexcept"],
  [("path_", "owned directory")], ["file system"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
