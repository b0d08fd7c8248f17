import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    P.append(d)
EX="src/cosim/execution.cpp"; FS="src/cosim/algorithm/fixed_step_algorithm.cpp"; SS="src/cosim/slave_simulator.cpp"
TP="src/cosim/utility/thread_pool.hpp"
p("A01","Every slave is stepped over a gap-free grid of intervals from the start time",
 "With base step B and a simulator whose step-size hint is H, the simulator is stepped exactly over the consecutive intervals [start + n*k*B, start + (n+1)*k*B], n = 0,1,2..., where k = max(1, floor(H/B)) (k = 1 for H = 0), never twice, never skipped and never overlapping. After n execution steps the execution's current time is exactly start + n*B, each step reports the duration B, and a simulator has been stepped iff its next interval begins no later than the last completed base step.",
 ["configurations","histories","schedules"],
 "All sets of simulators and hints (including zero, below B, and not a multiple of B), all start times (also negative), all mixtures of step() and simulate_until() calls, all worker-thread counts.",
 "Tests run one or two fixed hint/base combinations and check a final value; they do not look at the interval each slave was actually given, nor at any other ratio.",
 [FS,EX,"include/cosim/execution.hpp","include/cosim/slave.hpp"],
 [("decimation factor from hint","fixed_step_algorithm.cpp calculate_decimation_factor"),("due test on the step counter","fixed_step_algorithm::impl::do_step"),("time and step bookkeeping","execution::impl::step")],
 ["slave::do_step arguments","execution::step return value","execution::current_time"])
p("A02","simulate_until advances to the first grid point at the target and says so",
 "simulate_until(T) takes at least one step and then keeps stepping until, and not beyond, the first grid point from which T is less than 1 % of a step away or already passed; it returns true iff it got there and false iff it was stopped earlier. is_running() is true exactly while such a call is in progress, and is false again when the call has ended in any way, including by an exception.",
 ["inputs","histories","fault_sequences"],
 "All target times (on grid, between grid points, at or before the current time, absent), all sequences of simulate_until/step calls, stop requests from inside callbacks, and slave failures at any step.",
 "Tests call it with targets that are exact multiples of the step and never with a failing slave while checking is_running().",
 [EX,"include/cosim/execution.hpp"],
 [("loop and end test","execution::impl::simulate_until / timed_out"),("running flag","execution::impl::stopped_")],
 ["return value of simulate_until","execution::current_time","execution::is_running"])
p("A03","A stop request ends a running simulation at a step boundary, under any schedule",
 "stop_simulation(), called from any thread while a simulate_until or simulate_until_async call is in its loop, makes that call return false after the step in progress, with every observer having been notified of each completed step; the simulation can then be resumed from exactly that time with no step lost or repeated. Only one outcome is reported per run: true iff no stop request took effect before the target was reached.",
 ["schedules","histories"],
 "All interleavings of the requesting thread with the stepping thread, repeated start/stop cycles, with and without worker threads.",
 "Existing tests stop after a real-time sleep in one interleaving and never check the boundary or resumption.",
 [EX],[("atomic stop flag tested after every step","execution::impl::simulate_until"),("launch on own thread","execution::impl::simulate_until_async")],
 ["future<bool> result","execution::current_time","observer callbacks"])
p("A04","Connected inputs always hold the source's latest jointly synchronised value",
 "Whenever a communication point is reached at which both the source and the target of a connection have completed a whole number of their steps, the connected input receives the value the source output has at that point, and the target's next step runs with it; at every other step the input keeps its previous value. This holds per connection for all four variable types, and through a function the target receives the function's result computed from the values of that same communication point.",
 ["configurations","histories","inputs"],
 "All connection graphs (fan-out, chains, cycles, through linear-transformation and vector-sum functions), all decimation factors, all types, all step counts.",
 "Tests check only end values on one or two topologies with equal step sizes, where stale and fresh values often coincide.",
 [FS,SS,"src/cosim/function/linear_transformation.cpp","include/cosim/function/vector_sum.hpp"],
 [("transfer at lcm of the two decimation factors","fixed_step_algorithm::impl::transfer_variables"),("function schedule","fixed_step_algorithm::impl::update_function_decimation_factor / calculate_and_transfer"),("pending set cache flushed before the slave steps","slave_simulator.cpp set_variable_cache")],
 ["input values seen by slave::do_step","values read by observers"])
p("A05","Results do not depend on worker threads; phases are separated by barriers",
 "For any number of worker threads, including none, the sequence of step intervals, input values and output values of every slave, and every value seen by observers, is the same. No slave begins a phase (setup, start, step) before all slaves have ended the previous one, no callback to observers or manipulators runs while a slave is inside a call, and no slave is ever inside two calls at once.",
 ["schedules","configurations"],
 "All interleavings of the pool's workers, all thread counts from 0 up to the hardware limit, slaves of arbitrary and differing duration.",
 "A unit test sees one schedule on one machine; a lost barrier shows only when a slave happens to be slow.",
 [FS,TP],[("wait for all tasks before transfer","fixed_step_algorithm::impl::do_step / initialize"),("pending task count","thread_pool::worker_thread / wait_for_tasks_to_finish")],
 ["order of slave call begin/end events and of observer callbacks"])
p("A06","Slaves see setup, initialisation, start, steps - once each, with initial values",
 "Each slave that is added before the first step gets exactly one setup call carrying the execution's start time, then variable exchange only, then one start_simulation call, then steps; observers and manipulators see no step before all slaves have started. When a slave is started, every initial value set by the user has been delivered to it, and values have been propagated along every connection path through simulators and functions, however long; setting an initial value after initialization is refused with an error and changes nothing.",
 ["configurations","histories"],
 "All system sizes and topologies (chains of direct feed-through up to the number of entities), any set of initial values, any insertion order of simulators, functions, connections and initial values.",
 "Tests use at most a chain of fixed length and look at values after some steps, where an insufficient number of iterations has already been masked.",
 [FS,EX,SS],[("N init iterations","fixed_step_algorithm::impl::initialize"),("state guard","slave_simulator.cpp state_guard"),("refusal after init","execution::impl::set_real_initial_value and siblings")],
 ["slave::setup/start_simulation/do_step calls and variable values at those calls","exceptions of set_*_initial_value"])
p("A07","An input has at most one source; invalid connections are refused without effect",
 "A connection is accepted iff both ends exist, the source is an output (or calculated parameter) and the target an input, the types agree, and the target is not already connected to anything, be it a simulator or a function. A refused connection throws and leaves the co-simulation as it was; breaking a connection or removing a simulator ends every transfer into the affected inputs and no other.",
 ["inputs","histories"],
 "All sequences of valid and invalid connect calls between simulators and functions, at execution level, and of disconnect/remove/decimation-factor calls at algorithm level.",
 "Tests cover one duplicate and one unknown variable; mixed simulator/function sources and disconnects of function outputs are not exercised.",
 [EX,FS],[("validation","execution::impl::validate_variable"),("connection maps","execution::impl::connect_variables_impl"),("disconnection","fixed_step_algorithm::impl::disconnect_variable / remove_simulator")],
 ["exceptions of connect_variables","values arriving at slaves"])
p("A08","A failing slave surfaces as one error and the failed step is never published",
 "If any slave throws or does not complete during setup, start or a step, the step/simulate call ends with an error naming every slave that failed, for any number of worker threads and never by terminating the process. In that case time does not advance, no observer is told that the step completed, no value is transferred, the other slaves' calls have all ended, and no further call reaches a slave that threw.",
 ["fault_sequences","schedules"],
 "Every subset of slaves failing, in every phase, by exception or by an incomplete step, at any step number, with 0..n workers.",
 "Only a single failure in do_step is touched by the tests, with no check on time, observers or multiple failures.",
 [FS,EX,SS],[("collect errors under a mutex, throw after the barrier","fixed_step_algorithm::impl::do_step"),("error state","slave_simulator.cpp state_guard")],
 ["exception text","execution::current_time","observer callbacks","slave calls"])
p("A09","Observers and manipulators get every event, in order, at a consistent point",
 "Every observer is told of every simulator exactly once with its index, then of initialization exactly once, then for every step, in order of step number, of each simulator that completed a step there and finally of the step itself, with the matching step number, duration and time; observers added late first get the events they missed for existing simulators and initialization. Every manipulator is told of every simulator once, and before every step exactly once that it commences at the current time.",
 ["histories","configurations"],
 "All orders of adding simulators, observers and manipulators before or between steps, all decimation patterns, all numbers of observers.",
 "Tests add one observer before the start and check its data, not the notification protocol or late registration.",
 [EX],[("notification loops","execution::impl::step / add_slave / add_observer / add_manipulator"),("finished set","fixed_step_algorithm::impl::do_step")],
 ["observer and manipulator callbacks"])
p("A10","Modifiers act on every step while set, and resetting restores the true value",
 "While an input modifier is set, every step of the slave runs with the modifier applied to the value most recently transferred or set (or the start value), and while an output modifier is set every consumer - connections and observers alike - sees the modified output, computed afresh at each step of that slave with its own step length. Removing the modifier restores the unmodified value from the next step on, and the list of modified variables is exactly the set of variables with an active modifier.",
 ["histories","inputs"],
 "All interleavings of setting, replacing and removing modifiers on inputs, outputs and parameters with transfers and with steps of decimated simulators.",
 "Tests use one constant override of one variable; they do not mix transfers arriving while an override is active with reset.",
 [SS,EX,"include/cosim/manipulator/manipulator.hpp"],[("set cache with sticky last value","slave_simulator.cpp set_variable_cache"),("get cache with original and modified values","slave_simulator.cpp get_variable_cache"),("modified reference sets","slave_simulator.cpp set_modified_reference")],
 ["values seen by slaves and observers","execution::get_modified_variables"])
p("A11","The execution drives any co-simulation algorithm lawfully and follows it exactly",
 "An execution with any implementation of the algorithm interface calls its setup once with the start time, tells it of every simulator and function with the index and step size hint given, and of every valid connection and no other; it calls initialize until it first succeeds and never again, before the first do_step, and calls do_step at exactly the current time after every manipulator has been told that the step commences. Time advances by exactly the length that do_step returns, whatever it is and however it varies; observers are told of exactly the simulators that do_step returned and then of the step; a run ends at the first step after which less than 1 % of that step's length is left to the target, or at which a stop was requested. What the algorithm throws passes through unchanged, and then time, step count and connections are as they were and a later call tries again.",
 ["histories","inputs","fault_sequences"],
 "All sequences of the execution's operations and all behaviours of the algorithm: any step lengths (also zero), any sets of simulators, failures of any kind at initialize, do_step and connect_variables, stop requests, moved and coexisting executions.",
 "Tests only ever use the fixed-step algorithm, whose steps all have one length and whose initialization and connections do not fail.",
 [EX,"include/cosim/algorithm/algorithm.hpp","include/cosim/execution.hpp"],
 [("order of calls, time and notification","execution::impl::step"),("connections recorded after the algorithm accepted them","execution::impl::connect_variables_impl"),("end test with the last step's length","execution::impl::simulate_until / timed_out")],
 ["calls of the algorithm","execution::current_time","observer and manipulator callbacks","results and exceptions of step and simulate_until"])
p("A12","Simulators exchange exactly the exposed variables, as set and modified",
 "Through the simulator, observable and manipulable interfaces that algorithms, observers and manipulators are given, a variable can be set or read iff it was exposed for that before, else an error is thrown. Nothing reaches the slave or comes from it except in setup, do_iteration, start_simulation and do_step: there each exposed variable gets the value set last (or its start value) with its input modifier applied for that step's length, before the slave's own function runs, and afterwards each variable exposed for reading shows what the slave has then, with its output modifier applied, until the next such call. Variables that are not exposed are never touched; arguments, results and exceptions of the slave pass unchanged; the modified variables listed are exactly those with an input or output modifier set.",
 ["histories","inputs","fault_sequences"],
 "All sequences of exposing, setting, reading and modifying variables of all types, at any point between the exchanging calls, with any step lengths, results and failures, for several simulators used in turn.",
 "Tests set and read a few variables in one order through the fixed-step algorithm, where everything is exposed before the start.",
 [SS,"include/cosim/algorithm/simulator.hpp","include/cosim/manipulator/manipulator.hpp","include/cosim/observer/observer.hpp"],
 [("pending values and modifiers","slave_simulator.cpp set_variable_cache"),("values read and modifiers","slave_simulator.cpp get_variable_cache"),("order of exchange and slave calls","slave_simulator::impl::do_step / start_simulation / do_iteration / setup")],
 ["slave calls and the values it has then","results of get_*","get_modified_*_variables"])
p("A13","Functions of any kind are calculated once per joint step, on current inputs",
 "With the fixed-step algorithm any implementation of the function interface, also one with a memory, is calculated exactly once at each point where all the simulators that it feeds have finished a step (at every base step if it feeds none) and at no other time, at least once before and after the simulators start, and never while a simulator is calculating. It then has, in each connected input of every type, the value of its source at the last point where source and function were both due, and in all others what it had. Its outputs are asked for only after its calculation and before it is given another value, each text is used before the function is called again, and the simulators that it feeds have the outputs of that calculation from their next step on. What it throws ends the step with an exception.",
 ["inputs","configurations","histories"],
 "All function implementations (with state, of all variable types, with several groups and instances), connection graphs, rates, and connections made before or between steps.",
 "Tests use the two built-in functions, which have no memory and only numbers, mostly at one rate.",
 [FS,"include/cosim/function/function.hpp","src/cosim/execution.cpp"],
 [("rate of a function","fixed_step_algorithm::impl::update_function_decimation_factor"),("order of transfer and calculation","fixed_step_algorithm::impl::calculate_and_transfer"),("transfer by type","fixed_step_algorithm::impl::transfer_variable")],
 ["calls of the function's members and the values in them","what simulators have when they step"])
p("M01","Overrides take effect atomically at the next step and the last one wins",
 "Each override or reset request on an existing input, parameter, output or calculated parameter is applied exactly once, at the first step that commences after the request, and of several requests for one variable the last wins; requests for unknown or unmodifiable variables are refused when made. Requests made from another thread during a step lose nothing, are applied in the order that thread made them, and never affect the step in progress.",
 ["histories","schedules","inputs"],
 "All request sequences over variables, types and causalities, from one or several threads racing with the stepping thread.",
 "Tests issue requests between steps from one thread for one variable of each kind.",
 ["src/cosim/manipulator/override_manipulator.cpp"],[("queue under a lock, drained at step start","override_manipulator::add_action / step_commencing")],
 ["modifiers installed on the manipulable at step_commencing"])
p("M02","Scenario events fire once, in time order, and everything is undone at the end",
 "Each event of a loaded scenario is applied exactly once, at the first step commencing at or after its time relative to the load time, and when several events for one variable become due together the one with the latest time (then the later in the list) prevails. The scenario ends at the first step at which all events have been applied and the end time, if any, has passed; when it ends, is aborted or is replaced by another one, every variable it modified is reset and no event fires any more.",
 ["histories","inputs","configurations"],
 "All event lists (unsorted, equal times, several per step, none), with and without end time, all step sizes, with load/abort/reload at any point.",
 "Tests play one fixed scenario file with well separated events.",
 ["src/cosim/manipulator/scenario_manager.cpp"],[("remaining/executed event maps","scenario_manager::impl::step_commencing"),("cleanup","scenario_manager::impl::cleanup / abort_scenario")],
 ["modifiers set on the manipulable","is_scenario_running"])
p("M03","A scenario file is loaded as the events it describes, or refused",
 "Loading a scenario file yields exactly the events listed in it, in order, for the simulator and variable named, with the action, type and causality they describe (real, integer and string actions), and the stated end time; a file naming an unknown simulator or variable, or an unsupported action for the type, is refused with an error and the manager keeps its previous state.",
 ["inputs"],
 "All scenario files over a small vocabulary of models, variables, types, actions and times, in both supported notations, including ill-formed ones.",
 "Tests parse a few hand-written valid files.",
 ["src/cosim/scenario_parser.cpp"],[("event parsing","scenario_parser.cpp parse_scenario"),("variable lookup","scenario_parser.cpp find_variable")],
 ["modifiers applied when the scenario is played","exceptions"])
p("O01","The last-value observer shows each simulator's latest completed step",
 "For every simulator and every variable type, last_value_observer returns the value that the variable had when that simulator last completed a step (or at initialization before its first), regardless of later changes in the simulator or of other simulators' steps (for an observer added late: from the first notification it gets).",
 ["histories","inputs"],
 "All sequences of requests for variables (any order, repeated, unordered, several types) interleaved with step notifications of several simulators.",
 "Tests read a few variables at fixed points.",
 ["src/cosim/observer/last_value_observer.cpp","src/cosim/observer/slave_value_provider.cpp"],[("snapshot on notification","slave_value_provider::observe"),("index mapping","slave_value_provider::get_*")],
 ["last_value_observer::get_real/get_integer/get_boolean/get_string"])
p("O02","A time series returns exactly the last samples recorded, each with its time",
 "For an observed variable, a query from step s returns, in step order and without gaps, the recorded samples with step >= s and step < s + n for output space n, each with the value and time at which that simulator completed that step, and nothing for steps outside the buffer; the buffer holds the newest `bufferSize` samples since observation (re)started. Step-number queries by duration or time range return the recorded steps that enclose the range most closely (the last one not after its begin, else the first; the first one not before its end, else the last).",
 ["histories","inputs"],
 "All buffer sizes >= 1, start/stop/restart of observation at any time, decimated simulators, queries with any start step and any output length.",
 "Tests use one or two buffer sizes and read from a single start step.",
 ["src/cosim/observer/time_series_observer.cpp"],[("ring buffers of samples and times","time_series_observer::single_slave_observer"),("sample extraction","time_series_observer.cpp get_samples")],
 ["get_real_samples/get_integer_samples/get_step_numbers"])
p("O03","Synchronised series pair values from one and the same step",
 "get_synchronized_real_series returns, in step order, one pair for every step s, s+1, ..., s+n-1 (s the step asked from, n the space given) at which both variables have a recorded sample; both values of a pair come from that same step, also for two variables of one simulator and for simulators with different step sizes or observation periods.",
 ["histories","inputs"],
 "All combinations of decimations, observation starts, buffer sizes, start steps and output lengths.",
 "The test uses two simulators with equal buffers and one start step.",
 ["src/cosim/observer/time_series_observer.cpp"],[("step-wise matching","time_series_observer::get_synchronized_real_series")],
 ["returned pairs and count"])
p("O04","Log files hold exactly the recorded steps, one complete row each",
 "While recording, each simulator's log gets exactly one row for the initial state and one for each completed step whose number is a multiple of the configured decimation, with the step's time, number and the values of exactly the configured variables in header order; while not recording it gets none. start_recording fails iff already recording and stop_recording fails iff not recording, is_recording tells which, and after stop_recording the file is complete on disk; when files are not time-stamped, a new recording replaces the old log. A metadata file is written for each recording that states, for every simulator, the reference, type, causality, variability and start value of exactly the logged variables.",
 ["histories","configurations"],
 "All sequences of start/stop/step notifications over several simulators, all decimation factors, all variable selections (none listed, some, all) and types.",
 "Tests run one sequence and mostly check that files exist.",
 ["src/cosim/observer/file_observer.cpp"],[("row buffering and decimation","file_observer::slave_value_writer::observe"),("recording flag","file_observer::start_recording / stop_recording")],
 ["contents of the CSV files","exceptions","is_recording"])
p("O05","Values read from observers while the simulation runs are never torn or stale",
 "A query of a last-value or time-series observer made from any thread while the simulation runs returns values that all belong to one completed step of that simulator (for a series: a contiguous run of steps with matching values and times), not older than the last step completed before the query began and not newer than one completed before it returned. A series that a thread starts or stops meanwhile begins with the first step completed after the request, and no other series is disturbed.",
 ["schedules"],
 "All interleavings of reader threads with the stepping thread.",
 "Tests read between steps from the stepping thread only.",
 ["src/cosim/observer/slave_value_provider.cpp","src/cosim/observer/time_series_observer.cpp"],[("lock held over snapshot and over multi-value reads","slave_value_provider::get_real etc. / single_slave_observer")],
 ["values returned to concurrent readers"])
p("T01","The thread pool runs every task exactly once and waiting means all are done",
 "Every task submitted to the pool runs exactly once, in submission order of starting, on some worker (or in the submitting thread if there are no workers); waiting returns only when every task submitted before it has ended, and always returns; destroying the pool first runs everything that was submitted.",
 ["schedules","histories"],
 "All interleavings of submitter, waiter and 0..n workers, over any number of submit/wait rounds and destruction at any point.",
 "Not unit-tested; used by tests on one schedule at a time, where a lost wake-up or early return is a rare race.",
 [TP],[("queue, pending counter and condition variables under one mutex","thread_pool")],
 ["task start/end events, return of wait_for_tasks_to_finish and of the destructor"])
p("T02","A file lock excludes across threads and processes; shared locks coexist",
 "At any time a lock file is held either by nobody, by exactly one exclusive holder, or by any number of shared holders, counted over all threads of all processes; an attempt without blocking never waits, succeeds only if the lock is compatible with the present holders, and fails only if it is not or another thread of the same process is just acquiring, awaiting or releasing it; a blocking request is granted once nothing stands in its way. A failed or released lock leaves no trace: destroying, moving or unlocking a lock object releases exactly what it held.",
 ["schedules","histories"],
 "All interleavings of lock, try_lock, unlock, shared variants, moves and destruction by several threads in several processes.",
 "The test covers a handful of fixed hand-overs.",
 ["src/cosim/utility/concurrency.cpp","src/cosim/utility/concurrency.hpp"],[("per-file process-wide mutex plus OS file lock","utility::file_lock::lock etc."),("shared-holder count","file_lock::boost_wrapper")],
 ["results of try_lock/try_lock_shared","critical-section occupancy"])
p("F01","The temporary cache never grants conflicting access to a directory",
 "temporary_file_cache grants read-write access to a key only when no other handle to it is alive and read-only access only when the key exists and no read-write handle to it is alive, and otherwise refuses with an exception. All handles for one key name the same existing directory, different keys different ones, what was written is there for later readers, and destroying the cache removes everything.",
 ["histories"],
 "All sequences of acquiring and releasing read-write and read-only handles for several keys, with handles released in any order.",
 "No test exercises this class beyond incidental use.",
 ["src/cosim/file_cache.cpp"],[("ownership by weak references","temporary_file_cache::impl")],
 ["exceptions or handles returned","directory contents"])
p("F02","The persistent cache serialises writers, shares readers, and keeps data in use",
 "Over all threads and processes sharing a cache root, a read-write handle to a key excludes every other handle to that key while read-only handles coexist, keys do not block each other's holders, read-only access requires that the key exists, and data written under a key is what later handles find. cleanup removes exactly the directories for which no handle is alive and leaves the cache usable, whatever else runs concurrently.",
 ["schedules","histories"],
 "All interleavings of several threads and processes acquiring, releasing and cleaning up, over several keys.",
 "No existing test covers the class.",
 ["src/cosim/file_cache.cpp","src/cosim/utility/concurrency.cpp"],[("root lock and per-key lock","persistent_file_cache::impl"),("cleanup under try-lock","persistent_file_cache::impl::cleanup")],
 ["handles, exceptions, directory contents"])
p("S01","A system structure accepts exactly the well-formed systems",
 "Adding an entity succeeds iff its name is non-empty and unused, its step hint is not negative and its function parameters are valid; connecting succeeds iff both variables exist, the source is an output or calculated parameter, the target an input that can vary, the types agree and the target has no connection yet; a value is accepted iff the variable exists, is not constant and the type matches. A rejected operation throws an error and leaves the structure unchanged; an accepted one is reflected exactly by its queries.",
 ["inputs","histories"],
 "All sequences of add/connect/query operations over simulator and function entities with all causalities, variabilities, types and parameter values.",
 "Tests try a few valid and invalid operations each in isolation.",
 ["src/cosim/system_structure.cpp","include/cosim/system_structure.hpp"],[("validation","system_structure::add_entity / connect_variables"),("value validation","system_structure.cpp add_variable_value")],
 ["exceptions","entities(), connections(), get_variable_description"])
p("S02","Injecting a structure builds exactly that co-simulation",
 "inject_system_structure adds one simulator or function per entity with its name, step hint and parameters, makes exactly the structure's connections and delivers exactly the given initial values, and returns the index of every entity by name; the resulting run equals one of the same system built by hand.",
 ["configurations"],
 "All small structures with simulators and functions, any connections that the structure accepts, any initial values; injection of several structures into one execution.",
 "One test injects one structure.",
 [EX,"src/cosim/system_structure.cpp"],[("translation of names to indices","execution.cpp inject_system_structure")],
 ["index maps, slave names, step intervals and values in the run"])
p("S03","Function parameters are checked and default as described",
 "Instantiating a function type with a set of parameter values uses each value given and the described default for each one not given, and refuses values of the wrong type or outside the described range; the instance's description has the group sizes, dimensions and types that follow from the parameters, and its outputs are the described function of its inputs.",
 ["inputs"],
 "All parameter maps over a small value domain for linear_transformation and vector_sum, and all small input vectors.",
 "Tests instantiate each type once or twice with valid parameters.",
 ["src/cosim/function/utility.cpp","include/cosim/function/utility.hpp","src/cosim/function/vector_sum.cpp","include/cosim/function/vector_sum.hpp","src/cosim/function/linear_transformation.cpp"],[("placeholder substitution and range check","function/utility.cpp replace_placeholder"),("parameter lookup","function/utility.hpp get_function_parameter")],
 ["description(), calculate() results, exceptions"])
p("U01","URI references are split, resolved and converted as RFC 3986 says",
 "Parsing any string that is a valid URI reference yields its unique RFC 3986 decomposition into components (other strings may be refused), and components put together give the string back; composing refuses components that contain the delimiters of others; resolving any valid reference against any absolute base gives the result of RFC 3986 section 5.2. Percent-decoding undoes percent-encoding for every byte string, and an absolute file path converted to a file URI and back is the same path.",
 ["inputs"],
 "All references and base paths composed of a small alphabet of segments, separators, dots and components, and all short strings with percent signs.",
 "Tests use the RFC's example table and a few round trips.",
 ["src/cosim/uri.cpp"],[("component parser","uri.cpp uri_parser"),("reference resolution","uri.cpp resolve_reference / remove_dot_segments"),("percent coding","uri.cpp percent_encode / percent_decode")],
 ["component accessors, view(), exceptions"])
p("L01","An OSP configuration loads as exactly the system it describes, or is refused",
 "Loading an OSP-IS system structure yields exactly the simulators (with source, step size hint and initial values), functions (with parameters), variable connections, and variable-group and signal connections expanded member by member that it describes, plus the stated start time, base step and end time (if there is one), and none of it depends on the process's locale or working directory. A description is refused with an error, never by ending the process, if it is malformed, names two entities alike, refers to an unknown entity, variable, group or signal, connects incompatible ends or one input twice, leaves a function signal unconnected, or has times that are not numbers or out of range, a base step that is not positive or an end before the start. OSP model descriptions are looked for beside the model, or else beside the configuration.",
 ["inputs","configurations"],
 "All small abstract system descriptions over a fixed set of models, valid or with broken references, in files and directories as the user may lay them out.",
 "No test samples more than a few well-formed files.",
 ["src/cosim/osp_config_parser.cpp"],[("XML to system structure","osp_config_parser.cpp load_osp_config")],
 ["osp_config contents, exceptions"])
p("L02","Model URIs go to the first sub-resolver that knows them",
 "A model reference is resolved against the base URI and offered to the sub-resolvers in the order in which they were added; the first one that returns a model decides, later ones are not consulted, and if none does an error is raised. The resolver cannot be used without sub-resolvers that understand the scheme, and a sub-resolver's exception is passed on.",
 ["histories","inputs"],
 "All sequences of sub-resolver registrations with arbitrary accept/decline/throw behaviour, over absolute and relative references with and without base URI.",
 "No test of the resolver runs in the available build.",
 ["src/cosim/orchestration.cpp"],[("ordered list of sub-resolvers","model_uri_resolver::lookup_model")],
 ["sub-resolver calls, returned model, exceptions"])
p("Z01","Unpacking an archive writes its entries below the target and nowhere else",
 "Extracting an archive creates, below the target directory, exactly the files and directories that the archive lists with exactly their contents; whatever the entries are called, nothing is created or changed outside the target directory, and an entry that would do so makes the extraction fail.",
 ["inputs"],
 "All archives with a few entries whose names are composed of plain, dot, dot-dot, empty and absolute path segments.",
 "The test unpacks one well-behaved archive.",
 ["src/cosim/utility/zip.cpp"],[("entry name check and path join","zip.cpp archive::extract_all / extract_file_to")],
 ["directory tree after extraction, exceptions"])
p("R01","With a real-time target set, the simulation never runs ahead of it",
 "While real-time simulation is enabled with factor f, after each step at least (simulated time advanced since the run began, or since the end of the first step after the setting was changed)/f of wall-clock time has passed, within scheduling tolerance, and the next step is not delayed for longer than that takes; while it is disabled, no step is delayed.",
 ["histories","configurations"],
 "All step sizes, factors, and on/off switches during a run.",
 "Tests measure one factor.",
 ["src/cosim/timer.cpp"],[("sleep to target","real_time_timer::impl::sleep")],
 ["wall-clock time at step boundaries"])
p("R02","Real-time metrics are measured factors, over the windows that were asked for",
 "While simulate_until runs, the metrics at each step boundary are those of the latest completed step, its real-time delay included: total_average_real_time_factor is simulated time over wall-clock time since the reference point (the start of the run, or the end of the first step after the real-time settings, including the monitoring ones, were changed); rolling_average_real_time_factor is the same ratio for the latest complete window. Windows follow each other from the reference point without gap or overlap; each is exactly steps_to_monitor steps, or, if sampling_period_to_monitor is positive, ends at the first step boundary where more than that wall-clock time has passed. Until a window is complete, and after a run, the last values are kept.",
 ["histories","configurations"],
 "All step sizes, durations of steps, factors, window settings, changes of settings during and between runs, pauses between runs.",
 "Tests check that the metrics are positive.",
 ["src/cosim/timer.cpp","include/cosim/timer.hpp"],[("measurement","real_time_timer::impl::update_real_time_factor"),("restart","real_time_timer::impl::start, sleep")],
 ["metrics and wall-clock time at step boundaries"])
p("N01","FMU and remote slaves make lawful FMI calls and tell all failures",
 "Whoever uses slaves made from an FMU (FMI 1.0 or 2.0) or a remote FMU (proxyfmu) in the order the slave interface prescribes causes calls of the FMU in the order the FMI standard permits, whatever statuses the FMU returns: each operation makes exactly its calls, with its arguments (references, values, times) in order, and returns the values received. A failure of the FMU makes the operation fail with the error of its kind, carrying the FMU's own message if it logged one; an FMU that failed is not called any more except to be freed, every instance and handle is released exactly once however things end, and slaves of one FMU do not affect each other. The model description is the one the FMU gives.",
 ["programs","fault_sequences"],
 "All orders of operations on several slaves of FMUs of three kinds, with every status at every call, all descriptions, arguments and values.",
 "Tests run a few FMUs that never fail; these cannot even be built without FMI Library.",
 ["src/cosim/fmi/v1/fmu.cpp","src/cosim/fmi/v2/fmu.cpp","src/cosim/fmi/glue.cpp","src/cosim/proxy/remote_slave.cpp","src/cosim/proxy/remote_fmu.cpp"],[("life cycle of a slave","fmi::v1::slave_instance, fmi::v2::slave_instance, proxy::remote_slave"),("translation of descriptions","fmi/glue.cpp, v1/v2 fmu constructors, remote_fmu.cpp")],
 ["calls received by the FMU, return values, exceptions"])
p("N03","Importing an FMU gives the whole FMU, and each FMU once",
 "Importing an FMU from a file or a directory gives an FMU whose files are all there and all as in the archive, whatever was in the cache before, including what an import that failed or was interrupted at any point left behind, and what an older version of the file left; FMUs with one GUID, or at one path, are loaded once for as long as someone uses them, and again thereafter. Where the FMU cannot be imported - no or incomplete model description, a version of FMI that is not supported, an unreadable entry - an error of that kind is raised, and a later import of a repaired file succeeds.",
 ["histories","crash_points"],
 "All histories of importing, releasing, replacing files, failing and dying within an import, over several files sharing a persistent or temporary cache.",
 "Tests import one FMU once.",
 ["src/cosim/fmi/importer.cpp"],[("unpacking into the cache","importer::import"),("loaded FMUs","importer::prune_ptr_caches, pathCache_, guidCache_")],
 ["files under the FMU's directory, identity of FMUs, exceptions"])
p("N04","A proxyfmu URI denotes the FMU and the server it names",
 "Looking up proxyfmu://HOST[:PORT]?file=FILE gives a model of the FMU at FILE, served by that host and port; 'localhost' without a port means a process on this machine. FILE is a (percent-encoded) file URI, absolute path or, where a base URI is given, a reference relative to it; which of these is used, and what characters the directories' and files' names have, makes no difference. URIs of other schemes, and proxyfmu URIs that name no file, are left to other resolvers whatever the base URI is. A missing host or query, a port that is not one, a file that does not exist or is not a local one is an error, nothing having been asked of any server; so is an error of the server.",
 ["inputs"],
 "All forms of references to files of any name in any directory, all base URIs, all ports; not empty host names, addresses in brackets, or other hosts without a port, whose meaning is left open.",
 "No test refers to a proxyfmu URI (the library it needs is optional).",
 ["src/cosim/proxy/proxy_uri_sub_resolver.cpp","src/cosim/proxy/remote_fmu.cpp","src/cosim/orchestration.cpp"],[("reference to file","proxy_uri_sub_resolver::lookup_model"),("host and port","parse_authority")],
 ["requests to the proxyfmu client, models, exceptions"])
p("N02","SSP files load as the system they describe",
 "Loading an SSP system structure description, or an archive with one, yields exactly the components (with source and step size hint), connections with their linear transformations, start time and fixed step algorithm (if any) that it describes, and for each named parameter set the values given there that can be applied to variables of their component (the last of several), inline or from a file; the default set has those of each component's first set. A description is refused with an error, never by ending the process, if it is malformed, names two components alike, refers to an unknown model, component, connector or file, has types, transformations or algorithms that are not supported, connects incompatible ends or one input twice, or has times that are not numbers or out of range.",
 ["inputs"],
 "All small system structure descriptions of the supported part of SSP 1.0, in directories and archives.",
 "Tests load a few well-formed files.",
 ["src/cosim/ssp/ssp_loader.cpp","src/cosim/ssp/ssp_parser.cpp"],[("XML to system structure","ssp_loader.cpp / ssp_parser.cpp")],
 ["ssp_configuration contents, exceptions"])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
