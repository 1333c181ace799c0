#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "The clock steps only after every activity has settled",
 "Within a run, the DUT is stepped only when no task can make progress without a further clock step: no task that was just created, woken through an event, a queue, a zero-length sleep or a finished or cancelled task it awaits, or that has itself been cancelled, is still waiting to run, and no reference-model hook is still pending. When nothing but the clock can make progress, the DUT is stepped (the run never stalls). All of this holds however long the chain of wake-ups inside a cycle is.",
 ["schedules", "programs"], "every program of concurrent tasks built from the library's primitives, every nesting depth of wake-ups within one cycle, every order in which tasks were created",
 "The suite runs two or three hand-written programs in one schedule each; a race between a wake-up chain and the clock loop shows only for particular chain lengths and primitives.",
 ["toffee/asynchronous.py", "toffee/executor.py"],
 [("quiescence detection before each step", "toffee/asynchronous.py: __has_unwait_task, __other_tasks_done, execute_all_coros, __clock_loop"), ("settle/hook alternation", "toffee/asynchronous.py: execute_all_coros, __execute_callback")],
 [("new_task_run", "set by library primitives when a waiter resumed"), ("_fut_waiter of every task", "what the task is blocked on")],
 ["DUT Step calls", "progress marks written by tasks"])

prop("C02", "Clock and trigger waits resume at exactly the right cycle",
 "A wait for n clock cycles resumes after exactly n further steps, whichever object it is expressed on. Each trigger (value, all-valid, condition, change, rising edge, falling edge) returns in the first cycle in which its documented condition holds on the values seen from the cycle it was called in, respecting its minimum delay, never earlier and never later. Tasks that wait for the same step all resume before the next step.",
 ["inputs", "schedules"], "every cycle count and delay, every waveform of the watched pins, every cycle in which the wait starts and any number of concurrent waiters",
 "The tests wait a few fixed cycles on one waveform and assert almost nothing about the cycle in which a trigger returns.",
 ["toffee/triggers.py", "toffee/bundle.py", "toffee/asynchronous.py"],
 [("clock waits", "toffee/triggers.py: ClockCycles; toffee/bundle.py: Bundle.step"), ("triggers", "toffee/triggers.py: Value, AllValid, Condition, Change, RisingEdge, FallingEdge"), ("clock event set and cleared per step", "toffee/asynchronous.py: __clock_loop")],
 observe=["cycle number at which each wait returns"])

prop("C03", "A run ends cleanly: last cycle complete, tasks cancelled, result returned",
 "When the test body returns, everything already due in that cycle (runnable tasks, pending model hooks and their comparisons) still happens, then every other task is cancelled, the DUT is stepped exactly once more and the run returns the body's value; an exception of the body is raised to the caller instead (after any number of further steps). No task body runs after the run has returned. Runs that follow each other in one process do not influence each other, also when an earlier one failed.",
 ["histories", "programs", "fault_sequences"], "every program and every point at which the test body returns or raises, and every sequence of runs in one process",
 "Tests stop at one point each and never chain a failing run and another run in the same process.",
 ["toffee/asynchronous.py", "toffee/executor.py"],
 [("end of run", "toffee/asynchronous.py: main_coro, execute_all_coros, cancel_all_tasks, run"), ("pending hook list", "toffee/executor.py: add_priority_task, __execute_priority_tasks")],
 [("test_done", "the body has returned"), ("priority task list", "hooks requested and not yet executed")],
 ["return value or exception of run", "DUT Step calls", "task finalisation"])

prop("C04", "No failure in a background activity is silently lost",
 "An exception raised by a monitor method, a monitor's subscriber, a model hook, a result comparison, a reference model's main function or an executor's call makes the run fail: the run never returns normally once one of them has raised. Conversely a run in which nothing raises and no comparison mismatches does not fail.",
 ["fault_sequences", "schedules"], "every kind of background activity, every cycle (the last included) in which it fails, with any other activities going on",
 "No test injects a failure into a background activity; whether it surfaces depends on reference counts and on the cycle in which it happens.",
 ["toffee/asynchronous.py", "toffee/_base_agent.py", "toffee/executor.py", "toffee/_compare.py"],
 [("loop exception handler", "toffee/asynchronous.py: handle_exception, main_coro"), ("monitor task", "toffee/_base_agent.py: Monitor"), ("executor groups", "toffee/executor.py: Executor")],
 observe=["outcome of run"])

prop("C05", "Each driver call reaches every matching model hook exactly once",
 "For every call of a driver method and every attached model that hooks it, each matching driver hook and agent hook runs exactly once with the arguments of that very call (an agent hook with the method's path and the arguments by name, defaults filled in). A model-first hook has run before the driver method starts acting on the DUT; a DUT-first hook runs only after it has returned; the caller gets the driver method's own return value.",
 ["programs", "schedules", "configurations"], "every set of agents, models, hook kinds and schedule orders, every pattern of sequential and concurrent calls and every number of cycles the driver methods take",
 "The tests drive single calls with one model; lost, duplicated or mixed-up notifications appear only when calls overlap or several models and hook kinds are attached.",
 ["toffee/_base_agent.py", "toffee/agent.py", "toffee/env.py", "toffee/executor.py", "toffee/model.py"],
 [("driver call processing", "toffee/_base_agent.py: Driver.process_driver_call, __drive_single_driver_hook, __drive_single_agent_hook"), ("hook execution per cycle", "toffee/executor.py: __execute_priority_tasks"), ("hook matching", "toffee/env.py: __inject_driver_method")],
 [("model_infos", "hooks and ports of each attached model for one method")],
 ["hook invocations", "driver method entry and exit", "return value of the call"])

prop("C06", "Model hooks of one cycle run in priority order",
 "Among the hooks pending at one moment, hooks run in ascending order of their effective priority, hooks of equal priority in the order in which they were requested. The effective priority and schedule order are those declared on the hook unless the executor call gives its own, and an override applies to exactly the call it was given for and to no other call of the same or any other method.",
 ["programs", "schedules", "configurations"], "every assignment of priorities and schedule orders to hooks and calls, every combination of calls made in the same cycle or in sequence",
 "Tests use one or two hooks with fixed priorities and do not check the order, nor what a later call without an override does.",
 ["toffee/executor.py", "toffee/_base_agent.py", "toffee/model.py"],
 [("ordered execution", "toffee/executor.py: __execute_priority_tasks"), ("overrides", "toffee/executor.py: Executor.__call__, __sequential_execution_all; toffee/_base_agent.py: Driver.process_driver_call"), ("declared priority", "toffee/model.py: driver_hook, agent_hook, monitor_hook")],
 [("driver priority / sche_order", "override of the current call")],
 ["order of hook invocations"])

prop("C07", "Every model result is compared with the DUT result of its own call",
 "Each value other than None that a driver hook or agent hook returns for a driver call is compared exactly once with what the driver method returned for the same call; the run fails if any of them differs and no comparison is lost, whatever the number of models and overlapping calls. A hook that returns None takes part in no comparison, and equal values never make a run fail.",
 ["programs", "inputs", "schedules"], "every set of hooks and returned values (falsy values included), every overlap of calls, every cycle in which the mismatch occurs, the last included",
 "Tests only exercise matching results with a single model, so a dropped or crossed comparison stays invisible.",
 ["toffee/_base_agent.py", "toffee/_compare.py"],
 [("comparison after the call", "toffee/_base_agent.py: Driver.process_driver_call (background_exec)"), ("comparison", "toffee/_compare.py: compare_once")],
 [("model_results", "results collected for one call")],
 ["outcome of run", "comparison log records"])

prop("C08", "Every monitored value is delivered once, in order, to every subscriber",
 "A monitor method is invoked again only after a clock step, at most once per cycle and once per cycle if it does not wait. Every value other than None that it returns (0, False and empty values included) is delivered exactly once and in order to each matching monitor hook, agent hook, monitor port and agent port of every attached model and to the monitor's own queue if it was enabled; None is delivered to nobody.",
 ["schedules", "inputs", "configurations"], "every sequence of returned values, every set of subscribers, monitors that wait any number of cycles",
 "Tests observe one monitor with one subscriber and truthy values for a few cycles.",
 ["toffee/_base_agent.py", "toffee/agent.py", "toffee/env.py"],
 [("monitor loop", "toffee/_base_agent.py: Monitor.__monitor_forever, process_monitor_call"), ("subscriber matching", "toffee/env.py: __inject_monitor_method")],
 [("get_queue", "values kept for the test")],
 ["monitor method calls", "hook invocations", "values obtained from ports and from the monitor"])

prop("C09", "Model ports and monitor queues are bounded FIFOs that drop the newest",
 "A port or monitor queue hands out values in the order in which they were put, each once. It holds at most its maximum size (any number with an unbounded port); a value arriving when it is full is dropped with an error report and everything already stored is kept. A reader waiting on an empty port gets the next value as soon as it arrives, and reports of its size are exact.",
 ["histories", "configurations"], "every interleaving of puts and gets, every maximum size, any number of waiting readers",
 "Tests put two or three values into ports of the default size and never overflow one.",
 ["toffee/model.py", "toffee/_base_agent.py", "toffee/agent.py"],
 [("bounded put", "toffee/model.py: Port.put"), ("monitor queue", "toffee/_base_agent.py: Monitor.__monitor_forever, enable_get_queue; toffee/agent.py: start_monitor, monitor_size")],
 [("queue contents", "values put and not yet taken"), ("maxsize", "bound, -1 for none")],
 ["values returned", "sizes", "error log records"])

prop("C10", "Attaching a model succeeds exactly when all its hooks and ports resolve",
 "Attaching a model to an environment succeeds if and only if every driver hook, monitor hook and port of the model names an existing method and every agent and method that an agent hook or agent port lists exists; it then connects each method with exactly the hooks and ports that name it, by any of the documented ways of naming; and looking up what agents an environment and what methods an agent has finds exactly those it has. A failed attach or a detach leaves no connection behind. The outcome never depends on earlier attaches of other instances or to other environments.",
 ["configurations", "histories"], "every combination of environment, hooks, ports and naming styles, every sequence of attach and detach of several models and environments",
 "The tests attach a handful of fixed models once each; matching state shared between instances only matters for the second attach in a process.",
 ["toffee/env.py", "toffee/model.py"],
 [("injection", "toffee/env.py: attach, unattach, __inject_all, __uninject_all"), ("match check", "toffee/env.py: __ensure_model_match; toffee/model.py: ensure_all_matched, clear_matched"), ("naming", "toffee/model.py: driver_hook, monitor_hook, agent_hook, DriverPort, MonitorPort, AgentPort")],
 [("matched flags", "which hooks and ports found a method"), ("model_infos", "connections of each method")],
 ["success or error of attach", "which hooks and ports are notified by each method"])

prop("C11", "The executor runs groups concurrently, in order inside, and waits as asked",
 "Calls in the same executor group run strictly one after another in the order they were added, different groups run concurrently, starting in the same cycle, and every call runs exactly once. Leaving an executor waits for all groups, for the first group to finish, or for none, as its exit mode says, and neither earlier nor later; waiting for all afterwards waits for the rest. The results reported afterwards map each group to the values its calls returned, in order.",
 ["programs", "schedules"], "every number of groups and calls, every duration of each call, all exit modes, with and without a later wait for all",
 "Tests use two or three calls of equal length and one exit mode each.",
 ["toffee/executor.py"],
 [("groups", "toffee/executor.py: Executor.__call__, __sequential_execution_all"), ("exit modes", "toffee/executor.py: __exit_all, __exit_none, __exit_any, wait_all"), ("results", "toffee/executor.py: __set_results, get_results")],
 [("group table", "calls per group in insertion order")],
 ["start and end of each call", "cycle in which the executor block is left", "results"])

prop("C12", "Binding connects every bundle signal to exactly the DUT pin its rule names",
 "Binding a bundle connects each of its signals, signal lists, sub-bundles and sub-bundle lists to the DUT pin that the binding rules along its path (direct dictionary, prefix, regular expression, or none) assign to it and to no other, independently of the order of the pins. Signals without a pin are left unconnected and behave as configured (reported as missing, reads and writes either ignored or refused), and the connectivity queries of a bundle answer according to those rules.",
 ["configurations", "inputs"], "every bundle shape up to the nesting explored, every mixture of rules at each level and every set of DUT pin names",
 "Tests bind a dozen hand-picked bundles; rule composition across levels and near-miss names are not exercised.",
 ["toffee/bundle.py"],
 [("rule composition", "toffee/bundle.py: Bundle.__bind_from_signal_list, __filter_signals_in_dict, __filter_signals_in_prefix, __filter_signals_in_regex, bind"), ("connectivity queries", "toffee/bundle.py: detect_connectivity, detect_specific_connectivity, detect_unconnected_signals")],
 observe=["which pin a write through the bundle reaches", "answers of connectivity queries"])

prop("C13", "Rebinding and instances: connections follow the last bind of that bundle only",
 "After any sequence of binds, each signal of a bundle (inside lists and sub-bundles too) is connected according to the last bind alone, signals not named by it are unconnected, the bundle's clock is that of the DUT it is now bound to, and writes never reach pins of an earlier binding. Bundles are independent: binding or using one instance never changes another instance of the same or any other class, and the count of connections of each pin equals the number of bundle signals now connected to it.",
 ["histories", "configurations"], "every sequence of binds of several bundle instances to several DUTs with different rules",
 "Tests bind each bundle once, except one rebind of a flat bundle.",
 ["toffee/bundle.py"],
 [("unbind", "toffee/bundle.py: Bundle.__unbind_all, bind"), ("instance creation", "toffee/bundle.py: Bundle.__init__, BundleList, SignalList"), ("connection accounting", "toffee/bundle.py: __connect_to_signal, detect_multiple_connections")],
 [("connected count of a pin", "how many bundle signals are connected to it"), ("clock event of a bundle", "what step waits on")],
 ["pins reached by writes", "multiple-connection report", "steps seen by the bundle"])

prop("C14", "Assigning to and reading from a bundle round-trips and touches nothing else",
 "Assigning a dictionary to a bundle writes each named value to the pin of exactly that signal (nested or flat naming) and leaves all others unchanged, except that the wildcard entry gives its value to every signal the dictionary does not name. Reading a bundle as a dictionary returns the current value of every signal, in both naming styles, and assigning that dictionary back reproduces the values. The dictionary passed in is left as it was, output pins are never written by assignments of all or random values that exclude them, and the write mode set last for a bundle, or for one that it is part of, applies to every signal of it, those included that are bound later.",
 ["inputs", "configurations"], "every bundle shape, every partial, nested, flat or wildcard dictionary and every value",
 "Tests assign two or three dictionaries to one shape; lists, wildcards and nesting are not combined.",
 ["toffee/bundle.py"],
 [("assignment", "toffee/bundle.py: Bundle.assign"), ("reading", "toffee/bundle.py: as_dict"), ("bulk writes", "toffee/bundle.py: set_all, randomize_all, set_write_mode")],
 observe=["pin values", "returned dictionaries"])

prop("C15", "Queued bundle requests are issued in order, at the cycle their conditions allow",
 "Requests queued on a bundle are driven one after another in the order they were given, one per cycle at most; a request whose condition is not met is held back and tried again in later cycles, never skipped, repeated or carried over into a later batch. The values returned are those observed when each request completed, in request order, and processing ends once all requests are done.",
 ["inputs", "schedules"], "every batch of requests, every condition outcome per cycle, several batches in sequence",
 "Tests queue a short batch whose conditions hold at once.",
 ["toffee/bundle.py"],
 [("request processing", "toffee/bundle.py: process_requests and its step handler")],
 [("blocked request", "request whose condition was not met"), ("request queue", "requests waiting")],
 ["pin values at each step", "returned list"])

prop("C16", "A delayer always shows the signal exactly d cycles late",
 "Right after a clock step a delayer with delay d shows the value its signal had settled to before the step d steps earlier (for d = 0, before that very step), and keeps showing it until the next step, whatever else runs in the cycle and however many model hooks are executed; it shows nothing before enough steps have passed since it was made. Any number of delayers on the same or different signals are independent.",
 ["inputs", "schedules"], "every delay, every waveform, every number of hook executions within a cycle",
 "Tests sample one delayer with no hooks pending in the cycle.",
 ["toffee/delay.py", "toffee/asynchronous.py"],
 [("sampling once per cycle", "toffee/delay.py: Delayer.sample, __process_delayer; toffee/asynchronous.py: execute_all_coros")],
 [("value list", "last d+1 settled values")],
 ["value read in each cycle"])

prop("C17", "Functional coverage counts every matching sample and nothing else",
 "Each sample of a coverage group increments, for every watch point that is not stopped, exactly the bins whose condition holds on the watched target at that moment, and no other; a bin is covered once its count is positive, a point when all its bins are, a group when all its points are. Stop, resume, clear, reset, deletion, sampling switches and once-only points have exactly their documented effect, and the reported percentages, hints and samples follow from these counts.",
 ["histories", "inputs"], "every sequence of sampling and control operations on any set of points and bins, including bins given as values, functions or lists",
 "Tests take a few samples with a fixed set of bins and no control operations in between.",
 ["toffee/funcov.py"],
 [("sampling", "toffee/funcov.py: CovGroup.sample"), ("control", "toffee/funcov.py: CovGroup.clear, reset, del_point, mark_function and sample switches"), ("aggregation", "toffee/funcov.py: is_all_covered, is_point_covered, as_dict")],
 [("bin counts", "matches per bin"), ("covered flags", "per point and group")],
 ["is_all_covered, is_point_covered, as_dict, get_hinter_points"])

prop("C18", "The replacement, predictor and LFSR helpers compute their defined functions",
 "The pseudo-LRU helper always names a valid way, never the way used last (with more than one way), and for a power-of-two number of ways is the binary-tree pseudo-LRU function of the history. The two-bit counter is the saturating counter of its history. The 64-bit LFSR produces the sequence of its feedback polynomial, never leaves 64 bits and never becomes zero from a non-zero seed.",
 ["histories", "inputs"], "every history of uses and outcomes, every number of ways, every seed",
 "No test covers these helpers.",
 ["toffee/utils/plru.py", "toffee/utils/two_bits_counter.py", "toffee/utils/lfsr_64.py"],
 [("tree update and search", "toffee/utils/plru.py"), ("saturation", "toffee/utils/two_bits_counter.py"), ("feedback", "toffee/utils/lfsr_64.py")],
 observe=["returned values"])

prop("C19", "Every log record in force is counted once and displayed once",
 "Every record logged through the library's logging functions at or above the level in force is counted exactly once under its level and, if it has one, its report id, whichever outputs are set up; the console and the log file each show exactly those records, once, in order, with their id and in the format that was set up. Records below the level are neither counted nor shown. Setting up outputs and levels again never loses or duplicates counts or records, and the summary reports the counts.",
 ["histories", "configurations"], "every sequence of log calls, level changes and handler set-ups",
 "Tests log a few messages without checking the counts.",
 ["toffee/logger.py"],
 [("statistics handler", "toffee/logger.py: StatsHandler"), ("output", "toffee/logger.py: ToffeeFormatter"), ("set-up", "toffee/logger.py: setup_logging, summary")],
 [("counts per level and id", "records seen")],
 ["statistics", "console and file output"])

prop("C20", "Generated bundle code connects every signal of the DUT",
 "The bundle source produced by the code generators from a set of DUT signals is valid, and binding the generated bundle in the way generated connects every given signal exactly once to the pin of the same name, with nothing left unconnected.",
 ["inputs"], "every set of signal names and directory of groupings (prefixes, numbered lists, gaps, single members)",
 "The generators are not tested at all.",
 ["scripts/bundle_code_gen.py", "scripts/bundle_code_intel_gen.py"],
 [("generation", "scripts/bundle_code_gen.py: gen_bundle_code_from_prefix, gen_bundle_code_from_regex, gen_bundle_code_from_dict; scripts/bundle_code_intel_gen.py: visit, main")],
 observe=["pins reached through the generated bundle"])

prop("C21", "Events and queues wake every waiter exactly once and lose nothing",
 "Setting an event resumes every task waiting for it within the same cycle, and a wait on a set event returns at once. Every item put into a queue is got exactly once, in the order of the puts, and tasks waiting for items get them in the order in which they began to wait (unless a task that was not waiting took the item first), within the cycle of the put. A task that sleeps for no time lets every task made before begin first. Gathered coroutines run concurrently and their results come back in argument order once all have finished; if one of them raises, the gather raises its exception and the others go on.",
 ["schedules", "programs"], "every program of producers, consumers, waiters and gatherers across any number of cycles",
 "Tests contain no program with several producers, consumers and waiters.",
 ["toffee/asynchronous.py"],
 [("primitives", "toffee/asynchronous.py: Event, Queue, sleep, gather")],
 [("event flag, queue contents, waiter lists", "state of the primitives")],
 ["progress marks of tasks and the cycle in which they are made"])

prop("C22", "A component's main function starts once, at the step after it was made",
 "The main function of every component (a reference model is one) begins exactly once, in the cycle that follows the first clock step after the component was made - or after the clock was started, if that came later - wherever in the run it was made. It runs concurrently with everything else, is never cancelled before the test body has returned, and when the run ends it is cancelled with all other activities, so that nothing of it runs after the last step. Without a clock it never begins, and the run ends all the same.",
 ["programs", "schedules", "histories"], "every number of components made before, during and by each other's main functions, every cycle in which they are made and every end of the run, and runs that follow each other in one process",
 "The tests contain no component with a main function of its own that does anything, and none that is made while the clock is running.",
 ["toffee/asynchronous.py", "toffee/model.py"],
 [("start of the main function", "toffee/asynchronous.py: Component.__init__, Component.__main_wrapper, start_clock"), ("default main function", "toffee/model.py: Model.main"), ("end", "toffee/asynchronous.py: cancel_all_tasks")],
 [("global_clock_event", "the event of the clock that has been started")],
 ["cycle in which each main function begins, resumes and ends"])

prop("C23", "Debugger commands act on the signals they name, and on nothing else",
 "After each command of the debugger (toffee.debug) the device is in the state the command stands for: tstep n advances the clock by n cycles (one, if n is not given) and flushes the waveform; tset gives the named internal signal, unless it is held, the value at once, combinational outputs included; tforce holds it at the value, whatever the device does and also if it had that value before, until trelease, which lets the device drive it again, starting from the value it had; tprint prints the signal's width and current value in the base asked for (decimal by default) and changes nothing; tlist prints exactly the signals the device has under the given prefix down to the given depth. No command leaves write settings of a signal behind that would change later writes. A command with arguments that make no sense or the name of no signal says so and changes nothing, and the debugger goes on.",
 ["histories", "inputs"], "every sequence of commands on every set of signals of different widths, forced or not, changed by the device or by the test meanwhile, with valid, missing and invalid arguments",
 "No test uses the debugger.",
 ["toffee/debug.py"],
 [("commands", "toffee/debug.py: PdbToffee.do_tstep, do_tset, do_tforce, do_trelease, do_tprint, do_tlist, do_tflush")],
 [("dut", "the device"), ("write mode of a signal", "normal, force or release; same-data writes dropped or not")],
 ["state of the device after each command", "what is printed"])

prop("C24", "What cannot be meant is refused and has no effect; all else is accepted",
 "Refused with an exception where they are made: a hook or port with both a path and an agent's, driver's or monitor's name; a driver or monitor name without an agent's; an agent hook for one agent and for a list of agents; a priority outside 0 to 99 and an unknown scheduling order of a hook; a port whose size is neither positive nor -1; a call added to an executor with a priority outside 0 to 99, or with a priority or a scheduling order when it is no call of a driver method; a coroutine function as driver or agent hook with the default scheduling order (when the driver method is called, which then does not run); an executor's unknown exit condition (when the executor is left, and nothing of it runs); a list of signals or bundles without a # in its format or without elements; a sequence of another length than the list of signals it is assigned to; a negative delay; a coverage point of a name in use or with a bin that cannot be called, and asking for, resetting or deleting a point there is not; attaching to an environment what is no model. What is refused has no effect: the executor returns results of, and runs, exactly the calls it accepted, a coverage group has exactly the points it accepted, no signal of the list changes, hooks attached by other models serve later calls as before. No other declaration of these kinds is refused.",
 ["inputs", "histories"], "every combination of arguments of hooks, ports, executors, coverage points, lists and delays, and every history of accepted and refused ones",
 "Tests declare only what is valid.",
 ["toffee/model.py", "toffee/executor.py", "toffee/funcov.py", "toffee/bundle.py", "toffee/delay.py", "toffee/env.py", "toffee/_base_agent.py"],
 [("hooks and ports", "toffee/model.py: agent_hook, driver_hook, monitor_hook, Port, DriverPort, MonitorPort"), ("calls of an executor", "toffee/executor.py: Executor.__call__, __aexit__"), ("coverage points", "toffee/funcov.py: CovGroup.add_watch_point, del_point, reset_point"), ("lists", "toffee/bundle.py: SignalList, BundleList"), ("coroutine hooks", "toffee/_base_agent.py: Driver.process_driver_call")],
 observe=["exceptions", "results of executors, points of groups, pins"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
if __name__ == "__main__":
    with open(path, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
