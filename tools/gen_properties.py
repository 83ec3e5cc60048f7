#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Run by hand after editing; the output is committed."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=x.strip(), meaning="shared mutable state the property depends on") for x in state.split(",")]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = "none"
    assert len(title) <= 80, (id, len(title))
    P.append(d)

SR = "spicelib/sim/sim_runner.py"; RT = "spicelib/sim/run_task.py"; PC = "spicelib/sim/process_callback.py"
SM = "spicelib/sim/simulator.py"
CL = "spicelib/client_server/sim_client.py"; SV = "spicelib/client_server/sim_server.py"; SS = "spicelib/client_server/srv_sim_runner.py"
SIMS = ["spicelib/simulators/ngspice_simulator.py", "spicelib/simulators/ltspice_simulator.py",
        "spicelib/simulators/qspice_simulator.py", "spicelib/simulators/xyce_simulator.py"]
TK = "spicelib/sim/tookit/"

# ---------------------------------------------------------------- SimRunner
p("R01", "Parallel simulation limit is respected and slots are reused",
  "At no instant do more than parallel_sims simulations launched with wait_resource=True by one SimRunner execute at the same time, even while other threads poll or iterate it. A queued run() starts once another run finishes, so a batch of finite simulations always finishes; wait_resource=False starts at once whatever the load.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of the submitting thread, polling threads, task threads and simulator exits, every parallel_sims, run duration, failure and callback delay",
  "Real simulators are absent from the tests and no test submits more runs than slots; over-subscription needs a particular interleaving of run() and task completion.",
  [SR, RT], [("run() slot loop", SR + ":run"), ("active_threads/update_completed", SR + ":update_completed")],
  "active_tasks, parallel_sims", ["simulator process start/exit events"])
p("R02", "Every launched run is accounted for exactly once",
  "Each run()/run_now() that launches a simulation gets its own run number (increasing in launch order) and, once finished, appears exactly once in completed_tasks and in sim_info() under that number with its own files, return code and start <= stop times; it leaves active_tasks and is never both active and completed. Once nothing is active, okSim + failSim equals the number of launched runs and okSim is the number whose simulator returned 0; this also holds when other threads poll the same runner while one submits, as the simulation server does.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of a submitting thread and pollers with task completions, all mixes of success, failure, crash and timeout",
  "Double counting or losing a task needs two pollers to interleave inside update_completed; no unit test drives the runner at all.",
  [SR, RT], [("counters and lists", SR + ":update_completed"), ("run number", SR + ":_prepare_sim"), ("sim_info", SR + ":sim_info")],
  "_runno,_okSim,_failSim,active_tasks,completed_tasks")
p("R03", "wait_completion is truthful and always returns",
  "wait_completion() returns True only when no simulation of the runner is active and every launched run has succeeded, and returns False only when some run failed or its timeout really elapsed. When all simulations end, it returns within about one polling second (immediately when nothing is active); with an explicit timeout it returns False once that much time has passed since the call or since the last completed simulation, never earlier.",
  ["schedules", "fault_sequences"],
  "all completion orders and durations, failures, hangs, stalls, explicit/absent timeouts, concurrent pollers",
  "Depends on time and on the interleaving of completions with polling; wall-clock tests would take minutes and sample one timing.",
  [SR], [("wait loop", SR + ":wait_completion"), ("max stop time", SR + ":_maximum_stop_time")], "active_tasks,_failSim")
p("R04", "Results belong to the run that produced them; failures stay isolated",
  "When a run succeeds, its task, sim_info() entry and callback refer to exactly the netlist, raw and log files written by the simulator for that run's netlist and its switches, both as they were when run() was called (also for custom run_filename, cwd, output_folder, exe_log and each supported simulator's command line and raw extension). When the simulator returns non-zero, crashes, times out or cannot be started, the run reports a non-zero retcode, no raw file, and its log (if any) is kept renamed to .fail; one run's failure never changes the outcome or the files of any other run.",
  ["schedules", "fault_sequences", "configurations"],
  "any mix of concurrent runs, exit codes, missing/partial outputs, exec failures, timeouts and simulators",
  "Needs simulators that fail at chosen points while other runs are in flight; the suite runs no simulator.",
  [SR, RT, SM] + SIMS, [("RunTask.run", RT + ":run"), ("simulator command lines", "spicelib/simulators/*:run"), ("_prepare_sim", SR + ":_prepare_sim")])
p("R05", "Callbacks run exactly once, on their own run's files, only when they should",
  "For every run with a callback, the callback (function or ProcessCallback) is invoked exactly once, after its simulator has exited, with that run's raw and log paths and the callback_args given (dict or tuple, as they were when run() was called), when the run succeeded with both files present, or on any outcome when callback_on_error=True; otherwise it is never invoked. Its return value is what callback_return, get_results(), wait_results() and iteration deliver for that run; an exception inside a callback is contained and yields None for that run without affecting any other run.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of task threads, callback kinds, failing callbacks, failing simulators, missing outputs",
  "No test runs a callback; wrong timing, duplicate or missing calls only appear under particular failure and schedule combinations.",
  [RT, PC, SR], [("callback dispatch", RT + ":run"), ("ProcessCallback.run", PC + ":run"), ("argument validation", SR + ":validate_callback_args")])
p("R06", "A simulation that exceeds its timeout is killed and reported as failed",
  "A simulator process still running when the timeout given to run()/run_now() (or the runner's default) elapses is killed then, its run ends as failed with a non-zero retcode and exception text, and its slot becomes free; a simulation that ends before the timeout is never killed. With timeout=None (documented as 'no timeout') run() and run_now() work and never kill.",
  ["schedules", "fault_sequences", "configurations"],
  "all durations relative to the timeout, hung processes, per-run and default timeouts, all simulators",
  "Needs hung processes and controlled time; tests never launch a simulator.",
  [SR, RT, SM], [("timeout plumbing", SR + ":run"), ("subprocess timeout", SM + ":run_function")])
p("R07", "Waiting for a free slot is bounded by the timeout and launches nothing",
  "run() with wait_resource=True returns a started task as soon as a slot frees; if no slot frees for timeout plus about a second of elapsed time, it returns None and then no simulator is started, no task is recorded and the counters of finished runs are unchanged for that call. With timeout=None it waits as long as needed.",
  ["schedules", "fault_sequences", "configurations"],
  "all timings of slot release relative to the resource timeout, several waiting threads",
  "A real test would have to hold slots for wall-clock timeouts; CPU-time vs elapsed-time confusion is invisible to functional tests.",
  [SR], [("resource wait loop", SR + ":run")])
p("R08", "Iterating a runner yields every successful run exactly once and ends",
  "Iterating a SimRunner, or runner.tasks(conditions), yields the result (or task) of every run whose simulator returned 0 and that matches the filter, exactly once and in completion order, including runs that finish or are submitted while iterating, skips failed runs, and stops when nothing is active (or raises SimRunnerTimeoutError once every active run has exceeded its timeout). Dict filters match on the recorded edits of each run (all entries must match, collections mean any-of) and callable filters on the task; a new iteration starts over from the first completed run.",
  ["schedules", "fault_sequences", "histories"],
  "all completion orders relative to the consumer, failures, concurrent submissions, filters",
  "Order and termination depend on how completions interleave with the consumer's polling.",
  [SR, RT, "spicelib/editor/updates.py"], [("TaskIterator.__next__", SR + ":TaskIterator"), ("match_conditions", SR + ":TaskIterator.match_conditions")])
p("R09", "Each run simulates the netlist as it was when run() was called",
  "The simulator of each run sees exactly the circuit (edits included) as it stood when run() was called, and the task's recorded edits are those edits, regardless of editor changes made while the run is queued, running or finished, and regardless of other runs. The user's source circuit file is never modified by run(), and with distinct run numbers no run overwrites another run's netlist.",
  ["schedules", "histories"],
  "all interleavings of editing, submission, queueing and simulator start",
  "Snapshot violations need an edit to land between submission and simulator start or between runs that share a name.",
  [SR, RT, "spicelib/editor/updates.py", "spicelib/editor/spice_file.py"], [("_prepare_sim copies/saves", SR + ":_prepare_sim"), ("edits copy", RT + ":edits")])
p("R10", "cleanup_files removes the finished runs' files and nothing else",
  "After cleanup_files(), no netlist copy, log, .fail, raw, .exe.log or other simulator by-product (.op.raw, .log.raw, .db, generated .net) of any finished run remains, whatever the outcome of the run; the files of runs still active, the user's source files (when an output folder or editor separates them) and unrelated files are untouched, and calling it again is harmless.",
  ["schedules", "fault_sequences", "histories"],
  "all mixes of finished, failed and active runs, all simulators and extensions, files already removed",
  "Needs failed and still-running simulations at cleanup time.",
  [SR], [("cleanup_files", SR + ":cleanup_files")])
p("R11", "Aborting kills the simulator's processes and nothing else",
  "When wait_completion(abort_all_on_timeout=True) times out, or kill_all_spice() is called, every running process of the runner's simulator (by its configured process name) is killed and no process with another name is touched, even when processes vanish during the scan or there is no configured name; the killed runs then end as failed and their slots free.",
  ["schedules", "fault_sequences", "configurations"],
  "all sets of running simulator and foreign processes, processes exiting during the scan, all simulators",
  "Needs running simulator processes and foreign processes at abort time; unsafe and slow with real ones.",
  [SR, SM], [("kill_all_spice", SR + ":kill_all_spice"), ("wait_completion abort", SR + ":wait_completion")])
p("R12", "No environment failure wedges the runner",
  "If a task thread cannot be started, the simulator executable disappears, renaming a log fails, a callback raises, or a ProcessCallback process raises, dies or is killed without delivering a result, then that run ends (or run() raises) and its slot is released: later runs start, wait_completion() and iteration return, and every other run is unaffected.",
  ["fault_sequences", "schedules", "crash_points"],
  "any single or combined failure of thread creation, exec, file system calls and callback processes at any point",
  "Needs injected resource failures and process deaths at particular points.",
  [SR, RT, PC], [("task start", SR + ":run"), ("callback join", RT + ":run"), ("ProcessCallback queue", PC + ":run")])
p("R13", "Failing to save or copy the netlist fails that run() cleanly",
  "If preparing a run hits a disk error (full disk, I/O error, short write, missing source), run()/run_now() raises to its caller, no simulator is launched on a missing or truncated netlist, nothing is left active, the source circuit and the editor's edits are intact, and repeating the run() after the fault clears simulates the complete netlist.",
  ["fault_sequences", "crash_points"],
  "a disk fault at any write, open, copy or close of the preparation",
  "Needs disk faults at particular writes.",
  [SR, "spicelib/editor/spice_file.py"], [("_prepare_sim", SR + ":_prepare_sim"), ("save_netlist", "spicelib/editor/spice_file.py:save_netlist")])
p("R14", "Direct simulator calls report exactly what their own process did",
  "LTspice, NGspiceSimulator, Qspice and XyceSimulator: run() starts exactly one process, of the executable that create_from() last configured for that class, in batch mode on the given netlist in the given cwd, with that netlist's own .log and raw file, every switch given (documented switches as valid_switch() returns them) and no other call's switches; it returns that process's exit code once it has ended, neither earlier nor much later. With a timeout it kills the process and raises TimeoutExpired when, and only when, the process outlives it. LTspice.create_netlist() likewise, returning the path of the .net made from the schematic, and raising RuntimeError when the conversion fails, even if a .net of an earlier session lies there. exe_log=True leaves exactly this process's console output in <netlist>.exe.log; a stdout given gets it instead. A missing executable, a process that can't be started or an .exe.log that can't be opened raises, and nothing is left running. This holds for any history and for calls from several threads; switch lists returned by valid_switch() belong to the caller, unknown switches raise ValueError, a create_from() of a missing file changes nothing.",
  ["histories", "schedules", "fault_sequences"],
  "all histories and interleavings of direct calls, processes that succeed, fail, crash, hang or can't start, removed executables, disk faults, clock jumps and stalls",
  "No simulator exists in the test environment; the outcome depends on how and when the process ends, on other calls and on class-wide state.",
  [SM] + SIMS, [("run_function, create_from, is_available", SM), ("create_netlist", SIMS[1] + ":create_netlist"), ("valid_switch", SIMS[3] + ":valid_switch")],
  "spice_exe, process_name, _compatibility_mode, switch tables", ["simulator process command lines, exits, .exe.log files"])

# ---------------------------------------------------------------- client/server
p("C01", "Remote results are the exact results of the client's own job",
  "Data returned by SimClient.get_runno_data(run) is a zip holding exactly the raw and log (or only the .fail log after a failure) that the server's simulator produced for that client's circuit and dependencies, byte for byte, stored beside the client's circuit; it is None only when the job produced no file. This holds for any number of clients, equal circuit names in different jobs, and any completion order.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of client calls, server threads, simulator completions and failures",
  "There is no client/server test; mixing up results needs interleaved jobs.",
  [CL, SV, SS], [("get_runno_data", CL + ":get_runno_data"), ("get_files", SV + ":get_files"), ("zip_files", SS + ":zip_files")])
p("C02", "Iterating a client yields each submitted job exactly once and ends",
  "Iterating a SimClient yields every run number returned by run() exactly once, only after the server finished that job, whether or not the caller fetches the data between iterations and whether or not the job failed or produced no files, and then stops. Each yielded run can be fetched once with get_runno_data; unknown or already fetched run numbers raise SimClientInvalidRunId.",
  ["schedules", "histories", "fault_sequences"],
  "all consumption patterns (fetch at once, later, never), completion orders, failures and network delays",
  "Depends on how status polling interleaves with completions and fetching.",
  [CL, SV], [("__next__", CL + ":__next__"), ("status", SV + ":status")], "started_jobs, stored_jobs")
p("C03", "Sessions on a server are isolated from each other",
  "A session's status lists only finished, not yet fetched runs of that session; it can fetch only its own runs (a foreign run number yields no data and erases nothing), each run number is issued to one session only, session identifiers are unique, and closing one session does not disturb the jobs, results or files of the others. A closed or unknown session starts no job, stores no file and gets no data.",
  ["schedules", "histories"],
  "all interleavings of several sessions' calls, including wrong, closed and stale session ids",
  "Needs several concurrent sessions.",
  [SV, SS], [("status/get_files/close_session", SV), ("erase_files_of_runno", SS)])
p("C04", "Network faults never corrupt results or take the server down",
  "With connections delayed, refused or reset before, during or after a request (including the transport's own retry, which can execute a request twice), and with malformed or truncated requests, each client call returns a correct answer or raises; data that is returned is correct and complete, the server keeps serving all clients, and once faults stop the client can submit, iterate and fetch to the end without error.",
  ["fault_sequences", "schedules"],
  "a fault at any message boundary or byte of any call, any number of times",
  "Requires message-level fault injection on a live client/server pair.",
  [CL, SV, SS], [("XML-RPC calls", CL), ("XML-RPC handlers", SV)])
p("C05", "Stopping the server terminates it and leaves no job files behind",
  "stop_server(), called locally or remotely by a client as documented, returns; running simulations are waited for or time out, after which the manager and server threads have ended, running() is False, no new simulator starts, and none of the files belonging to its jobs (netlist copies, raw, log, .fail, zip) remain in the output folder. The run_server program ends in the same way on SIGINT, SIGTERM and a remote stop.",
  ["schedules", "crash_points", "fault_sequences"],
  "stop at any point relative to requests, running simulations, finished and fetched jobs",
  "Needs a stop at arbitrary points of concurrent activity.",
  [SV, SS, "spicelib/scripts/run_server.py"], [("stop_server", SV + ":stop_server"), ("ServerSimRunner.run", SS + ":run")])
p("C06", "Closing a session cleans up all its jobs, finished or not",
  "After close_session(), every file of that session's jobs is removed from the server's output folder once the job is finished (jobs still running at the time of closing included), and the server holds no record of them; closing an unknown or already closed session returns False and changes nothing.",
  ["schedules", "crash_points", "histories"],
  "close at any point relative to the session's jobs' life cycle",
  "Needs a close while simulations are running or finishing.",
  [SV, SS], [("close_session", SV + ":close_session"), ("erase_files_of_runno", SS + ":erase_files_of_runno")])
p("C07", "The server runs each accepted job once within its parallel limit",
  "Every job accepted by the server (run number returned) is simulated exactly once, with at most parallel_sims simulators at a time across all sessions, is eventually reported by status with its own outcome, and no job is lost, reported twice, or reported before it has finished, although the request handlers and the manager thread update the same lists concurrently.",
  ["schedules", "fault_sequences"],
  "all interleavings of request handling, manager polling and simulator completion",
  "The lists are shared by threads without tests; loss needs a precise interleaving.",
  [SV, SS, SR], [("ServerSimRunner.run", SS + ":run"), ("update_completed", SR + ":update_completed")], "runner.active_tasks, completed_tasks")

# ---------------------------------------------------------------- storage
p("S01", "A truncated or still-growing raw file never yields wrong data",
  "For a raw file cut at any point or read while the simulator is still writing it (binary real/complex/fast-access, ASCII, stepped or multi-plot), RawRead either raises or every value it returns is a value the simulator wrote at that position: no missing tail is replaced by invented, shifted or stale numbers, no wave is longer than the data present, and reading always ends (a cut inside the digits of the last ASCII number, which no reader can notice, is excluded).",
  ["crash_points", "inputs"],
  "every truncation point of every supported layout and every trace access order",
  "Only complete files are in the test set; truncation points are unbounded.",
  ["spicelib/raw/raw_read.py", "spicelib/raw/plot_data.py", "spicelib/raw/raw_classes.py"], [("data block reading", "spicelib/raw/plot_data.py"), ("header parsing", "spicelib/raw/raw_read.py")])
p("S02", "Saving a raw file either raises or stores every trace exactly",
  "RawWrite.save() under any disk fault (full disk, I/O error, short write, failing open or close) either raises or leaves a complete file; whenever it returns, RawRead of the file gives back every trace's name, values at the stored precision, axis, number of points and steps. Traces copied from other raw files come from the step asked for, under the names asked for; traces that don't fit are refused and change nothing. After a failed save, a repeated save on a healthy disk produces the same complete file.",
  ["fault_sequences", "inputs", "crash_points"],
  "a disk fault at any write of the save, any set of traces, number types, axis kinds and layouts",
  "Disk faults and the cross product of layouts are not sampled by tests.",
  ["spicelib/raw/raw_write.py", "spicelib/raw/raw_read.py", "spicelib/raw/plot_data.py"], [("save", "spicelib/raw/raw_write.py:save"), ("readers", "spicelib/raw/plot_data.py")])
p("S03", "Lazy trace reading is independent of order, selection and read faults",
  "For a complete raw file, every trace read gives the stored values whatever subset of traces was selected, in whatever order traces are first accessed, and whether the reader was opened eagerly or lazily; a transient read error raises to that caller and a later access returns correct data, never a partially filled trace.",
  ["schedules", "fault_sequences", "inputs"],
  "all access orders, trace subsets and read faults on all layouts",
  "Tests read whole files in order on a healthy disk.",
  ["spicelib/raw/raw_read.py", "spicelib/raw/plot_data.py", "spicelib/raw/raw_classes.py"], [("lazy trace loading", "spicelib/raw/plot_data.py")])
p("S04", "Merging runs into one raw file keeps every run's data under its own tag",
  "create_raw_file_with(file, save, conditions) waits for the runs and writes, for every matching run that succeeded, each requested trace once, tagged with that run's number, whatever the completion order. The axis increases, starts where the runs start, ends at the last point they all reach and holds points of their axes only (all of them up to the last but one point of the shortest run); the values are each run's own, linearly interpolated. Failed or non-matching runs contribute nothing. It returns True only if all matching runs are in the file, False if the raw file of one is missing or no run matches, and raises if reading or writing fails; a later call gives a complete file.",
  ["schedules", "fault_sequences"],
  "all completion orders, failed runs, filters and axis lengths",
  "Needs several simulated runs finishing in arbitrary order.",
  [SR, "spicelib/raw/raw_write.py"], [("create_raw_file_with", SR + ":create_raw_file_with"), ("add_traces_from_raw", "spicelib/raw/raw_write.py:add_traces_from_raw")])

# ---------------------------------------------------------------- editors
p("E01", "A failed netlist save raises, keeps the edits and can be retried",
  "SpiceEditor.save_netlist() and write_netlist() under any disk fault either raise or leave the complete file on disk; a failed save does not change the in-memory circuit, its recorded updates, or any file other than the target, and a retry on a healthy disk writes the same bytes as an undisturbed save.",
  ["fault_sequences", "crash_points"],
  "a disk fault at any open, write or close of a save, after any history of edits",
  "Requires disk faults at chosen writes.",
  ["spicelib/editor/spice_file.py", "spicelib/editor/spice_subcircuit.py", "spicelib/editor/spice_editor.py"], [("save_netlist", "spicelib/editor/spice_file.py:save_netlist")])
p("E02", "A netlist edit history is reflected exactly in memory, on disk and in updates",
  "After any sequence of component value, model, parameter, component-parameter, control-section and instruction edits, additions and removals through a SpiceEditor, also of circuits whose parameters, components and sub-circuits come from included files and libraries, interleaved with saves, failed saves, resets and reloads, every getter returns what the last edit set (whether asked through the editor or the instance of a sub-circuit) and untouched items keep their original value (numbers to 6 digits); an edit inside a sub-circuit instance changes that instance only; saving and reloading into a new editor gives the same answers, reset_netlist() restores the file's content and clears the recorded updates, and the recorded updates name the latest value of each edit. Edits of things that don't exist raise and change nothing. Two editors, of the same or of different files, don't influence each other.",
  ["histories", "fault_sequences"],
  "all edit histories over SPICE netlists, with disk faults and reloads interleaved",
  "Tests apply a few fixed edits in a fixed order.",
  ["spicelib/editor/spice_file.py", "spicelib/editor/spice_subcircuit.py", "spicelib/editor/updates.py", "spicelib/editor/spice_editor.py"],
  [("edit operations", "spicelib/editor/spice_subcircuit.py"), ("update log", "spicelib/editor/updates.py"), ("reset_netlist", "spicelib/editor/spice_file.py:reset_netlist")])

p("E03", "Edits of a .asc schematic are kept exactly, in memory and through any save",
  "After any sequence of edits of an LTspice schematic through AscEditor (component values, parameters, attributes, symbols and places, parameters, instructions, removals; also inside hierarchical blocks), interleaved with saves, failed saves, resets and reloads, every getter returns what the last edit set, and the saved file holds exactly the edited schematic: wires, flags with their ports, windows, texts with place and alignment, drawings, attributes and the rest of every edited line stay as they were. A save writes the schematic and the blocks that were edited, no other file; under a disk fault it raises or is complete, and a failed save changes neither the edits, nor the recorded updates, nor the file the editor refers to, and can be retried. Edits of missing things raise and change nothing. Two schematics in different directories don't influence each other. Blocks, symbols and libraries are found beside the schematic or in the library folders that are set last; the sub-circuits of libraries can be read, and edits of them through components raise.",
  ["histories", "fault_sequences"],
  "all edit histories over hierarchical .asc schematics, with disk faults at any file operation of a save",
  "Tests apply a few fixed edits to a few files on a healthy disk.",
  ["spicelib/editor/asc_editor.py", "spicelib/editor/base_schematic.py", "spicelib/editor/ltspice_utils.py", "spicelib/editor/asy_reader.py"],
  [("edits and saves", "spicelib/editor/asc_editor.py"), ("save_netlist", "spicelib/editor/asc_editor.py:save_netlist"), ("get_component", "spicelib/editor/base_schematic.py")])
p("E04", "Edits of a .qsch schematic are kept exactly, in memory, file and netlist",
  "After any sequence of edits of a QSPICE schematic through QschEditor (component values, parameters and places, parameters, instructions, removals; also inside hierarchical blocks), interleaved with saves as .qsch, netlists as .net/.cir, failed saves, resets and reloads, every getter returns what the last edit set; the saved .qsch holds exactly the edited schematic with everything else as it was; the netlist has one line per enabled component with its nets, value and parameters, each block and library once, and every instruction that is no comment; unconnected pins are on nets of their own. A save writes the schematic and the blocks that were edited, no other file; under a disk fault it raises or is complete, and a failed save changes neither the edits, nor the recorded updates, nor the file the editor refers to, and can be retried. Edits of missing things raise and change nothing.",
  ["histories", "fault_sequences"],
  "all edit histories over hierarchical .qsch schematics, with disk faults at any file operation of a save",
  "Tests apply a few fixed edits to a few files on a healthy disk.",
  ["spicelib/editor/qsch_editor.py", "spicelib/editor/base_schematic.py"],
  [("edits and saves", "spicelib/editor/qsch_editor.py"), ("netlist", "spicelib/editor/qsch_editor.py:write_spice_to_file"), ("save_as", "spicelib/editor/qsch_editor.py:save_as")])

# ---------------------------------------------------------------- batch tools
p("B01", "A sweep runs every combination exactly once with matching records",
  "SimStepper.run_all() simulates every combination of the declared sweep values exactly once (last-added sweep varying fastest), each simulator sees exactly that combination, and sim_info / the exported step info record for each run number the combination it simulated, whatever the completion order and whichever runs fail. sweep(), sweep_n(), sweep_log() and sweep_log_n() give every documented point, the last included.",
  ["schedules", "fault_sequences", "configurations"],
  "all sweep shapes, parallel limits, completion orders and failures",
  "Needs simulated runs; tests have no simulator.",
  ["spicelib/sim/sim_stepping.py", SR], [("run_all", "spicelib/sim/sim_stepping.py:run_all")])
p("B02", "Worst-case results do not depend on completion order or failed runs",
  "WorstCaseAnalysis and FastWorstCaseAnalysis simulate the documented corners (each toleranced element at its extremes, nominal included) and report nominal, minimum and maximum of a measurement equal to those of the runs that actually simulated these corners; results are attributed by run, so completion order and failed runs never make a value belong to another corner, and failures end in an explicit missing value or error, not a wrong number.",
  ["schedules", "fault_sequences", "configurations"],
  "all element sets and deviations, completion orders and failed runs",
  "Needs many simulated runs with failures.",
  [TK + "worst_case.py", TK + "fast_worst_case.py", TK + "tolerance_deviations.py", TK + "sim_analysis.py"], [("run_analysis", TK + "worst_case.py:run_analysis"), ("get_min_max", TK + "worst_case.py"), ("fast algorithm", TK + "fast_worst_case.py:run_analysis")])
p("B03", "Sensitivity results are attributed to the element that was changed",
  "Sensitivity figures (WorstCase and QuickSensitivity) equal those computed from the simulated runs in which exactly that element was moved, independently of completion order; a failed run yields a missing value or an error for the elements concerned, never another element's figure.",
  ["schedules", "fault_sequences", "configurations"],
  "all element sets, completion orders and failed runs",
  "Needs failures at particular runs.",
  [TK + "quick_sensitivity_analysis.py", TK + "worst_case.py", TK + "tolerance_deviations.py"], [("get_sensitivity_data", TK + "quick_sensitivity_analysis.py")])
p("B04", "Monte Carlo draws stay within tolerance, are independent and complete",
  "Montecarlo.run_analysis runs the requested number of simulations, each with every toleranced component drawn anew inside its tolerance band (uniform) or around nominal (normal) and untouched components unchanged; the values seen by the simulator are those recorded for the run, and the testbench mode covers every run index exactly once across its splits, for every random seed and completion order.",
  ["inputs", "schedules", "configurations"],
  "all random streams, tolerances, run counts, splits, completion orders and failures",
  "Randomness and the absence of simulators prevent a test from deciding it.",
  [TK + "montecarlo.py", TK + "tolerance_deviations.py"], [("_get_sim_value", TK + "montecarlo.py"), ("run_testbench", TK + "tolerance_deviations.py:run_testbench")])
p("B05", "Analysis clean-up restores the circuit and reads only its own logs",
  "After running an analysis (simulator by simulator or as testbench, repeatedly and in any sequence), the editor's source file is unchanged, reset_netlist() restores the nominal circuit, reset_tolerances() forgets every tolerance, instructions and measurements set by the user apply to every later analysis until reset, cleanup_files() removes the files of the runner's finished runs and no other file, and measurements read back come only from this analysis' last runs, in run order.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of analyses on the same editor and runner, completion orders and failed runs",
  "Needs several analyses with simulated runs in one history.",
  [TK + "sim_analysis.py", TK + "tolerance_deviations.py", SR], [("read_logfiles", TK + "tolerance_deviations.py:read_logfiles"), ("cleanup_files", TK + "sim_analysis.py")])

# ---------------------------------------------------------------- logs
p("L01", "Log readers give each value under its own name and step, or raise",
  "LTSpiceLogReader (.log and .mout), QspiceLogReader (.log and the .meas file QPOST writes), opLogReader and LTSpiceExport return every measurement, step value, Fourier table, operating point parameter and exported column of the file under its own name, in its own step and with its own value, and nothing that is not in the file, in every encoding and layout their simulators use; get_measure_value, steps_with_conditions, get_measure_values_at_steps, max, min and avg answer for exactly the steps that meet the conditions. This also holds for a log that is cut off or grows while it is read, when a read or QPOST fails, with several readers at once: each read gives what is complete in the file (a value in the last, unfinished line may be partial) or raises. A complete file that can be read is never refused.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "all log files of the supported layouts, every cut or growth point, read faults and QPOST outcomes, several readers at once",
  "Tests read a handful of complete files on a healthy disk.",
  ["spicelib/log/ltsteps.py", "spicelib/log/logfile_data.py", "spicelib/log/qspice_log_reader.py", "spicelib/log/semi_dev_op_reader.py", "spicelib/utils/detect_encoding.py"],
  [("reading", "spicelib/log/ltsteps.py:LTSpiceLogReader"), ("steps", "spicelib/log/logfile_data.py:steps_with_conditions"), ("QPOST", "spicelib/log/qspice_log_reader.py:obtain_measures"), ("encoding", "spicelib/utils/detect_encoding.py")])
p("L02", "Exports of log and raw data hold exactly the data, or raise",
  "export_data (with value and line separators, and the lines appended to an existing file), the Fourier export, reformat_LTSpice_export, the ltsteps tool and the raw_convert tool write files in which every row, column, title, step and value is that of the data they export, no more and no less. Under a disk fault they raise or the file is complete; after a failure the data are unchanged and a retry gives the complete file; files that are written are not held open or changed afterwards.",
  ["histories", "fault_sequences", "inputs"],
  "all log data and export options, with disk faults at any file operation of an export",
  "Tests export a few files on a healthy disk.",
  ["spicelib/log/logfile_data.py", "spicelib/log/ltsteps.py", "spicelib/scripts/ltsteps.py", "spicelib/scripts/raw_convert.py"],
  [("export", "spicelib/log/logfile_data.py:export_data"), ("Fourier", "spicelib/log/ltsteps.py:export_fourier"), ("reformat", "spicelib/log/ltsteps.py:reformat_LTSpice_export"), ("tools", "spicelib/scripts/ltsteps.py")])

# ---------------------------------------------------------------- not applicable
p("N01", "Engineering-notation parsing and formatting agree",
  "scan_eng and format_eng_float (and EngFloat/EngInt) convert every number and SPICE suffix to the same value a simulator would read, and formatting then parsing is the identity up to the printed precision.",
  ["inputs"], "all numbers and suffixes", "The input space is unbounded.",
  ["spicelib/utils/float_unit.py", "spicelib/editor/spice_utils.py"], [("scan_eng", "spicelib/editor/spice_utils.py")])
p("N02", "Converting an LTspice schematic to QSPICE preserves its connectivity",
  "asc_to_qsch writes a .qsch schematic whose components, values, parameters and connections are those of the .asc schematic.",
  ["inputs", "programs"], "all schematics", "Only a few schematics are in the tests.",
  ["spicelib/scripts/asc_to_qsch.py", "spicelib/editor/asy_reader.py"], [("convert_asc_to_qsch", "spicelib/scripts/asc_to_qsch.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
