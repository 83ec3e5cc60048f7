"""Which harness decides which property, how many runs, and what was real in it."""

RUNNER_REAL = ["spicelib.sim.sim_runner (SimRunner, TaskIterator)", "spicelib.sim.run_task (RunTask)",
               "spicelib.sim.process_callback", "spicelib.sim.simulator and the four simulator classes (command lines, subprocess use)",
               "spicelib.editor (SpiceEditor, netlist saving)", "Python's threading, subprocess.run, pathlib, shutil on top of the simulated primitives",
               "files: real files in a scratch directory"]
RUNNER_STUB = ["the SPICE programs (timed stand-ins that read the real netlist file and write real log/raw files)",
               "subprocess.Popen, psutil, os.kill (simulated process table)", "clocks, sleep, locks, thread start (seeded scheduler)",
               "multiprocessing.Process/Queue (ProcessCallback runs in a simulated process)", "failing or short file operations (fault layer)"]
RUNNER_ASSUME = ["a SPICE program's result depends only on its netlist and switches, and it writes only the files of its command line",
                 "pre-emption between source lines of spicelib/sim and spicelib/client_server and at blocking calls, not inside a line",
                 "sampling: seeds explored, not all schedules"]
RUNNER_RULE = ("one case = one seeded run: a generated program of runs/edits/waits/polling threads (plan), a seeded schedule and the plan's faults; "
               "distinct and non-trivial: the order of its events (thread, kind, run; without times) differs from every other run's, and at least one pre-emption, stall, fault or 4 context switches occurred")


def _p(harness, quick, thorough, real, stub, assume, rule):
    return {"harness": harness, "runs": (quick, thorough), "real": real, "stub": stub, "assumptions": assume, "rule": rule}


PROPS = {}
for _i in range(1, 14):
    PROPS["R%02d" % _i] = _p("runner", 4000, 60000, RUNNER_REAL, RUNNER_STUB, RUNNER_ASSUME, RUNNER_RULE)
PROPS["R14"] = _p("direct", 5000, 60000, ["spicelib.sim.simulator (create_from, run_function, is_available)", "spicelib.simulators (run, create_netlist, valid_switch of the four classes)",
                                         "Python's threading, subprocess.run, pathlib on top of the simulated primitives", "files: real files in a scratch directory"],
                  ["the SPICE programs (timed stand-ins that read the real netlist or schematic, talk to their console and write their files)"] + RUNNER_STUB[1:3] + RUNNER_STUB[4:],
                  RUNNER_ASSUME[2:] + ["the platform is Linux (native programs, or LTspice under wine)", "a simulator that returns 0 has written its netlist, or there was none before"],
                  RUNNER_RULE.replace("a generated program of runs/edits/waits/polling threads", "generated threads of direct calls, configurations and processes"))

CS_REAL = ["spicelib.client_server (SimServer, ServerSimRunner, SimClient)"] + RUNNER_REAL[:3] + [
    "Python's xmlrpc, http.client, http.server, socketserver, selectors loop, threading, zipfile on top of the simulated sockets and scheduler",
    "files: real files in a scratch directory"]
CS_STUB = ["the network: sockets and the selector (simulated TCP with latency and faults)"] + RUNNER_STUB[:3]
CS_ASSUME = RUNNER_ASSUME + ["a TCP connection delivers bytes in order or breaks; the server process itself is not killed (it keeps no durable state)",
                             "clients don't name a circuit like one of the server's run copies (a_1.net)"]
CS_RULE = ("one case = one seeded run: clients with generated sequences of calls, simulators, network faults, a stop (plan) and a seeded schedule; distinct and "
           "non-trivial: the order of its events (thread, kind, run; without times) differs from every other run's, and at least one pre-emption, stall, fault or 4 context switches occurred")
for _i in range(1, 8):
    PROPS["C%02d" % _i] = _p("clientserver", 1500 if _i != 5 else 2500, 30000, CS_REAL, CS_STUB, CS_ASSUME, CS_RULE)

ST_REAL = ["spicelib.raw (RawRead, RawWrite, PlotData, trace and axis classes)", "spicelib.log.ltsteps/logfile_data and spicelib.utils.detect_encoding as RawRead uses them",
           "Python's io buffering and numpy on top of the simulated disk", "files: real files in a scratch directory"]
ST_STUB = ["the SPICE program that writes the raw and log file (a model of each dialect's layout, writing in chunks over simulated time)",
           "clocks and thread start (seeded scheduler)", "failing, short or slow file operations (fault layer)"]
ST_ASSUME = ["the file layouts are those of the repository's sample files and documentation (LTspice, QSPICE, ngspice, Xyce; binary, ASCII, double, fast access, stepped, several plots)",
             "one reader object is used by one thread; sampling: seeds explored, not all files or fault positions"]
ST_RULE = ("one case = one seeded run: a generated raw file model with reader programs, cut/growth and disk faults (plan), and a seeded schedule; distinct and non-trivial: the order of its "
           "events (thread, kind, operation; without times) differs from every other run's, and at least one pre-emption, stall, fault or 4 context switches occurred")
for _i in range(1, 4):
    PROPS["S%02d" % _i] = _p("storage", 4000, 60000, ST_REAL, ST_STUB, ST_ASSUME, ST_RULE)

BA_REAL = ["spicelib.sim.sim_stepping (SimStepper)", "spicelib.sim.tookit (SimAnalysis, ToleranceDeviations, WorstCase, FastWorstCase, Montecarlo, QuickSensitivity)",
           "spicelib.log.ltsteps, spicelib.log.logfile_data"] + RUNNER_REAL
BA_STUB = ["the SPICE programs (stand-ins that parse and evaluate the netlist they read: parameters, .func, .step, .meas; measurements are a function of the component values; "
           "they write the log of an LTspice)"] + RUNNER_STUB[1:]
BA_ASSUME = RUNNER_ASSUME + ["the editor is a SpiceEditor; element values are numbers with the usual suffixes; up to 5 deviating elements"]
BA_RULE = ("one case = one seeded run: a sweep or analysis with generated elements, deviations, user instructions, failing runs and operations (plan), and a seeded schedule; distinct and "
           "non-trivial: the order of its events (thread, kind, run; without times) differs from every other run's, and at least one pre-emption, stall, fault or 4 context switches occurred")
for _i in range(1, 6):
    PROPS["B%02d" % _i] = _p("batch", 1500 if _i == 4 else 2500, 15000 if _i == 4 else 30000, BA_REAL, BA_STUB, BA_ASSUME, BA_RULE)

PROPS["S04"] = _p("merge", 1800, 30000, ["spicelib.sim.sim_runner (create_raw_file_with, TaskIterator)", "spicelib.raw (RawRead, RawWrite.add_traces_from_raw and save)"] + RUNNER_REAL[1:],
                  ["the SPICE programs (timed stand-ins that write modelled raw files, each run with its own axis and values)"] + RUNNER_STUB[1:],
                  RUNNER_ASSUME + ["the axes of the runs increase, start at a common point and have at least two points"], RUNNER_RULE)

ED_REAL = ["spicelib.editor (SpiceEditor, SpiceCircuit, components, sub-circuit instances, updates, library lookup)", "Python's io buffering on top of the simulated disk",
           "files: real files in a scratch directory"]
ED_STUB = ["clocks and thread start (seeded scheduler)", "failing, short or slow file operations (fault layer)"]
ED_ASSUME = ["netlists of elements with at most one value and key=value parameters, in the forms of the repository's examples and documentation (UTF-8, UTF-16, Windows-1252)",
             "one editor object is used by one thread; sampling: seeds explored, not all netlists, histories or fault positions"]
ED_RULE = ("one case = one seeded run: a generated netlist, a history of edits, saves, resets and reloads (sometimes a second one on the same file), disk faults (plan) and a seeded schedule; "
           "distinct and non-trivial: the order of its events (thread, kind, operation; without times) differs from every other run's, and at least one pre-emption, stall, fault or 4 context switches occurred")
PROPS["E01"] = _p("editors", 3500, 40000, ED_REAL, ED_STUB, ED_ASSUME, ED_RULE)
PROPS["E02"] = _p("editors", 4500, 50000, ED_REAL, ED_STUB, ED_ASSUME, ED_RULE)
SCH_STUB = ED_STUB + ["LTspice symbols (.asy) and a library that are generated with the schematic"]
SCH_ASSUME = ["schematics made of the element kinds, texts and tags of the repository's examples; every hierarchical block is used once in a design", "the geometry of moved QSPICE pins is not judged until the file is read again",
              "one editor object is used by one thread; sampling: seeds explored, not all schematics, histories or fault positions"]
SCH_RULE = ED_RULE.replace("a generated netlist", "a generated hierarchical schematic").replace("on the same file", "on another schematic with blocks of the same names")
PROPS["E03"] = _p("schematics", 4000, 45000, ["spicelib.editor (AscEditor, AsyReader, BaseSchematic, updates)"] + ED_REAL[1:], SCH_STUB, SCH_ASSUME, SCH_RULE)
PROPS["E04"] = _p("schematics", 4000, 45000, ["spicelib.editor (QschEditor, QschTag, BaseSchematic, updates)"] + ED_REAL[1:], SCH_STUB[:2], SCH_ASSUME, SCH_RULE)

LG_REAL = ["spicelib.log (LTSpiceLogReader, QspiceLogReader, opLogReader, LTSpiceExport, LogfileData, reformat_LTSpice_export)", "spicelib.utils.detect_encoding",
           "spicelib.scripts (ltsteps, raw_convert)", "spicelib.raw (RawRead, as raw_convert uses it)", "Python's io buffering on top of the simulated disk", "files: real files in a scratch directory"]
LG_STUB = ["the SPICE programs that write the files and QPOST (models of each layout; writing in chunks over simulated time, failing QPOSTs)", "clocks and thread start (seeded scheduler)",
           "failing, short or slow file operations (fault layer)"]
LG_ASSUME = ["the file layouts are those of the repository's sample files and documentation (LTspice old and 24, .mout, Fourier tables, QSPICE with QPOST, operating point tables, text exports)",
             "one reader object is used by one thread; sampling: seeds explored, not all files or fault positions"]
LG_RULE = ("one case = one seeded run: a generated log or export file, readers and their calls, or exports, cut or growth, QPOST outcomes and disk faults (plan), and a seeded schedule; distinct and "
           "non-trivial: the order of its events (thread, kind, operation; without times) differs from every other run's, and at least one pre-emption, stall, fault or 4 context switches occurred")
PROPS["L01"] = _p("logs", 5000, 60000, LG_REAL, LG_STUB, LG_ASSUME, LG_RULE)
PROPS["L02"] = _p("logs", 5000, 60000, LG_REAL, LG_STUB, LG_ASSUME, LG_RULE)
