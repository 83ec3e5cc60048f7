From 56a550807652253eb96c35d5f75dc6a355219ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 001/133] fix: kill_all_spice kills the processes of the
 simulator in use

---
 spicelib/sim/sim_runner.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index ac882cf..4415598 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -676,15 +676,19 @@ class SimRunner(AnyRunner):
 
     def kill_all_spice(self):
         """Function to terminate xxSpice processes"""
-        simulator = Simulator
-        process_name = simulator.process_name
+        process_name = self.simulator.process_name
+        if not process_name:
+            _logger.warning("The simulator has no process name. No process is killed.")
+            return
         import psutil
         for proc in psutil.process_iter():
-            # check whether the process name matches
-
-            if proc.name() == process_name:
-                _logger.info("killing Spice", proc.pid)
-                proc.kill()
+            try:
+                # check whether the process name matches
+                if proc.name() == process_name:
+                    _logger.info("killing Spice %d", proc.pid)
+                    proc.kill()
+            except (psutil.NoSuchProcess, psutil.AccessDenied):
+                continue  # It ended meanwhile, or it isn't ours
 
     def _maximum_stop_time(self):
         """
-- 
2.43.0


From e25761837db91f07201b319f0cea7fd4a5e59816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 002/133] fix: measure the wait for a free slot in elapsed time
 and accept timeout=None

---
 spicelib/sim/sim_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 4415598..8333fb6 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -106,7 +106,7 @@ import logging
 import shutil
 import time
 from pathlib import Path
-from time import sleep, thread_time as clock
+from time import sleep, monotonic as clock
 from typing import Protocol, Any, TypeAlias
 
 from collections.abc import Callable, Iterator
@@ -563,7 +563,7 @@ class SimRunner(AnyRunner):
             timeout = self.timeout
 
         t0 = clock()  # Store the time for timeout calculation
-        while clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
+        while timeout is None or clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
             cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones
             # inside the class.
 
@@ -629,7 +629,7 @@ class SimRunner(AnyRunner):
             t.edits = netlist.netlist_updates  # Copy is made in this assignment
         t.start()
         sleep(0.01)  # Give slack for the thread to start
-        t.join(timeout + 1)  # Give one second slack in relation to the task timeout
+        t.join(None if timeout is None else timeout + 1)  # Give one second slack in relation to the task timeout
         self.completed_tasks.append(t)
         if t.retcode == 0:
             self._okSim += 1
-- 
2.43.0


From 26075eec5cadd3a4c211c07a62c69b3af24b1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 003/133] fix: polling a SimRunner from several threads loses,
 repeats or skips tasks

---
 spicelib/sim/sim_runner.py | 47 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 8333fb6..39b5633 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -104,6 +104,7 @@ __all__ = ['SimRunner', 'SimRunnerTimeoutError', 'AnyRunner', 'ProcessCallback',
 import inspect  # Library used to get the arguments of the callback function
 import logging
 import shutil
+import threading
 import time
 from pathlib import Path
 from time import sleep, monotonic as clock
@@ -199,9 +200,12 @@ class TaskIterator:
 
     def __next__(self):
         while True:
-            self.runner.update_completed()  # Updates the active_tasks and completed_tasks lists
+            with self.runner._tasks_lock:  # no other thread shall move tasks between the two lists meanwhile
+                self.runner.update_completed()  # Updates the active_tasks and completed_tasks lists
+                all_returned = self._iterator_counter >= len(self.runner.completed_tasks)
+                none_active = len(self.runner.active_tasks) == 0
             # First go through the completed tasks
-            if self._iterator_counter < len(self.runner.completed_tasks):
+            if not all_returned:
                 task: RunTask = self.runner.completed_tasks[self._iterator_counter]
                 self._iterator_counter += 1
                 if self.match_conditions(task):
@@ -211,7 +215,7 @@ class TaskIterator:
                         _logger.error(f"Skipping {task.runno} because simulation failed.")
             else:
                 # Then check if there are any active tasks
-                if len(self.runner.active_tasks) == 0 or self.wait is False:
+                if none_active or self.wait is False:
                     raise StopIteration
 
                 # Then go through the active tasks to get the maximum timeout
@@ -316,6 +320,7 @@ class SimRunner(AnyRunner):
         self.parallel_sims = parallel_sims
         self.active_tasks: list[RunTask] = []
         self.completed_tasks: list[RunTask] = []
+        self._tasks_lock = threading.RLock()  # the two lists and the counters below can be polled from several threads
 
         self._runno = 0  # number of total runs
         self._failSim = 0  # number of failed simulations
@@ -630,12 +635,13 @@ class SimRunner(AnyRunner):
         t.start()
         sleep(0.01)  # Give slack for the thread to start
         t.join(None if timeout is None else timeout + 1)  # Give one second slack in relation to the task timeout
-        self.completed_tasks.append(t)
-        if t.retcode == 0:
-            self._okSim += 1
-        else:
-            # simulation failed
-            self._failSim += 1
+        with self._tasks_lock:
+            self.completed_tasks.append(t)
+            if t.retcode == 0:
+                self._okSim += 1
+            else:
+                # simulation failed
+                self._failSim += 1
         return t.raw_file, t.log_file  # Returns the raw and log file
 
     def active_threads(self):
@@ -652,18 +658,19 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         :meta private:
         """
-        i = 0
-        while i < len(self.active_tasks):
-            if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started
-                i += 1
-            else:
-                if self.active_tasks[i].retcode == 0:
-                    self._okSim += 1
+        with self._tasks_lock:
+            i = 0
+            while i < len(self.active_tasks):
+                if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started
+                    i += 1
                 else:
-                    # simulation failed
-                    self._failSim += 1
-                task = self.active_tasks.pop(i)
-                self.completed_tasks.append(task)
+                    if self.active_tasks[i].retcode == 0:
+                        self._okSim += 1
+                    else:
+                        # simulation failed
+                        self._failSim += 1
+                    task = self.active_tasks.pop(i)
+                    self.completed_tasks.append(task)
 
     def kill_all_ltspice(self):
         """
-- 
2.43.0


From 56bba169bbe55aa79905e1625497490d1b23f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 004/133] fix: waiting for completion gives up before its
 timeout

---
 spicelib/sim/run_task.py   |  2 ++
 spicelib/sim/sim_runner.py | 28 +++++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 5998ed3..836d250 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -74,6 +74,7 @@ class RunTask(threading.Thread):
 
         super().__init__(name=f"RunTask#{runno}")
         self.start_time = None
+        self.start_clock = None  # start in the scale of time.monotonic()
         self.stop_time = None
         self.verbose = verbose
         self.switches = switches
@@ -119,6 +120,7 @@ class RunTask(threading.Thread):
         self.raw_file = None
         self.log_file = None
         
+        self.start_clock = time.monotonic()
         self.start_time = time.time()
         self.print_info(_logger.info, ": Starting simulation %d: %s" % (self.runno, self.netlist_file))
         # start execution
diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 39b5633..3e60bd6 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -221,7 +221,7 @@ class TaskIterator:
                 # Then go through the active tasks to get the maximum timeout
                 stop_time = self.runner._maximum_stop_time()
 
-                if stop_time is not None and time.time() > stop_time:  # All tasks are on timeout condition
+                if stop_time is not None and time.monotonic() > stop_time:  # All tasks are on timeout condition
                     raise SimRunnerTimeoutError(f"Exceeded {self.runner.timeout} seconds waiting for tasks to finish")
 
                 # Wait for the active tasks to finish with a timeout
@@ -700,18 +700,20 @@ class SimRunner(AnyRunner):
     def _maximum_stop_time(self):
         """
         This function will return the maximum timeout time of all active tasks.
-        :return: Maximum timeout time or None, if there is no timeout defined.
+        :return: Maximum timeout time in the scale of time.monotonic() or None, if there is no timeout defined, or if
+            there is still a task to be started.
         :rtype: float or None
         """
         alarm = None
-        for task in self.active_tasks:
+        for task in list(self.active_tasks):
             tout = task.timeout if task.timeout is not None else self.timeout
-            if tout is not None and task.start_time is not None:
-                stop = task.start_time + tout
-                if alarm is None:
-                    alarm = stop
-                elif stop > alarm:
-                    alarm = stop
+            if tout is None or task.start_clock is None:
+                return None
+            stop = task.start_clock + tout
+            if alarm is None:
+                alarm = stop
+            elif stop > alarm:
+                alarm = stop
         return alarm
 
     def wait_completion(self, timeout: float | None = None, abort_all_on_timeout: bool = False) -> bool:
@@ -726,8 +728,9 @@ class SimRunner(AnyRunner):
         :returns: True if all simulations were executed successfully
         """
         self.update_completed()
+        n_completed = self._okSim + self._failSim
         if timeout is not None:
-            stop_time = time.time() + timeout
+            stop_time = time.monotonic() + timeout
         else:
             stop_time = None
         while len(self.active_tasks) > 0:
@@ -735,8 +738,11 @@ class SimRunner(AnyRunner):
             self.update_completed()
             if timeout is None:
                 stop_time = self._maximum_stop_time()
+            elif n_completed != self._okSim + self._failSim:
+                n_completed = self._okSim + self._failSim
+                stop_time = time.monotonic() + timeout  # Reset everytime that a simulation is completed
             if stop_time is not None:  # This can happen if timeout was set as none everywhere
-                if time.time() > stop_time:
+                if time.monotonic() > stop_time:
                     if abort_all_on_timeout:
                         self.kill_all_spice()
                     return False
-- 
2.43.0


From c64402dae4b32e58662b3307a6094c64582c45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 005/133] fix: edits done while a run waits for a free slot are
 recorded on it

---
 spicelib/sim/sim_runner.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 3e60bd6..043dbc8 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -101,6 +101,7 @@ __copyright__ = "Copyright 2020, Fribourg Switzerland"
 
 __all__ = ['SimRunner', 'SimRunnerTimeoutError', 'AnyRunner', 'ProcessCallback', 'RunTask', 'CallbackType', 'CallbackArgsType']
 
+from copy import copy
 import inspect  # Library used to get the arguments of the callback function
 import logging
 import shutil
@@ -563,6 +564,8 @@ class SimRunner(AnyRunner):
         if switches is None:
             switches = []
         run_netlist_file = self._prepare_sim(netlist, run_filename)
+        # The edits that are being simulated. While waiting for a free slot, the editor can be changed.
+        edits = copy(netlist.netlist_updates) if isinstance(netlist, BaseEditor) else None
 
         if timeout is None:
             timeout = self.timeout
@@ -579,8 +582,8 @@ class SimRunner(AnyRunner):
                     switches=cmdline_switches, timeout=timeout, verbose=self.verbose,
                     cwd=self.cwd, callback_on_error=callback_on_error, exe_log=exe_log
                 )
-                if isinstance(netlist, BaseEditor) and len(netlist.netlist_updates) > 0:
-                    t.edits = netlist.netlist_updates  # Copy is made in this assignment
+                if edits is not None and len(edits) > 0:
+                    t.edits = edits
                 self.active_tasks.append(t)
                 t.start()
                 sleep(0.01)  # Give slack for the thread to start
-- 
2.43.0


From 24a311ec6ffcc11d282015a55557d5886719d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 006/133] fix: a run whose thread can't be started occupies its
 slot forever

---
 spicelib/sim/sim_runner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 043dbc8..5031f21 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -585,7 +585,11 @@ class SimRunner(AnyRunner):
                 if edits is not None and len(edits) > 0:
                     t.edits = edits
                 self.active_tasks.append(t)
-                t.start()
+                try:
+                    t.start()
+                except Exception:
+                    self.active_tasks.remove(t)  # It never started, so it shall not occupy a slot
+                    raise
                 sleep(0.01)  # Give slack for the thread to start
                 return t  # Returns the task object
             sleep(0.1)  # Give Time for other simulations to end
-- 
2.43.0


From 8156ffe4289739177c4eb6a9600ddf4bd7b8f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 007/133] fix: cleanup_files leaves files of failed runs and of
 .cir netlists behind

---
 spicelib/sim/sim_runner.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 5031f21..de488a4 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -790,16 +790,16 @@ class SimRunner(AnyRunner):
             self._del_file_if_exists(netlistfile)  # Delete the netlist file if still exists
             self._del_file_if_exists(task.log_file)  # Delete the log file if was created
             self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created
-            self._del_file_if_exists(task.raw_file)  # Delete the raw file if was created
+            # Delete the raw file if was created, even if incomplete, in which case task.raw_file is None
+            self._del_file_ext_if_exists(netlistfile, task.simulator.raw_extension)
 
-            if netlistfile.suffix == '.net' or netlistfile.suffix == '.asc':
-                # Delete the files that have been potentially created by LTSpice
-                for ext in ('.log.raw', '.op.raw', '.db'):
-                    self._del_file_ext_if_exists(netlistfile, ext)
+            # Delete the files that have been potentially created by LTSpice
+            for ext in ('.log.raw', '.op.raw', '.db'):
+                self._del_file_ext_if_exists(netlistfile, ext)
 
-                if netlistfile.suffix == '.asc':
-                    # If simulated from an asc file, delete the .net file
-                    self._del_file_ext_if_exists(netlistfile, '.net')
+            if netlistfile.suffix == '.asc':
+                # If simulated from an asc file, delete the .net file
+                self._del_file_ext_if_exists(netlistfile, '.net')
 
     def file_cleanup(self):
         """
-- 
2.43.0


From 25a94123ad0bad77ad02b268d8a9246a3207108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 008/133] fix: callbacks without a __name__ are never called

---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 836d250..84118d3 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -165,7 +165,7 @@ class RunTask(threading.Thread):
                 callback_print = ', '.join([f"{key}={value}" for key, value in self.callback_args.items()])
             else:
                 callback_print = ''
-            self.print_info(_logger.info, f"Simulation Finished. Calling...{self.callback.__name__}(rawfile, logfile{callback_print})")
+            self.print_info(_logger.info, f"Simulation Finished. Calling...{getattr(self.callback, '__name__', self.callback)}(rawfile, logfile{callback_print})")
             try:
                 if self.callback_args is not None:
                     return_or_process = self.callback(self.raw_file, self.log_file, **self.callback_args)
-- 
2.43.0


From bc5666f90dedbe12d3a022153866087ed21d122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 009/133] fix: a log file that can't be renamed prevents the
 callback of a failed run

---
 spicelib/sim/run_task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 84118d3..9096edc 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -155,7 +155,10 @@ class RunTask(threading.Thread):
             some_error = True
             self.print_info(_logger.error, "Simulation Aborted. Time elapsed: %s" % sim_time)
             if self.log_file.exists():
-                self.log_file = self.log_file.replace(self.log_file.with_suffix('.fail'))
+                try:
+                    self.log_file = self.log_file.replace(self.log_file.with_suffix('.fail'))
+                except OSError as e:
+                    self.print_info(_logger.error, f"Unable to rename the log file. {e}")
 
         # Do I need to use callback?
         if self.callback and (self.callback_on_error or not some_error):
-- 
2.43.0


From dfba0f0544a668495594c0a912fff0ff8ffc0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 010/133] fix: a ProcessCallback that fails blocks its run
 forever

---
 spicelib/sim/run_task.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 9096edc..bd5ea79 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -30,6 +30,7 @@ import traceback
 from collections.abc import Callable
 from copy import copy
 from pathlib import Path
+from queue import Empty
 from time import sleep
 from typing import Any
 
@@ -174,17 +175,26 @@ class RunTask(threading.Thread):
                     return_or_process = self.callback(self.raw_file, self.log_file, **self.callback_args)
                 else:
                     return_or_process = self.callback(self.raw_file, self.log_file)
-            except Exception:
-                error = traceback.format_exc()
-                self.print_info(_logger.error, error)
-            else:
                 if isinstance(return_or_process, ProcessCallback):
                     proc = return_or_process
                     proc.start()
-                    self.callback_return = proc.queue.get()
+                    running = True
+                    while running:
+                        # Checked before reading, as everything that the process sent is in the queue when it ends
+                        running = proc.is_alive()
+                        try:
+                            self.callback_return = proc.queue.get(timeout=0.2)
+                            break
+                        except Empty:
+                            pass
+                    else:
+                        self.print_info(_logger.error, "Callback process ended without returning a result")
                     proc.join()
                 else:
                     self.callback_return = return_or_process
+            except Exception:
+                error = traceback.format_exc()
+                self.print_info(_logger.error, error)
             finally:
                 callback_start_time = self.stop_time
                 self.stop_time = time.time()
-- 
2.43.0


From f395e541d73655b083dc6c17525af8fd9ea7dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 011/133] fix: wait_results never returns when the simulator
 ended with the code -1

A process killed by SIGHUP has the return code -1, which wait_results() took
for a task that did not run yet.
---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index bd5ea79..88d3d83 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -228,6 +228,6 @@ class RunTask(threading.Thread):
         
         :returns: Tuple with the path to the raw file and the path to the log file. See get_results() for more details.
         """
-        while self.is_alive() or self.start_time is None or self.retcode == -1:
+        while self.is_alive() or self.start_time is None:  # running or not yet started
             sleep(0.1)
         return self.get_results()
-- 
2.43.0


From 1cad249041f85855b5d1754c0382518581ac2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 012/133] fix: is_alive() and join() of the simulation manager
 raise TypeError

The attribute _stop hid a method of threading.Thread.
---
 spicelib/client_server/srv_sim_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index b25748f..c1873f9 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -73,7 +73,7 @@ class ServerSimRunner(threading.Thread):
         self.runner = SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout,
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
-        self._stop = False
+        self._stop_requested = False  # Don't call it _stop, as this is a method of threading.Thread
 
     def run(self) -> None:
         """
@@ -105,7 +105,7 @@ class ServerSimRunner(threading.Thread):
                 _logger.debug(len(self.completed_tasks))
 
             time.sleep(0.2)
-            if self._stop is True:
+            if self._stop_requested is True:
                 break
         self.runner.wait_completion()
         self.runner.cleanup_files()  # Delete things that have been left behind
@@ -158,7 +158,7 @@ class ServerSimRunner(threading.Thread):
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-        self._stop = True
+        self._stop_requested = True
 
     def running(self):
-        return self._stop is False
+        return self._stop_requested is False
-- 
2.43.0


From 9e71d12710f2a2610534ead9ae1244af1d53ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 013/133] fix: iterating a SimClient raises KeyError when a
 job's data was not fetched

The status of the session lists all jobs that were not yet transferred, also
those already returned by the iterator.
---
 spicelib/client_server/sim_client.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index 80f2c89..e4a4a61 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -218,17 +218,17 @@ class SimClient:
         while len(self.started_jobs) > 0:
             # server side method signature: def status(self, session_id: str) -> list[int]
             status: list[int] = self.server.status(self.session_id)  # type: ignore
-            if len(status) > 0:
-                runno = status.pop(0)
-                self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list and
-                # is added to the stored jobs
-                return runno
-            else:
-                now = time.time()
-                delta = self.minimum_time_between_server_calls - (now - self._last_server_call)
-                if delta > 0:
-                    time.sleep(delta)  # Go asleep for a sec
-                self._last_server_call = now
+            for runno in status:
+                # The status also lists the jobs that were returned before, but whose data was not yet transferred.
+                if runno in self.started_jobs:
+                    self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list
+                    # and is added to the stored jobs
+                    return runno
+            now = time.time()
+            delta = self.minimum_time_between_server_calls - (now - self._last_server_call)
+            if delta > 0:
+                time.sleep(delta)  # Go asleep for a sec
+            self._last_server_call = now
 
         # when there are no pending jobs left, exit the iterator
         raise StopIteration
-- 
2.43.0


From 28ac4e1f58b99ee6b1afbd7f7d60a3d3a70edd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 014/133] fix: iterating a SimClient never ends when the server
 refused a job

---
 spicelib/client_server/sim_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index e4a4a61..ad2648f 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -181,8 +181,9 @@ class SimClient:
 
             # server side method signature: def run(self, session_id: str, circuit_name: str, zip_data: Binary) -> int
             run_id = int(self.server.run(self.session_id, circuit_name, zip_data))  # type: ignore
-            job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
-            self.started_jobs[run_id] = job_info
+            if run_id != -1:  # -1 means that the server didn't accept the job
+                job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
+                self.started_jobs[run_id] = job_info
             return run_id
         else:
             _logger.error(f"Client: Circuit {circuit} doesn't exit")
-- 
2.43.0


From bf3dffd4a637d9f9857e29df05245bb2112f223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 015/133] fix: a SimClient sleeps for hours when the clock is
 set back

---
 spicelib/client_server/sim_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index ad2648f..95057f1 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -120,7 +120,7 @@ class SimClient:
         self.stored_jobs = OrderedDict()  # This list keeps track of finished simulations that haven't yet been transferred.
         self.completed_jobs = 0
         self.minimum_time_between_server_calls = 0.2  # Minimum time between server calls
-        self._last_server_call = time.time()
+        self._last_server_call = time.monotonic()
 
     def __del__(self):
         self.close_session()
@@ -225,7 +225,7 @@ class SimClient:
                     self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list
                     # and is added to the stored jobs
                     return runno
-            now = time.time()
+            now = time.monotonic()
             delta = self.minimum_time_between_server_calls - (now - self._last_server_call)
             if delta > 0:
                 time.sleep(delta)  # Go asleep for a sec
-- 
2.43.0


From 7b792ab072e281fcba7886e5da4c2758952af820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 016/133] fix: jobs without result files are reported as
 finished forever

Their data can't be transferred, so they were never erased from the list of
completed tasks.
---
 spicelib/client_server/sim_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 6e58ad6..ac277a4 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -156,7 +156,8 @@ class SimServer:
                     zip_file = task_info['zipfile']
                     if not zip_file:
                         _logger.error(f"Server: get_files({session_id}, {runno}) no zip file found. Probably crashed.")
-                        continue
+                        self.simulation_manager.erase_files_of_runno(runno)
+                        break
                     zip = zip_file.open('rb')
                     # Read the zip file from the buffer and send it to the server
                     zip_data = zip.read()
-- 
2.43.0


From 3ccd7c2d1723208b1154be1bd9969a2d9c0fbde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 017/133] fix: the simulation manager dies when a job is
 fetched as it finishes

The manager thread logged completed_tasks[-1] after appending to it. A request
that fetched (and so erased) that job in between made it raise IndexError,
which ended the thread, and with it the processing of all jobs. Log the record
itself, and protect the list with a lock.
---
 spicelib/client_server/srv_sim_runner.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index c1873f9..f3fea70 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -74,6 +74,7 @@ class ServerSimRunner(threading.Thread):
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
         self._stop_requested = False  # Don't call it _stop, as this is a method of threading.Thread
+        self._lock = threading.RLock()  # completed_tasks is changed by this thread and by the server's thread
 
     def run(self) -> None:
         """
@@ -90,7 +91,7 @@ class ServerSimRunner(threading.Thread):
             while len(self.runner.completed_tasks) > 0:
                 task = self.runner.completed_tasks.pop(0)
                 zip_filename = task.callback_return
-                self.completed_tasks.append({
+                task_info = {
                     'runno': task.runno,
                     'retcode': task.retcode,
                     'circuit': task.netlist_file,
@@ -99,9 +100,11 @@ class ServerSimRunner(threading.Thread):
                     'zipfile': zip_filename,
                     'start': task.start_time,
                     'stop': task.stop_time,
-                })
+                }
+                with self._lock:
+                    self.completed_tasks.append(task_info)
                 _logger.debug(f"Task {task} is finished")
-                _logger.debug(self.completed_tasks[-1])
+                _logger.debug(task_info)
                 _logger.debug(len(self.completed_tasks))
 
             time.sleep(0.2)
@@ -146,15 +149,17 @@ class ServerSimRunner(threading.Thread):
         """Will delete all files related with a completed task. Will also delete information on the completed_tasks
         attribute."""
         _logger.debug(f"deleting files of run {runno}")
-        for i, task_info in enumerate(self.completed_tasks):
-            if task_info['runno'] == runno:
-                self._erase_files_and_info(i)
-                break
+        with self._lock:
+            for i, task_info in enumerate(self.completed_tasks):
+                if task_info['runno'] == runno:
+                    self._erase_files_and_info(i)
+                    break
 
     def cleanup_completed(self):
         _logger.debug("deleting all files of all completed tasks")
-        while len(self.completed_tasks):
-            self._erase_files_and_info(0)
+        with self._lock:
+            while len(self.completed_tasks):
+                self._erase_files_and_info(0)
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-- 
2.43.0


From a100b4849dc8df86e236792d5a1d7b725707a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 018/133] fix: files of fetched or closed server jobs stay in
 the output folder

Erasing a job only deleted the files recorded in it. The partial raw file of a
failed job, which is recorded as None, and the other files that the simulator
writes (.exe.log, .op.raw, ...) stayed for ever. Use the same clean up as
SimRunner.cleanup_files().
---
 spicelib/client_server/srv_sim_runner.py |  5 ++++
 spicelib/sim/sim_runner.py               | 32 +++++++++++++-----------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index f3fea70..7fcdcfc 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -100,6 +100,7 @@ class ServerSimRunner(threading.Thread):
                     'zipfile': zip_filename,
                     'start': task.start_time,
                     'stop': task.stop_time,
+                    'task': task,
                 }
                 with self._lock:
                     self.completed_tasks.append(task_info)
@@ -143,6 +144,10 @@ class ServerSimRunner(threading.Thread):
                         _logger.debug(f"deleted file {f}")
                     except Exception as e:
                         _logger.error(f"Error deleting file {f}: {e}")
+        try:
+            self.runner._cleanup_task_files(task['task'])  # A partial raw file, and what else the simulator has written
+        except OSError as e:
+            _logger.error(f"Error deleting files of run {task['runno']}: {e}")
         del self.completed_tasks[pos]
 
     def erase_files_of_runno(self, runno):
diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index de488a4..841802b 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -786,20 +786,24 @@ class SimRunner(AnyRunner):
         self.update_completed()  # Updates the active_tasks and completed_tasks lists
 
         for task in self.completed_tasks:
-            netlistfile = task.netlist_file
-            self._del_file_if_exists(netlistfile)  # Delete the netlist file if still exists
-            self._del_file_if_exists(task.log_file)  # Delete the log file if was created
-            self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created
-            # Delete the raw file if was created, even if incomplete, in which case task.raw_file is None
-            self._del_file_ext_if_exists(netlistfile, task.simulator.raw_extension)
-
-            # Delete the files that have been potentially created by LTSpice
-            for ext in ('.log.raw', '.op.raw', '.db'):
-                self._del_file_ext_if_exists(netlistfile, ext)
-
-            if netlistfile.suffix == '.asc':
-                # If simulated from an asc file, delete the .net file
-                self._del_file_ext_if_exists(netlistfile, '.net')
+            self._cleanup_task_files(task)
+
+    def _cleanup_task_files(self, task: RunTask):
+        """Deletes the files that were created by a completed task."""
+        netlistfile = task.netlist_file
+        self._del_file_if_exists(netlistfile)  # Delete the netlist file if still exists
+        self._del_file_if_exists(task.log_file)  # Delete the log file if was created
+        self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created
+        # Delete the raw file if was created, even if incomplete, in which case task.raw_file is None
+        self._del_file_ext_if_exists(netlistfile, task.simulator.raw_extension)
+
+        # Delete the files that have been potentially created by LTSpice
+        for ext in ('.log.raw', '.op.raw', '.db'):
+            self._del_file_ext_if_exists(netlistfile, ext)
+
+        if netlistfile.suffix == '.asc':
+            # If simulated from an asc file, delete the .net file
+            self._del_file_ext_if_exists(netlistfile, '.net')
 
     def file_cleanup(self):
         """
-- 
2.43.0


From 5ddb737a3ce9488870d320d2cd92600c019ab3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 019/133] fix: the files of a session closed while its jobs run
 are never deleted

close_session() only erased the jobs that were already completed. Those that
were still running were added to the completed tasks later on, where no
session could ever fetch or erase them. Erase them when they complete.
---
 spicelib/client_server/srv_sim_runner.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index 7fcdcfc..c825154 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -74,6 +74,7 @@ class ServerSimRunner(threading.Thread):
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
         self._stop_requested = False  # Don't call it _stop, as this is a method of threading.Thread
+        self._discarded: set[int] = set()  # runs to be erased as soon as they are completed
         self._lock = threading.RLock()  # completed_tasks is changed by this thread and by the server's thread
 
     def run(self) -> None:
@@ -89,7 +90,7 @@ class ServerSimRunner(threading.Thread):
         while True:
             self.runner.update_completed()
             while len(self.runner.completed_tasks) > 0:
-                task = self.runner.completed_tasks.pop(0)
+                task = self.runner.completed_tasks[0]
                 zip_filename = task.callback_return
                 task_info = {
                     'runno': task.runno,
@@ -103,7 +104,11 @@ class ServerSimRunner(threading.Thread):
                     'task': task,
                 }
                 with self._lock:
+                    self.runner.completed_tasks.pop(0)
                     self.completed_tasks.append(task_info)
+                    if task.runno in self._discarded:  # Nobody will ask for it, the session was closed meanwhile
+                        self._discarded.remove(task.runno)
+                        self._erase_files_and_info(len(self.completed_tasks) - 1)
                 _logger.debug(f"Task {task} is finished")
                 _logger.debug(task_info)
                 _logger.debug(len(self.completed_tasks))
@@ -152,13 +157,16 @@ class ServerSimRunner(threading.Thread):
 
     def erase_files_of_runno(self, runno):
         """Will delete all files related with a completed task. Will also delete information on the completed_tasks
-        attribute."""
+        attribute. If the task isn't completed yet, this is done as soon as it is."""
         _logger.debug(f"deleting files of run {runno}")
         with self._lock:
             for i, task_info in enumerate(self.completed_tasks):
                 if task_info['runno'] == runno:
                     self._erase_files_and_info(i)
-                    break
+                    return
+            with self.runner._tasks_lock:
+                if any(task.runno == runno for task in self.runner.active_tasks + self.runner.completed_tasks):
+                    self._discarded.add(runno)
 
     def cleanup_completed(self):
         _logger.debug("deleting all files of all completed tasks")
-- 
2.43.0


From a8e39b36df3eabb5e3257b429f1ebfba41c6b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 020/133] fix: a stopped server leaves the files of its jobs
 behind

When the manager ended, it called the clean up of the SimRunner, whose list of
completed tasks it had emptied itself. So the files of jobs that had not been
fetched, and the zip file of every job, stayed in the output folder. Also,
wait_completion() returns at the timeout of the simulations, when these may
still be running.
---
 spicelib/client_server/srv_sim_runner.py | 59 +++++++++++++-----------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index c825154..f80c56e 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -88,36 +88,41 @@ class ServerSimRunner(threading.Thread):
         When the server is stopped this process cleans all the files that were not yet cleaned.
         """
         while True:
-            self.runner.update_completed()
-            while len(self.runner.completed_tasks) > 0:
-                task = self.runner.completed_tasks[0]
-                zip_filename = task.callback_return
-                task_info = {
-                    'runno': task.runno,
-                    'retcode': task.retcode,
-                    'circuit': task.netlist_file,
-                    'raw': task.raw_file,
-                    'log': task.log_file,
-                    'zipfile': zip_filename,
-                    'start': task.start_time,
-                    'stop': task.stop_time,
-                    'task': task,
-                }
-                with self._lock:
-                    self.runner.completed_tasks.pop(0)
-                    self.completed_tasks.append(task_info)
-                    if task.runno in self._discarded:  # Nobody will ask for it, the session was closed meanwhile
-                        self._discarded.remove(task.runno)
-                        self._erase_files_and_info(len(self.completed_tasks) - 1)
-                _logger.debug(f"Task {task} is finished")
-                _logger.debug(task_info)
-                _logger.debug(len(self.completed_tasks))
-
+            self._collect_completed()
             time.sleep(0.2)
             if self._stop_requested is True:
                 break
-        self.runner.wait_completion()
-        self.runner.cleanup_files()  # Delete things that have been left behind
+        while self.runner.active_threads() > 0:  # The wait ends early when a simulation takes more than its timeout
+            self.runner.wait_completion()
+        self._collect_completed()
+        self.cleanup_completed()  # Delete things that have been left behind
+
+    def _collect_completed(self):
+        """Moves the completed tasks of the SimRunner to the completed_tasks of this class."""
+        self.runner.update_completed()
+        while len(self.runner.completed_tasks) > 0:
+            task = self.runner.completed_tasks[0]
+            zip_filename = task.callback_return
+            task_info = {
+                'runno': task.runno,
+                'retcode': task.retcode,
+                'circuit': task.netlist_file,
+                'raw': task.raw_file,
+                'log': task.log_file,
+                'zipfile': zip_filename,
+                'start': task.start_time,
+                'stop': task.stop_time,
+                'task': task,
+            }
+            with self._lock:
+                self.runner.completed_tasks.pop(0)
+                self.completed_tasks.append(task_info)
+                if task.runno in self._discarded:  # Nobody will ask for it, the session was closed meanwhile
+                    self._discarded.remove(task.runno)
+                    self._erase_files_and_info(len(self.completed_tasks) - 1)
+            _logger.debug(f"Task {task} is finished")
+            _logger.debug(task_info)
+            _logger.debug(len(self.completed_tasks))
 
     def add_simulation(self, netlist: str | Path | BaseEditor, *, timeout: float | None = None) -> int:
         """
-- 
2.43.0


From 3662e01dccd9a76b9f06bb1cb2fa516b47b94a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 021/133] fix: stopping the server hangs when a client asks for
 it

shutdown() waits for serve_forever() to end, which can't happen while it is
called from a request. Also, stop the manager after the requests: a simulation
could be started by a request when the manager had already ended, and then
nothing cleaned up after it.
---
 spicelib/client_server/sim_server.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index ac277a4..84e2bad 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -66,6 +66,7 @@ class SimServer:
                                          )
         self.server.register_introspection_functions()
         self.server.register_instance(self)
+        self._stopping = False
         self.sessions = {}  # this will contain the session_id ids hashing their respective list of sim_tasks
         self.simulation_manager.start()
         self.server_thread = threading.Thread(target=self.server.serve_forever, name="ServerThread")
@@ -102,7 +103,7 @@ class SimServer:
         :return: The run number of the simulation
         """
         _logger.info(f"Server: Run {session_id} : {circuit_name}")
-        if not self.add_sources(session_id, zip_data):
+        if self._stopping or not self.add_sources(session_id, zip_data):
             return -1
 
         my_circuit_name = Path(self.output_folder) / circuit_name
@@ -194,14 +195,23 @@ class SimServer:
         :return: True if the server was stopped successfully, False otherwise
         """
         _logger.debug("Server: stopping...ServerInterface")
-        self.simulation_manager.stop()
-        self.server.shutdown()
-        _logger.info("Server: stopped...ServerInterface")
+        self._stopping = True
+        if threading.current_thread() is self.server_thread:
+            # Called by a client: this request needs to be answered before the server can shut down
+            threading.Thread(target=self._shutdown, name="ServerShutdown").start()
+        else:
+            self._shutdown()
         return True  # Needs to return always something. None is not supported
 
+    def _shutdown(self):
+        self.server.shutdown()  # Waits for the request that is being served
+        self.server.server_close()
+        self.simulation_manager.stop()  # Only now, as no more simulations can be added
+        _logger.info("Server: stopped...ServerInterface")
+
     def running(self) -> bool:
         """Checks if the server is currently running.
 
         :return: True if the server is running, False otherwise
         """
-        return self.simulation_manager.running()
+        return not self._stopping and self.simulation_manager.running()
-- 
2.43.0


From f77e203ea30c22666c8976b53920eaad5373fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 022/133] fix: a running simulation can read an incomplete
 dependency on the server

Every run request writes its dependencies again, also when they are there
already. A simulation of an earlier job that uses the same library could read
it when it was truncated. Leave files alone that have the same contents.
---
 spicelib/client_server/sim_server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 84e2bad..55a97c6 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -89,9 +89,11 @@ class SimServer:
         with zipfile.ZipFile(zip_buffer, 'r') as zip_file:
             for name in zip_file.namelist():
                 _logger.debug(f"Server: Writing {name} to zip file")
-            if len(zip_file.namelist()) >= 0:
-                zip_file.extractall(self.output_folder)
-                answer = True
+                target = Path(self.output_folder) / name
+                if target.is_file() and target.read_bytes() == zip_file.read(name):
+                    continue  # Don't rewrite it, a running simulation may be reading it
+                zip_file.extract(name, self.output_folder)
+            answer = True
         return answer
 
     def run(self, session_id: str, circuit_name: str, zip_data: Binary) -> int:
-- 
2.43.0


From 7417cccaf719272635b9bfe717a277193a521d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 023/133] fix: reading an ASCII raw file does not loop for ever
 when no blank line separates two plots

---
 spicelib/raw/plot_data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index df53880..93b20dd 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -399,10 +399,9 @@ class PlotData(PlotInterface):
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-            line = raw_file.readline().strip()
-            if len(line) != 0:
+            line = raw_file.readline()
+            if len(line) == 0 or len(line.strip()) != 0:
                 raw_file.seek(cursor)  # go back to the beginning of the line
-            else:
                 break
         if self._verbose:
             _logger.debug(f"Plot nr {self._plot_nr}: ASCII data read successfully.")
-- 
2.43.0


From ef2edff7ee63917b08845d72f3b3d291602ec937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 024/133] fix: stepped ASCII raw files can be read, the steps
 are located after the data was read

---
 spicelib/raw/plot_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 93b20dd..6a1b092 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -356,8 +356,6 @@ class PlotData(PlotInterface):
                 # This is the axis trace
                 self._axis = Axis(trace_info.name, trace_info.var_type, self._nPoints,
                                   inv_dtype_map[trace_info.dtype], trace_data)
-                if self._steps is not None:
-                    self._axis.set_steps(self._steps)
                 self._read_traces[trace_info.name] = self._axis
             else:
                 # Create trace object
@@ -396,6 +394,9 @@ class PlotData(PlotInterface):
                 else:
                     self._read_traces[var.name].data[point] = float(value)
                 var_index += 1
+        # The steps can only be located once the axis data is there
+        if self._axis is not None and self._steps is not None:
+            self._axis.set_steps(self._steps)
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-- 
2.43.0


From 08674e939008034af63da90506894ad8a46c9a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 025/133] fix: a raw file with another number of steps than its
 log is refused on every access, not only on the first

---
 spicelib/raw/plot_data.py   | 12 ++++++------
 spicelib/raw/raw_classes.py | 15 ++++++---------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 6a1b092..2d3987f 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -627,13 +627,13 @@ class PlotData(PlotInterface):
                         # Now create the axis
                         num_type = inv_dtype_map[trace_info.dtype]
                         trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, data)
+                        # Set the steps if they exist
+                        if self._steps is not None:
+                            trace.set_steps(self._steps)
                         self._axis = trace
                         self._read_traces[trace_info.name] = trace
                         if self._verbose:
                             _logger.debug(f"Axis '{trace.name}' read successfully. Data type: {trace_info.dtype}, First 5 values: {trace.data[:5]}")
-                        # Set the steps if they exist
-                        if self._steps is not None:
-                            self._axis.set_steps(self._steps)
 
                     for trace_info in self._trace_info[start_index:]:
                         data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints
@@ -681,13 +681,13 @@ class PlotData(PlotInterface):
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
                             trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, trace_data)
+                            # Set the steps if they exist
+                            if self._steps is not None:
+                                trace.set_steps(self._steps)
                             self._axis = trace
                             self._read_traces[trace_info.name] = trace
                             if self._verbose:
                                 _logger.debug(f"Axis '{trace.name}' read successfully. Data type: {trace_info.dtype}, First 5 values: {trace.data[:5]}")
-                            # Set the steps if they exist
-                            if self._steps is not None:
-                                self._axis.set_steps(self._steps)
                         elif trace_info.name in list_of_traces:
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index e070da0..a55f504 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -95,22 +95,19 @@ class Axis(DataSet):
         self.step_offsets = None
 
     def set_steps(self, step_info: list[dict]):
-        self.step_info = step_info
-        self.step_offsets = [None for _ in range(len(step_info))]
-
         # Now going to calculate the point offset for each step
-        self.step_offsets[0] = 0
+        step_offsets = [0]
         i = 1
-        k = 1
         while i < len(self.data):
             if self.data[i] == self.data[0]:
-                self.step_offsets[k] = i
-                k += 1
+                step_offsets.append(i)
             i += 1
 
-        if k != len(self.step_info):
+        if len(step_offsets) != len(step_info):
             raise SpiceReadException("The file a different number of steps than expected.\n" +
-                                     "Expecting %d got %d" % (len(self.step_offsets), k))
+                                     "Expecting %d got %d" % (len(step_info), len(step_offsets)))
+        self.step_info = step_info
+        self.step_offsets = step_offsets
 
     def step_offset(self, step: int) -> int:
         """
-- 
2.43.0


From 84415a1c13077bb91f500697daf5291c4701a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 026/133] fix: reading traces again does not replace the axis
 by a plain trace nor re-read what is there

---
 spicelib/raw/plot_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 2d3987f..e204059 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -599,8 +599,12 @@ class PlotData(PlotInterface):
 
     def read_trace_data(self, list_of_traces: list[str]):
         """
-        Reads the trace data from the binary section of the RAW file.
+        Reads the trace data from the binary section of the RAW file. Traces that were already read are kept.
         """
+        list_of_traces = [trace_info.name for trace_info in self._trace_info
+                          if trace_info.name in list_of_traces and trace_info.name not in self._read_traces]
+        if len(list_of_traces) == 0 and (self._axis is not None or not self._has_axis):
+            return  # everything is there already
         with open(self._raw_filename, 'rb') as raw_file:
 
             if self._raw_type == "binary:":
-- 
2.43.0


From 719691cec7e198cc3d306c1b83295860e07c1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 027/133] fix: RawRead(file, '*') reads all traces of every
 plot, not those named like the ones of the first

---
 spicelib/raw/raw_read.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spicelib/raw/raw_read.py b/spicelib/raw/raw_read.py
index 20f837b..aa81e7c 100644
--- a/spicelib/raw/raw_read.py
+++ b/spicelib/raw/raw_read.py
@@ -319,13 +319,15 @@ class RawRead(PlotInterface):
             # if traces_to_read is '*', read all traces
             if isinstance(traces_to_read, str):
                 if traces_to_read == '*':
-                    traces_to_read = self.get_trace_names()  # * means all traces
+                    plot_traces = plot.get_trace_names()  # * means all traces of this plot
                 else:
-                    traces_to_read = [name.strip() for name in traces_to_read.split(',')]
-            elif not isinstance(traces_to_read, (list, tuple)):
+                    plot_traces = [name.strip() for name in traces_to_read.split(',')]
+            elif isinstance(traces_to_read, (list, tuple)):
+                plot_traces = traces_to_read
+            else:
                 raise SpiceReadException("Invalid traces_to_read parameter. Must be a string, list or tuple.")
 
-            plot.read_trace_data(traces_to_read)
+            plot.read_trace_data(plot_traces)
 
     @property
     def dialect(self) -> str | None:
-- 
2.43.0


From 76667e71b1012b7f1b55c4a16dbf14d5f4f4b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 028/133] fix: an alias that is the first trace accessed knows
 the axis and its steps

---
 spicelib/raw/plot_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index e204059..b9e12e7 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -572,10 +572,10 @@ class PlotData(PlotInterface):
             whattype = 'voltage'
         else:
             raise NotImplementedError(f'Unrecognized alias type for alias : "{alias}"')
-        trace = TraceRead(alias, whattype, self._nPoints, self._axis, 'double')
         local_vars = {'pi': 3.1415926536, 'e': 2.7182818285}  # This is the dictionary that will be used to compute the alias
         local_vars.update({name: scan_eng(value) for name, value in self._spice_params.items()})
         self.read_trace_data(used_vars)
+        trace = TraceRead(alias, whattype, self._nPoints, self._axis, 'double')
         local_vars.update({namify(name): self._read_traces[name].data for name in used_vars})
         try:
             trace.data = eval(formula, local_vars)
-- 
2.43.0


From d2aff27aa83a40421401ebe4488c85007485c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 029/133] fix: get_axis, get_len and export give the same
 answer whether or not the axis was read before

---
 spicelib/raw/plot_data.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index b9e12e7..c7ff5fc 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -789,7 +789,7 @@ class PlotData(PlotInterface):
         :raises RuntimeError: if the RAW file does not have an axis.
         :return: Array with the X axis
         """
-        if self._axis:
+        if self._has_axis:
             axis = self.get_trace(0)
             assert isinstance(axis, Axis), "This RAW file does not have an axis."
             return axis.get_wave(step)
@@ -803,13 +803,14 @@ class PlotData(PlotInterface):
         :param step: the step index, defaults to 0
         :return: The number of data points
         """
-        if self._axis is None:
+        if not self._has_axis:
             # If there is no axis, the length is the number of points
             return self._nPoints
         else:
             # If there is an axis, the length is the length of the axis at the given step
-            assert isinstance(self._axis, Axis), "This RAW file does not have an axis."
-            return self._axis.get_len(step)
+            axis = self.get_trace(0)
+            assert isinstance(axis, Axis), "This RAW file does not have an axis."
+            return axis.get_len(step)
 
     def _load_step_information(self, filename: Path):
         if 'Command' not in self._raw_params:
@@ -942,8 +943,8 @@ class PlotData(PlotInterface):
         if columns is None:
             columns = self.get_trace_names()  # if no columns are given, use all traces
         else:
-            if self._axis and self._axis.name not in columns:  # If axis is not in the list, add it
-                columns.insert(0, self._axis.name)
+            if self._has_axis and self._trace_info[0].name not in columns:  # If axis is not in the list, add it
+                columns = [self._trace_info[0].name] + list(columns)
 
         if isinstance(step, list):
             steps_to_read = step  # If a list of steps is given, use it
-- 
2.43.0


From 79c4bf5fbfa94dfc6b135bd24e01a2380608d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 030/133] fix: the steps of a raw file without a usable log are
 counted on its axis

---
 spicelib/raw/plot_data.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index c7ff5fc..6cc0c0b 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -269,6 +269,7 @@ class PlotData(PlotInterface):
 
         # Compiling the raw file information based on the dialect
         self._steps = None
+        steps_unknown = False
         self._flags = self._raw_params['Flags'].split()
         if 'complex' in self._raw_params['Flags'].lower() or self._raw_params['Plotname'].lower() == 'ac analysis':
             numerical_type = 'complex'
@@ -319,15 +320,7 @@ class PlotData(PlotInterface):
                 self._load_step_information(raw_filename)
             except SpiceReadException as err:
                 _logger.warning(f"Plot nr. {self._plot_nr}: {str(err)}\nError in auto-detecting steps in '{raw_filename}'")
-                if self._has_axis:
-                    number_of_steps = 0
-                    if self._axis is not None:
-                        for v in self._axis.data:
-                            if v == self._axis.data[0]:
-                                number_of_steps += 1
-                else:
-                    number_of_steps = self._nPoints
-                self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+                steps_unknown = True  # will be counted on the axis, when its data is available
 
         if self._verbose:
             _logger.info(f"Plot nr. {self._plot_nr}: Plot read successfully.")
@@ -342,6 +335,16 @@ class PlotData(PlotInterface):
                 _logger.debug(f"Plot nr. {self._plot_nr}: ASCII RAW File")
             self._read_ascii_vector(raw_file)
 
+        if steps_unknown:
+            if self._has_axis:
+                self.read_trace_data([])  # this loads the axis
+                number_of_steps = sum(1 for v in self._axis.data if v == self._axis.data[0])
+            else:
+                number_of_steps = self._nPoints
+            self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+            if self._axis is not None:
+                self._axis.set_steps(self._steps)
+
     def _read_ascii_vector(self, raw_file):
         # Create the traces read vector
         for trace_info in self._trace_info:
@@ -887,6 +890,9 @@ class PlotData(PlotInterface):
         else:
             raise SpiceReadException("Unsupported simulator. Only LTspice and QSPICE are supported.")
 
+        if self._steps is None:
+            raise SpiceReadException("No step information in log file '%s'" % logfile)
+
     def __getitem__(self, item):
         """Helper function to access traces by using the [ ] operator."""
         return self.get_trace(item)
-- 
2.43.0


From 7ebc339b5828dfad2951ff301fcff442f6aad636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 031/133] fix: get_wave and get_axis of a file without any plot
 raise instead of returning uninitialised memory

---
 spicelib/raw/raw_read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/raw_read.py b/spicelib/raw/raw_read.py
index aa81e7c..708b22a 100644
--- a/spicelib/raw/raw_read.py
+++ b/spicelib/raw/raw_read.py
@@ -530,7 +530,7 @@ class RawRead(PlotInterface):
         :raises IndexError: When a trace is not found
         """
         if len(self._plots) == 0:
-            return np.ndarray([])
+            raise SpiceReadException("No plots found in the RAW file.")
         return self._plots[0].get_wave(trace_ref, step)
 
     def get_time_axis(self, step: int = 0) -> np.ndarray:
@@ -541,7 +541,7 @@ class RawRead(PlotInterface):
         It's workaround on a LTSpice issue when using 2nd Order compression, where some values on
         the time trace have a negative value."""
         if len(self._plots) == 0:
-            return np.ndarray([])
+            raise SpiceReadException("No plots found in the RAW file.")
         return self._plots[0].get_time_axis(step)
 
     def get_axis(self, step: int = 0) -> np.ndarray | list[float]:
@@ -555,7 +555,7 @@ class RawRead(PlotInterface):
         :return: Array with the X axis
         """
         if len(self._plots) == 0:
-            return np.ndarray([])
+            raise SpiceReadException("No plots found in the RAW file.")
         return self._plots[0].get_axis(step)
 
     def get_len(self, step: int = 0) -> int:
-- 
2.43.0


From 4aaeff03c59a98338c230a2c7e8eca83f04d257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 032/133] fix: TraceRead.get_len gives the number of points of
 the step

---
 spicelib/raw/raw_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index a55f504..46baed1 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -309,7 +309,9 @@ class TraceRead(DataSet):
         :param step: Optional parameter the step index.
         :return: The number of data points
         """
-        return self.axis.step_offset(step + 1)
+        if self.axis is None:
+            return len(self.data)
+        return self.axis.get_len(step)
 
     def __len__(self):
         """
-- 
2.43.0


From 879d634d6b6413838bd654b5a4550109b57e1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 033/133] fix: exporting a stepped operating point gives each
 step once

---
 spicelib/raw/plot_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 6cc0c0b..472a80c 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -970,10 +970,13 @@ class PlotData(PlotInterface):
         self.read_trace_data(columns)
         for step in steps_to_read:
             for col in columns:
+                wave = self.get_wave(col, step)
+                if self._steps is not None and not self._has_axis:
+                    wave = wave[step:step + 1]  # without an axis there is one point per step
                 if col not in data:
-                    data[col] = self.get_wave(col, step)
+                    data[col] = wave
                 else:
-                    data[col] = np.concatenate((data[col], self.get_wave(col, step)))
+                    data[col] = np.concatenate((data[col], wave))
             if self._steps is not None and step < len(self._steps):
                 for col in step_columns:
                     if col not in data:
-- 
2.43.0


From 9d441ed4d1d5c7184e6681c91cdfe6b8d4f36bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 034/133] fix: a complex frequency axis can be added to a
 RawWrite without plot name

---
 spicelib/raw/raw_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 3b14e7a..a8fe784 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -118,7 +118,7 @@ class RawWrite:
                 self.plot_name = self.plot_name or 'Transient Analysis'
                 flag_numtype = 'real'
             elif trace.whattype == 'frequency':
-                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in self.plot_name:
+                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in (self.plot_name or ''):
                     self.plot_name = self.plot_name or 'Noise Spectral Density - (V/Hz½ or A/Hz½)'
                     flag_numtype = 'real'
                 else:
-- 
2.43.0


From be2c7a0262ae8ac256368253d44824ede875bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 035/133] fix: RawWrite.save closes the file when writing fails

---
 spicelib/raw/raw_write.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index a8fe784..1a1a3f3 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -150,7 +150,10 @@ class RawWrite:
         """
         if len(self._imported_data):
             self._consolidate()
-        f = open(filename, 'wb')
+        with open(filename, 'wb') as f:
+            self._write(f)
+
+    def _write(self, f):
         f.write("Title: * spicelib RawWrite\n".encode(self.encoding))
         f.write(f"Date: {strftime('%a %b %d %H:%M:%S %Y')}\n".encode(self.encoding))
         f.write(f"Plotname: {self.plot_name}\n".encode(self.encoding))
@@ -174,7 +177,6 @@ class RawWrite:
             for i in range(len(self._traces[0])):
                 for trace in self._traces:
                     total_bytes += f.write(fmts[trace](trace.data[i]))
-        f.close()
 
     @staticmethod
     def _rename_netlabel(name, **kwargs) -> str:
-- 
2.43.0


From 4eceabbabe8dd351254292a407be6c587b01a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 036/133] fix: RawWrite stores complex data in the order that
 the fastaccess flag announces

---
 spicelib/raw/raw_write.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 1a1a3f3..e8a2279 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -168,8 +168,7 @@ class RawWrite:
             f.write(f"\t{i}\t{trace.name}\t{trace.whattype}\n".encode(self.encoding))
         total_bytes = 0
         f.write("Binary:\n".encode(self.encoding))
-        if self.flag_fastaccess and self.flag_numtype != 'complex':  # Don't know why, but complex RAW files aren't
-            # converted to FastAccess
+        if self.flag_fastaccess:
             for trace in self._traces:
                 f.write(trace.data.tobytes())
         else:
-- 
2.43.0


From 4b8224f4ab7bf304ba46cc11ccf03a3ce8a7af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 037/133] fix: RawWrite stores every trace in the type its
 flags announce (double axis, double traces, complex)

---
 spicelib/raw/raw_write.py | 44 +++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index e8a2279..5f6cd60 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, float32, zeros
+from numpy import array, asarray, complex128, float32, float64, iscomplexobj, zeros
 
 
 class Trace(DataSet):
@@ -93,6 +93,8 @@ class RawWrite:
 
     def _str_flags(self):
         flags = [self.flag_numtype]
+        if self._is_double():
+            flags.append('double')
         if self.flag_forward:
             flags.append('forward')
         if self.flag_log:
@@ -103,6 +105,31 @@ class RawWrite:
             flags.append('fastaccess')
         return ' '.join(flags)
 
+    def _is_complex(self) -> bool:
+        """True if all data of this file is stored as complex numbers"""
+        return self.flag_numtype == 'complex' or (self.plot_name or '').lower() == 'ac analysis'
+
+    def _is_double(self) -> bool:
+        """True if the traces are stored with double precision, which the 'double' flag tells to the reader"""
+        return not self._is_complex() and any(trace.data.dtype == float64 for trace in self._traces[1:])
+
+    def _stored_data(self) -> list:
+        """The data of the traces in the types that the flags of the file announce: complex for all traces, or double
+        for the axis and real (double if the 'double' flag is set) for the others."""
+        data = []
+        for i, trace in enumerate(self._traces):
+            if self._is_complex():
+                dtype = complex128
+            elif iscomplexobj(trace.data):
+                raise ValueError(f"The trace '{trace.name}' is complex and can't be stored in a file of type "
+                                 f"{self.flag_numtype}")
+            elif i == 0 or self._is_double():
+                dtype = float64
+            else:
+                dtype = float32
+            data.append(asarray(trace.data, dtype=dtype))
+        return data
+
     def add_trace(self, trace: Trace):
         """
         Adds a trace to the RAW file. The trace needs to have the same size as trace 0 ('time', 'frequency', etc..)
@@ -150,10 +177,11 @@ class RawWrite:
         """
         if len(self._imported_data):
             self._consolidate()
+        stored_data = self._stored_data()
         with open(filename, 'wb') as f:
-            self._write(f)
+            self._write(f, stored_data)
 
-    def _write(self, f):
+    def _write(self, f, stored_data: list):
         f.write("Title: * spicelib RawWrite\n".encode(self.encoding))
         f.write(f"Date: {strftime('%a %b %d %H:%M:%S %Y')}\n".encode(self.encoding))
         f.write(f"Plotname: {self.plot_name}\n".encode(self.encoding))
@@ -166,16 +194,14 @@ class RawWrite:
         f.write("Variables:\n".encode(self.encoding))
         for i, trace in enumerate(self._traces):
             f.write(f"\t{i}\t{trace.name}\t{trace.whattype}\n".encode(self.encoding))
-        total_bytes = 0
         f.write("Binary:\n".encode(self.encoding))
         if self.flag_fastaccess:
-            for trace in self._traces:
-                f.write(trace.data.tobytes())
+            for data in stored_data:
+                f.write(data.tobytes())
         else:
-            fmts = {trace: tobytes_for_trace(trace) for trace in self._traces}
             for i in range(len(self._traces[0])):
-                for trace in self._traces:
-                    total_bytes += f.write(fmts[trace](trace.data[i]))
+                for data in stored_data:
+                    f.write(data[i].tobytes())
 
     @staticmethod
     def _rename_netlabel(name, **kwargs) -> str:
-- 
2.43.0


From 44935213d1ba388a3c2bf9439195b4be031c40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 038/133] fix: SimStepper runs all the values of sweeps given
 as generators or iterators

They were consumed by the first pass, or by total_number_of_simulations(), so the
remaining combinations were never simulated.
---
 spicelib/sim/sim_stepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 4662917..424f40b 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -38,10 +38,10 @@ class StepInfo:
     def __init__(self, what: str, elem: str, iterable: Iterable):
         self.what = what
         self.elem = elem
-        self.iter = iterable
+        self.iter = list(iterable)  # Generators and iterators can only be consumed once
 
     def __len__(self):
-        return len(list(self.iter))
+        return len(self.iter)
 
     def __str__(self):
         return f"Iteration on {self.what} {self.elem} : {self.iter}"
-- 
2.43.0


From aa2884cbba7c86ad47e676ddd42b3eac55ef4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 039/133] fix: export_step_info() of a SimStepper without runs,
 or with values set between two run_all()

It raised an IndexError without any run, and a ValueError when a value was set
for the first time after the first run.
---
 spicelib/sim/sim_stepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 424f40b..6a1e741 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -252,8 +252,8 @@ class SimStepper(AnyRunner):
         rows = [runno for runno in self.sim_info]
         rows.sort()
 
-        # Extract column names from the first dictionary
-        fieldnames = ['runno'] + list(self.sim_info[rows[0]].keys())
+        # The column names are all the values that were set in any of the runs
+        fieldnames = ['runno'] + list(dict.fromkeys(key for runno in rows for key in self.sim_info[runno]))
 
         # Open a CSV file for writing
         with open(export_filename, 'w', newline='') as csvfile:
-- 
2.43.0


From 53e38d98dbe4b161b222eb074feb566a96d0ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 040/133] fix: run_testbench() without save_netlist() before
 simulates the formulas with the deviations

The formulas were queued with the instructions of the user, but only played by
save_netlist(), so all steps simulated the nominal circuit. They also stayed in the
user's instructions, and hence in the circuit of the following analysis, and did not
start from the component values that the user had set.
---
 spicelib/sim/tookit/montecarlo.py                 | 3 ++-
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 3 ++-
 spicelib/sim/tookit/sim_analysis.py               | 7 ++++---
 spicelib/sim/tookit/worst_case.py                 | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 3abaa2e..55d8e81 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -68,6 +68,7 @@ class Montecarlo(ToleranceDeviations):
         min_max_norm_func = False
         tol_uni_func = False
         tol_norm_func = False
+        self.play_instructions()  # the tolerances apply to the values set by the user
         self.elements_analysed.clear()
         for ref in self.get_components('*'):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
@@ -90,7 +91,7 @@ class Montecarlo(ToleranceDeviations):
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
 
             if new_val != val:  # Only update the value if it has changed
-                self.set_component_value(ref, new_val)  # update the value
+                self.editor.set_component_value(ref, new_val)  # update the value
                 self.elements_analysed.append(ref)
 
         for param in self.parameter_deviations:
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 1c266d8..1a15bd5 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -34,6 +34,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for each component"""
         no = 0
+        self.play_instructions()  # the tolerances apply to the values set by the user
         self.elements_analysed.clear()
         use_min = kwargs.get('use_min', False)
         for comp in self.get_components('*'):
@@ -46,7 +47,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                 new_val = "{sammx(%s,%g,%d)}" % (val, used_value, no)
 
             if new_val != val:
-                self.set_component_value(comp, new_val)
+                self.editor.set_component_value(comp, new_val)
                 self.elements_analysed.append(comp)
                 no += 1
 
diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 55bc58e..15e4b92 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -56,6 +56,7 @@ class SimAnalysis:
         self.last_run_number = 0
         self.received_instructions = []
         self.instructions_added = False
+        self.instructions_played = 0  # number of the received instructions that are already in the editor
         self.log_data = LogfileData()
 
     def clear_simulation_data(self):
@@ -112,6 +113,7 @@ class SimAnalysis:
         without having to add the instructions again."""
         self.editor.reset_netlist()
         self.instructions_added = False
+        self.instructions_played = 0
 
     def set_component_value(self, ref: str, new_value: str):
         self.received_instructions.append(('set_component_value', ref, new_value))
@@ -132,9 +134,7 @@ class SimAnalysis:
         self.received_instructions.append(('remove_Xinstruction', search_pattern))
 
     def play_instructions(self):
-        if self.instructions_added:
-            return  # Nothing to do
-        for instruction in self.received_instructions:
+        for instruction in self.received_instructions[self.instructions_played:]:
             if instruction[0] == 'set_component_value':
                 self.editor.set_component_value(instruction[1], instruction[2])
             elif instruction[0] == 'set_element_model':
@@ -149,6 +149,7 @@ class SimAnalysis:
                 self.editor.remove_Xinstruction(instruction[1])
             else:
                 raise ValueError("Unknown instruction")
+            self.instructions_played += 1
         self.instructions_added = True
 
     def save_netlist(self, filename: str):
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index a11bcb3..04e9a32 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -61,13 +61,14 @@ class WorstCaseAnalysis(ToleranceDeviations):
             new_val = "{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calculate expression for new value
 
         if new_val != val:
-            self.set_component_value(ref, new_val)  # update the value
+            self.editor.set_component_value(ref, new_val)  # update the value
             self.elements_analysed.append(ref)
         return True
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for the components"""
         index = 0
+        self.play_instructions()  # the tolerances apply to the values set by the user
         self.elements_analysed.clear()
         for ref in self.device_deviations:
             if self._set_component_deviation(ref, index):
-- 
2.43.0


From 40f3a1a0cf2e434804abdf604cbf8d8aafd6d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 041/133] fix: run_analysis() deviates from the values of the
 circuit that is analysed

The values were collected before the netlist was reset and the instructions of the
user were played. So the second analysis with the same editor took the last corner of
the first one as nominal values, and components set by the user were deviated from
their value in the source file.
---
 spicelib/sim/tookit/fast_worst_case.py            | 4 ++--
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 4 ++--
 spicelib/sim/tookit/worst_case.py                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index a540a0b..ee22015 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -95,6 +95,8 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         worst_case_elements = {}
 
         def check_and_add_component(ref1: str):
@@ -169,8 +171,6 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         _logger.info("Worst Case Analysis: %d elements to be analysed", len(self.elements_analysed))
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Simulate the nominal case
         self.run(wait_resource=True,
                  callback=callback, callback_args=callback_args,
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 1a15bd5..1f622a1 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -102,6 +102,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                      ):
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         # Calculate the number of runs
 
         worst_case_elements = {}
@@ -133,8 +135,6 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Add the run number to the measurements by using a parameter
         self.editor.set_parameter('run', -1)  # in case the step is commented.
         self.editor.add_instruction(".meas runm PARAM {run}")
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 04e9a32..2d7ca42 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -111,6 +111,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
         The advantage of this method is that it doesn't require adding random functions to the netlist."""
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         worst_case_elements = {}
 
         def check_and_add_component(ref1: str):
@@ -146,8 +148,6 @@ class WorstCaseAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         self.editor.set_parameter('run', -1)  # This is aligned with the testbench preparation
         self.editor.add_instruction(".meas runm PARAM {run}")
         # Simulate the nominal case
-- 
2.43.0


From 89779b10f1cee823d9c7a5f01869ed0890f45fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 042/133] fix: configure_measurement() survives the reset of
 the netlist done by every analysis

The .meas was added directly to the editor, and was gone before the first simulation.
---
 spicelib/sim/tookit/sim_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 15e4b92..595a30a 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -218,4 +218,4 @@ class SimAnalysis:
 
     def configure_measurement(self, meas_name: str, meas_expression: str, meas_type: str = 'tran'):
         """Configures a measurement to be done in the simulation"""
-        self.editor.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
+        self.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
-- 
2.43.0


From 7d8c1a5c081d1d66fef8ea267e4b41cf7a3590e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 043/133] fix: the log files of a run_testbench() with callback
 can be read

read_logfiles() raised 'The analysis has not been executed yet'.
---
 spicelib/sim/tookit/tolerance_deviations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 5286c79..b13cbbd 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -221,9 +221,9 @@ class ToleranceDeviations(SimAnalysis, ABC):
             self.simulations.append(sim)
             self.editor.remove_instruction(run_stepping)
         self.runner.wait_completion()
+        self.testbench_executed = True
         if callback is not None:
             return (sim.get_results() if sim is not None else None for sim in self.simulations)
-        self.testbench_executed = True
         return None
 
     def add_log(self, run_task: RunTask) -> LogfileData | None:
-- 
2.43.0


From 7d4da69bbbc577e5d13518d1b4676ecfba507a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 044/133] fix: a failed measurement doesn't give its place to
 the measurement of another run

Measurements missing in one log file shifted the values of the runs that followed, so
that they were attributed to other runs (corners, elements). The partial log of a
failed run was read too. Results of a worst-case analysis with runs that could not be
launched, or with missing measurements, are refused.
---
 spicelib/sim/tookit/montecarlo.py   |  2 +-
 spicelib/sim/tookit/sim_analysis.py | 23 ++++++++++++-----------
 spicelib/sim/tookit/worst_case.py   |  2 +-
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 55d8e81..9d7052f 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -239,4 +239,4 @@ class Montecarlo(ToleranceDeviations):
             _logger.warning("Measurement %s not found in log files", meas_name)
             return None
         else:
-            return meas_data
+            return [value for value in meas_data if value is not None]
diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 595a30a..b8345d5 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -192,23 +192,24 @@ class SimAnalysis:
         if log_data is None:
             return
 
-        for param in log_data.stepset:
-            if param not in self.log_data.stepset:
-                self.log_data.stepset[param] = log_data.stepset[param]
-            else:
-                self.log_data.stepset[param].extend(log_data.stepset[param])
-        for param in log_data.dataset:
-            if param not in self.log_data.dataset:
-                self.log_data.dataset[param] = log_data.dataset[param][:]
-            else:
-                self.log_data.dataset[param].extend(log_data.dataset[param][:])
+        def row_count(data):
+            return max((len(values) for values in [*data.stepset.values(), *data.dataset.values()]), default=0)
+
+        # A measurement that a log file doesn't have is None, so that the values of the other runs keep their position
+        rows, new_rows = row_count(self.log_data), row_count(log_data)
+        for present, new in ((self.log_data.stepset, log_data.stepset), (self.log_data.dataset, log_data.dataset)):
+            for param in new:
+                present.setdefault(param, [None] * rows)
+            for param in present:
+                values = new.get(param, [])
+                present[param] = present[param] + values + [None] * (new_rows - len(values))
         self.log_data.step_count += log_data.step_count
 
     def read_logfiles(self) -> LogfileData:
         """Reads the log files and returns a dictionary with the results"""
         self.log_data = LogfileData()  # Clears the log data
         for sim in self.simulations:
-            if sim is None:
+            if sim is None or sim.retcode != 0:  # The log of a failed run isn't complete
                 continue
 
             log_results = self.read_logfile(sim)
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 2d7ca42..056264f 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -207,7 +207,7 @@ class WorstCaseAnalysis(ToleranceDeviations):
         if meas_data is None:
             _logger.warning("Measurement %s not found in log files", meas_name)
             return None
-        elif len(meas_data) != len(self.simulations):
+        elif len(meas_data) != self.last_run_number + 2 or None in meas_data:  # the +2 is the nominal and the run 0
             _logger.warning("Missing log files. Results may not be reliable. Probable cause are:\n"
                             "  - Failed simulations.\n"
                             "  - Measurement couldn't be done in simulation results.")
-- 
2.43.0


From 0303d2418f1527fac8baca27fd3793210256e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 045/133] fix: FastWorstCaseAnalysis restarts its search,
 refuses failed runs and keeps the user's instructions

When a component had to be set to its opposite value while searching the maximum, the
analysis ended with "'list_iterator' object is not callable". When one of the first
runs failed, the deltas were attributed to the wrong components. In the end the
instructions of the user were discarded, so the next analysis was of another circuit.
---
 spicelib/sim/tookit/fast_worst_case.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index ee22015..860924e 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -188,6 +188,8 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
         self.testbench_executed = True  # Idem
         # Get the results from the simulation
         log_data = self.read_logfiles()
+        if len(log_data[measure]) != len(self.elements_analysed) + 1:
+            raise RuntimeError(f"There are runs without a value for '{measure}'. The analysis can't continue.")
         nominal = log_data.get_measure_value(measure, 0)
         _logger.info("Nominal value: %g", nominal)
         component_deltas = {}
@@ -239,7 +241,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
                 max_setting[ref] = not max_setting[ref]
                 max_value = new_value
                 # Need to restart the cycle
-                iterator = iterator(self.elements_analysed)
+                iterator = iter(self.elements_analysed)
 
             # setting it back to the maximum value
             if max_setting[ref]:
@@ -307,7 +309,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.cleanup_files()
-        self.reset_netlist()
+        self._reset_netlist()  # the instructions of the user are kept
         self.play_instructions()
 
         return nominal, min_value, max_comp_values, max_value, min_comp_values
-- 
2.43.0


From 786c654f574a80b2b7dcc1d728bbfba2ce0ba8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 046/133] fix: Montecarlo testbench with normal deviations
 between min and max, tolerance 0, and Qspice

The function nrng() was not defined when only components used it, and its sigma was
multiplied by the mean. A tolerance of 0 (or 10) gave an empty (or 10x smaller) argument.
The urng() for Qspice had unbalanced parenthesis.
---
 spicelib/sim/tookit/montecarlo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 9d7052f..78770eb 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -74,7 +74,7 @@ class Montecarlo(ToleranceDeviations):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
             new_val = val
             if dev.typ == DeviationType.tolerance:
-                tolstr = ('%g' % dev.tolerance).rstrip('0').rstrip('.')
+                tolstr = '%g' % dev.tolerance
                 if dev.distribution == 'uniform':
                     new_val = "{utol(%s,%s)}" % (val, tolstr)  # calculate expression for new value
                     tol_uni_func = True
@@ -89,6 +89,7 @@ class Montecarlo(ToleranceDeviations):
                 elif dev.distribution == 'normal':
                     new_val = "{nrng(%s,%g,%g)}" % (
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
+                    min_max_norm_func = True
 
             if new_val != val:  # Only update the value if it has changed
                 self.editor.set_component_value(ref, new_val)  # update the value
@@ -127,7 +128,7 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+flat(df2))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         elif self.runner.simulator.__name__ == 'Qspice':
             # if gauss function is needed
             #  => This is finally not needed because Qspice has a built-in gauss function (non-documented)
@@ -141,10 +142,10 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func ntol(nom,tol) {if(run<0, nom, nom*(1+gauss(tol/3)))}")
 
             if min_max_uni_func:
-                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+(df2*(2*random()-1))")
+                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+df2*(2*random()-1))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         else:
             _logger.warning("Simulator not supported for this method")
             raise NotImplementedError("Simulator not supported for this method")
-- 
2.43.0


From a7fb3d90fcac82bb64abf6d0ff6514ed6f30a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 047/133] fix: a testbench saved after run_analysis() doesn't
 start from the last variation

---
 spicelib/sim/tookit/montecarlo.py                 | 2 ++
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 2 ++
 spicelib/sim/tookit/worst_case.py                 | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 78770eb..740ebe3 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -217,6 +217,8 @@ class Montecarlo(ToleranceDeviations):
                           switches=switches, timeout=timeout, exe_log=exe_log)
 
         self.runner.wait_completion()
+        self._reset_netlist()  # A testbench saved later doesn't start from the last variation
+        self.play_instructions()
         if callback is not None:
             callback_rets = []
             for rt in self.simulations:
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 1f622a1..2a5bf78 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -176,6 +176,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                      switches=switches, timeout=timeout, exe_log=exe_log)
             last_bit_setting = bit_setting
         self.runner.wait_completion()
+        self._reset_netlist()  # A testbench saved later doesn't start from the last variation
+        self.play_instructions()
 
         if callback is not None:
             callback_rets = []
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 056264f..a997cbd 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -188,6 +188,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
                      switches=switches, timeout=timeout, exe_log=exe_log)
             last_run = run
         self.runner.wait_completion()
+        self._reset_netlist()  # A testbench saved later doesn't start from the last variation
+        self.play_instructions()
 
         if callback is not None:
             callback_rets = []
-- 
2.43.0


From 9b02bafc3def3429935d9dcd4eb2355c795f3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 048/133] fix: RawWrite interpolates all the traces onto the
 merged axis, which includes its last point

---
 spicelib/raw/raw_write.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 5f6cd60..d74201f 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, asarray, complex128, float32, float64, iscomplexobj, zeros
+from numpy import array, array_equal, asarray, complex128, float32, float64, iscomplexobj, zeros
 
 
 class Trace(DataSet):
@@ -324,14 +324,17 @@ class RawWrite:
                     else:
                         new_axis.append(my_axis[e])
                         e += 1
+                # The new axis goes up to the last point that both have
+                new_axis.append(min(my_axis[-1], other_axis[-1]))
                 # Creating the New Axis
                 self._new_axis = new_axis
 
                 for trace_name in trace_filter:
-                    imported_trace = other.get_trace(trace_name)
+                    trace = other.get_trace(trace_name)
                     new_name = self._rename_netlabel(trace_name, **kwargs)
-                    imported_trace.name = new_name
-                    self._imported_data.append(imported_trace)
+                    imported_trace = Trace(new_name, trace.get_wave(from_step), trace.whattype,
+                                           numerical_type=trace.numerical_type)
+                    self._imported_data.append((imported_trace, other_axis))
         else:
             assert len(self._traces[0]) == len(other.get_axis(from_step)), \
                 "The two instances should have the same size. To avoid this use force_axis_alignment=True option"
@@ -343,8 +346,12 @@ class RawWrite:
 
     @staticmethod
     def _interpolate(trace_data, trace_axis, new_axis: array):
+        if array_equal(trace_axis, new_axis):
+            return trace_data
         new_data = zeros(len(new_axis), dtype=trace_data.dtype)
         new_data[0] = trace_data[0]
+        if len(trace_axis) == 1:
+            return new_data  # there is just one point in common
 
         slope = (trace_data[1] - trace_data[0])/(trace_axis[1] - trace_axis[0])
         i = 1
@@ -358,17 +365,13 @@ class RawWrite:
     def _consolidate(self):
         if self._new_axis and self._imported_data:
             new_axis = self._new_axis
-            axis_length = len(new_axis)
             old_axis = self._traces[0]
-            if axis_length != len(old_axis):
-                my_axis = old_axis.data
-                for trace in self._traces[1:]:
-                    trace.data = self._interpolate(trace.data, my_axis, new_axis)
-            for imported_trace in self._imported_data:
-                new_trace = Trace(imported_trace.name,
-                                  self._interpolate(imported_trace.get_wave(), imported_trace.axis.get_wave(), new_axis),
-                                  imported_trace.whattype, imported_trace.numerical_type)
-                self._traces.append(new_trace)
+            my_axis = old_axis.data
+            for trace in self._traces[1:]:
+                trace.data = self._interpolate(trace.data, my_axis, new_axis)
+            for imported_trace, imported_axis in self._imported_data:
+                imported_trace.data = self._interpolate(imported_trace.data, imported_axis, new_axis)
+                self._traces.append(imported_trace)
             self._traces[0] = Trace(old_axis.name, new_axis,
                                     old_axis.whattype, old_axis.numerical_type)  # Replaces with the new axis
             self._new_axis = None
-- 
2.43.0


From f682986086461a1c621f628848d881af23d999ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 049/133] fix: create_raw_file_with() returns False when no
 simulation matches the conditions

---
 spicelib/sim/sim_runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 841802b..f175fd1 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -843,7 +843,10 @@ class SimRunner(AnyRunner):
         retval = True
 
         # Obtain a first task
-        first_task: RunTask = next(self.tasks(conditions))
+        first_task: RunTask | None = next(self.tasks(conditions), None)
+        if first_task is None:
+            _logger.error("No completed simulation matches the conditions. Cannot create new raw file.")
+            return False
 
         # Initialize a raw file based on the contents of the first raw
         if not first_task.raw_file:
-- 
2.43.0


From 4a1b580142208d2c396b6d5852c1a2a35b55cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 050/133] fix: create_raw_file_with() skips a simulation that
 wrote no raw file and returns False

---
 spicelib/sim/sim_runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index f175fd1..dee0991 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -849,7 +849,7 @@ class SimRunner(AnyRunner):
             return False
 
         # Initialize a raw file based on the contents of the first raw
-        if not first_task.raw_file:
+        if not first_task.raw_file or not Path(first_task.raw_file).exists():
             _logger.error(f"Raw file {first_task.raw_file} does not exist. Cannot create new raw file.")
             return False
             
@@ -865,7 +865,7 @@ class SimRunner(AnyRunner):
         # Go through the tasks that match the conditions given
         for run_task in self.tasks(conditions):
             # Open the raw file
-            if not run_task.raw_file:
+            if not run_task.raw_file or not Path(run_task.raw_file).exists():
                 _logger.error(f"Raw file {run_task.raw_file} does not exist. Skipping this task.")
                 retval = False
                 continue
-- 
2.43.0


From 85482e356ead0e6c40bd30fc52bf3a5f955b9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 051/133] fix: an edited element is written correctly when it's
 in lower case, indented, split in lines or loses its last parameter

---
 spicelib/editor/spice_components.py | 59 +++++++++++++----------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index fb12595..88de973 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -238,6 +238,10 @@ class SpiceComponent(Component):
     #         return self._netlist.parent_reference() + self.reference
     #     return self.reference
 
+    def _single_line(self) -> str:
+        """The text of the component in a single line, without line breaks and without spaces around it."""
+        return re.sub(r'[\n\r]+\s*', ' ', self._obj).strip()  # cleans up line breaks and extra spaces and tabs
+
     def reset_attributes(self):
         """Update attributes of a component at a specific line in the netlist
 
@@ -250,14 +254,14 @@ class SpiceComponent(Component):
         """
         if self._obj is None:
             return
-        prefix = self._obj[0]
+        new_line = self._single_line()
+        prefix = new_line[:1].upper()
         regex = component_replace_regexs.get(prefix, None)
         if regex is None:
             error_msg = f"Component must start with one of these letters: {','.join(REPLACE_REGEXS.keys())}\n" \
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        new_line = re.sub(r'[\n\r]+\s*', ' ', self._obj) # cleans up line breaks and extra spaces and tabs
         match = regex.match(new_line)
         if match is None or match.span() == (0, 0):
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
@@ -290,24 +294,19 @@ class SpiceComponent(Component):
         """
         # Reconstruct the line from the attributes. This will not preserve the original formatting, by reparsing
         # again the line updating the parameters.
-        prefix = self.reference[0]
+        new_line = self._single_line()
+        prefix = new_line[:1].upper()
         regex = component_replace_regexs.get(prefix, None)
         if regex is None:
             error_msg = f"Component must start with one of these letters: {','.join(REPLACE_REGEXS.keys())}\n" \
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        match = regex.match(self._obj)
+        match = regex.match(new_line)
         if match is None:
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
         info = match.groupdict()
-        if self._obj is not None:
-            new_line: str = self._obj[:]  # make a copy
-        else:
-            new_line = ''
-        new_line = re.sub(r'[\n\r]+\s*', ' ', new_line)
-        offset = 0
-        update_done = False
+        changes: list[tuple[int, int, str]] = []  # The sections to be replaced: start, stop and new text
         for attr in info:
             start, stop = match.span(attr)
             if start == -1 and stop == -1 and attr not in self._attributes:
@@ -319,16 +318,10 @@ class SpiceComponent(Component):
                         new_ref = self.reference[0] + '§' + self.reference[1:]
                     else:
                         new_ref = self.reference
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_ref)
-                    offset += len(new_ref) - len(old_ref)
-                    update_done = True
+                    changes.append((start, stop, new_ref))
             elif attr == 'nodes':
-                old_nodes_str = info[attr]
-                new_nodes_str = ' ' + self.port_names(' ')
-                if old_nodes_str != new_nodes_str:
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_nodes_str)
-                    offset += len(new_nodes_str) - len(old_nodes_str)
-                    update_done = True
+                if info[attr] != ' ' + self.port_names(' '):
+                    changes.append((start, stop, self.port_names(' ')))
             elif attr == 'params':
                 old_params_str = info[attr] or ""  # in case of no params, make it empty string
                 old_params = _parse_params(old_params_str)
@@ -358,30 +351,30 @@ class SpiceComponent(Component):
                     if start == -1 and stop == -1:
                         # params were not present in the original line, we need to add them at the end, or just before the comment if there is one
                         comment_index = new_line.find(';')
-                        if comment_index != -1:
-                            new_line = new_line[:comment_index].rstrip() + ' ' + new_params_str + ' ' + new_line[comment_index:]
-                        else:
-                            new_line += ' ' + new_params_str
-                    else:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_params_str)
-                    offset += len(new_params_str) - len(old_params_str)
-                    update_done = True
+                        start = stop = len(new_line) if comment_index == -1 else comment_index
+                    changes.append((start, stop, new_params_str))
             else:
                 if hasattr(self, attr):
                     old_attr_value = info[attr]
                     new_attr_value = self._attributes[attr]
                     if isinstance(new_attr_value, (float, int)):
                         new_attr_value = format_eng(new_attr_value)
-                    if old_attr_value != new_attr_value:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_attr_value)
-                        offset += len(new_attr_value) - len(old_attr_value)
-                        update_done = True
+                    if old_attr_value is None or old_attr_value.strip() != new_attr_value:
+                        if start == -1:  # there was none in the original line, it comes after the nodes
+                            start = stop = match.end('nodes')
+                        changes.append((start, stop, new_attr_value))
                 else:
                     pass  # attribute not present, do nothing
-        if not update_done:
+        if not changes:
             # nothing changed, write original line
             new_line = self.obj or ""
         else:
+            # Replaced from the right to the left, so that the positions of the sections still to be replaced are kept
+            for start, stop, text in sorted(changes, reverse=True):
+                if text:
+                    new_line = _insert_section(new_line, start, stop, text)
+                else:
+                    new_line = (new_line[:start].rstrip() + ' ' + new_line[stop:].lstrip()).strip()
             new_line += END_LINE_TERM
         stream.write(new_line)
         return len(new_line)
-- 
2.43.0


From 218cf644b52c0f561f103b9a8a526000dd86cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 052/133] fix: get_all_nodes() and get_line_command() with
 elements in lower case, indented or with edited nodes

---
 spicelib/editor/spice_subcircuit.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index def7fc9..9f54564 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -30,7 +30,7 @@ from .spice_utils import subckt_regex, SUBCKT_CLAUSE_FIND, \
 from .primitives import ValueType, Primitive, try_value
 from .updates import UpdateType, UpdatePermission
 from .base_subcircuit import BaseSubCircuit
-from .spice_components import SpiceComponent, component_replace_regexs, _insert_section
+from .spice_components import SpiceComponent, _insert_section
 from .spice_subcircuit_instance import SpiceCircuitInstance
 from .base_editor import SUBCKT_DIVIDER, PARAM_REGEX, BaseEditor
 
@@ -70,7 +70,7 @@ def get_line_command(line: str | Primitive) -> str:
     elif isinstance(line, IncludeFile):
         return ".INCLUDE"
     elif isinstance(line, (SpiceComponent, SpiceCircuitInstance)):
-        return line.obj[0] # pyright: ignore[reportOptionalSubscript]
+        return line.reference[0].upper()
     elif isinstance(line, Primitive):
         return get_line_command(line.obj) # pyright: ignore[reportArgumentType]
     else:
@@ -825,15 +825,13 @@ class SpiceCircuit(BaseSubCircuit):
         circuit_nodes = []
         for line in self.netlist:
             if isinstance(line, (SpiceComponent, SpiceCircuitInstance)):
-                prefix = get_line_command(line)
-                if prefix in component_replace_regexs:
-                    regex = component_replace_regexs[prefix]
-                    match = regex.match(line.obj) # pyright: ignore[reportAssignmentType]
-                    if match:
-                        nodes = match.group('nodes').split()  # This separates by all space characters including \t
-                        for node in nodes:
-                            if node not in circuit_nodes:
-                                circuit_nodes.append(node)
+                try:
+                    nodes = line.port_list()
+                except (UnrecognizedSyntaxError, NotImplementedError):
+                    continue
+                for node in nodes:
+                    if node not in circuit_nodes:
+                        circuit_nodes.append(node)
         return circuit_nodes
 
     def save_netlist(self, run_netlist_file: str | Path | io.StringIO) -> None:
-- 
2.43.0


From 002b9e1a20f923bacb4d0b442ae6f68e8beee8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 053/133] fix: iterating over a circuit gives its components
 instead of empty ones

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 9f54564..59cc887 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -518,7 +518,7 @@ class SpiceCircuit(BaseSubCircuit):
         for component in circuit:
             print(component)
         """
-        for line_no, line in enumerate(self.netlist):
+        for line in self.netlist:
             if isinstance(line, SpiceCircuit):
                 yield from line
             elif isinstance(line, ControlEditor):
@@ -528,7 +528,7 @@ class SpiceCircuit(BaseSubCircuit):
             else:
                 cmd = get_line_command(line)
                 if cmd in VALID_PREFIXES:
-                    yield SpiceComponent(self, line_no)
+                    yield line
 
     def get_component_attribute(self, reference: str, attribute: str) -> str | None:
         """
-- 
2.43.0


From 90386fe6e3889b3966b2a1259b020b2a9401fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 054/133] fix: the comment at the end of the line isn't part of
 the value of sources and switches

---
 spicelib/editor/spice_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 6c94b72..9701f5e 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -121,7 +121,7 @@ MODEL_OR_VALUE_RGX = r"\s+(?P<value>[\w\.\-\{\}]+)"
 
 # the rest of the line. Cannot be used with PARAM.
 # Includes the comment regex and will expect to finish the line.
-ANY_VALUE_RGX = r"\s+(?P<value>.*)" + COMMENT_RGX
+ANY_VALUE_RGX = r"\s+(?P<value>.*?)" + COMMENT_RGX
 
 # maybe a value. Will require a leading space
 MAYBE_VALUE_RGX = r"\s+(?P<value>.*?)"
@@ -155,9 +155,9 @@ def VALUE_RGX(prefix: str, number_regex_suffix: str) -> str:
 
 
 REPLACE_REGEXS : Dict[str, str] = {
-    'A': PREFIX_AND_NODES_RGX("A", 8, 8) + r"\s+(?P<value>.*)",  # LTspice Only : Special Functions, Parameter substitution not supported
+    'A': PREFIX_AND_NODES_RGX("A", 8, 8) + ANY_VALUE_RGX,  # LTspice Only : Special Functions, Parameter substitution not supported
     # Bxxx n001 n002 [VIRP]=<expression> [ic=<value>] ...
-    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|[^=])+)" + PARAM_RGX,  # Behavioral source
+    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|[^=;])+)" + PARAM_RGX,  # Behavioral source
     # Cxxx n1 n2 <capacitance> [ic=<value>] ...
     # Cxxx n+ n- <value> <mname> <m=val> <scale=val> <temp=val> ...
     # Cxxx n1 n2 C=<capacitance> [ic=<value>] ...
-- 
2.43.0


From 1976d7960b6c8b750acd70630497c8ba8c335c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 055/133] fix: parameters called e..., or mentioned in the
 comment of a .PARAM line, or part of another name

---
 spicelib/editor/base_editor.py      |  3 ++-
 spicelib/editor/spice_subcircuit.py | 22 +++++++++++++---------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 3a0afec..c0bf9eb 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -37,7 +37,8 @@ SUBCKT_DIVIDER: Final[str] = ':'  #: This controls the sub-circuit divider when
 # Ex: Editor.set_component_value('XU1:R1', '1k')
 
 def PARAM_REGEX(pname):
-    return r"(?P<name>" + pname + r")\s*[= ]\s*(?P<value>(?P<cb>\{)?(?(cb)[^\}]*\}|(?P<st>\")?(?(st)[^\"]*\"|[\d\.\+\-Ee]+[a-zA-Z%]*)))"
+    # The lookbehind makes sure that it is the complete name, and that the .PARAM itself is not taken for a name
+    return r"(?<![\w.])(?P<name>" + pname + r")\s*[= ]\s*(?P<value>(?P<cb>\{)?(?(cb)[^\}]*\}|(?P<st>\")?(?(st)[^\"]*\"|[\d\.\+\-Ee]+[\w%]*)))"
 
 
 class BaseEditor(ABC):
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 59cc887..6f1db7f 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -77,6 +77,14 @@ def get_line_command(line: str | Primitive) -> str:
         raise SyntaxError(f'Unrecognized command in line "{line}"')
 
 
+def _find_parameters(line: str) -> list[re.Match]:
+    """
+    (Private function. Not to be used directly)
+    Returns the matches of all the parameters defined in a .PARAM line. The comment of the line is not considered.
+    """
+    return list(re.finditer(PARAM_REGEX(r"\w+"), line.split(';', 1)[0], re.IGNORECASE))
+
+
 def _is_unique_instruction(instruction):
     """
     (Private function. Not to be used directly)
@@ -249,7 +257,6 @@ class SpiceCircuit(BaseSubCircuit):
         Internal function. Do not use. Returns a line starting with command and matching the search with the regular
         expression
         """
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         line_no = 0
         while line_no < len(self.netlist):
@@ -272,8 +279,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj
             cmd = get_line_command(line) # pyright: ignore[reportArgumentType]
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
-                for match in matches:
+                for match in _find_parameters(line):
                     if match.group("name").upper() == param_name_upped:
                         return line_no, match, self.netlist
             line_no += 1
@@ -282,7 +288,6 @@ class SpiceCircuit(BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for line in self.netlist:
             if isinstance(line, IncludeFile):  # same for include files
                 if line.editor and isinstance(line.editor, SpiceCircuit):
@@ -293,8 +298,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj # pyright: ignore[reportAssignmentType]
             cmd = get_line_command(line)
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
-                for match in matches:
+                for match in _find_parameters(line):
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
         return sorted(param_names)
@@ -624,10 +628,10 @@ class SpiceCircuit(BaseSubCircuit):
             if value is None:
                 # Remove the parameter from the netlist
                 if isinstance(netlist[param_line], Primitive):
-                    netlist[param_line]._obj = re.sub(PARAM_REGEX(param), '', netlist[param_line].obj, flags=re.IGNORECASE)
+                    line = netlist[param_line].obj
+                    netlist[param_line]._obj = line[:match.start()] + line[match.end():]
                     # if no other parameters are left, remove the line from the netlist
-                    all_params = re.findall(PARAM_REGEX(r"\w+"), netlist[param_line].obj, flags=re.IGNORECASE)
-                    if len(all_params) == 0:  # If the line is empty or only has .PARAM, remove it from the netlist
+                    if len(_find_parameters(netlist[param_line].obj)) == 0:  # If the line is empty or only has .PARAM, remove it from the netlist
                         netlist[param_line] = '* SpiceEditor removed empty .PARAM line' + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
                     self.end_update(param, None, UpdateType.DeleteParameter)
-- 
2.43.0


From 05519ce00ff233a519013016fa3e6b8b4e3d5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 056/133] fix: looking for a missing parameter in a netlist
 with sub-circuits raises ParameterNotFoundError

---
 spicelib/editor/spice_subcircuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 6f1db7f..84d817c 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -399,9 +399,11 @@ class SpiceCircuit(BaseSubCircuit):
         """
         if len(self.netlist):
             for line in self.netlist:
+                if isinstance(line, SpiceCircuit):
+                    continue  # the name of a circuit defined inside isn't the name of this one
                 if isinstance(line, Primitive):
                     line: str = line.obj # pyright: ignore[reportAssignmentType]
-                m = subckt_regex.search(line)
+                m = subckt_regex.search(line or '')
                 if m:
                     return m.group('name')
         if self.editor and self.editor.circuit_file:
-- 
2.43.0


From e15db07cb458772694ad9893452af548606acfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 057/133] fix: edits of netlists with comments after the .END,
 and of sub-circuits, aren't inserted outside of the circuit

---
 spicelib/editor/spice_file.py       | 12 ++----------
 spicelib/editor/spice_subcircuit.py | 28 ++++++++++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index ae56de0..8e0022f 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -68,17 +68,9 @@ class SpiceFile(BaseEditor, SpiceCircuit):
                 return
         # TODO: if adding a .MODEL or .SUBCKT it should verify if it already exists and update it.
 
-        # Insert at the end
-        line = len(self.netlist) - 1
-        # If there is .backanno, then it will be added just before that statement
-        for nr, linecontent in enumerate(self.netlist):
-            if isinstance(linecontent, Primitive): # only Primitive can have .backanno
-                if linecontent.obj.lower().startswith('.backanno'): # pyright: ignore[reportOptionalMemberAccess]
-                    line = nr
-                    break
-
+        # Insert at the end. If there is .backanno, then it will be added just before that statement
         primitive = self.class_for_instruction(instruction, cmd)
-        self.netlist.insert(line, primitive)
+        self.netlist.insert(self._insertion_line(), primitive)
 
         if permission == UpdatePermission.Inform:
             self.end_update("INSTRUCTION", instruction.strip(), UpdateType.AddInstruction)
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 84d817c..8b1b390 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -592,6 +592,21 @@ class SpiceCircuit(BaseSubCircuit):
         else:
             raise ParameterNotFoundError(param, f"circuit {self.name()}")
 
+    def _insertion_line(self) -> int:
+        """
+        Internal function. Do not use. Returns the position where new lines are inserted. That's before the .BACKANNO
+        or the .END or .ENDS clause. There can be comments after these.
+        """
+        line_no = len(self.netlist)
+        for nr, line in enumerate(self.netlist):
+            if isinstance(line, Primitive) and line.obj:
+                cmd = get_line_command(line)
+                if cmd == '.BACKANNO':
+                    return nr
+                elif cmd in ('.END', '.ENDS'):
+                    line_no = nr
+        return line_no
+
     def set_parameter(self, param: str, value: ValueType) -> None:
         """Sets the value of a parameter in the netlist. If the parameter is not found, it is added to the netlist.
 
@@ -646,8 +661,7 @@ class SpiceCircuit(BaseSubCircuit):
                     self.end_update(param, value_str, UpdateType.UpdateParameter)
         else:
             # Was not found
-            # the last two lines are typically (.backano and .end)
-            insert_line = len(self.netlist) - 2
+            insert_line = self._insertion_line()
             term = Primitive(netlist=self, obj=f'.PARAM {param}={value_str}  ; Batch instruction' + END_LINE_TERM)
             self.netlist.insert(insert_line, term)
             if permission == UpdatePermission.Inform:
@@ -791,12 +805,7 @@ class SpiceCircuit(BaseSubCircuit):
             comp = self.get_component(kwargs['insert_after'])
             line_no = self.netlist.index(comp) + 1
         else:
-            # Insert before backanno instruction
-            try:
-                line_no = self.netlist.index(
-                    '.backanno\n')  # TODO: Improve this. END of line termination could be differnt
-            except ValueError:
-                line_no = len(self.netlist) - 2
+            line_no = self._insertion_line()
 
         self.netlist.insert(line_no, component)
         if permission == UpdatePermission.Inform:
@@ -887,8 +896,7 @@ class SpiceCircuit(BaseSubCircuit):
 
         # Insert at the end
         primitive = self.class_for_instruction(instruction, cmd)
-        line = len(self.netlist) - 1  # Just before the ENDS
-        self.netlist.insert(line, primitive)
+        self.netlist.insert(self._insertion_line(), primitive)  # Just before the ENDS
 
     def remove_instruction(self, instruction) -> bool:
         # docstring is in the parent class
-- 
2.43.0


From 84bfcf4cc5147ac08cca16e6392072559838ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 058/133] fix: a .ENDMACHINE doesn't end the netlist

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 8b1b390..423d8bc 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -222,7 +222,7 @@ class SpiceCircuit(BaseSubCircuit):
             else:
                 primitive = Primitive(netlist=self, obj=line)
                 self.netlist.append(primitive)
-                if cmd.startswith('.END'):  # True for either .END, .ENDS and .ENDC primitives
+                if cmd in ('.END', '.ENDS'):  # .ENDMACHINE, for example, doesn't end the circuit
                     self.update_permission = UpdatePermission.Inform
                     return True  # If a sub-circuit is ended correctly, returns True
         return False  # If a sub-circuit ends abruptly, returns False
@@ -244,7 +244,7 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(primitive, Primitive):
                 line: str = primitive.obj # pyright: ignore[reportAssignmentType]
                 # Writes the modified sub-circuits at the end just before the .END clause
-                if line.upper().startswith(".END"):
+                if get_line_command(line) in ('.END', '.ENDS'):
                     # write here the modified sub-circuits
                     for sub in self.modified_subcircuits():
                         sub.write_lines(stream)
-- 
2.43.0


From 1ecacb670c51458f3ee4c1b083733b742290d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 059/133] fix: add_control_section() adds the text of the
 section

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 423d8bc..a64d745 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -858,7 +858,7 @@ class SpiceCircuit(BaseSubCircuit):
             cmd = get_line_command(instruction)
         if cmd == ".CONTROL":
             # If it is a control instruction, then it should be added as a ControlEditor
-            c = ControlEditor(self, instruction)
+            c = ControlEditor(netlist=self, obj=instruction)
             return c
         elif cmd.startswith(".INC"):
             # An include file
-- 
2.43.0


From 0c8a1f196fedf0189062d75dc8dd793daa88dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 060/133] fix: the title of a blank netlist is a line of its
 own

---
 spicelib/editor/spice_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index 8e0022f..e12fbad 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -167,7 +167,7 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         self.update_permission = UpdatePermission.Initializing
         finished = True
         if kwargs.get('create_blank', False):
-            self._add_lines(['* netlist generated from spicelib'])
+            self._add_lines(['* netlist generated from spicelib' + END_LINE_TERM])
         elif self.circuit_file.exists():
             with open(self.circuit_file, encoding=self.encoding, errors='replace') as f:
                 lines = separate_lines(f)  # pyright: ignore[reportArgumentType] # Creates an iterator object to consume the file
-- 
2.43.0


From 2730990927551638f2039f790e096ebbf51ad2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 061/133] fix: a sub-circuit instance added with
 add_instruction() is a sub-circuit instance

---
 spicelib/editor/spice_subcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index a64d745..76a45e7 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -863,6 +863,8 @@ class SpiceCircuit(BaseSubCircuit):
         elif cmd.startswith(".INC"):
             # An include file
             return IncludeFile(netlist=self, obj=instruction)
+        elif cmd == 'X':
+            return SpiceCircuitInstance(netlist=self, obj=instruction)
         elif cmd in VALID_PREFIXES:
             # If it is a component, then it should be added as a SpiceComponent
             return SpiceComponent(netlist=self, obj=instruction)
-- 
2.43.0


From 3fb4b6db9ed6fb7d4b63516107e487ebbdf96511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 062/133] fix: add_component() replaces the component that
 already exists, and adopts components of other netlists or without text

---
 spicelib/editor/spice_components.py |  2 +-
 spicelib/editor/spice_subcircuit.py | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 88de973..87eb00b 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -385,7 +385,7 @@ class SpiceComponent(Component):
         :return: number of characters written
         :rtype: int
         """
-        if self._obj != "":
+        if self._obj:
             # try to rewrite the line preserving formatting
             return self.rewrite_lines(stream)
 
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 76a45e7..85221ed 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -807,6 +807,20 @@ class SpiceCircuit(BaseSubCircuit):
         else:
             line_no = self._insertion_line()
 
+        for nr, line in enumerate(self.netlist):
+            if isinstance(line, SpiceComponent) and line.reference.upper() == component.reference.upper():
+                # It is replaced by the new one
+                del self.netlist[nr]
+                if 'insert_before' not in kwargs and 'insert_after' not in kwargs:
+                    line_no = nr
+                elif nr < line_no:
+                    line_no -= 1
+                break
+        component._netlist = self  # From here on its updates are updates of this netlist
+        if not component.obj:  # The component was created by the user, and not read from a line
+            line = io.StringIO()
+            component.write_lines(line)
+            component._obj = line.getvalue()
         self.netlist.insert(line_no, component)
         if permission == UpdatePermission.Inform:
             self.end_update(component.reference, component.value_str, UpdateType.AddComponent)
-- 
2.43.0


From f557671101735599cce290d0735d55651ddad6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 063/133] fix: assigning the value or model item of a component
 is recorded and checked as any other edit

---
 spicelib/editor/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index d37a4ea..53e7f59 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -211,7 +211,7 @@ class Component(Primitive):
         if key in VALUE_IDs:
             if isinstance(value, str):
                 value = to_float(value, accept_invalid=True)
-            self.attributes['value'] = value
+            self.set_value(value)
         else:
             self.set_parameter(key, value)
 
-- 
2.43.0


From 73e09d8d927053ee5d58418cdd26acefcb43c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 064/133] fix: the updates say what was done last to a
 parameter or instruction, and no longer what it replaced

---
 spicelib/editor/updates.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index 4e0688c..895ad5b 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -29,6 +29,14 @@ class UpdateType(enum.Enum):
     CloneSubcircuit = enum.auto()
 
 
+# Updates that replace the other ones of the same group done before to the same item
+UPDATE_GROUPS = (
+    (UpdateType.AddParameter, UpdateType.UpdateParameter, UpdateType.DeleteParameter),
+    (UpdateType.AddComponentParameter, UpdateType.UpdateComponentParameter, UpdateType.DeleteComponentParameter),
+    (UpdateType.AddInstruction, UpdateType.UpdateInstruction, UpdateType.DeleteInstruction),
+)
+
+
 @dataclasses.dataclass
 class Update:
     """An object containing an update element."""
@@ -105,6 +113,14 @@ class Updates:
                     (update.updates == updates or updates == UpdateType.InvalidUpdate)):
                 break
         else:
+            # What was recorded before about the same item no longer holds
+            superseded = [types for types in UPDATE_GROUPS if updates in types]
+            self.netlist_updates[:] = [
+                update for update in self.netlist_updates
+                if not (update.name == name and
+                        (name != "INSTRUCTION" or value == update.value) and
+                        any(update.updates in types for types in superseded))
+            ]
             update = Update(name, value, updates)
             self.netlist_updates.append(update)
         if updates != UpdateType.InvalidUpdate:
-- 
2.43.0


From 0d45ce294a2088f3be3a741ff132eec63c1b5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 065/133] fix: the formula of a resistor, capacitor or inductor
 ends before the formulas of its parameters

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 9701f5e..fb3a94c 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -151,7 +151,7 @@ def VALUE_RGX(prefix: str, number_regex_suffix: str) -> str:
         my_prefix = "(" + prefix + "\\s?=\\s?)?"
     return "\\s+" + my_prefix + "(?P<value>(?P<number>[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?" + \
         number_regex_suffix + ")?(?P<formula1>\")?(?P<formula2>')?(?P<formula3>{)?" + \
-        "(?(number)|(?(formula1).*\"|(?(formula2).*'|(?(formula3).*}|\\S*)))))"
+        "(?(number)|(?(formula1).*?\"|(?(formula2).*?'|(?(formula3).*?}|\\S*)))))"
 
 
 REPLACE_REGEXS : Dict[str, str] = {
-- 
2.43.0


From c309d666e9d3d917a04a700b0a9455a5133b62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 066/133] fix: refused edits of sub-circuits aren't recorded,
 and edits are recorded once, under the reference of the component

---
 spicelib/editor/spice_subcircuit.py          |  8 +++-----
 spicelib/editor/spice_subcircuit_instance.py | 12 +++++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 85221ed..09391c1 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -725,8 +725,6 @@ class SpiceCircuit(BaseSubCircuit):
         component = self.get_component(reference)
         assert isinstance(component, SpiceComponent), f"Component '{reference}' is not a SpiceComponent. Use set_element_model() instead."
         component.set_value(model)
-        if permission == UpdatePermission.Inform:
-            self.end_update(reference, model, UpdateType.UpdateComponentValue)
 
     def get_component_value(self, reference: str) -> str:
         # docstring inherited from BaseSubcircuit
@@ -839,10 +837,10 @@ class SpiceCircuit(BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
-        line = self.netlist.index(self.get_component(designator))
-        del self.netlist[line]
+        component = self.get_component(designator)
+        del self.netlist[self.netlist.index(component)]
         if permission == UpdatePermission.Inform:
-            self.end_update(designator, "delete", UpdateType.DeleteComponent)
+            self.end_update(component.reference, "delete", UpdateType.DeleteComponent)
 
     def get_all_nodes(self) -> list[str]:
         """
diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index bc79aaa..c1741ce 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -192,9 +192,9 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
 
             If this is the case, use GitHub to start a ticket.  https://github.com/nunobrum/spicelib
         """
-        self.begin_update()
         logger.debug(f'Setting element "{element}" to model "{model}"')
         component = self.get_component(element)
+        self.begin_update()
         component.set_value(model)
 
     def set_component_parameters(self, element: str, **kwargs) -> None:
@@ -221,9 +221,10 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - In case one of the component is not found.
         """
-        self.begin_update()
         logger.debug(f'Setting parameters for component "{element}": {kwargs}')
-        self.get_component(element).set_parameters(**kwargs)
+        component = self.get_component(element)
+        self.begin_update()
+        component.set_parameters(**kwargs)
 
     def set_component_attribute(self, reference: str, attribute: str, value: str) -> None:
         """Sets the value of the attribute of the component. Attributes are the values that are not related with
@@ -239,9 +240,9 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - In case the component is not found
         """
-        self.begin_update()
         logger.debug(f'Setting attribute "{attribute}" of component "{reference}" to value "{value}"')
-        component  = self.get_component(reference)
+        component = self.get_component(reference)
+        self.begin_update()
         setattr(component, attribute, value)
         # self.end_update(reference, value, UpdateType.UpdateComponentParameter)
 
@@ -300,6 +301,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - When the component doesn't exist on the netlist.
         """
+        self.subcircuit.get_component(designator)  # Nothing is changed when there isn't such component
         self.begin_update()
         self.subcircuit.remove_component(designator)
 
-- 
2.43.0


From ef29a1d12c5994ea904f86e04f99e15054e45991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 067/133] fix: instructions added to a sub-circuit are saved,
 and what isn't found in it isn't recorded as an edit

---
 spicelib/editor/spice_subcircuit.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 09391c1..a65b575 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -719,11 +719,11 @@ class SpiceCircuit(BaseSubCircuit):
 
             If this is the case, use GitHub to start a ticket.  https://github.com/nunobrum/spicelib
         """
+        component = self.get_component(reference)
+        assert isinstance(component, SpiceComponent), f"Component '{reference}' is not a SpiceComponent. Use set_element_model() instead."
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
-        component = self.get_component(reference)
-        assert isinstance(component, SpiceComponent), f"Component '{reference}' is not a SpiceComponent. Use set_element_model() instead."
         component.set_value(model)
 
     def get_component_value(self, reference: str) -> str:
@@ -834,10 +834,10 @@ class SpiceCircuit(BaseSubCircuit):
         :return: Nothing
         :raises: ComponentNotFoundError - When the component doesn't exist on the netlist.
         """
+        component = self.get_component(designator)
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
-        component = self.get_component(designator)
         del self.netlist[self.netlist.index(component)]
         if permission == UpdatePermission.Inform:
             self.end_update(component.reference, "delete", UpdateType.DeleteComponent)
@@ -909,14 +909,19 @@ class SpiceCircuit(BaseSubCircuit):
             instruction += END_LINE_TERM
 
         # Insert at the end
+        permission = self.begin_update()
+        if permission == UpdatePermission.Deny:
+            raise ValueError("Editor is read-only")
         primitive = self.class_for_instruction(instruction, cmd)
         self.netlist.insert(self._insertion_line(), primitive)  # Just before the ENDS
+        if permission == UpdatePermission.Inform:
+            self.end_update('INSTRUCTION', instruction.strip(), UpdateType.AddInstruction)
 
     def remove_instruction(self, instruction) -> bool:
         # docstring is in the parent class
 
         # TODO: Make it more intelligent so it recognizes .models, .param and .subckt
-        if self.begin_update() == UpdatePermission.Deny:
+        if self.is_read_only():
             _logger.warning("Permission denied")
             return False
         i = 0
@@ -924,6 +929,7 @@ class SpiceCircuit(BaseSubCircuit):
             if isinstance(line, Primitive):
                 line_obj: str = line.obj # pyright: ignore[reportAssignmentType]
                 if line_obj.strip() == instruction.strip():
+                    self.begin_update()
                     del self.netlist[i]
                     logtxt = instruction.strip().replace("\r", "\\r").replace("\n", "\\n")
                     _logger.info(f'Instruction "{logtxt}" removed')
@@ -937,7 +943,7 @@ class SpiceCircuit(BaseSubCircuit):
 
     def remove_Xinstruction(self, search_pattern: str) -> bool:
         # docstring is in the parent class
-        if self.begin_update() == UpdatePermission.Deny:
+        if self.is_read_only():
             _logger.warning("Permission denied")
             return False
         regex = re.compile(search_pattern, re.IGNORECASE)
@@ -948,6 +954,7 @@ class SpiceCircuit(BaseSubCircuit):
             if isinstance(line, Primitive):
                 line = line.obj
             if isinstance(line, str) and (match := regex.match(line)):
+                self.begin_update()
                 del self.netlist[i]
                 instr_removed = True
                 self.end_update('INSTRUCTION', match.string.strip(), UpdateType.DeleteInstruction)
-- 
2.43.0


From 3248635f20fa14c4dfb3de7a01494ebda2481a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 068/133] fix: sub-circuits are found whatever the case of
 their name, with names having signs or being numbers, and not by the start of
 their name

---
 spicelib/editor/spice_subcircuit.py          | 6 ++++--
 spicelib/editor/spice_subcircuit_instance.py | 4 ++--
 spicelib/editor/spice_utils.py               | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index a65b575..24ce00a 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -62,6 +62,8 @@ def get_line_command(line: str | Primitive) -> str:
                     return line[i:j].upper()
                 else:
                     raise SyntaxError(f"Unrecognized command in line: \"{line}\"")
+        if not line.strip():  # A blank line without an end of line
+            return "*"
         raise SyntaxError(f"Unrecognized command in line: \"{line}\"")
     elif isinstance(line, SpiceCircuit):
         return ".SUBCKT"
@@ -328,7 +330,7 @@ class SpiceCircuit(BaseSubCircuit):
         """
         for line in self.netlist:
             if isinstance(line, SpiceCircuit):
-                if line.name() == name:
+                if line.name().upper() == name.upper():  # Names aren't case-sensitive
                     return line
             elif isinstance(line, IncludeFile):
                 # Searches inside the Include File
@@ -990,7 +992,7 @@ class SpiceCircuit(BaseSubCircuit):
         :meta private:
         """
         # 0. Setup things
-        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + subckt_name, re.IGNORECASE)
+        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + re.escape(subckt_name) + r"(?![^\s;])", re.IGNORECASE)
         # 1. Find Encoding
         try:
             encoding = detect_encoding(library, r"[\* a-zA-Z]")
diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index c1741ce..13faba6 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -44,7 +44,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """Resets the sub-circuit instance to its original state."""
         super().reset_attributes()
         # The instruction below might fail if the sub-circuit was not parsed in the parent netlist.
-        self._subcircuit = self._netlist.get_subcircuit_named(self.value)  # In case it isn't given, get it from the parent
+        self._subcircuit = self._netlist.get_subcircuit_named(self.value_str)  # In case it isn't given, get it from the parent
 
     @property
     def subcircuit(self):
@@ -52,7 +52,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         saved if there is an update made to it."""
         if self._subcircuit is None:
             # Try to get it from the parent netlist
-            self._subcircuit = self._netlist.get_subcircuit_named(self.value) # pyright: ignore[reportOptionalMemberAccess]
+            self._subcircuit = self._netlist.get_subcircuit_named(self.value_str) # pyright: ignore[reportOptionalMemberAccess]
             if self._subcircuit is None:
                 raise AssertionError(f"Couldn't find the subcircuit named \"{self.value}\"")
             self.shadow_subcircuit = None
diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index fb3a94c..13cf937 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -54,7 +54,7 @@ SPICE_DOT_INSTRUCTIONS = (
 
 )
 SUBCKT_CLAUSE_FIND = r"^.SUBCKT\s+"
-subckt_regex = re.compile(r"^.SUBCKT\s+(?P<name>[\w\.]+)", re.IGNORECASE)
+subckt_regex = re.compile(r"^\s*\.SUBCKT\s+(?P<name>[^\s;]+)", re.IGNORECASE)
 lib_inc_regex = re.compile(
     r"^\.(LIB|INC(LUDE)?)\s+(?P<filename>.+?)\s*(?:[;*].*)?$",
     re.IGNORECASE
-- 
2.43.0


From 4c7ae44372a162377e0e98f314ae19ef62ed311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 069/133] fix: values of components given as integers of numpy
 can be read and saved

---
 spicelib/editor/primitives.py       | 3 ++-
 spicelib/editor/spice_components.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 53e7f59..083c176 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -1,5 +1,6 @@
 from collections import OrderedDict
 import copy
+from numbers import Real
 from typing import TypeAlias
 from .editor_errors import ParameterNotFoundError
 from ..utils.float_unit import format_eng, scan_eng, to_float, float_unit
@@ -226,7 +227,7 @@ class Component(Primitive):
         :return: Component value in string format
         """
         value = self.attributes.get('value')
-        if isinstance(value, (int, float)):
+        if isinstance(value, Real):  # This includes the numbers of numpy
             return format_eng(value)
         return value
 
diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 87eb00b..27eb264 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -17,6 +17,7 @@
 # License:     refer to the LICENSE file
 # -------------------------------------------------------------------------------
 from collections import OrderedDict
+from numbers import Real
 from typing import Dict
 import re
 import io
@@ -357,7 +358,7 @@ class SpiceComponent(Component):
                 if hasattr(self, attr):
                     old_attr_value = info[attr]
                     new_attr_value = self._attributes[attr]
-                    if isinstance(new_attr_value, (float, int)):
+                    if isinstance(new_attr_value, Real):
                         new_attr_value = format_eng(new_attr_value)
                     if old_attr_value is None or old_attr_value.strip() != new_attr_value:
                         if start == -1:  # there was none in the original line, it comes after the nodes
-- 
2.43.0


From 3f5b08c054e95c81dff8a6dc9520daef54de0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 070/133] fix: model names such as 2N2222 assigned to
 components aren't converted to numbers

---
 spicelib/editor/primitives.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 083c176..6bcf9b6 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -109,7 +109,7 @@ class Component(Primitive):
             elif key in PARAMS_IDs:
                 self._attributes['params'] = value
             elif key in VALUE_IDs:
-                self._attributes['value'] = to_float(value, accept_invalid=True)
+                self._attributes['value'] = value  # A string isn't converted, because it can be a model such as 2N2222
             elif key in REF_IDs:
                 self._reference = value
 
@@ -210,8 +210,6 @@ class Component(Primitive):
 
     def __setitem__(self, key, value):
         if key in VALUE_IDs:
-            if isinstance(value, str):
-                value = to_float(value, accept_invalid=True)
             self.set_value(value)
         else:
             self.set_parameter(key, value)
-- 
2.43.0


From 399da033f3000de9753958bcb39426030ffb9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 071/133] fix: components and parameters of a sub-circuit
 instance are found by item whatever the case

---
 spicelib/editor/spice_subcircuit_instance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 13faba6..6ac2a3b 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -121,9 +121,9 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """
         if item in VALUE_IDs or item in PARAMS_IDs:
             return getattr(self, item)
-        elif item in self.get_components():
+        elif item.upper() in self.get_components():  # The names aren't case-sensitive
             return self.get_component(item) # pyright: ignore[reportReturnType]
-        elif item in self.get_all_parameter_names():
+        elif item.upper() in self.get_all_parameter_names():
             return self.get_parameter(item)
         else:
             raise KeyError(f'Key "{item}" not found as component or parameter in subcircuit "{self.value}".')
@@ -135,9 +135,9 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         circuit['R1'] = '3.3k'
         If the key is not found, and if there is a parameter with the same name, it will set the parameter value instead.
         """
-        if key in self.subcircuit.get_components():
+        if key.upper() in self.subcircuit.get_components():  # The names aren't case-sensitive
             self.set_component_value(key, value)
-        elif key in self.subcircuit.get_all_parameter_names():
+        elif key.upper() in self.subcircuit.get_all_parameter_names():
             self.set_parameter(key, value)
         else:
             raise KeyError(f'Key "{key}" not found as component or parameter in subcircuit "{self.reference}".')
-- 
2.43.0


From 8682d0ad5323ac53a9938b555269789e9c298ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 072/133] fix: an edited sub-circuit instance doesn't take the
 name of a definition that exists

---
 spicelib/editor/spice_subcircuit_instance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 6ac2a3b..61b58dc 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -58,7 +58,11 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
             self.shadow_subcircuit = None
         if self.shadow_subcircuit is None:
             # In all cases it creates a new copy of the subcircuit, it is only writen to the netlist if it was modified.
-            new_name = self.value_str + '_' + self.reference
+            new_name = base_name = self.value_str + '_' + self.reference
+            number = 1
+            while self._netlist.get_subcircuit_named(new_name) is not None:  # Left by a previous edition of the netlist
+                number += 1
+                new_name = f"{base_name}_{number}"
             self.shadow_subcircuit = self._subcircuit.clone(self, new_name=new_name)
         return self.shadow_subcircuit
 
-- 
2.43.0


From cfe5abf0d3c54d3d4083041a319be078a2af8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 073/133] fix: cloning a component doesn't copy the whole
 circuit its nets refer to

---
 spicelib/editor/primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 6bcf9b6..2e2615d 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -309,7 +309,10 @@ class Component(Primitive):
         newone = type(self)()
         newone._netlist = new_parent or self._netlist
         newone._obj = copy.deepcopy(self._obj)
-        newone._attributes = copy.deepcopy(self._attributes)
+        # The nets aren't copied, as they refer to the circuit and to all its components
+        newone._attributes = copy.deepcopy({k: v for k, v in self._attributes.items() if k != 'ports'})
+        if 'ports' in self._attributes:
+            newone._set_ports(self.port_list())
         newone._reference = self._reference
         return newone
 
-- 
2.43.0


From ffbbc9a5a52c7c1bd622c2fbfa18deef47f47004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 074/133] fix: the ports of a schematic are saved to the .asc
 file, and forgotten on a reset

---
 spicelib/editor/asc_editor.py     | 3 +++
 spicelib/editor/base_schematic.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 8514f08..e05cffe 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -264,6 +264,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.X} {wire.V2.Y}" + END_LINE_TERM)
             for flag in self.labels:
                 asc.write(f"FLAG {flag.coord.X} {flag.coord.Y} {flag.text}" + END_LINE_TERM)
+                for port in self.ports:
+                    if port.text is flag:
+                        asc.write(f"IOPIN {flag.coord.X} {flag.coord.Y} {port.direction}" + END_LINE_TERM)
             for component in self.components.values():
                 symbol = component.symbol
                 posX = component.position.X
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index d856984..1123222 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -299,6 +299,7 @@ class BaseSchematic(BaseEditor):
         self.wires.clear()
         self.labels.clear()
         self.directives.clear()
+        self.ports.clear()
         self.lines.clear()
         self.shapes.clear()
         self.canvas_updated = False
-- 
2.43.0


From e52135294bf63e5d1011ec65e1aa390038007cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 075/133] fix: texts of a .asc file that are written vertically
 stay so when saved

---
 spicelib/editor/ltspice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/ltspice_utils.py b/spicelib/editor/ltspice_utils.py
index 1bbf178..a1f67b7 100644
--- a/spicelib/editor/ltspice_utils.py
+++ b/spicelib/editor/ltspice_utils.py
@@ -27,7 +27,7 @@ __copyright__ = "Copyright 2024, Fribourg Switzerland"
 
 # Regular expressions
 TEXT_REGEX = re.compile(
-    r"TEXT (-?\d+)\s+(-?\d+)\s+V?(Left|Right|Top|Bottom|Center|Invisible)\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
+    r"TEXT (-?\d+)\s+(-?\d+)\s+(V?(?:Left|Right|Top|Bottom|Center|Invisible))\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
     re.IGNORECASE
 )
 
-- 
2.43.0


From 87fd96afd94a5803dd21c8f0625b6a253e6afcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 076/133] fix: AscEditor.remove_component() of a missing or
 nested component

---
 spicelib/editor/asc_editor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index e05cffe..35db6e8 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -671,10 +671,14 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return [k for k in self.components.keys() if k[0] in prefixes]
 
     def remove_component(self, designator: str):
-        self.begin_update()
         sub_circuit, ref = self._get_parent(designator)
-        del sub_circuit.components[ref]
-        sub_circuit.end_update(designator, "", UpdateType.DeleteComponent)
+        if sub_circuit is not self:  # The component is in a sub-circuit, which will check if it exists
+            sub_circuit.remove_component(ref)
+            return
+        self.get_component(ref)  # Raises ComponentNotFoundError if it doesn't exist
+        self.begin_update()
+        del self.components[ref]
+        self.end_update(ref, "", UpdateType.DeleteComponent)
 
     def _get_text_space(self):
         """
-- 
2.43.0


From ba6b63200959db1964dddfdcda82fae4303c43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 077/133] fix: AscEditor doesn't take the symbols of a
 schematic from the directory of another one

---
 spicelib/editor/asc_editor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 35db6e8..22bb2b0 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -735,8 +735,10 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return file_found
 
     def _asy_file_find(self, filename) -> str | None:
-        if filename in self.symbol_cache:
-            return self.symbol_cache[filename]
+        # The directory of the circuit is the first one being searched, so, the symbol found depends on it
+        cache_key = (os.path.split(os.path.abspath(self.circuit_file))[0], filename)
+        if cache_key in self.symbol_cache:
+            return self.symbol_cache[cache_key]
         _logger.info(f"Searching for symbol {filename}...")
         # create list of directories to search, based on the simulator_lib_paths. Just add "/sym" to the path
         my_lib_paths = [os.path.join(x, "sym") for x in self.simulator_lib_paths]
@@ -748,7 +750,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                                                *self.custom_lib_paths
                                                )
         if file_found is not None:
-            self.symbol_cache[filename] = file_found
+            self.symbol_cache[cache_key] = file_found
         return file_found
 
     def add_instruction(self, instruction: str) -> None:
-- 
2.43.0


From cfc3ff76ae9ecb7fcc9bfa625697724be7dbfd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 078/133] fix: AscEditor saves the updates of all sub-circuits,
 at any depth and with any reference

---
 spicelib/editor/asc_editor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 22bb2b0..2855e00 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -282,11 +282,10 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                         size = value.size
                         asc.write(f"WINDOW {num_ref} {posX} {posY} {alignment} {size}" + END_LINE_TERM)
                 asc.write(f"SYMATTR InstName {component.reference}" + END_LINE_TERM)
-                if component.reference.startswith('X') and "_SUBCKT" in component.attributes:
+                sub_circuit = component.attributes.get('_SUBCKT')
+                if isinstance(sub_circuit, AscEditor) and sub_circuit.updated():
                     # writing the sub-circuit if it was updated
-                    sub_circuit: AscEditor = component.attributes['_SUBCKT']
-                    if sub_circuit is not None and sub_circuit.updated():
-                        sub_circuit.save_as(sub_circuit.circuit_file)
+                    sub_circuit.save_as(sub_circuit.circuit_file)
                 for attr, value in component.attributes.items():
                     if not attr.startswith('_'):  # All these are not exported since they are only used internally
                         asc.write(f"SYMATTR {attr} {value}" + END_LINE_TERM)
@@ -514,6 +513,13 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             answer = SpiceEditor.find_subckt_in_lib(lib_path, model)
         return answer
 
+    def updated(self):
+        # A sub-circuit that was updated is written when this schematic is written
+        return super().updated() or any(
+            isinstance(sub_circuit, AscEditor) and sub_circuit.updated()
+            for sub_circuit in (component.attributes.get('_SUBCKT') for component in self.components.values())
+        )
+
     def get_subcircuit(self, reference: str) -> 'AscEditor':
         """Returns an AscEditor file corresponding to the symbol"""
         sub = self.get_component(reference)
-- 
2.43.0


From 08164620d12bb2e285fad882568025af8d14b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 079/133] fix: set_component_attribute() sets what
 get_component_attribute() returns and what is saved

---
 spicelib/editor/base_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/base_subcircuit.py b/spicelib/editor/base_subcircuit.py
index f373488..b86b53d 100644
--- a/spicelib/editor/base_subcircuit.py
+++ b/spicelib/editor/base_subcircuit.py
@@ -279,7 +279,7 @@ class BaseSubCircuit(ABC):
         :raises: ComponentNotFoundError - In case the component is not found
         """
         component = self.get_component(reference)
-        setattr(component, attribute, value)
+        component.attributes[attribute] = value
 
     @abstractmethod
     def get_component_value(self, element: str) -> str:
-- 
2.43.0


From 65df90e7e415b067b034747aa070d7c22980dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 080/133] fix: moving a component or changing its symbol in a
 sub-circuit is saved by AscEditor

---
 spicelib/editor/asc_editor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 2855e00..b575886 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -537,9 +537,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return component.position, component.rotation
 
     def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
-        component = self.get_component(reference)
-        component.position = position
-        component.rotation = rotation
+        sub_circuit, ref = self._get_parent(reference)
+        if sub_circuit is not self:
+            sub_circuit.set_component_position(ref, position, rotation)
+        else:
+            super().set_component_position(ref, position, rotation)
 
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
@@ -626,8 +628,13 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             return component.set_value(value)
 
     def set_element_model(self, element: str, model: str) -> None:
+        sub_circuit, ref = self._get_parent(element)
+        if sub_circuit is not self:
+            sub_circuit.set_element_model(ref, model)
+            return
         component = self.get_component(element)
         component.symbol = model
+        self.canvas_updated = True
         _logger.info(f"Component {element} updated to {model}")
 
     def get_component_value(self, element: str) -> str:
-- 
2.43.0


From 78f67d591cf0e01da4a5630d5629132cc9e7d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 081/133] fix: AscEditor.save_as() that fails doesn't point the
 editor to the new file

---
 spicelib/editor/asc_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index b575886..283499e 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -323,8 +323,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             new_circuit_filepath = Path(new_circuit_filepath)
         if new_circuit_filepath.suffix != '.asc':
             new_circuit_filepath = new_circuit_filepath.with_suffix(".asc")
-        self._circuit_filepath = new_circuit_filepath
         self.save_netlist(new_circuit_filepath)
+        self._circuit_filepath = new_circuit_filepath  # Only after saving, as this may fail
 
     def reset_netlist(self, **kwargs) -> bool:
         super().reset_netlist()
-- 
2.43.0


From d513f8d91b7b79cb6291017817a8ca00d4acd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 082/133] fix: an attribute set on a component of a schematic
 counts as an update that has to be saved

---
 spicelib/editor/base_schematic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 1123222..c91e94b 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -362,6 +362,15 @@ class BaseSchematic(BaseEditor):
         comp.rotation = rotation
         self.canvas_updated = True
 
+    def set_component_attribute(self, reference: str, attribute: str, value: str) -> None:
+        # docstring inherited from BaseSubCircuit
+        sub_circuit, ref = self._get_parent(reference)
+        if sub_circuit is not self:
+            sub_circuit.set_component_attribute(ref, attribute, value)
+        else:
+            self.get_component(ref).attributes[attribute] = value
+            self.canvas_updated = True
+
     def add_component(self, component: SchematicComponent, **kwargs) -> None:
         reference = component.reference
         if reference in self.components:
-- 
2.43.0


From abef30d05c02b03c2a12dcf79c27ebb21e5c0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 083/133] fix: AscEditor finds the parameters in all .PARAM
 lines of a directive, and in no other line

---
 spicelib/editor/asc_editor.py     | 22 ++++++++--------------
 spicelib/editor/base_schematic.py | 30 ++++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 283499e..53c525d 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -36,7 +36,8 @@ from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
 from .base_editor import PARAM_REGEX, ValueType
-from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
+from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port,
+                             find_parameters)
 from .asy_reader import AsyReader
 
 from ..log.logfile_data import try_convert_value
@@ -545,29 +546,22 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
-                continue  # this is a comment, skip it            
-            if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
-                for match in matches:
-                    if match.group("name").upper() == param_name_uppercase:
-                        return match, directive
+                continue  # this is a comment, skip it
+            for match in find_parameters(directive.text):
+                if match.group("name").upper() == param_name_uppercase:
+                    return match, directive
         return None, None
     
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it
-            if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
-                for match in matches:            
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
+            for match in find_parameters(directive.text):
+                param_names.append(match.group('name').upper())
         return sorted(param_names)
     
     def get_parameter(self, param: str) -> str:
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index c91e94b..c93aea8 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -18,10 +18,11 @@
 
 import dataclasses
 import enum
-from typing import Callable
+import re
+from typing import Callable, Iterator
 from collections import OrderedDict
 import logging
-from .base_editor import BaseEditor, SUBCKT_DIVIDER
+from .base_editor import BaseEditor, SUBCKT_DIVIDER, PARAM_REGEX
 from .primitives import Component
 from .editor_errors import ComponentNotFoundError
 
@@ -33,6 +34,31 @@ from .updates import UpdateType, UpdatePermission
 
 _logger = logging.getLogger("spicelib.BaseSchematic")
 
+LINE_BREAK = "\\n"  # A line break in a text is written in the schematic files as a backslash followed by an 'n'
+
+
+def directive_lines(text: str) -> Iterator[tuple[int, int]]:
+    """Gives the start and the stop position of each line of the text of a directive"""
+    start = 0
+    while start <= len(text):
+        stop = text.find(LINE_BREAK, start)
+        if stop < 0:
+            stop = len(text)
+        yield start, stop
+        start = stop + len(LINE_BREAK)
+
+
+def find_parameters(text: str) -> Iterator[re.Match]:
+    """Gives the matches of the parameters that are defined in the .PARAM lines of the text of a directive"""
+    search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
+    is_param = False
+    for start, stop in directive_lines(text):
+        line = text[start:stop].lstrip()
+        if not line.startswith('+'):  # Otherwise, it continues the previous line
+            is_param = line.upper().startswith(".PARAM")
+        if is_param:
+            yield from search_expression.finditer(text, start, stop)
+
 
 class ERotation(enum.IntEnum):
     """Component Rotation Enum"""
-- 
2.43.0


From 8cd2d908754ffd28bd8df35e0db2af69939da36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 084/133] fix: AscEditor replaces or removes the instruction
 itself, not all the lines of the text it is in

---
 spicelib/editor/asc_editor.py     | 60 +++++++++++++++++--------------
 spicelib/editor/base_schematic.py |  7 ++++
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 53c525d..613329d 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -37,7 +37,7 @@ from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
 from .base_editor import PARAM_REGEX, ValueType
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port,
-                             find_parameters)
+                             find_parameters, directive_lines, remove_line)
 from .asy_reader import AsyReader
 
 from ..log.logfile_data import try_convert_value
@@ -772,15 +772,15 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 if directive.type == TextTypeEnum.COMMENT:
                     i += 1
                     continue  # this is a comment
-                directive_text = directive.text.strip()
-                directive_command = directive_text.split()[0].upper()
-                if directive_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    self.begin_update()
-                    self.directives[i].text = instruction
-                    _logger.info(f"Instruction {directive_text} updated to {instruction}")
-                    self.end_update("INSTRUCTION", directive_text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
+                for start, stop in directive_lines(directive.text):
+                    old_instruction = directive.text[start:stop].strip()
+                    if old_instruction and old_instruction.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                        self.begin_update()
+                        directive.text = directive.text[:start] + instruction + directive.text[stop:]
+                        _logger.info(f"Instruction {old_instruction} updated to {instruction}")
+                        self.end_update("INSTRUCTION", old_instruction, UpdateType.DeleteInstruction)
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        return  # Job done, can exit this method
                 i += 1
         elif set_command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
@@ -799,13 +799,17 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             if self.directives[i].type == TextTypeEnum.COMMENT:
                 i += 1
                 continue  # this is a comment   
-            if instruction in self.directives[i].text:
-                self.begin_update()
-                text = self.directives[i].text
-                del self.directives[i]
-                _logger.info(f"Instruction {text} removed")
-                self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
-                return True  # Job done, can exit this method
+            directive = self.directives[i]
+            for start, stop in directive_lines(directive.text):
+                text = directive.text[start:stop]
+                if instruction in text:
+                    self.begin_update()
+                    directive.text = remove_line(directive.text, start, stop)
+                    if not directive.text:
+                        del self.directives[i]
+                    _logger.info(f"Instruction {text} removed")
+                    self.end_update("INSTRUCTION", text.strip(), UpdateType.DeleteInstruction)
+                    return True  # Job done, can exit this method
             i += 1
 
         msg = f'Instruction "{instruction}" not found'
@@ -820,15 +824,19 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             if self.directives[i].type == TextTypeEnum.COMMENT:
                 i += 1
                 continue  # this is a comment            
-            instruction = self.directives[i].text
-            if regex.match(instruction) is not None:
-                self.begin_update()
-                instr_removed = True
-                del self.directives[i]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f"Instruction {instruction} removed")
-            else:
-                i += 1
+            directive = self.directives[i]
+            for start, stop in reversed(list(directive_lines(directive.text))):
+                instruction = directive.text[start:stop].strip()
+                if regex.match(instruction) is not None:
+                    self.begin_update()
+                    instr_removed = True
+                    directive.text = remove_line(directive.text, start, stop)
+                    if not directive.text:
+                        del self.directives[i]
+                        i -= 1
+                    self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
+                    _logger.info(f"Instruction {instruction} removed")
+            i += 1
         if instr_removed:
             self.canvas_updated = True
             return True
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index c93aea8..aee3e0a 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -48,6 +48,13 @@ def directive_lines(text: str) -> Iterator[tuple[int, int]]:
         start = stop + len(LINE_BREAK)
 
 
+def remove_line(text: str, start: int, stop: int) -> str:
+    """Returns the text of a directive without the line that is between the given positions"""
+    if start > 0:
+        return text[:start - len(LINE_BREAK)] + text[stop:]
+    return text[stop + len(LINE_BREAK):]
+
+
 def find_parameters(text: str) -> Iterator[re.Match]:
     """Gives the matches of the parameters that are defined in the .PARAM lines of the text of a directive"""
     search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
-- 
2.43.0


From e469a9d8d6a36e24f2306c504c0d2f5d1d97598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 085/133] fix: setting or removing a parameter of a component
 of a .asc file keeps the rest of its line

---
 spicelib/editor/asc_editor.py | 86 ++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 613329d..d759974 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -156,55 +156,49 @@ class AscComponent(SchematicComponent):
                 value_str = value.strip()
             else:
                 value_str = format_eng(value)
-            params = self.get_parameters(as_dicts=True)
-            if key in params:
-                # I only have the LTSPICE_PARAMETERS as keys here, so when I match, I can overwrite
-                # I do not support delete here, as some of the keys are mandatory
-                self.attributes[key] = value_str
-                _logger.info(f"Component {self.reference} updated with parameter {key}:{value}")
-                update_type = UpdateType.UpdateComponentParameter
+            # The lines are edited in place, they can have contents that don't have the format name=value
+            param_key, match = self._find_in_lines(key)
+            if key in LTSPICE_PARAMETERS:
+                if value_str is None:
+                    if key == "Value" or key not in self.attributes:
+                        continue  # The value is mandatory. Otherwise, there's nothing to remove
+                    del self.attributes[key]
+                    update_type = UpdateType.DeleteComponentParameter
+                else:
+                    self.attributes[key] = value_str
+                    update_type = UpdateType.UpdateComponentParameter
+            elif match is not None:
+                line = self.attributes[param_key]
+                if value_str is None:
+                    line = (line[:match.start()].rstrip() + ' ' + line[match.end():].lstrip()).strip()
+                    update_type = UpdateType.DeleteComponentParameter
+                else:
+                    line = line[:match.start('value')] + value_str + line[match.end('value'):]
+                    update_type = UpdateType.UpdateComponentParameter
+                if line:
+                    self.attributes[param_key] = line
+                else:
+                    del self.attributes[param_key]
+            elif value_str is None:
+                continue  # Nothing to remove
             else:
-                foundme = False
-                # not found: look in the second level dicts
-                for param_key in LTSPICE_PARAMETERS_REDUCED:
-                    if param_key in params:
-                        if key in params[param_key]:
-                            # found in the dict
-                            # update the dict
-                            if value_str is None:
-                                # remove if empty
-                                params[param_key].pop(key)
-                                update_type = UpdateType.DeleteComponentParameter
-                            else:
-                                params[param_key][key] = value_str
-                                update_type = UpdateType.UpdateComponentParameter
-                            # and make the line out of the dict
-                            self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            foundme = True
-                if not foundme:
-                    if value_str is not None:
-                        # don't add if there's nothing to add
-                        if key in LTSPICE_PARAMETERS:
-                            # known parameter, set the value
-                            self.attributes[key] = value_str
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            update_type = UpdateType.UpdateComponentParameter
-                        else:
-                            # nothing found, and not a known parameter, put it in SpiceLine
-                            param_key = LTSPICE_PARAMETERS_REDUCED[0]
-                            if param_key in params:
-                                # if SpiceLine exists: add to the dict
-                                params[param_key][key] = value_str
-                                # and make the line out of the dict
-                                self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            else:
-                                # if SpiceLine does not exist: create the line
-                                self.attributes[param_key] = f'{key}={value_str}'
-                            update_type = UpdateType.AddComponentParameter
-                            _logger.info(f"Component {self.reference} added parameter {key}:{value_str}")
+                # nothing found, and not a known parameter, put it in SpiceLine
+                param_key = LTSPICE_PARAMETERS_REDUCED[0]
+                self.attributes[param_key] = f"{self.attributes.get(param_key, '')} {key}={value_str}".lstrip()
+                update_type = UpdateType.AddComponentParameter
+            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
             parent.end_update(f"{self.reference}:{key}", value_str, update_type)
 
+    def _find_in_lines(self, key: str) -> tuple[str | None, re.Match | None]:
+        """Returns the attribute, SpiceLine or SpiceLine2, where the given parameter is, and its match in it"""
+        for param_key in LTSPICE_PARAMETERS_REDUCED:
+            line = self.attributes.get(param_key, '')
+            for regex in (PARAM_REGEX(re.escape(key)), rf"(?<![\w.])(?P<name>{re.escape(key)})\s*=\s*(?P<value>\S+)"):
+                match = re.search(regex, line)
+                if match is not None:
+                    return param_key, match
+        return None, None
+
 
 class AscEditor(BaseSchematic, BaseSubCircuit):
     """Class made to update directly the LTspice ASC files"""
-- 
2.43.0


From 5c417d449a30f046c8d2f6cb65b282e64ce8b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 086/133] fix: setting or clearing one parameter on a component
 of a .asc file

---
 spicelib/editor/asc_editor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index d759974..8a9b5fe 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -189,6 +189,14 @@ class AscComponent(SchematicComponent):
             _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
             parent.end_update(f"{self.reference}:{key}", value_str, update_type)
 
+    def set_parameter(self, key: str, value: float | str | None) -> None:
+        # docstring inherited from Component
+        self.set_parameters(**{key: value})
+
+    def clear_parameter(self, key: str) -> None:
+        # docstring inherited from Component
+        self.set_parameters(**{key: None})
+
     def _find_in_lines(self, key: str) -> tuple[str | None, re.Match | None]:
         """Returns the attribute, SpiceLine or SpiceLine2, where the given parameter is, and its match in it"""
         for param_key in LTSPICE_PARAMETERS_REDUCED:
-- 
2.43.0


From c436b33790cb371a88818e46f5a358fa95c73df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 087/133] fix: a QSPICE schematic with ': ' inside a text can
 be read, and isn't changed by that

---
 spicelib/editor/qsch_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index f5e4c8f..a6aa6a8 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -232,8 +232,8 @@ class QschTag:
             raise OSError("Missing » when reading file")
         line = stream[i0:i]
         # Now dividing the
-        if ': ' in line:
-            name, text = line.split(': ')
+        name, separator, text = line.partition(': ')
+        if separator and '"' not in name:  # Otherwise, it is inside a quoted text
             self.tokens.append(name + ":")
             self.tokens.append(text)
         else:
-- 
2.43.0


From 572cd28aef03078ec89e6899693744b0f6647218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 088/133] fix: QschEditor.save_as() that fails doesn't point
 the editor to the new file

---
 spicelib/editor/qsch_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index a6aa6a8..6661b18 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -592,13 +592,13 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             return
         qsch_filename_p = Path(qsch_filename)
         if self.updated() or qsch_filename_p != self._circuit_filepath:
-            self._circuit_filepath = qsch_filename_p
             with qsch_filename_p.open('w', encoding="cp1252") as qsch_file:
                 _logger.info(f"Writing QSCH file {qsch_file}")
                 for c in QSCH_HEADER:
                     qsch_file.write(chr(c))
                 qsch_file.write(self.schematic.out(0))
                 qsch_file.write('\n')  # Terminates the new line
+            self._circuit_filepath = qsch_filename_p  # Only after saving, as this may fail
         # now checks if there are subcircuits that need to be saved
         for component in self.components.values():
             if "_SUBCKT" in component.attributes:
-- 
2.43.0


From 491c947f564256abb8cc61522c0b4c82003c5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 089/133] fix: moving a component of a QSPICE schematic accepts
 all rotations and is saved

---
 spicelib/editor/qsch_editor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 6661b18..157e7e5 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -545,7 +545,7 @@ class QschComponent(SchematicComponent):
         else:
             raise ValueError("Invalid position object")
         if isinstance(rotation, ERotation):
-            rot = rotation.value / 45
+            rot = rotation.value // 45
         elif isinstance(rotation, int):
             rot = (rotation % 360) // 45
             if mirror:
@@ -556,7 +556,8 @@ class QschComponent(SchematicComponent):
         comp_tag.set_attr(QSCH_COMPONENT_POS, (position.X, position.Y))
         comp_tag.set_attr(QSCH_COMPONENT_ROTATION, rot)
         self.position = position
-        self.rotation = rotation if isinstance(rotation, ERotation) else ERotation(rotation)
+        self.rotation = ERotation(rot * 45)
+        self.parent.canvas_updated = True
 
 
 class QschEditor(BaseSchematic, BaseSubCircuit):
-- 
2.43.0


From 649db77b6e88ddbd37fc4900ce9b6877b781d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 090/133] fix: QschEditor.remove_component() removes the
 component from the netlist, also inside of a sub-circuit

---
 spicelib/editor/qsch_editor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 157e7e5..a1a56ba 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1212,10 +1212,15 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing component {designator}")
+        sub_circuit, ref = self._get_parent(designator)
+        if sub_circuit is not self:
+            sub_circuit.remove_component(ref)
+            return
         component = self.get_component(designator)
         comp_tag: QschTag = component.attributes['tag']
         self.schematic.items.remove(comp_tag) # pyright: ignore[reportOptionalMemberAccess]
-        self.end_update(designator, None, UpdateType.DeleteComponent)
+        del self.components[ref]
+        self.end_update(ref, None, UpdateType.DeleteComponent)
 
     def _get_text_space(self):
         """
-- 
2.43.0


From 9b7a28c0105debb4ab27591245a141d373e66463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 091/133] fix: QschEditor.set_parameter() replaces the value
 also in a text without qualifier

---
 spicelib/editor/qsch_editor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index a1a56ba..77eacf4 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1113,8 +1113,10 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             _logger.debug(f"Parameter {param} found in QSCH file, updating it")
             text: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             start, stop = match.span("value")
-            start += len(QSCH_TEXT_INSTR_QUALIFIER)
-            stop += len(QSCH_TEXT_INSTR_QUALIFIER)
+            # The match was done without the qualifier, which isn't always there
+            offset = len(text) - len(text.lstrip(QSCH_TEXT_INSTR_QUALIFIER))
+            start += offset
+            stop += offset
             text = text[:start] + value_str + text[stop:]
             tag.set_attr(QSCH_TEXT_STR_ATTR, text)
             _logger.info(f"Parameter {param} updated to {value_str}")
-- 
2.43.0


From e07af03d8eedee03cb105b7c0e64d55b84e5cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 092/133] fix: QschEditor finds the parameters in all .PARAM
 lines of a text, and in no other line

---
 spicelib/editor/qsch_editor.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 77eacf4..2a9ba60 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -30,6 +30,7 @@ from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, Value
 from .base_editor import PARAM_REGEX, ValueType
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
+                             find_parameters, directive_lines, remove_line,
                              LineStyle, Shape)
 from .updates import UpdateType, UpdatePermission
 from ..simulators.qspice_simulator import Qspice
@@ -1034,7 +1035,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         self.update_permission = UpdatePermission.Inform
 
     def _get_param_named(self, param_name):
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         text_tags = self.schematic.get_items('text')  # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
@@ -1042,28 +1042,23 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                for match in param_regex.finditer(line):
-                    if match.group("name").upper() == param_name_upped:
-                        return tag, match
+            for match in find_parameters(line):
+                if match.group("name").upper() == param_name_upped:
+                    return tag, match
         else:
             return None, None
         
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         text_tags = self.schematic.get_items('text') # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                matches = param_regex.finditer(line)
-                for match in matches:
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
+            for match in find_parameters(line):
+                param_names.append(match.group('name').upper())
         return sorted(param_names)
 
     def _qsch_file_find(self, filename: str, work_dir: str | None = None) -> str | None:
-- 
2.43.0


From 6ddac00e9fa8a019ca38700dde454b8dfa702a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 093/133] fix: QschEditor replaces or removes the instruction
 itself, not all the lines of the text it is in

---
 spicelib/editor/qsch_editor.py | 53 +++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 2a9ba60..690ad72 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1264,18 +1264,18 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                     continue
                 text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-                text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-                command = text.split()[0].upper()
-                if command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + instruction)
-                    self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION" ,instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
+                for start, stop in directive_lines(text):
+                    line = text[start:stop].lstrip(QSCH_TEXT_INSTR_QUALIFIER)
+                    old_instruction = line.strip()
+                    if old_instruction and old_instruction.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                        text_tag.set_attr(QSCH_TEXT_STR_ATTR, text[:stop - len(line)] + instruction + text[stop:])
+                        self.end_update("INSTRUCTION", old_instruction, UpdateType.DeleteInstruction)
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        return  # Job done, can exit this method
 
         elif command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
-        else:
-            self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
         # If we get here, then the instruction was not found, so we need to add it
         x, y = self._get_text_space()
         tag, _ = QschTag.parse(f'«text ({x},{y}) 1 0 0 0x1000000 -1 -1 "{QSCH_TEXT_INSTR_QUALIFIER}{instruction}"»')
@@ -1290,16 +1290,28 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            if instruction in text:
-                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{instruction}" removed')
-                return True  # Job done, can exit this method
+            for start, stop in directive_lines(text):
+                line = text[start:stop].lstrip(QSCH_TEXT_INSTR_QUALIFIER)
+                if instruction in line:
+                    self._remove_line(text_tag, start, stop)
+                    self.end_update("INSTRUCTION", line.strip(), UpdateType.DeleteInstruction)
+                    _logger.info(f'Instruction "{line}" removed')
+                    return True  # Job done, can exit this method
 
         msg = f'Instruction "{instruction}" not found'
         _logger.error(msg)
         return False
 
+    def _remove_line(self, text_tag: QschTag, start: int, stop: int) -> None:
+        """Removes a line from a text, and the text itself if no other line is left"""
+        text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
+        remaining = remove_line(text, start, stop).lstrip(QSCH_TEXT_INSTR_QUALIFIER)
+        if remaining:
+            has_qualifier = text.startswith(QSCH_TEXT_INSTR_QUALIFIER)
+            text_tag.set_attr(QSCH_TEXT_STR_ATTR, (QSCH_TEXT_INSTR_QUALIFIER if has_qualifier else '') + remaining)
+        else:
+            self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
+
     def remove_Xinstruction(self, search_pattern: str) -> bool:
         # docstring inherited from BaseEditor
         permission = self.begin_update()
@@ -1311,12 +1323,13 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if regex.match(text):
-                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION" ,text, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{text}" removed')
-                instr_removed = True
+            for start, stop in reversed(list(directive_lines(text))):
+                line = text[start:stop].lstrip(QSCH_TEXT_INSTR_QUALIFIER).strip()
+                if regex.match(line):
+                    self._remove_line(text_tag, start, stop)
+                    self.end_update("INSTRUCTION", line, UpdateType.DeleteInstruction)
+                    _logger.info(f'Instruction "{line}" removed')
+                    instr_removed = True
         if instr_removed:
             return True
         else:
-- 
2.43.0


From a57c905f1722a85bcb51057bb4daec506639e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 094/133] fix: an unconnected pin of a QSPICE schematic isn't
 connected to a net that has the name given to it

---
 spicelib/editor/qsch_editor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 690ad72..2e27993 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -891,6 +891,12 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             self.update_permission = UpdatePermission.Inform
         return True
 
+    @staticmethod
+    def _net_number(net_name: str) -> int:
+        """Returns the number of a net, if its name is of the format N##. Otherwise, it returns 0"""
+        match = re.fullmatch(r"N(\d+)", str(net_name))
+        return int(match.group(1)) if match else 0
+
     def _parse_qsch_stream(self, stream):
         """Parses the QSCH file stream"""
         self.update_permission = UpdatePermission.Initializing
@@ -915,20 +921,14 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             # rotation = net.get_attr(QSCH_NET_ROTATION)
             net_name: str = net.get_attr(QSCH_NET_STR_ATTR) # pyright: ignore[reportAssignmentType]
             self.labels.append(Text(Point(x, y), net_name, type=TextTypeEnum.LABEL))
+            highest_net_number = max(highest_net_number, self._net_number(net_name))
 
         for wire in self.schematic.get_items('wire'):
             # process wires
             x1, y1 = wire.get_attr(QSCH_WIRE_POS1) # pyright: ignore[reportGeneralTypeIssues]
             x2, y2 = wire.get_attr(QSCH_WIRE_POS2) # pyright: ignore[reportGeneralTypeIssues]
             netname: str = wire.get_attr(QSCH_WIRE_NET)  # pyright: ignore[reportAssignmentType]
-            # Check if the net is of the format N##, if it is get the net number
-            if netname.startswith('N'):
-                try:
-                    net_no = int(netname[1:])
-                    if net_no > highest_net_number:
-                        highest_net_number = net_no
-                except ValueError:
-                    pass
+            highest_net_number = max(highest_net_number, self._net_number(netname))
             self.wires.append(Line(Point(x1, y1), Point(x2, y2), net=netname))
 
         components = self.schematic.get_items('component')
-- 
2.43.0


From 10da746598b5b2a3aec9459fa6be6b903481179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 095/133] fix: QschEditor saves the updates of a sub-circuit at
 any depth

---
 spicelib/editor/qsch_editor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 2e27993..5a5a99e 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1068,6 +1068,13 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             containers = [work_dir] + containers  # put work directory first
         return search_file_in_containers(filename, *containers)
 
+    def updated(self):
+        # A sub-circuit that was updated is written when this schematic is written
+        return super().updated() or any(
+            sub_circuit is not None and sub_circuit.updated()
+            for sub_circuit in (component.attributes.get('_SUBCKT') for component in self.components.values())
+        )
+
     def get_subcircuit(self, reference: str) -> 'QschEditor':
         """Returns an QschEditor file corresponding to the symbol"""
         subcircuit = self.get_component(reference)
-- 
2.43.0


From 136b81aa82dfa9c6e03c280a8c58433c3823019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 096/133] fix: QschEditor.save_as() that fails in a sub-circuit
 doesn't point the editor to the new file

---
 spicelib/editor/qsch_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 5a5a99e..344b8fa 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -600,13 +600,13 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                     qsch_file.write(chr(c))
                 qsch_file.write(self.schematic.out(0))
                 qsch_file.write('\n')  # Terminates the new line
-            self._circuit_filepath = qsch_filename_p  # Only after saving, as this may fail
         # now checks if there are subcircuits that need to be saved
         for component in self.components.values():
             if "_SUBCKT" in component.attributes:
                 sub_circuit: QschEditor = component.attributes['_SUBCKT']
                 if sub_circuit is not None and sub_circuit.updated():
                     sub_circuit.save_as(sub_circuit.circuit_file)
+        self._circuit_filepath = qsch_filename_p  # Only after saving, as this may fail
 
     def write_spice_to_file(self, netlist_file: TextIO, verilog_config: dict[str, list[str]] = {}):
         """
-- 
2.43.0


From 7fd478cf14fdff43b9e2cf85ad885db0e437ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 097/133] fix: QschEditor: component parameters with the format
 name=<value> are found, instead of being defined twice

---
 spicelib/editor/qsch_editor.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 344b8fa..1875224 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -172,10 +172,19 @@ QSCH_ZIGZAG_UNKNOWN2 = 8
 def decap(s: str) -> str:
     """Take the leading < and ending > from the parameter value on a string with the format "param=<value>"
     If they are not there, the string is returned unchanged."""
-    regex = re.compile(r"(\w+)=<(.*)>")
+    regex = re.compile(r"(\w+)=<([^>]*)>")
     return regex.sub(r"\1=\2", s)
 
 
+def find_component_parameters(text: str) -> list[re.Match]:
+    """Returns the matches of the parameters that are defined in a text of a component. They can be written with the
+    format param=value or with the format param=<value>"""
+    capped = list(re.finditer(r"(?<![\w.])(?P<name>\w+)\s*=\s*<(?P<value>[^>]*)>", text))
+    others = [match for match in re.finditer(PARAM_REGEX(r"\w+"), text, re.IGNORECASE)
+              if not any(cap.start() < match.end() and match.start() < cap.end() for cap in capped)]
+    return sorted(capped + others, key=re.Match.start)
+
+
 def smart_split(s):
     """Splits a string into chunks based on spaces. What is inside "" is not divided."""
     return re.findall(r'[^"\s]+|"[^"]*"', s)
@@ -427,10 +436,9 @@ class QschComponent(SchematicComponent):
         """
         texts = self.symbol_tag.get_items('text')
         parameters = OrderedDict()
-        param_regex = re.compile(PARAM_REGEX(r'\w+'), re.IGNORECASE)
         for i in range(2, len(texts)):
             text : str = texts[i].get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            matches = param_regex.finditer(text)
+            matches = find_component_parameters(text)
             for match in matches:
                 parameters[match.group('name')] = match.group('value')
             else:
@@ -476,11 +484,10 @@ class QschComponent(SchematicComponent):
                     parent.end_update(reference, value_str, UpdateType.UpdateComponentParameter)
             else:
                 found = False
-                search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
                 for text in texts[QSCH_SYMBOL_TEXT_VALUE:]:
                     text_value: str = text.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
 
-                    for match in search_expression.finditer(text_value):
+                    for match in find_component_parameters(text_value):
                         if match.group("name") == key:
                             if value is None:
                                 # Remove the entire parameter definition from the text
-- 
2.43.0


From 75fbe596b99272d30d28ac521bec40820c54e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 098/133] fix: QschEditor: editing a parameter that is in the
 value text keeps the value up to date and the text in its place

---
 spicelib/editor/qsch_editor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 1875224..a349174 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -492,7 +492,7 @@ class QschComponent(SchematicComponent):
                             if value is None:
                                 # Remove the entire parameter definition from the text
                                 start, stop = match.span()
-                                if stop - start == len(text_value):
+                                if stop - start == len(text_value) and text is not texts[QSCH_SYMBOL_TEXT_VALUE]:
                                     # The whole tag needs to be deleted
                                     symbol.items.remove(text)
                                 else:
@@ -505,6 +505,8 @@ class QschComponent(SchematicComponent):
                                 text_value = text_value[:start] + value_str + text_value[stop:]
                                 text.set_attr(QSCH_TEXT_STR_ATTR, text_value)
                                 update = UpdateType.UpdateComponentParameter
+                            if text is texts[QSCH_SYMBOL_TEXT_VALUE]:  # It is also the value of the component
+                                self.attributes['value'] = text.get_attr(QSCH_TEXT_STR_ATTR)
                             if permission == UpdatePermission.Inform:
                                 reference : str = self.reference # pyright: ignore[reportAssignmentType]
                                 parent.end_update(f'{reference}:{key}', value_str, update)
-- 
2.43.0


From eb8f9880b367fa7eabbea16cc46bfe6d2ca3774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 099/133] fix: the options that LTspice 24 lists in its log are
 no measurement

---
 spicelib/log/ltsteps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index d0c3e37..496e6ab 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -394,7 +394,8 @@ class LTSpiceLogReader(LogfileData):
                     else:
                         break  # Jumps to the section that reads measurements
 
-                if self.step_count == 0:  # then there are no steps,
+                if self.step_count == 0 and not line.startswith("Options:"):  # then there are no steps,
+                    # LTspice 24 lists the options of the netlist ("Options: numdgt=15"), which look like a measurement
                     match = regx.match(line)
                     if match:
                         # Get the data
-- 
2.43.0


From 194247c6b7ccc4b870200225fdfa044877be1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 100/133] fix: LTSpiceExport reads data without steps, the name
 of the last column and all step values

---
 spicelib/log/ltsteps.py | 63 ++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 496e6ab..67b639b 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -177,45 +177,42 @@ class LTSpiceExport:
 
     def __init__(self, export_filename: str):
         self.encoding = detect_encoding(export_filename)
-        fin = open(export_filename, encoding=self.encoding)
-        file_header = fin.readline()
-
-        self.headers = file_header.split('\t')
-        # Set to read header
-        go_header = True
-
-        curr_dic = {}
-        self.dataset = {}
-
-        regx = re.compile(r"Step Information: ([\w=\d\. -]+) +\(Run: (\d*)/\d*\)\n")
-        for line in fin:
-            if line.startswith("Step Information:"):
-                match = regx.match(line)
-                if match:
-                    step, run_no = match.groups()
-                    curr_dic['runno'] = run_no
-                    for param in step.split():
-                        key, value = param.split('=')
-                        curr_dic[key] = try_convert_value(value)
+        with open(export_filename, encoding=self.encoding) as fin:
+            file_header = fin.readline()
 
-                    if go_header:
-                        go_header = False  # This is executed only once
-                        for key in self.headers:
-                            self.dataset[key.lower()] = []  # Initializes an empty list
+            self.headers = file_header.rstrip('\r\n').split('\t')
+            # Set to read header
+            go_header = True
 
-                        for key in curr_dic:
-                            self.dataset[key.lower()] = []  # Initializes an empty list
+            curr_dic = {}
+            self.dataset = {}
+            for key in self.headers:
+                self.dataset[key.lower()] = []  # Initializes an empty list
 
-            else:
-                values = line.split('\t')
+            regx = re.compile(r"Step Information: (.*?) +\((?:Run|Step): (\d*)/\d*\)\n")
+            for line in fin:
+                if line.startswith("Step Information:"):
+                    match = regx.match(line)
+                    if match:
+                        step, run_no = match.groups()
+                        curr_dic['runno'] = run_no
+                        for param in step.split():
+                            key, value = param.split('=')
+                            curr_dic[key] = try_convert_value(value)
 
-                for key in curr_dic:
-                    self.dataset[key.lower()].append(curr_dic[key])
+                        if go_header:
+                            go_header = False  # This is executed only once
+                            for key in curr_dic:
+                                self.dataset[key.lower()] = []  # Initializes an empty list
+
+                else:
+                    values = line.rstrip('\r\n').split('\t')
 
-                for i in range(len(values)):
-                    self.dataset[self.headers[i].lower()].append(try_convert_value(values[i]))
+                    for key in curr_dic:
+                        self.dataset[key.lower()].append(curr_dic[key])
 
-        fin.close()
+                    for i in range(len(values)):
+                        self.dataset[self.headers[i].lower()].append(try_convert_value(values[i]))
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 45f4190839359db90db736f1a237c1aadff40398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 101/133] fix: reformat_LTSpice_export keeps titles of data
 without steps, all step values, and closes its files

---
 spicelib/log/ltsteps.py | 58 ++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 67b639b..0e7d0f0 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -118,39 +118,37 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
     :return: Nothing
     """
     encoding = detect_encoding(export_file)
-    fin = open(export_file, encoding=encoding)
-    fout = open(tabular_file, 'w', encoding=encoding)
-
-    headers = fin.readline()
-    # writing header
-    go_header = True
-    run_no = 0  # Just to avoid warning, this is later overridden by the step information
-    param_values = ""  # Just to avoid warning, this is later overridden by the step information
-    regx = re.compile(r"Step Information: ([\w=\d\. \-]+) +\((?:Run|Step): (\d*)/\d*\)\n")
-    for line in fin:
-        if line.startswith("Step Information:"):
-            match = regx.match(line)
-            if match:
-                step, run_no = match.groups()
-                params = []
-                for param in step.split():
-                    params.append(param.split('=')[1])
-                param_values = "\t".join(params)
+    with open(export_file, encoding=encoding) as fin, open(tabular_file, 'w', encoding=encoding) as fout:
+        headers = fin.readline()
+        # writing header
+        go_header = True
+        prefix = ""  # Data without steps is already a table. With steps this is overridden by the step information
+        regx = re.compile(r"Step Information: (.*?) +\((?:Run|Step): (\d*)/\d*\)\n")
+        for line in fin:
+            if line.startswith("Step Information:"):
+                match = regx.match(line)
+                if match:
+                    step, run_no = match.groups()
+                    params = []
+                    for param in step.split():
+                        params.append(param.split('=')[1])
+                    param_values = "\t".join(params)
+                    prefix = f"{run_no}\t{param_values}\t"
 
+                    if go_header:
+                        header_keys = []
+                        for param in step.split():
+                            header_keys.append(param.split('=')[0])
+                        param_header = "\t".join(header_keys)
+                        msg = f"Run\t{param_header}\t{headers}"
+                        fout.write(msg)
+                        _logger.debug(msg)
+                        go_header = False
+            else:
                 if go_header:
-                    header_keys = []
-                    for param in step.split():
-                        header_keys.append(param.split('=')[0])
-                    param_header = "\t".join(header_keys)
-                    msg = f"Run\t{param_header}\t{headers}"
-                    fout.write(msg)
-                    _logger.debug(msg)
+                    fout.write(headers)
                     go_header = False
-        else:
-            fout.write(f"{run_no}\t{param_values}\t{line}")
-
-    fin.close()
-    fout.close()
+                fout.write(f"{prefix}{line}")
 
 
 class LTSpiceExport:
-- 
2.43.0


From 97f7c2cea1ff94264c96a89f9dd022c5bae4adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 102/133] fix: the ltsteps tool finds the log of a .mout file
 and reads .mout files as documented

---
 spicelib/log/ltsteps.py     | 2 +-
 spicelib/scripts/ltsteps.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 0e7d0f0..6aeb01f 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -291,7 +291,7 @@ class LTSpiceLogReader(LogfileData):
         self.logname = log_filename
         self.fourier = {}
         if encoding is None:
-            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|([\s\S]*)--- Expanded Netlist ---)")
+            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|Measurement:|([\s\S]*)--- Expanded Netlist ---)")
         else:
             self.encoding = encoding
 
diff --git a/spicelib/scripts/ltsteps.py b/spicelib/scripts/ltsteps.py
index 7b633e9..c87b71f 100644
--- a/spicelib/scripts/ltsteps.py
+++ b/spicelib/scripts/ltsteps.py
@@ -146,7 +146,7 @@ def main():
             data.split_complex_values_on_datasets()
             data.export_data(fname_out)
         elif filename.endswith(".mout"):
-            log_file = filename[:len('mout')] + 'log'
+            log_file = filename[:-len('mout')] + 'log'
             if os.path.exists(log_file):
                 steps = LTSpiceLogReader(log_file, read_measures=False)
                 data = LTSpiceLogReader(filename, step_set=steps.stepset)
@@ -156,7 +156,6 @@ def main():
                 data = LTSpiceLogReader(filename)
             data.split_complex_values_on_datasets()
             data.export_data(fname_out)
-            data.export_data(fname_out)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ba806f66e0567d93bdd410acd4d1159f09e85efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 103/133] fix: a log reader with the steps of another file
 counts the steps, not the variables

---
 spicelib/log/logfile_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index c8f561a..6fdaab9 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -161,7 +161,8 @@ class LogfileData:
         else:
             self.dataset = dataset.copy()  # A copy is done since the dictionary is a mutable object.
 
-        self.step_count = len(self.stepset)
+        # the number of steps is the number of values that each variable takes
+        self.step_count = max((len(values) for values in self.stepset.values()), default=0)
         self.measure_count = len(self.dataset)
 
     def __getitem__(self, key):
-- 
2.43.0


From a08c817c97f7114ca875b332c23610e51c22af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 104/133] fix: QspiceLogReader doesn't read the measurements of
 an earlier run when QPOST fails

---
 spicelib/log/qspice_log_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/qspice_log_reader.py b/spicelib/log/qspice_log_reader.py
index 5319055..9f6f9b9 100644
--- a/spicelib/log/qspice_log_reader.py
+++ b/spicelib/log/qspice_log_reader.py
@@ -133,7 +133,11 @@ class QspiceLogReader(LogfileData):
         # Run the QPOST command
         cmd_run = qpost + [netlist, "-o", meas_filename.absolute()]
         _logger.debug(f"Running QPOST command: {cmd_run}")
-        run_function(cmd_run)
+        # If QPOST fails, the measurements of an earlier run must not be taken for those of this one
+        meas_filename.unlink(missing_ok=True)
+        return_code = run_function(cmd_run)
+        if return_code != 0:
+            _logger.warning(f"QPOST returned {return_code}")
         return meas_filename
 
     def parse_meas_file(self, meas_filename):
-- 
2.43.0


From e521bcc07c1510c3298ba1f5da0fd9d8567e5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 105/133] fix: export_data closes its file when it fails,
 writes the line terminator it is given, also for LTspice logs

---
 spicelib/log/logfile_data.py | 136 +++++++++++++++++------------------
 spicelib/log/ltsteps.py      |   5 +-
 2 files changed, 71 insertions(+), 70 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 6fdaab9..e242fd4 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -385,84 +385,84 @@ class LogfileData:
         if encoding is None:
             encoding = self.encoding if hasattr(self, 'encoding') else 'utf-8'
 
-        fout = open(export_file, mode, encoding=encoding)
-
-        if append_with_line_prefix is not None:  # if appending a file, it must write the column title
-            fout.write('user info' + value_separator)
-
-        data_size = None
-        fout.write("step")
-        columns_per_line = 1
-        for title, values in self.stepset.items():
-            if data_size is None:
-                data_size = len(values)
-            else:
-                if len(values) != data_size:
-                    raise Exception("Data size mismatch. Not all measurements have the same length.")
+        # text files translate '\n', anything else is written as it is given
+        newline = None if line_terminator == '\n' else ''
+        with open(export_file, mode, encoding=encoding, newline=newline) as fout:
+
+            if append_with_line_prefix is not None:  # if appending a file, it must write the column title
+                fout.write('user info' + value_separator)
+
+            data_size = None
+            fout.write("step")
+            columns_per_line = 1
+            for title, values in self.stepset.items():
+                if data_size is None:
+                    data_size = len(values)
+                else:
+                    if len(values) != data_size:
+                        raise Exception("Data size mismatch. Not all measurements have the same length.")
 
-            if isinstance(values[0], list) and len(values[0]) > 1:
-                for n in range(len(values[0])):
-                    fout.write(value_separator + "%s_%d" % (title, n))
+                if isinstance(values[0], list) and len(values[0]) > 1:
+                    for n in range(len(values[0])):
+                        fout.write(value_separator + "%s_%d" % (title, n))
+                        columns_per_line += 1
+                else:
+                    fout.write(value_separator + title)
                     columns_per_line += 1
-            else:
-                fout.write(value_separator + title)
-                columns_per_line += 1
-
-        for title, values in self.dataset.items():
-            if data_size is None:
-                data_size = len(values)
-            else:
-                if len(values) != data_size:
-                    logging.error(f"Data size mismatch. Not all measurements have the same length."
-                                  f" Expected {data_size}. \"{title}\" has {len(values)}")
 
-            if isinstance(values[0], list) and len(values[0]) > 1:
-                for n in range(len(values[0])):
-                    fout.write(value_separator + "%s_%d" % (title, n))
+            for title, values in self.dataset.items():
+                if data_size is None:
+                    data_size = len(values)
+                else:
+                    if len(values) != data_size:
+                        logging.error(f"Data size mismatch. Not all measurements have the same length."
+                                      f" Expected {data_size}. \"{title}\" has {len(values)}")
+
+                if isinstance(values[0], list) and len(values[0]) > 1:
+                    for n in range(len(values[0])):
+                        fout.write(value_separator + "%s_%d" % (title, n))
+                        columns_per_line += 1
+                else:
+                    fout.write(value_separator + title)
                     columns_per_line += 1
-            else:
-                fout.write(value_separator + title)
-                columns_per_line += 1
 
-        fout.write('\n')  # Finished to write the headers
+            fout.write(line_terminator)  # Finished to write the headers
 
-        if data_size is None:
-            data_size = 0  # Skips writing data in the loop below
+            if data_size is None:
+                data_size = 0  # Skips writing data in the loop below
 
-        for index in range(data_size):
-            if self.step_count == 0:
-                step_data = []  # Empty step
-            else:
-                step_data = [self.stepset[param][index] for param in self.stepset.keys()]
-            meas_data = [self.dataset[param][index] for param in self.dataset.keys()]
-
-            if append_with_line_prefix is not None:  # if appending a file it must write the user info
-                fout.write(append_with_line_prefix + value_separator)
-            fout.write("%d" % (index + 1))
-            columns_writen = 1
-            for s in step_data:
-                if isinstance(s, list):
-                    for x in s:
-                        fout.write(value_separator + f'{x}')
-                        columns_writen += 1
+            for index in range(data_size):
+                if self.step_count == 0:
+                    step_data = []  # Empty step
                 else:
-                    fout.write(value_separator + f'{s}')
-                    columns_writen += 1
+                    step_data = [self.stepset[param][index] for param in self.stepset.keys()]
+                meas_data = [self.dataset[param][index] for param in self.dataset.keys()]
+
+                if append_with_line_prefix is not None:  # if appending a file it must write the user info
+                    fout.write(append_with_line_prefix + value_separator)
+                fout.write("%d" % (index + 1))
+                columns_writen = 1
+                for s in step_data:
+                    if isinstance(s, list):
+                        for x in s:
+                            fout.write(value_separator + f'{x}')
+                            columns_writen += 1
+                    else:
+                        fout.write(value_separator + f'{s}')
+                        columns_writen += 1
 
-            for tok in meas_data:
-                if isinstance(tok, list):
-                    for x in tok:
-                        fout.write(value_separator + f'{x}')
+                for tok in meas_data:
+                    if isinstance(tok, list):
+                        for x in tok:
+                            fout.write(value_separator + f'{x}')
+                            columns_writen += 1
+                    else:
+                        fout.write(value_separator + f'{tok}')
                         columns_writen += 1
-                else:
-                    fout.write(value_separator + f'{tok}')
-                    columns_writen += 1
-            if columns_writen != columns_per_line:
-                logging.error(f"Line with wrong number of values."
-                              f" Expected:{columns_per_line} Index {index+1} has {columns_writen}")
-            fout.write('\n')
-
-        fout.close()
+                if columns_writen != columns_per_line:
+                    logging.error(f"Line with wrong number of values."
+                                  f" Expected:{columns_per_line} Index {index+1} has {columns_writen}")
+                fout.write(line_terminator)
 
     def plot_histogram(self, param, steps: None | int | Iterable = None, bins=50, normalized=True, sigma=3.0, title=None, image_file=None, **kwargs):
         """
diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 6aeb01f..60b1837 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -459,9 +459,10 @@ class LTSpiceLogReader(LogfileData):
             _logger.debug("%d measurements" % len(self.dataset))
             _logger.info("Identified %d steps, read %d measurements" % (self.step_count, self.measure_count))
 
-    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None):
+    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None,
+                    value_separator: str = '\t', line_terminator: str = '\n'):
         """Aside from exporting the data, it also exports fourier data if it exists"""
-        super().export_data(export_file, encoding, append_with_line_prefix)
+        super().export_data(export_file, encoding, append_with_line_prefix, value_separator, line_terminator)
 
         fourier_export_file = os.path.splitext(export_file)[0] + "_fourier.txt"
         if self.fourier:
-- 
2.43.0


From 0179b6bfd14cc8fa61959ab24480bc2ed3b8a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 106/133] fix: export_data: the titles of the harmonics stand
 above their columns when there are no steps

---
 spicelib/log/ltsteps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 60b1837..1237098 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -502,7 +502,8 @@ class LTSpiceLogReader(LogfileData):
                                        f"{analysis.phd}\t"
                                        f"{analysis.thd}\n")
                 fout.write("\n\nHarmonic Analysis\n")
-                fout.write("\t".join(self.stepset.keys()) + "\t")
+                if self.step_count > 0:
+                    fout.write("\t".join(self.stepset.keys()) + "\t")
                 fout.write("Signal\tN-Periods\tHarmonic\tFrequency\tFourier\tNormalized\tPhase\tNormalized\n")
                 for signal in self.fourier:
                     for analysis in self.fourier[signal]:
-- 
2.43.0


From 828b2697eb8d665d76401fbc58d022ec23817b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 107/133] fix: raw_convert writes the traces that are asked for

---
 spicelib/scripts/raw_convert.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/scripts/raw_convert.py b/spicelib/scripts/raw_convert.py
index 66e8121..a12cb58 100644
--- a/spicelib/scripts/raw_convert.py
+++ b/spicelib/scripts/raw_convert.py
@@ -77,6 +77,7 @@ def main():
 
     rawfile = args[0]
 
+    columns = None  # all of them
     # Read the raw file
     if traces != '*':
         raw_data = RawRead(rawfile, verbose=False, dialect=options.dialect)
@@ -106,13 +107,14 @@ def main():
                 print("\t<" + trace + ">")
             exit(1)
         print("Reading traces: ", found_traces)
+        columns = list(dict.fromkeys(found_traces))
 
     else:
         raw_data = RawRead(rawfile, traces, dialect=options.dialect, verbose=options.verbose)
 
     # Output the file
     if options.output is None:
-        data = raw_data.export()
+        data = raw_data.export(columns=columns)
 
         text = options.separator.join(data.keys()) + '\n'
         data_size = len(data[data.__iter__().__next__()])
@@ -127,11 +129,11 @@ def main():
     else:
         if options.output.endswith(".csv"):
             print("Writing CSV file...", end="")
-            raw_data.to_csv(options.output, separator=options.separator, index=False)
+            raw_data.to_csv(options.output, columns=columns, separator=options.separator, index=False)
             print("Done")
         elif options.output.endswith(".xlsx"):
             print("Writing Excel file...", end="")
-            raw_data.to_excel(options.output, index=False)
+            raw_data.to_excel(options.output, columns=columns, index=False)
             print("Done")
         else:
             print("Error: Unknown output format. Valid formats are '.csv' and '.xlsx'")
-- 
2.43.0


From f64923dd5afd9c73411e54007d2d2e9fd517ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 108/133] fix: detect_encoding doesn't take single byte text
 for UTF-16

---
 spicelib/utils/detect_encoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spicelib/utils/detect_encoding.py b/spicelib/utils/detect_encoding.py
index e0cdcd3..437d348 100644
--- a/spicelib/utils/detect_encoding.py
+++ b/spicelib/utils/detect_encoding.py
@@ -66,6 +66,10 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
                     # File did not have the expected string
                     # Try again with a different encoding (This is unlikely to resolve the issue)
                     continue
+            elif encoding in ('utf-16', 'utf_16_le') and ord(lines[0]) > 0xFF:
+                # Almost any text of one byte per character is also valid UTF-16, but then it starts with a character
+                # that stands for two of them
+                continue
             if encoding == 'utf-8' and lines[1] == '\x00':
                 continue
             return encoding
-- 
2.43.0


From 1c95551ee6f8b832b1fe22a51e2e824c6332ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 109/133] fix: opLogReader doesn't take lines that follow a
 table of devices for parameters of them

---
 spicelib/log/semi_dev_op_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/log/semi_dev_op_reader.py b/spicelib/log/semi_dev_op_reader.py
index 518cd5a..45dad23 100644
--- a/spicelib/log/semi_dev_op_reader.py
+++ b/spicelib/log/semi_dev_op_reader.py
@@ -105,6 +105,8 @@ def opLogReader(filename: str) -> dict:
             if match is not None:
                 where = match.group(1)
                 dataset[where.lower()] = {}  # Creates a dictionary for each component type
+            elif not line.strip():
+                n_devices = 0  # A blank line ends the table of these devices
             else:
                 cols = re.split(r'\s+', line.rstrip('\r\n'))
                 if len(cols) > 1 and (cols[0].endswith(":") or cols[0] == 'Gmb'):  # The last 'or condition solves an
-- 
2.43.0


From 3581cd7272fe66b3fa738f46ef7830d567f908ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 110/133] fix: detect_encoding doesn't take a part of a UTF-16
 file for single byte text

---
 spicelib/utils/detect_encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/utils/detect_encoding.py b/spicelib/utils/detect_encoding.py
index 437d348..9159381 100644
--- a/spicelib/utils/detect_encoding.py
+++ b/spicelib/utils/detect_encoding.py
@@ -70,7 +70,7 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
                 # Almost any text of one byte per character is also valid UTF-16, but then it starts with a character
                 # that stands for two of them
                 continue
-            if encoding == 'utf-8' and lines[1] == '\x00':
+            if encoding not in ('utf-16', 'utf_16_le') and lines[1:2] == '\x00':
                 continue
             return encoding
     else:
-- 
2.43.0


From 6cfcc4f279c78a9ef73622743834be38cdfb8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 111/133] fix: detect_encoding keeps utf-8 when only the last
 character is incomplete

---
 spicelib/utils/detect_encoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/detect_encoding.py b/spicelib/utils/detect_encoding.py
index 9159381..a9e74bd 100644
--- a/spicelib/utils/detect_encoding.py
+++ b/spicelib/utils/detect_encoding.py
@@ -51,7 +51,10 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
             with open(file_path, encoding=encoding) as f:
                 lines = f.read()
                 f.seek(0)
-        except UnicodeDecodeError:
+        except UnicodeDecodeError as err:
+            if encoding == 'utf-8' and err.reason == 'unexpected end of data' and not err.object[:err.start].isascii():
+                # Valid up to the last character, of which only a part is there: the file is still being written.
+                return encoding
             # This encoding didn't work, let's try again
             continue
         except UnicodeError:
-- 
2.43.0


From fc7db4cd1c5824e067156ed856b418a517c1c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 112/133] fix: QspiceLogReader doesn't take an incomplete .meas
 line for values

---
 spicelib/log/qspice_log_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/log/qspice_log_reader.py b/spicelib/log/qspice_log_reader.py
index 9f6f9b9..b8a4738 100644
--- a/spicelib/log/qspice_log_reader.py
+++ b/spicelib/log/qspice_log_reader.py
@@ -169,6 +169,8 @@ class QspiceLogReader(LogfileData):
                         meas_name = token1
                     meas_expr = match.group(3)
                     _logger.debug(f"Found measure {meas_name} of type {sim_type} with expression {meas_expr}")
+                elif line.startswith('.meas'):
+                    meas_name = None  # The file ends within this line, no values follow
                 else:
                     if meas_name:
                         values = split_line_into_values(line)
-- 
2.43.0


From 21a917c2f4e0dd235fa9759dd8a32771ff4b311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 113/133] fix: LTSpiceExport doesn't take an incomplete last
 line for a row of data

---
 spicelib/log/ltsteps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 1237098..60aa314 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -205,6 +205,8 @@ class LTSpiceExport:
 
                 else:
                     values = line.rstrip('\r\n').split('\t')
+                    if len(values) != len(self.headers):
+                        continue  # The file ends within this line
 
                     for key in curr_dic:
                         self.dataset[key.lower()].append(curr_dic[key])
-- 
2.43.0


From ce0e66ba833aae5f15b055dfa61da1a151d9cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 114/133] fix: logs that grow while they are read aren't torn
 within a line

---
 spicelib/log/ltsteps.py            | 7 +++++--
 spicelib/log/qspice_log_reader.py  | 4 +++-
 spicelib/log/semi_dev_op_reader.py | 5 +++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 60aa314..7d10922 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -87,6 +87,7 @@ __author__ = "Nuno Canto Brum <nuno.brum@gmail.com>"
 __copyright__ = "Copyright 2023, Fribourg Switzerland"
 
 import dataclasses
+import io
 import os.path
 import re
 
@@ -175,7 +176,8 @@ class LTSpiceExport:
 
     def __init__(self, export_filename: str):
         self.encoding = detect_encoding(export_filename)
-        with open(export_filename, encoding=self.encoding) as fin:
+        with open(export_filename, encoding=self.encoding) as file:
+            fin = io.StringIO(file.read())  # Read in one go. If the file is growing, a line could otherwise come in parts
             file_header = fin.readline()
 
             self.headers = file_header.rstrip('\r\n').split('\t')
@@ -312,7 +314,8 @@ class LTSpiceLogReader(LogfileData):
                 re.IGNORECASE)
 
         _logger.debug(f"Processing LOG file:{log_filename}")
-        with open(log_filename, encoding=self.encoding) as fin:
+        with open(log_filename, encoding=self.encoding) as file:
+            fin = io.StringIO(file.read())  # Read in one go. If the file is growing, a line could otherwise come in parts
             line = fin.readline()
             # init variables, just in case. Not needed really, but helps debugging
             signal = None
diff --git a/spicelib/log/qspice_log_reader.py b/spicelib/log/qspice_log_reader.py
index b8a4738..982ba09 100644
--- a/spicelib/log/qspice_log_reader.py
+++ b/spicelib/log/qspice_log_reader.py
@@ -17,6 +17,7 @@
 # Created:     24-09-2023
 # License:     refer to the LICENSE file
 # -------------------------------------------------------------------------------
+import io
 import re
 import logging
 from pathlib import Path
@@ -66,7 +67,8 @@ class QspiceLogReader(LogfileData):
         step_regex = re.compile(r"^\s*(\d+) of \d+ steps:\s+\.step (.*)$")
 
         _logger.debug(f"Processing LOG file:{log_filename}")
-        with open(log_filename, encoding=self.encoding) as fin:
+        with open(log_filename, encoding=self.encoding) as file:
+            fin = io.StringIO(file.read())  # Read in one go. If the file is growing, a line could otherwise come in parts
             line = fin.readline()
             while line:
                 match = step_regex.match(line)
diff --git a/spicelib/log/semi_dev_op_reader.py b/spicelib/log/semi_dev_op_reader.py
index 45dad23..2ac5036 100644
--- a/spicelib/log/semi_dev_op_reader.py
+++ b/spicelib/log/semi_dev_op_reader.py
@@ -22,6 +22,7 @@
 Implements a parser for extracting Semiconductor Devices Operating Points from an LTSpice log file.
 """
 
+import io
 import re
 from ..utils.detect_encoding import detect_encoding
 
@@ -91,7 +92,8 @@ def opLogReader(filename: str) -> dict:
     dataset = {}
     is_title = re.compile(r"^\s*--- (.*) ---\s*$")
     encoding = detect_encoding(filename)
-    log = open(filename, encoding=encoding)
+    with open(filename, encoding=encoding) as file:
+        log = io.StringIO(file.read())  # Read in one go. If the file is growing, a line could otherwise come in parts
     where = None
     n_devices = 0
     line = None
@@ -125,5 +127,4 @@ def opLogReader(filename: str) -> dict:
                                 except ValueError:
                                     value = val
                                 dataset[where.lower()][devices[i]][param] = value
-    log.close()
     return dataset
-- 
2.43.0


From 416a4a64c1a77cfe4f1ab4267306ed7ccf0b5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:44 +0000
Subject: [PATCH 115/133] fix: QspiceLogReader doesn't take the start of an
 incomplete .meas line for a value

---
 spicelib/log/qspice_log_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/log/qspice_log_reader.py b/spicelib/log/qspice_log_reader.py
index 982ba09..2b4a4da 100644
--- a/spicelib/log/qspice_log_reader.py
+++ b/spicelib/log/qspice_log_reader.py
@@ -171,7 +171,7 @@ class QspiceLogReader(LogfileData):
                         meas_name = token1
                     meas_expr = match.group(3)
                     _logger.debug(f"Found measure {meas_name} of type {sim_type} with expression {meas_expr}")
-                elif line.startswith('.meas'):
+                elif line.startswith('.') and '.meas'.startswith(line[:5].rstrip()):
                     meas_name = None  # The file ends within this line, no values follow
                 else:
                     if meas_name:
-- 
2.43.0


From 4731fcbd0df538610e672ad9fbefd7e35c17416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 116/133] fix: SpiceEditor finds included files and libraries
 whose names are in quotes

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 13cf937..f53d0e7 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -56,7 +56,7 @@ SPICE_DOT_INSTRUCTIONS = (
 SUBCKT_CLAUSE_FIND = r"^.SUBCKT\s+"
 subckt_regex = re.compile(r"^\s*\.SUBCKT\s+(?P<name>[^\s;]+)", re.IGNORECASE)
 lib_inc_regex = re.compile(
-    r"^\.(LIB|INC(LUDE)?)\s+(?P<filename>.+?)\s*(?:[;*].*)?$",
+    r"^\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"']?)(?P<filename>.+?)(?P=quote)\s*(?:[;*].*)?$",
     re.IGNORECASE
 )
 
-- 
2.43.0


From 86446aecd8425d69e68bd8559d85aae10ef489cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 117/133] fix: SpiceEditor reads an included file in its own
 encoding

---
 spicelib/editor/spice_subcircuit.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 24ce00a..d05cb54 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -1128,10 +1128,13 @@ class IncludeFile(Primitive):
             if include_file:
                 from .spice_editor import SpiceEditor
                 try:
-                    encoding = getattr(self._netlist, 'encoding', None)
-                    if encoding is None:
-                        parent_editor = getattr(self._netlist, 'editor', None)
-                        encoding = getattr(parent_editor, 'encoding', None)
+                    try:
+                        encoding = detect_encoding(include_file)  # It isn't always the one of the netlist
+                    except EncodingDetectError:
+                        encoding = getattr(self._netlist, 'encoding', None)
+                        if encoding is None:
+                            parent_editor = getattr(self._netlist, 'editor', None)
+                            encoding = getattr(parent_editor, 'encoding', None)
                     editor = SpiceEditor(include_file, encoding=encoding, include_file=True)
                 except Exception as e:
                     _logger.error(f"Error loading library '{lib_name}': {e}")
-- 
2.43.0


From b9d86eebbd5207894682f64ff9c0398c8f1f29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 118/133] fix: clear_parameters() and clear_parameter() delete
 the parameters of a component

The parameters were set to None: the netlist was written with them, or with
name=None after another edit, and no update was recorded.
---
 spicelib/editor/primitives.py  | 10 +++-------
 spicelib/editor/qsch_editor.py |  6 ++++++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 2e2615d..9ac895c 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -281,18 +281,14 @@ class Component(Primitive):
     def clear_parameters(self):
         """Clears all parameters. It will set all existing parameters to None. This will delete them when writing
         back to file."""
-        params = self.get_parameters()
-        if params:
-            for key in params:
-                params[key] = None
+        for key in list(self.get_parameters()):
+            self.clear_parameter(key)
 
     def clear_parameter(self, key: str):
         """Clears a parameter.
         :param key:  name
         """
-        if 'params' not in self._attributes:
-            self._attributes['params'] = OrderedDict()
-        self._attributes['params'][key] = None
+        self.set_parameter(key, None)
 
     # Aliases for parameter functions
     def clear_param(self):
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index a349174..4638a02 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -449,6 +449,12 @@ class QschComponent(SchematicComponent):
     def set_parameter(self, key: str, value: float | str):
         self.set_parameters(**{key: value})
 
+    def clear_parameters(self):
+        # docstring inherited from Component
+        for key in list(self.get_parameters()):
+            if isinstance(key, str):  # The integers are the numbers of the lines
+                self.set_parameter(key, None)
+
     def set_parameters(self, **kwargs) -> None:
         """
         Sets the parameters of the component. If key parameters that are integers, they represent the line number
-- 
2.43.0


From a57812ee2dbae9795256e5a0a664ebe86d48ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 119/133] fix: a new component with many parameters can be
 saved

add_component() kept its continuation lines, which the next save couldn't parse.
---
 spicelib/editor/spice_subcircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index d05cb54..78a54a6 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -820,7 +820,8 @@ class SpiceCircuit(BaseSubCircuit):
         if not component.obj:  # The component was created by the user, and not read from a line
             line = io.StringIO()
             component.write_lines(line)
-            component._obj = line.getvalue()
+            # The lines are kept as they are when they are read, without continuation lines
+            component._obj = line.getvalue().replace(END_LINE_TERM + '+', '').rstrip() + END_LINE_TERM
         self.netlist.insert(line_no, component)
         if permission == UpdatePermission.Inform:
             self.end_update(component.reference, component.value_str, UpdateType.AddComponent)
-- 
2.43.0


From 8f5a5f4e2564f363062ec38cadbcd284a2fdf550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 120/133] fix: a component added with a lower-case reference is
 listed like the others

get_components() and the updates gave it in lower case until the netlist was
saved and read again.
---
 spicelib/editor/spice_subcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 78a54a6..af232c5 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -817,6 +817,8 @@ class SpiceCircuit(BaseSubCircuit):
                     line_no -= 1
                 break
         component._netlist = self  # From here on its updates are updates of this netlist
+        if component.reference != component.reference.upper():
+            component.reference = component.reference.upper()  # As the references read from a netlist
         if not component.obj:  # The component was created by the user, and not read from a line
             line = io.StringIO()
             component.write_lines(line)
-- 
2.43.0


From 1167c0902861547a342e397a8e7b6c3d98286c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:01 +0000
Subject: [PATCH 121/133] fix: a netlist's generator doesn't change where other
 netlists' libraries are searched

Reading a netlist of LTspice set the custom library paths of the class, and the
netlists of other programs that were read afterwards were searched there. They
were also found after the .include lines were processed.
---
 spicelib/editor/base_editor.py      |  6 +++
 spicelib/editor/spice_editor.py     | 58 ++++++++++++++---------------
 spicelib/editor/spice_subcircuit.py |  5 ++-
 3 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index c0bf9eb..f2a8a16 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -59,6 +59,12 @@ class BaseEditor(ABC):
     :meta hide-value:
     """
 
+    generator_lib_paths: list[str] = []
+    """The library paths of the program that generated the netlist. See `SpiceEditor`.
+
+    :meta hide-value:
+    """
+
     def __init__(self, circuit_filepath) -> None:
         self._circuit_filepath: Path = Path(circuit_filepath)
         self.netlist_updates = Updates()  # Keep track of updates
diff --git a/spicelib/editor/spice_editor.py b/spicelib/editor/spice_editor.py
index 7534630..60a337d 100644
--- a/spicelib/editor/spice_editor.py
+++ b/spicelib/editor/spice_editor.py
@@ -68,6 +68,7 @@ class SpiceEditor(SpiceFile):
     """
 
     def __init__(self, netlist_file: Path | str, encoding='autodetect', **kwargs):
+        self._including = kwargs.pop('including', None)  # The editor of the netlist that includes this file
         if kwargs.get('create_blank', False):
             if encoding == 'autodetect':
                 encoding = 'utf-8'
@@ -98,39 +99,34 @@ class SpiceEditor(SpiceFile):
             if not finished:
                 raise SyntaxError("Netlist with missing .END or .ENDS statements")
 
-            if not self.custom_lib_paths:
-                # See if it can find a comment specifying who generated this netlist, only checks the first
-                # 5 lines
-                lib_paths = None
-                for line in self.netlist[:5]:
-                    if isinstance(line, str):
-                        line_stripped_upped = line.strip().upper()
-                        if line.startswith('*'):
-                            if line_stripped_upped.endswith(".ASC"):
-                                from ..simulators.ltspice_simulator import LTspice
-                                lib_paths = LTspice.get_default_library_paths()
-                                _logger.info(f"Found LTspice netlist pattern.\nAdding search paths: [{lib_paths}]")
-                                break
-                            elif line_stripped_upped.endswith(".QSCH"):
-                                from ..simulators.qspice_simulator import Qspice
-                                lib_paths = Qspice.get_default_library_paths()
-                                _logger.info(f"Found Qspice netlist pattern.\nAdding search paths: [{lib_paths}]")
-                                break
-                            elif 'XYCE' in line_stripped_upped:
-                                from ..simulators.xyce_simulator import XyceSimulator
-                                lib_paths = XyceSimulator.get_default_library_paths()
-                                _logger.info(f"Found Xyce netlist pattern.\nAdding search paths: [{lib_paths}]")
-                                break
-                            elif 'NGSPICE' in line_stripped_upped:
-                                from ..simulators.ngspice_simulator import NGspiceSimulator
-                                lib_paths = NGspiceSimulator.get_default_library_paths()
-                                _logger.info(f"Found NGspice netlist pattern.\nAdding search paths: [{lib_paths}]")
-                                break
-                if lib_paths:
-                    self.set_custom_library_paths(lib_paths)
-
         return finished
 
+    @property
+    def generator_lib_paths(self) -> list[str]:
+        """The library paths of the program that generated this netlist. These only apply to this netlist, and only
+        when there aren't custom library paths."""
+        if self._including is not None:
+            return self._including.generator_lib_paths
+        # See if it can find a comment specifying who generated this netlist, only checks the first
+        # 5 lines
+        for line in self.netlist[:5]:
+            if isinstance(line, str) and line.startswith('*'):
+                line_stripped_upped = line.strip().upper()
+                if line_stripped_upped.endswith(".ASC"):
+                    from ..simulators.ltspice_simulator import LTspice as simulator
+                elif line_stripped_upped.endswith(".QSCH"):
+                    from ..simulators.qspice_simulator import Qspice as simulator
+                elif 'XYCE' in line_stripped_upped:
+                    from ..simulators.xyce_simulator import XyceSimulator as simulator
+                elif 'NGSPICE' in line_stripped_upped:
+                    from ..simulators.ngspice_simulator import NGspiceSimulator as simulator
+                else:
+                    continue
+                lib_paths = simulator.get_default_library_paths()
+                _logger.info(f"Found {simulator.__name__} netlist pattern.\nAdding search paths: [{lib_paths}]")
+                return lib_paths
+        return []
+
     def get_control_sections(self) -> list[str]:
         """
         Returns a list representing the control sections in the netlist.
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index af232c5..30e5873 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -1033,7 +1033,7 @@ class SpiceCircuit(BaseSubCircuit):
         containers.append(os.path.curdir)  # The current script directory,
         if self.editor:
             containers.extend(self.editor.simulator_lib_paths)  # The simulator's library paths
-            containers.extend(self.editor.custom_lib_paths)  # The custom library paths
+            containers.extend(self.editor.custom_lib_paths or self.editor.generator_lib_paths)  # The custom library paths
         return search_file_in_containers(library_name, *containers)
 
     def find_subckt_in_included_libs(self, subcircuit_name: str) -> 'SpiceCircuit | None':
@@ -1138,7 +1138,8 @@ class IncludeFile(Primitive):
                         if encoding is None:
                             parent_editor = getattr(self._netlist, 'editor', None)
                             encoding = getattr(parent_editor, 'encoding', None)
-                    editor = SpiceEditor(include_file, encoding=encoding, include_file=True)
+                    editor = SpiceEditor(include_file, encoding=encoding, include_file=True,
+                                         including=getattr(self._netlist, 'editor', None))
                 except Exception as e:
                     _logger.error(f"Error loading library '{lib_name}': {e}")
             else:
-- 
2.43.0


From 4a40a291a7ffc34a0ff16b1ddb862bc07142387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 122/133] fix: valid_switch doesn't drop documented switches

LTspice's -ini was passed on as '- ini'; Xyce's -nox, -linsolv and -o always
were left out and -local_variation was refused; ngspice's -D was left out
unless it gave a value, although it is documented as 'variable[=value]'.
---
 spicelib/simulators/ltspice_simulator.py | 2 +-
 spicelib/simulators/ngspice_simulator.py | 2 +-
 spicelib/simulators/xyce_simulator.py    | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/spicelib/simulators/ltspice_simulator.py b/spicelib/simulators/ltspice_simulator.py
index 2fcaecc..8f037c3 100644
--- a/spicelib/simulators/ltspice_simulator.py
+++ b/spicelib/simulators/ltspice_simulator.py
@@ -155,7 +155,7 @@ class LTspice(Simulator):
         '-FixUpSymbolFonts'   : ['-FixUpSymbolFonts'],
         # Convert the font size field of very old user - authored symbols to the modern default.
         # See Changelog.txt for application hints.
-        '-ini'                : ['- ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
+        '-ini'                : ['-ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
         '-I'                  : ['-I<path>'],  # Specify a path to insert in the symbol and file search paths.
         # Must be the last specified option.
         # No space between "-I" and < path > is allowed.
diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index e193787..f9fb387 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -153,7 +153,7 @@ class NGspiceSimulator(Simulator):
             switch_list = cls.ngspice_args[switch]
             if len(switch_list) == 2:
                 param_token = switch_list[1]
-                if param_token == '<FILE>' or param_token == '<TERM>' or (param_token == 'var_value' and '=' in parameter):
+                if param_token == '<FILE>' or param_token == '<TERM>' or (param_token == 'var_value' and parameter):
                     ret = [switch_list[0], parameter]
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index a77b48b..1e5ed98 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -92,13 +92,15 @@ class XyceSimulator(Simulator):
         # set option for redefined .params as ignore (use last), usefirst, warn or error
         '-subckt_multiplier': ['-subckt_multiplier', '<truefalse_option>'],
         # set option to true(default) or false to apply implicit subcircuit multipliers
+        '-local_variation'  : ['-local_variation', '<truefalse_option>'],
+        # set option to true(default) or false to enable local variation in UQ analysis
         '-delim'            : ['-delim', '<delim_option>'],  # <TAB|COMMA|string>   set the output file field delimiter
         '-o'                : ['-o', '<basename>'],  # <basename> for the output file(s)
         # '-l'                : ['-l', '<path>'],  # place the log output into <path>, "cout" to log to stdout
         '-per-processor'    : ['-per-processor'],  # create log file for each processor, add .<n>.<r> to log path
         '-remeasure'        : ['-remeasure', '<path>'],
         # [existing Xyce output file] recompute .measure() results with existing data
-        '-nox'              : ['-nox', 'onoff_option'],  # <on|off>               NOX nonlinear solver usage
+        '-nox'              : ['-nox', '<onoff_option>'],  # <on|off>               NOX nonlinear solver usage
         '-linsolv'          : ['-linsolv', '<solver>'],  # <solver>           force usage of specific linear solver
         '-maxord'           : ['-maxord', '<int_option>'],  # <1..5>              maximum time integration order
         '-max-warnings'     : ['-max-warnings', '<int_option>'],  # <#>           maximum number of warning messages
@@ -204,7 +206,7 @@ class XyceSimulator(Simulator):
                         pass
                     else:
                         ret = [switch_list[0], parameter]
-                elif param_token == '<plugin_list>':
+                elif param_token in ('<plugin_list>', '<solver>', '<basename>'):
                     ret = [switch_list[0], parameter]
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
-- 
2.43.0


From 7ce5f0d62cff78de3001407b8d97ad318b367f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 123/133] fix: lists returned by valid_switch can be extended

They were the lists of the class, so that later calls returned the switches
that had been added to them as well.
---
 spicelib/simulators/ngspice_simulator.py | 2 +-
 spicelib/simulators/xyce_simulator.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index f9fb387..feb6b37 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -158,7 +158,7 @@ class NGspiceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)  # the caller may change it
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index 1e5ed98..7d2ddc5 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -211,7 +211,7 @@ class XyceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)  # the caller may change it
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
-- 
2.43.0


From 53d4d9db37d22bbd5dcd74d22e3f7684325c0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:00 +0000
Subject: [PATCH 124/133] fix: a run uses the switches set when it was
 requested

The task shared the list of the runner (or of the caller), so switches added or cleared
before its thread started the simulator were applied to a run that was already requested.
---
 spicelib/sim/sim_runner.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index dee0991..ea86478 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -564,6 +564,9 @@ class SimRunner(AnyRunner):
         if switches is None:
             switches = []
         run_netlist_file = self._prepare_sim(netlist, run_filename)
+        # If switches are passed, they override the ones inside the class. A copy is made because the lists can be
+        # changed before the simulator is started.
+        cmdline_switches = list(switches or self.cmdline_switches)
         # The edits that are being simulated. While waiting for a free slot, the editor can be changed.
         edits = copy(netlist.netlist_updates) if isinstance(netlist, BaseEditor) else None
 
@@ -572,9 +575,6 @@ class SimRunner(AnyRunner):
 
         t0 = clock()  # Store the time for timeout calculation
         while timeout is None or clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
-            cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones
-            # inside the class.
-
             if (wait_resource is False) or (self.active_threads() < self.parallel_sims):
                 t = RunTask(
                     simulator=self.simulator, runno=self._runno, netlist_file=run_netlist_file,
@@ -621,8 +621,9 @@ class SimRunner(AnyRunner):
             switches = []
         run_netlist_file = self._prepare_sim(netlist, run_filename)
 
-        cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones inside
-        # the class.
+        # If switches are passed, they override the ones inside the class. A copy is made because the lists can be
+        # changed before the simulator is started.
+        cmdline_switches = list(switches or self.cmdline_switches)
 
         if timeout is None:
             timeout = self.timeout
-- 
2.43.0


From 7af03649a033d4741d836a0ce4fb3cd0022d5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:00 +0000
Subject: [PATCH 125/133] fix: a callback receives the arguments given when the
 run was requested

The dictionary of the caller was kept by reference, so reusing it for the next run
changed the arguments of the callbacks still to be called.
---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index ea86478..0578c55 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -510,7 +510,7 @@ class SimRunner(AnyRunner):
                 # Convert into a dictionary
                 return {param: callback_args[pos - 2] for pos, param in enumerate(args) if pos > 1}
             else:
-                return callback_args
+                return dict(callback_args)  # The caller can change its dictionary before the callback is called
 
     def run(self, netlist: str | Path | BaseEditor, *,
             wait_resource: bool = True,
-- 
2.43.0


From 7d111891a4c97e87fe43976d4537926351dcc2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:40 +0000
Subject: [PATCH 126/133] fix: refuse a stepped plot without an axis whose
 points do not match the steps in the log

Plots with an axis are refused already; without one, export() left out the
points of the steps that are not (yet) in the log file.
---
 spicelib/raw/plot_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 472a80c..a503f73 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -321,6 +321,11 @@ class PlotData(PlotInterface):
             except SpiceReadException as err:
                 _logger.warning(f"Plot nr. {self._plot_nr}: {str(err)}\nError in auto-detecting steps in '{raw_filename}'")
                 steps_unknown = True  # will be counted on the axis, when its data is available
+            else:
+                if not self._has_axis and len(self._steps) != self._nPoints:
+                    # without an axis there is one point per step
+                    raise SpiceReadException("The file a different number of steps than expected.\n" +
+                                             "Expecting %d got %d" % (len(self._steps), self._nPoints))
 
         if self._verbose:
             _logger.info(f"Plot nr. {self._plot_nr}: Plot read successfully.")
-- 
2.43.0


From 41f08e927bddacfc53fab53446570ed5775e508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:29 +0000
Subject: [PATCH 127/133] fix: flags of components, such as "off", are read and
 kept

A component with a flag before a parameter made every access to the netlist
raise, a flag at the end was lost when another parameter was edited, and the
'=' or ',' after a space was ignored.
---
 spicelib/editor/spice_components.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 27eb264..ce5000a 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -106,8 +106,8 @@ def tokenize_params(params_str: str) -> list[str]:
             case c if c in (',', '=') and in_quotes is None and not in_func_decl:
                 if current_token:
                     tokens.append(current_token.strip())
-                    tokens.append(c)
                     current_token = ""
+                tokens.append(c)
             case c if c.isspace() and in_quotes is None and not in_func_decl:
                 if current_token:
                     tokens.append(current_token.strip())
@@ -148,6 +148,7 @@ def _parse_params(params_str: str) -> dict:
 
     key = None # current key being parsed, we expect the next token to be its value
     last_key = None  # last key parsed, we expect the next token to be a comma if we are parsing a list of values for the same key
+    assigned = False  # whether a '=' was found after the current key
     # var_type = None # if the current token is a type qualifier, we store it here and apply it to the next key we find
     is_list = False  #
 
@@ -155,6 +156,7 @@ def _parse_params(params_str: str) -> dict:
         if token == '=':
             if key is None:
                 raise ValueError(f"Unexpected '=' without a key before it in parameters string: {params_str}")
+            assigned = True
             continue
         elif token == ',':
             if last_key and last_key in params:
@@ -163,6 +165,9 @@ def _parse_params(params_str: str) -> dict:
                 raise ValueError(f"Unexpected ',' without a value after it in parameters string: {params_str}")
         else:
             value = try_value(token)
+            if key is not None and not assigned:  # The word before has no value. It's a flag, such as "off"
+                params[key] = True
+                key = None
             if is_list:
                 if last_key is None:
                     raise ValueError(f"Unexpected value '{token}' without a key in parameters string: {params_str}")
@@ -187,6 +192,7 @@ def _parse_params(params_str: str) -> dict:
                         params[last_key] = f"{params[last_key]} {token}"
                 else:
                     key = token
+                    assigned = False
             else:
                 # if var_type:
                 #    # if there is a type qualifier, we prepend it to the key
@@ -197,6 +203,8 @@ def _parse_params(params_str: str) -> dict:
                 last_key = key
                 key = None
 
+    if key is not None and not assigned:
+        params[key] = True
     return params
 
 def _insert_section(line: str, start: int, end: int, section: str) -> str:
@@ -347,7 +355,10 @@ class SpiceComponent(Component):
                             value_str = ','.join(str(v) for v in value)
                         else:
                             value_str = str(value)
-                        new_params.append(f"{key}={value_str}")
+                        if value is True and key not in SPICE_KEYWORDS:
+                            new_params.append(key)  # a flag, such as "off"
+                        else:
+                            new_params.append(f"{key}={value_str}")
                     new_params_str = ' '.join(new_params)
                     if start == -1 and stop == -1:
                         # params were not present in the original line, we need to add them at the end, or just before the comment if there is one
@@ -405,11 +416,10 @@ class SpiceComponent(Component):
             if line_size == 0:
                 count += stream.write("+") # continuation line
                 line_size = 1
-            if key in SPICE_KEYWORDS:
-                if value is True:
-                    chars = stream.write(f" {key}")
-                else:
-                    chars = 0
+            if value is True:  # a flag
+                chars = stream.write(f" {key}")
+            elif key in SPICE_KEYWORDS:
+                chars = 0
             else:
                 chars = stream.write(f" {key}={value}")
             count += chars
-- 
2.43.0


From 5a6f27c8f16a81f966ae71b2f7f3d220639aff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 128/133] fix: the file of a "PWL file=" source is part of its
 value

---
 spicelib/editor/spice_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index f53d0e7..c0efa38 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -195,7 +195,7 @@ REPLACE_REGEXS : Dict[str, str] = {
     # Ixxx n+ n- R=<value>
     # Ixxx n+ n- PWL(t1 i1 t2 i2 t3 i3...)
     # Ixxx n+ n- wavefile=<filename> [chan=<nnn>]
-    'I': PREFIX_AND_NODES_RGX("I", 2) + MAYBE_VALUE_RGX + r"(?P<params>(\s+\w+\s*=\s*[\w\{\}\(\)\-\+\*\/%\.\,'\"\s]+)*)" + COMMENT_RGX,  # Independent Current Source
+    'I': PREFIX_AND_NODES_RGX("I", 2) + MAYBE_VALUE_RGX + r"(?P<params>(\s+(?!file\s*=)\w+\s*=\s*[\w\{\}\(\)\-\+\*\/%\.\,'\"\s]+)*)" + COMMENT_RGX,  # Independent Current Source
     # Jxxx D G S <model> [area] [off] [IC=Vds, Vgs] [temp=T]
     'J': PREFIX_AND_NODES_RGX("J", 3) + MODEL_OR_VALUE_RGX + PARAM_RGX,  # JFET
     # Kxxx Lyyy Lzzz ... value
@@ -234,7 +234,7 @@ REPLACE_REGEXS : Dict[str, str] = {
     # Vxxx n+ n- PWL(t1 v1 t2 v2 t3 v3...)
     # Vxxx n+ n- wavefile=<filename> [chan=<nnn>]
     # ex: V1 NC_08 NC_09 PWL(1u 0 +2n 1 +1m 1 +2n 0 +1m 0 +2n -1 +1m -1 +2n 0) AC 1 2 Rser=3 Cpar=4
-    'V': PREFIX_AND_NODES_RGX("V", 2) + MAYBE_VALUE_RGX + r"(?P<params>(\s+\w+\s*=\s*[\w\{\}\(\)\-\+\*\/%\.\,'\"\s]+)*)" + COMMENT_RGX,  # Independent Voltage Source
+    'V': PREFIX_AND_NODES_RGX("V", 2) + MAYBE_VALUE_RGX + r"(?P<params>(\s+(?!file\s*=)\w+\s*=\s*[\w\{\}\(\)\-\+\*\/%\.\,'\"\s]+)*)" + COMMENT_RGX,  # Independent Voltage Source
     # Wxxx n1 n2 Vnam <model> [on,off]
     'W': PREFIX_AND_NODES_RGX("W", 3) + ANY_VALUE_RGX,  # Current Controlled Switch
     # Xxxx n1 n2 n3... <subckt name> [<parameter>=<expression>]
-- 
2.43.0


From c7e6ea7cdfc6bfaaa8abab085ca3ef2c419d3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:30 +0000
Subject: [PATCH 129/133] fix: reset_tolerances clears the tolerances of the
 prefixes too

---
 spicelib/sim/tookit/tolerance_deviations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index b13cbbd..9c79566 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -87,6 +87,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
         """
         Clears all the settings for the simulation
         """
+        self.default_tolerance = {prefix: ComponentDeviation.none() for prefix in self.devices_with_deviation_allowed}
         self.device_deviations.clear()
         self.parameter_deviations.clear()
         self.testbench_prepared = False
-- 
2.43.0


From 01bfd00147ee9d5eeac9e5eb35e17a6969a6cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:46 +0000
Subject: [PATCH 130/133] fix: the rounding of a sweep's values doesn't take
 the last point away

---
 spicelib/utils/sweep_iterators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index 496b7a6..4fd5b54 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -79,7 +79,8 @@ class sweep(BaseIterator):
     def __next__(self):
         val = self.start + self.niter * self.step
         self.niter += 1
-        if (self.step > 0 and val <= self.stop) or (self.step < 0 and val >= self.stop):
+        margin = abs(self.step) * 1e-9  # The rounding of the floating point doesn't take the last value away
+        if (self.step > 0 and val <= self.stop + margin) or (self.step < 0 and val >= self.stop - margin):
             return val
         else:
             self.finished = True
@@ -133,8 +134,9 @@ class sweep_log(BaseIterator):
     def __next__(self):
         val = self.val  # Store previous value
         self.val *= self.step  # Calculate the next item
-        if (self.start < self.stop and val <= self.stop) or \
-           (self.start > self.stop and val >= self.stop):
+        margin = abs(self.stop) * 1e-9  # The rounding of the floating point doesn't take the last value away
+        if (self.start < self.stop and val <= self.stop + margin) or \
+           (self.start > self.stop and val >= self.stop - margin):
             return val
         else:
             self.finished = True
-- 
2.43.0


From 19d1b85b949291b62f41c75f916cb33bbaa40beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:14 +0000
Subject: [PATCH 131/133] fix: a switch added without a path doesn't pass an
 empty argument to the simulator

---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 0578c55..a4bee35 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -418,7 +418,7 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         """
         self.cmdline_switches.append(switch)
-        if path is not None:
+        if path:
             self.cmdline_switches.append(path)
 
     def _on_output_folder(self, afile):
-- 
2.43.0


From a9af1433ffebd10843db00a5d526328c11d9f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:36 +0000
Subject: [PATCH 132/133] fix: an instance gives the parameters of its
 sub-circuit as items

---
 spicelib/editor/spice_subcircuit_instance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 61b58dc..724a6ac 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -128,7 +128,10 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         elif item.upper() in self.get_components():  # The names aren't case-sensitive
             return self.get_component(item) # pyright: ignore[reportReturnType]
         elif item.upper() in self.get_all_parameter_names():
-            return self.get_parameter(item)
+            for name, value in self.get_parameters().items():  # The value given by the instance comes first
+                if name.upper() == item.upper():
+                    return value
+            return self.subcircuit.get_parameter(item)
         else:
             raise KeyError(f'Key "{item}" not found as component or parameter in subcircuit "{self.value}".')
 
-- 
2.43.0


From 768584781ca03ea38f50f1050fd2cf499821001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:30 +0000
Subject: [PATCH 133/133] fix: AscEditor.get_component_parameters() raised
 TypeError for components inside a library sub-circuit

---
 spicelib/editor/asc_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 8a9b5fe..87433be 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -642,6 +642,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def get_component_parameters(self, element: str, as_dicts: bool = False) -> dict:
         # docstring inherited from BaseSubCircuit
+        sub_circuit, ref = self._get_parent(element)
+        if isinstance(sub_circuit, SpiceCircuit):  # It's inside a sub-circuit of a library
+            return sub_circuit.get_component_parameters(ref)
         component: AscComponent = self.get_component(element) # pyright: ignore[reportAssignmentType]
         parameters = component.get_parameters(as_dicts)
         return parameters
-- 
2.43.0

