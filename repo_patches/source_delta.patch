From 65dcc2d66858a6aa3223dcabe099c3556bdd47e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 001/144] fix: measure the wait for a free simulation slot in
 elapsed time, not in CPU time of the calling thread

SimRunner.run() used thread_time(), which hardly advances while sleeping, so the timeout for
waiting on resources practically never expired.
---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index ac882cf..5f5c403 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -106,7 +106,7 @@ import logging
 import shutil
 import time
 from pathlib import Path
-from time import sleep, thread_time as clock
+from time import sleep, monotonic as clock
 from typing import Protocol, Any, TypeAlias
 
 from collections.abc import Callable, Iterator
-- 
2.43.0


From 72ec3d0dab7ef8c33347f642ab8199d59cd37780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 002/144] fix: accept timeout=None (no timeout) in
 SimRunner.run() and run_now()

The documented value None for 'no timeout' raised a TypeError when launching a simulation.
---
 spicelib/sim/sim_runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 5f5c403..db0bacd 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -563,7 +563,7 @@ class SimRunner(AnyRunner):
             timeout = self.timeout
 
         t0 = clock()  # Store the time for timeout calculation
-        while clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
+        while timeout is None or clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
             cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones
             # inside the class.
 
@@ -629,7 +629,7 @@ class SimRunner(AnyRunner):
             t.edits = netlist.netlist_updates  # Copy is made in this assignment
         t.start()
         sleep(0.01)  # Give slack for the thread to start
-        t.join(timeout + 1)  # Give one second slack in relation to the task timeout
+        t.join(None if timeout is None else timeout + 1)  # Give one second slack in relation to the task timeout
         self.completed_tasks.append(t)
         if t.retcode == 0:
             self._okSim += 1
-- 
2.43.0


From 37f2f434d41113029294b7c615d2afbfda86dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 003/144] fix: add_command_line_switch() no longer appends an
 empty argument when no path is given

---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index db0bacd..11713c7 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -412,7 +412,7 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         """
         self.cmdline_switches.append(switch)
-        if path is not None:
+        if path:
             self.cmdline_switches.append(path)
 
     def _on_output_folder(self, afile):
-- 
2.43.0


From ffddbf8dd5ead66118c208a135957e27206237ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 004/144] fix: callbacks without __name__ (callable objects,
 functools.partial) are called as well

The log message before the call raised AttributeError and killed the task's thread.
---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 5998ed3..b4ab1b5 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -163,7 +163,7 @@ class RunTask(threading.Thread):
                 callback_print = ', '.join([f"{key}={value}" for key, value in self.callback_args.items()])
             else:
                 callback_print = ''
-            self.print_info(_logger.info, f"Simulation Finished. Calling...{self.callback.__name__}(rawfile, logfile{callback_print})")
+            self.print_info(_logger.info, f"Simulation Finished. Calling...{getattr(self.callback, '__name__', repr(self.callback))}(rawfile, logfile{callback_print})")
             try:
                 if self.callback_args is not None:
                     return_or_process = self.callback(self.raw_file, self.log_file, **self.callback_args)
-- 
2.43.0


From 17cce04afb90e9f38183237cdbdcc031bbe02e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 005/144] fix: RunTask.wait_results() returned never when the
 simulator's return code was -1

---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index b4ab1b5..074d3c4 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -213,6 +213,6 @@ class RunTask(threading.Thread):
         
         :returns: Tuple with the path to the raw file and the path to the log file. See get_results() for more details.
         """
-        while self.is_alive() or self.start_time is None or self.retcode == -1:
+        while self.is_alive() or self.start_time is None:
             sleep(0.1)
         return self.get_results()
-- 
2.43.0


From 316279e356108f0b3a52837d459c6ded036e7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 006/144] fix: a callback process that ends without a result no
 longer blocks its task forever

If the callback of a ProcessCallback raises, nothing is put on the queue, and the task's thread
waited for it forever: the run never completed and its slot was never released.
---
 spicelib/sim/run_task.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 074d3c4..a24b8cc 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -30,6 +30,7 @@ import traceback
 from collections.abc import Callable
 from copy import copy
 from pathlib import Path
+from queue import Empty
 from time import sleep
 from typing import Any
 
@@ -176,7 +177,7 @@ class RunTask(threading.Thread):
                 if isinstance(return_or_process, ProcessCallback):
                     proc = return_or_process
                     proc.start()
-                    self.callback_return = proc.queue.get()
+                    self.callback_return = self._process_callback_result(proc)
                     proc.join()
                 else:
                     self.callback_return = return_or_process
@@ -189,6 +190,18 @@ class RunTask(threading.Thread):
             self.print_info(_logger.debug, "Simulation Callback not called.")
             self.callback_return = None
 
+    @staticmethod
+    def _process_callback_result(proc: ProcessCallback) -> Any:
+        """Waits for the result of the callback process. Returns None if the process ended without giving a result,
+        which is the case when the callback raised an exception."""
+        while True:
+            alive = proc.is_alive()
+            try:
+                return proc.queue.get(timeout=0.2)
+            except Empty:
+                if not alive:
+                    return None
+
     def get_results(self) -> Any | tuple[str, str] | None:
         """
         Returns the simulation outputs if the simulation and callback function has already finished.
-- 
2.43.0


From f8bd0c897224f2c84d3b067b8093a5f85de2fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 007/144] fix: SimRunner.wait_completion() resets its timeout
 when a simulation completes, as documented

---
 spicelib/sim/sim_runner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 11713c7..67826b0 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -719,11 +719,15 @@ class SimRunner(AnyRunner):
             stop_time = time.time() + timeout
         else:
             stop_time = None
+        pending = len(self.active_tasks)
         while len(self.active_tasks) > 0:
             sleep(1)
             self.update_completed()
             if timeout is None:
                 stop_time = self._maximum_stop_time()
+            elif len(self.active_tasks) != pending:
+                pending = len(self.active_tasks)
+                stop_time = time.time() + timeout  # A simulation was completed, so the timeout is reset
             if stop_time is not None:  # This can happen if timeout was set as none everywhere
                 if time.time() > stop_time:
                     if abort_all_on_timeout:
-- 
2.43.0


From 28223f045c5352ac55c6f5c86e96a88470972459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 008/144] fix: iterating over a runner returns the raw and log
 files of simulations made with run_now()

The dummy callback used by run_now() made the iterator return None for them, as if a callback
had been given by the user.
---
 spicelib/sim/sim_runner.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 67826b0..fc57545 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -615,13 +615,9 @@ class SimRunner(AnyRunner):
         if timeout is None:
             timeout = self.timeout
 
-        def dummy_callback(raw, log):
-            """Dummy call back that does nothing"""
-            return None
-
         t = RunTask(
             simulator=self.simulator, runno=self._runno, netlist_file=run_netlist_file,
-            callback=dummy_callback, callback_args=None,
+            callback=None, callback_args=None,
             switches=cmdline_switches, timeout=timeout, verbose=self.verbose,
             cwd=self.cwd, callback_on_error=False, exe_log=exe_log
         )
-- 
2.43.0


From 40b90393e735c35cfd1a8e6ffe5b2fa38571c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 009/144] fix: cleanup_files() also deletes the raw file left
 behind by a failed simulation

---
 spicelib/sim/sim_runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index fc57545..2be4b7d 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -767,6 +767,8 @@ class SimRunner(AnyRunner):
             self._del_file_if_exists(task.log_file)  # Delete the log file if was created
             self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created
             self._del_file_if_exists(task.raw_file)  # Delete the raw file if was created
+            # A failed simulation has no raw file, but the simulator may have written (part of) it anyway
+            self._del_file_ext_if_exists(netlistfile, task.simulator.raw_extension)
 
             if netlistfile.suffix == '.net' or netlistfile.suffix == '.asc':
                 # Delete the files that have been potentially created by LTSpice
-- 
2.43.0


From 5d069507bf3091d047a4549a6c4d55fcd675e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 010/144] fix: a SPICE continuation line separates tokens even
 without a space after the '+'

---
 spicelib/editor/spice_subcircuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index def7fc9..f63780c 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -129,7 +129,10 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
             if not (braces_stack or in_quotes):
                 next_char = stream.read(1)
                 if next_char == '+':
-                    next_char = None  # line continuation, ignore the newline and the '+'
+                    # line continuation: the newline and the '+' are ignored, but they still separate two tokens
+                    next_char = stream.read(1)
+                    if current_line[-1:].strip() and next_char.strip():
+                        current_line += ' '
                 elif next_char == '\n' and char=='\r' or next_char == '\r' and char=='\n':
                     # This is a Windows style line break, we need to consume the next character as well
                     # Next iteration will trigger the end of line, so we just ignore it here
-- 
2.43.0


From 457c7cb0559c01a18e69b18c2054aeb1f4270739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 011/144] fix: edits of the value and the parameters of one
 component, or of a multi-line component, corrupted its netlist line

---
 spicelib/editor/spice_components.py | 31 +++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index fb12595..44a6f18 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -218,6 +218,11 @@ def _insert_section(line: str, start: int, end: int, section: str) -> str:
     line = line.strip()
     return line
 
+def join_continuation_lines(lines: str) -> str:
+    """Joins the lines of a component, removing line breaks and the continuation marks '+' that follow them."""
+    return re.sub(r'[\n\r]+\s*\+?[ \t]*', ' ', lines)
+
+
 class SpiceComponent(Component):
     """
     Represents a SPICE component in the netlist. It allows the manipulation of the parameters and the value of the
@@ -257,7 +262,7 @@ class SpiceComponent(Component):
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        new_line = re.sub(r'[\n\r]+\s*', ' ', self._obj) # cleans up line breaks and extra spaces and tabs
+        new_line = join_continuation_lines(self._obj) # cleans up line breaks and extra spaces and tabs
         match = regex.match(new_line)
         if match is None or match.span() == (0, 0):
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
@@ -297,18 +302,14 @@ class SpiceComponent(Component):
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        match = regex.match(self._obj)
+        new_line: str = join_continuation_lines(self._obj)  # this is the text in which the attributes were found
+        match = regex.match(new_line)
         if match is None:
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
         info = match.groupdict()
-        if self._obj is not None:
-            new_line: str = self._obj[:]  # make a copy
-        else:
-            new_line = ''
-        new_line = re.sub(r'[\n\r]+\s*', ' ', new_line)
-        offset = 0
         update_done = False
-        for attr in info:
+        # Sections are replaced from the end to the start, so that the positions of the ones to replace don't change
+        for attr in reversed(list(info)):
             start, stop = match.span(attr)
             if start == -1 and stop == -1 and attr not in self._attributes:
                 continue  # this attribute is not present in the line, skip it
@@ -319,15 +320,13 @@ class SpiceComponent(Component):
                         new_ref = self.reference[0] + '§' + self.reference[1:]
                     else:
                         new_ref = self.reference
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_ref)
-                    offset += len(new_ref) - len(old_ref)
+                    new_line = _insert_section(new_line, start, stop, new_ref)
                     update_done = True
             elif attr == 'nodes':
                 old_nodes_str = info[attr]
                 new_nodes_str = ' ' + self.port_names(' ')
                 if old_nodes_str != new_nodes_str:
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_nodes_str)
-                    offset += len(new_nodes_str) - len(old_nodes_str)
+                    new_line = _insert_section(new_line, start, stop, new_nodes_str)
                     update_done = True
             elif attr == 'params':
                 old_params_str = info[attr] or ""  # in case of no params, make it empty string
@@ -363,8 +362,7 @@ class SpiceComponent(Component):
                         else:
                             new_line += ' ' + new_params_str
                     else:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_params_str)
-                    offset += len(new_params_str) - len(old_params_str)
+                        new_line = _insert_section(new_line, start, stop, new_params_str)
                     update_done = True
             else:
                 if hasattr(self, attr):
@@ -373,8 +371,7 @@ class SpiceComponent(Component):
                     if isinstance(new_attr_value, (float, int)):
                         new_attr_value = format_eng(new_attr_value)
                     if old_attr_value != new_attr_value:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_attr_value)
-                        offset += len(new_attr_value) - len(old_attr_value)
+                        new_line = _insert_section(new_line, start, stop, new_attr_value)
                         update_done = True
                 else:
                     pass  # attribute not present, do nothing
-- 
2.43.0


From 5da70c19b749ec9241786db02f918ea55959b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 012/144] fix: deleting the last parameter of a component was
 not written to the netlist

---
 spicelib/editor/spice_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 44a6f18..94cc1dc 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -361,6 +361,9 @@ class SpiceComponent(Component):
                             new_line = new_line[:comment_index].rstrip() + ' ' + new_params_str + ' ' + new_line[comment_index:]
                         else:
                             new_line += ' ' + new_params_str
+                    elif not new_params_str:
+                        # all the parameters were deleted
+                        new_line = (new_line[:start].rstrip() + new_line[stop:]).rstrip()
                     else:
                         new_line = _insert_section(new_line, start, stop, new_params_str)
                     update_done = True
-- 
2.43.0


From 25e97b967c750f41a59bfa034ef6328a2cc7335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 013/144] fix: set_parameter(name, None) no longer adds the
 parameter 'name=None' when there is no such parameter

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index f63780c..43db26f 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -641,7 +641,7 @@ class SpiceCircuit(BaseSubCircuit):
                                                                f"{value_str}") + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
                     self.end_update(param, value_str, UpdateType.UpdateParameter)
-        else:
+        elif value is not None:
             # Was not found
             # the last two lines are typically (.backano and .end)
             insert_line = len(self.netlist) - 2
-- 
2.43.0


From 767e62fc0461f2152f3bb1985c04101235689ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 014/144] fix: a failed or empty edit inside a subcircuit
 instance renamed the instance to a copy that is never written

---
 spicelib/editor/spice_subcircuit_instance.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index bc79aaa..5b5a531 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -82,22 +82,20 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
 
     def begin_update(self) -> UpdatePermission:
         netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
-        permission = netlist.begin_update()
-        if permission == UpdatePermission.Inform and self.was_modified is False:
-            # First update => Also update the subcircuit
-            if permission == UpdatePermission.Inform:
-                old_name = self.value_str
-                netlist.end_update(f'CLONE({old_name})', old_name, UpdateType.CloneSubcircuit)
-                name = self.subcircuit.name()
-                Component.set_value(self, name)  # Jumps the update tracking
-                netlist.end_update(self.reference, name, UpdateType.UpdateComponentValue)
-        return permission
+        return netlist.begin_update()
 
     def end_update(self, name: str, value: ValueType | None, updates: UpdateType):
         # Make sure the modification is registered
+        netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
+        clone_name = self.subcircuit.name()
+        old_name = self.value_str
+        if old_name != clone_name:
+            # First update => the instance now uses its own copy of the subcircuit
+            netlist.end_update(f'CLONE({old_name})', old_name, UpdateType.CloneSubcircuit)
+            Component.set_value(self, clone_name)  # Jumps the update tracking
+            netlist.end_update(self.reference, clone_name, UpdateType.UpdateComponentValue)
         self.shadow_subcircuit._modified = True
         # Redirect the update to the parent
-        netlist: BaseSubCircuit = self._netlist # pyright: ignore[reportAssignmentType]
         netlist.end_update(f"{self.reference}:{name}", value, updates)
 
     def reset_netlist(self, **kwargs) -> bool:
-- 
2.43.0


From 0488ce10222969c652f8c3e409c8e5108ded50d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 015/144] fix: lines added to a netlist that has comments or
 blank lines after .END were written after .END

---
 spicelib/editor/spice_file.py       |  2 +-
 spicelib/editor/spice_subcircuit.py | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index ae56de0..84e7700 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -69,7 +69,7 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         # TODO: if adding a .MODEL or .SUBCKT it should verify if it already exists and update it.
 
         # Insert at the end
-        line = len(self.netlist) - 1
+        line = self._end_line()
         # If there is .backanno, then it will be added just before that statement
         for nr, linecontent in enumerate(self.netlist):
             if isinstance(linecontent, Primitive): # only Primitive can have .backanno
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 43db26f..171b9ce 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -247,6 +247,20 @@ class SpiceCircuit(BaseSubCircuit):
             else:
                 raise RuntimeError("Unknown primitive type found in netlist")
 
+    def _end_line(self) -> int:
+        """Internal function. Do not use. Returns the index of the .END or .ENDS clause (comments can follow it)."""
+        for line_no in range(len(self.netlist) - 1, -1, -1):
+            line = self.netlist[line_no]
+            if type(line) is Primitive and get_line_command(line).startswith('.END'):
+                return line_no
+        return len(self.netlist)
+
+    def _insertion_line(self) -> int:
+        """Internal function. Do not use. Returns the index where new lines are inserted: before .END, and in the
+        main netlist also before the line that precedes it (which typically is .backanno)"""
+        end_line = self._end_line()
+        return end_line if self.parent is not None or end_line <= 1 else end_line - 1
+
     def _get_parameter_named(self, param_name) -> tuple[int, re.Match | None, list | None]:
         """
         Internal function. Do not use. Returns a line starting with command and matching the search with the regular
@@ -644,7 +658,7 @@ class SpiceCircuit(BaseSubCircuit):
         elif value is not None:
             # Was not found
             # the last two lines are typically (.backano and .end)
-            insert_line = len(self.netlist) - 2
+            insert_line = self._insertion_line()
             term = Primitive(netlist=self, obj=f'.PARAM {param}={value_str}  ; Batch instruction' + END_LINE_TERM)
             self.netlist.insert(insert_line, term)
             if permission == UpdatePermission.Inform:
@@ -793,7 +807,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line_no = self.netlist.index(
                     '.backanno\n')  # TODO: Improve this. END of line termination could be differnt
             except ValueError:
-                line_no = len(self.netlist) - 2
+                line_no = self._insertion_line()
 
         self.netlist.insert(line_no, component)
         if permission == UpdatePermission.Inform:
@@ -886,7 +900,7 @@ class SpiceCircuit(BaseSubCircuit):
 
         # Insert at the end
         primitive = self.class_for_instruction(instruction, cmd)
-        line = len(self.netlist) - 1  # Just before the ENDS
+        line = self._end_line()  # Just before the ENDS
         self.netlist.insert(line, primitive)
 
     def remove_instruction(self, instruction) -> bool:
-- 
2.43.0


From 5b2a41d2d82b4c6e105771f64f4d2c1c3c344d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 016/144] fix: an instruction added to a subcircuit of an
 instance was neither written nor recorded as an update

---
 spicelib/editor/spice_subcircuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 171b9ce..1c62d99 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -879,6 +879,9 @@ class SpiceCircuit(BaseSubCircuit):
 
     def add_instruction(self, instruction: str) -> None:
         # docstring in parent class
+        permission = self.begin_update()
+        if permission == UpdatePermission.Deny:
+            raise ValueError("Editor is read-only")
         cmd = get_line_command(instruction)
         if _is_unique_instruction(cmd):
             raise RuntimeError(f"Simulation directives like \"{cmd}\" can't be set on sub-circuits")
@@ -902,6 +905,8 @@ class SpiceCircuit(BaseSubCircuit):
         primitive = self.class_for_instruction(instruction, cmd)
         line = self._end_line()  # Just before the ENDS
         self.netlist.insert(line, primitive)
+        if permission == UpdatePermission.Inform:
+            self.end_update('INSTRUCTION', instruction.strip(), UpdateType.AddInstruction)
 
     def remove_instruction(self, instruction) -> bool:
         # docstring is in the parent class
-- 
2.43.0


From 69eef099c09385bc2adc3e627438a615420a4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 017/144] fix: add_component() replaces the component that has
 the same reference, as documented

---
 spicelib/editor/spice_subcircuit.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 1c62d99..db63500 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -795,12 +795,19 @@ class SpiceCircuit(BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
+        old_line_no = None
+        for nr, line in enumerate(self.netlist):
+            if isinstance(line, SpiceComponent) and line.reference.upper() == component.reference.upper():
+                old_line_no = nr  # It already exists, so it is replaced
+                break
         if 'insert_before' in kwargs:
             comp = self.get_component(kwargs['insert_before'])
             line_no = self.netlist.index(comp)
         elif 'insert_after' in kwargs:
             comp = self.get_component(kwargs['insert_after'])
             line_no = self.netlist.index(comp) + 1
+        elif old_line_no is not None:
+            line_no = old_line_no
         else:
             # Insert before backanno instruction
             try:
@@ -810,6 +817,9 @@ class SpiceCircuit(BaseSubCircuit):
                 line_no = self._insertion_line()
 
         self.netlist.insert(line_no, component)
+        component._netlist = self
+        if old_line_no is not None:
+            del self.netlist[old_line_no if old_line_no < line_no else old_line_no + 1]
         if permission == UpdatePermission.Inform:
             self.end_update(component.reference, component.value_str, UpdateType.AddComponent)
 
-- 
2.43.0


From f88ea8c49d0deb7e25b899845fb76a3493d93dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 018/144] fix: a netlist with a quoted file name in an .include
 or .lib statement could not be saved, or its models not found

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index db63500..e7f2983 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -1048,7 +1048,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj # pyright: ignore[reportAssignmentType]
             m = lib_inc_regex.match(line)
             if m:  # If it is a library include
-                lib = m.group('filename')
+                lib = m.group('filename').strip('"\'')
                 lib_filename = self.find_library(lib)
                 if lib_filename:
                     sub_circuit = self.find_subckt_in_lib(lib_filename, subcircuit_name)
@@ -1120,7 +1120,7 @@ class IncludeFile(Primitive):
         m = lib_inc_regex.match(self._obj)
         editor = None
         if m:
-            lib_name = m.group('filename')
+            lib_name = m.group('filename').strip('"\'')
             include_file = self._netlist.find_library(lib_name)
             if include_file:
                 from .spice_editor import SpiceEditor
-- 
2.43.0


From 1d9bb327355afe38d1dcd06349f0a593906145e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 019/144] fix: component['value'] = x, clear_parameter() and
 clear_parameters() are written and recorded like other edits

---
 spicelib/editor/primitives.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index d37a4ea..3245491 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -209,9 +209,7 @@ class Component(Primitive):
 
     def __setitem__(self, key, value):
         if key in VALUE_IDs:
-            if isinstance(value, str):
-                value = to_float(value, accept_invalid=True)
-            self.attributes['value'] = value
+            self.set_value(value)
         else:
             self.set_parameter(key, value)
 
@@ -282,18 +280,14 @@ class Component(Primitive):
     def clear_parameters(self):
         """Clears all parameters. It will set all existing parameters to None. This will delete them when writing
         back to file."""
-        params = self.get_parameters()
-        if params:
-            for key in params:
-                params[key] = None
+        for key in list(self.get_parameters()):
+            self.set_parameter(key, None)
 
     def clear_parameter(self, key: str):
         """Clears a parameter.
         :param key:  name
         """
-        if 'params' not in self._attributes:
-            self._attributes['params'] = OrderedDict()
-        self._attributes['params'][key] = None
+        self.set_parameter(key, None)
 
     # Aliases for parameter functions
     def clear_param(self):
-- 
2.43.0


From c71dd83442cb89f2fc6f7b4611bdd7b70858ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 020/144] fix: set_element_model() recorded the same edit twice
 when the reference was given in another case

---
 spicelib/editor/spice_subcircuit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index e7f2983..e2ff54a 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -721,9 +721,7 @@ class SpiceCircuit(BaseSubCircuit):
             raise ValueError("Editor is read-only")
         component = self.get_component(reference)
         assert isinstance(component, SpiceComponent), f"Component '{reference}' is not a SpiceComponent. Use set_element_model() instead."
-        component.set_value(model)
-        if permission == UpdatePermission.Inform:
-            self.end_update(reference, model, UpdateType.UpdateComponentValue)
+        component.set_value(model)  # This also registers the update
 
     def get_component_value(self, reference: str) -> str:
         # docstring inherited from BaseSubcircuit
-- 
2.43.0


From 186a6a4a70c3de040ea4d2746ce580ba52dd878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 021/144] fix: looking up a subcircuit in a library returned
 another one whose name only starts with the name looked up

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index e2ff54a..804184b 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -987,7 +987,7 @@ class SpiceCircuit(BaseSubCircuit):
         :meta private:
         """
         # 0. Setup things
-        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + subckt_name, re.IGNORECASE)
+        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + re.escape(subckt_name) + r"(?!\S)", re.IGNORECASE)
         # 1. Find Encoding
         try:
             encoding = detect_encoding(library, r"[\* a-zA-Z]")
-- 
2.43.0


From 9705fd5d3aae37cc5e341e1e5acaf95813be7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 022/144] fix: a subcircuit definition was not found when its
 name is written in another case than in the instance

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 804184b..6a4d063 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -341,7 +341,7 @@ class SpiceCircuit(BaseSubCircuit):
         """
         for line in self.netlist:
             if isinstance(line, SpiceCircuit):
-                if line.name() == name:
+                if line.name().upper() == name.upper():
                     return line
             elif isinstance(line, IncludeFile):
                 # Searches inside the Include File
-- 
2.43.0


From 6bebbbf4ada9b2854c2d4b7a3d686c69b9c999de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 023/144] fix: deleting a parameter also deleted the ones whose
 name ends with its name

---
 spicelib/editor/spice_subcircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 6a4d063..94a4a6b 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -641,7 +641,8 @@ class SpiceCircuit(BaseSubCircuit):
             if value is None:
                 # Remove the parameter from the netlist
                 if isinstance(netlist[param_line], Primitive):
-                    netlist[param_line]._obj = re.sub(PARAM_REGEX(param), '', netlist[param_line].obj, flags=re.IGNORECASE)
+                    start, stop = match.span()
+                    netlist[param_line]._obj = netlist[param_line].obj[:start] + netlist[param_line].obj[stop:]
                     # if no other parameters are left, remove the line from the netlist
                     all_params = re.findall(PARAM_REGEX(r"\w+"), netlist[param_line].obj, flags=re.IGNORECASE)
                     if len(all_params) == 0:  # If the line is empty or only has .PARAM, remove it from the netlist
-- 
2.43.0


From 4aca5d6c9039b5a2b5cb1875cf10d69bdcee3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 024/144] fix: get_parameter() of an unknown parameter raised
 TypeError in netlists with subcircuit definitions

---
 spicelib/editor/spice_subcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 94a4a6b..549d642 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -412,6 +412,8 @@ class SpiceCircuit(BaseSubCircuit):
         """
         if len(self.netlist):
             for line in self.netlist:
+                if isinstance(line, SpiceCircuit):
+                    continue  # a sub-circuit defined in this circuit
                 if isinstance(line, Primitive):
                     line: str = line.obj # pyright: ignore[reportAssignmentType]
                 m = subckt_regex.search(line)
-- 
2.43.0


From a7dddbf4f2f12752689b0573626357ec33a21aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 025/144] fix: opening an instance three levels deep copied the
 whole netlist over and over, and practically never ended

---
 spicelib/editor/primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 3245491..fe080c7 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -304,8 +304,11 @@ class Component(Primitive):
         newone = type(self)()
         newone._netlist = new_parent or self._netlist
         newone._obj = copy.deepcopy(self._obj)
-        newone._attributes = copy.deepcopy(self._attributes)
         newone._reference = self._reference
+        # The nets refer to the components connected to them, copying them would copy the whole netlist
+        newone._attributes = {key: copy.deepcopy(value) for key, value in self._attributes.items() if key != 'ports'}
+        if 'ports' in self._attributes:
+            newone._set_ports(self.port_list())
         return newone
 
     def reset_attributes(self) -> dict:
-- 
2.43.0


From 9580ec11937402a19c201a1a29b834eb535797e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 026/144] fix: the value of a component swallowed its
 parameters up to the last one given as a formula

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 6c94b72..e82e78d 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -151,7 +151,7 @@ def VALUE_RGX(prefix: str, number_regex_suffix: str) -> str:
         my_prefix = "(" + prefix + "\\s?=\\s?)?"
     return "\\s+" + my_prefix + "(?P<value>(?P<number>[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?" + \
         number_regex_suffix + ")?(?P<formula1>\")?(?P<formula2>')?(?P<formula3>{)?" + \
-        "(?(number)|(?(formula1).*\"|(?(formula2).*'|(?(formula3).*}|\\S*)))))"
+        "(?(number)|(?(formula1)[^\"]*\"|(?(formula2)[^']*'|(?(formula3)[^}]*}|\\S*)))))"
 
 
 REPLACE_REGEXS : Dict[str, str] = {
-- 
2.43.0


From 5df4fb4394bea7d7b0faffbb5e2b36d1b1e587de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 027/144] fix: an end of line comment was taken as part of the
 value of E, F, G, H, S and W components

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index e82e78d..80dac52 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -121,7 +121,7 @@ MODEL_OR_VALUE_RGX = r"\s+(?P<value>[\w\.\-\{\}]+)"
 
 # the rest of the line. Cannot be used with PARAM.
 # Includes the comment regex and will expect to finish the line.
-ANY_VALUE_RGX = r"\s+(?P<value>.*)" + COMMENT_RGX
+ANY_VALUE_RGX = r"\s+(?P<value>.*?)" + COMMENT_RGX
 
 # maybe a value. Will require a leading space
 MAYBE_VALUE_RGX = r"\s+(?P<value>.*?)"
-- 
2.43.0


From 783a237ee8818a1fb675286630f8cb74e011e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 028/144] fix: an end of line comment was taken as part of the
 value of B components

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 80dac52..05c6ba0 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -157,7 +157,7 @@ def VALUE_RGX(prefix: str, number_regex_suffix: str) -> str:
 REPLACE_REGEXS : Dict[str, str] = {
     'A': PREFIX_AND_NODES_RGX("A", 8, 8) + r"\s+(?P<value>.*)",  # LTspice Only : Special Functions, Parameter substitution not supported
     # Bxxx n001 n002 [VIRP]=<expression> [ic=<value>] ...
-    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|[^=])+)" + PARAM_RGX,  # Behavioral source
+    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|[^=;])+)" + PARAM_RGX,  # Behavioral source
     # Cxxx n1 n2 <capacitance> [ic=<value>] ...
     # Cxxx n+ n- <value> <mname> <m=val> <scale=val> <temp=val> ...
     # Cxxx n1 n2 C=<capacitance> [ic=<value>] ...
-- 
2.43.0


From 6df0b1abd3c31d699dd110a0cfc1496779b256d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 029/144] fix: several instructions added inside one subcircuit
 instance were recorded as a single update

---
 spicelib/editor/updates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index 4e0688c..49c2237 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -101,7 +101,7 @@ class Updates:
         """Add an update to the list"""
         for update in self.netlist_updates:
             if (update.name == name and
-                    (name != "INSTRUCTION" or value == update.value) and  # if instruction then it should match
+                    (name.split(':')[-1] != "INSTRUCTION" or value == update.value) and  # if instruction then it should match
                     (update.updates == updates or updates == UpdateType.InvalidUpdate)):
                 break
         else:
-- 
2.43.0


From 32a293705f10af378c75f26e401adfce7859f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 030/144] fix: deleting the parameters of an instance left a
 'params:' behind, that could not be read again

---
 spicelib/editor/spice_components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 94cc1dc..a4ee6f4 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -362,7 +362,8 @@ class SpiceComponent(Component):
                         else:
                             new_line += ' ' + new_params_str
                     elif not new_params_str:
-                        # all the parameters were deleted
+                        # all the parameters were deleted, and a "params:" that introduces them goes too
+                        start = re.search(r"(?:\s+params:)?\s*$", new_line[:start], re.IGNORECASE).start()
                         new_line = (new_line[:start].rstrip() + new_line[stop:]).rstrip()
                     else:
                         new_line = _insert_section(new_line, start, stop, new_params_str)
-- 
2.43.0


From c4c831935ddb0f8b9b6864cc1faed4c7d9b2b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 031/144] fix: the copy of a subcircuit made for an instance
 could take the name of another definition

---
 spicelib/editor/spice_subcircuit_instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 5b5a531..78a2c6d 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -59,6 +59,8 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         if self.shadow_subcircuit is None:
             # In all cases it creates a new copy of the subcircuit, it is only writen to the netlist if it was modified.
             new_name = self.value_str + '_' + self.reference
+            while self._netlist.get_subcircuit_named(new_name) is not None:
+                new_name += '_'  # There is already a subcircuit with that name
             self.shadow_subcircuit = self._subcircuit.clone(self, new_name=new_name)
         return self.shadow_subcircuit
 
-- 
2.43.0


From 174f6e1a4679971ac1c59e14e82704a7334a7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 032/144] fix: iterating over a circuit returned empty
 components instead of the ones of the circuit

---
 spicelib/editor/spice_subcircuit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 549d642..f586086 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -537,17 +537,15 @@ class SpiceCircuit(BaseSubCircuit):
         for component in circuit:
             print(component)
         """
-        for line_no, line in enumerate(self.netlist):
+        for line in self.netlist:
             if isinstance(line, SpiceCircuit):
                 yield from line
             elif isinstance(line, ControlEditor):
                 continue  # no components here, just control commands
             elif isinstance(line, IncludeFile):
                 yield from line
-            else:
-                cmd = get_line_command(line)
-                if cmd in VALID_PREFIXES:
-                    yield SpiceComponent(self, line_no)
+            elif isinstance(line, SpiceComponent):
+                yield line
 
     def get_component_attribute(self, reference: str, attribute: str) -> str | None:
         """
-- 
2.43.0


From dae079e9110eb51821e45aa3a1a974b8637c65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 033/144] fix: get_all_nodes() ignored changes made to the
 ports of components

---
 spicelib/editor/spice_subcircuit.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index f586086..7d76df5 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -851,15 +851,9 @@ class SpiceCircuit(BaseSubCircuit):
         circuit_nodes = []
         for line in self.netlist:
             if isinstance(line, (SpiceComponent, SpiceCircuitInstance)):
-                prefix = get_line_command(line)
-                if prefix in component_replace_regexs:
-                    regex = component_replace_regexs[prefix]
-                    match = regex.match(line.obj) # pyright: ignore[reportAssignmentType]
-                    if match:
-                        nodes = match.group('nodes').split()  # This separates by all space characters including \t
-                        for node in nodes:
-                            if node not in circuit_nodes:
-                                circuit_nodes.append(node)
+                for node in line.port_list():
+                    if node not in circuit_nodes:
+                        circuit_nodes.append(node)
         return circuit_nodes
 
     def save_netlist(self, run_netlist_file: str | Path | io.StringIO) -> None:
-- 
2.43.0


From 68a1ee960d5e6d4906411750e62fe0abbf2199cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 034/144] fix: the subcircuit of an instance was not found when
 its name reads as a number (e.g. 4N25, 74HC00)

---
 spicelib/editor/spice_subcircuit_instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 78a2c6d..801157c 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -44,7 +44,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """Resets the sub-circuit instance to its original state."""
         super().reset_attributes()
         # The instruction below might fail if the sub-circuit was not parsed in the parent netlist.
-        self._subcircuit = self._netlist.get_subcircuit_named(self.value)  # In case it isn't given, get it from the parent
+        self._subcircuit = self._netlist.get_subcircuit_named(self.value_str)  # In case it isn't given, get it from the parent
 
     @property
     def subcircuit(self):
@@ -52,7 +52,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         saved if there is an update made to it."""
         if self._subcircuit is None:
             # Try to get it from the parent netlist
-            self._subcircuit = self._netlist.get_subcircuit_named(self.value) # pyright: ignore[reportOptionalMemberAccess]
+            self._subcircuit = self._netlist.get_subcircuit_named(self.value_str) # pyright: ignore[reportOptionalMemberAccess]
             if self._subcircuit is None:
                 raise AssertionError(f"Couldn't find the subcircuit named \"{self.value}\"")
             self.shadow_subcircuit = None
-- 
2.43.0


From 62e893f2a1d5efa4b94e3771b078d551a6a70b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 035/144] fix: the name of a subcircuit was cut at the first
 hyphen

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 05c6ba0..0334719 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -54,7 +54,7 @@ SPICE_DOT_INSTRUCTIONS = (
 
 )
 SUBCKT_CLAUSE_FIND = r"^.SUBCKT\s+"
-subckt_regex = re.compile(r"^.SUBCKT\s+(?P<name>[\w\.]+)", re.IGNORECASE)
+subckt_regex = re.compile(r"^.SUBCKT\s+(?P<name>[\w\.\-]+)", re.IGNORECASE)
 lib_inc_regex = re.compile(
     r"^\.(LIB|INC(LUDE)?)\s+(?P<filename>.+?)\s*(?:[;*].*)?$",
     re.IGNORECASE
-- 
2.43.0


From 9ea366ea9f4e494aef994ae56e1d9c50c1d14c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 036/144] fix: two threads updating the runner's lists could
 lose or misplace a run

---
 spicelib/sim/sim_runner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 2be4b7d..cfd5bd1 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -104,6 +104,7 @@ __all__ = ['SimRunner', 'SimRunnerTimeoutError', 'AnyRunner', 'ProcessCallback',
 import inspect  # Library used to get the arguments of the callback function
 import logging
 import shutil
+import threading
 import time
 from pathlib import Path
 from time import sleep, monotonic as clock
@@ -316,6 +317,7 @@ class SimRunner(AnyRunner):
         self.parallel_sims = parallel_sims
         self.active_tasks: list[RunTask] = []
         self.completed_tasks: list[RunTask] = []
+        self._update_lock = threading.Lock()  # update_completed() may be called from several threads
 
         self._runno = 0  # number of total runs
         self._failSim = 0  # number of failed simulations
@@ -648,6 +650,10 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         :meta private:
         """
+        with self._update_lock:
+            self._update_completed()
+
+    def _update_completed(self):
         i = 0
         while i < len(self.active_tasks):
             if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started
-- 
2.43.0


From 474435ef65b6db1fd79a47f216e214e27bd35078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 037/144] fix: iterating a client failed when the data of a
 previous run wasn't transferred yet

---
 spicelib/client_server/sim_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index 80f2c89..fcfc783 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -218,6 +218,8 @@ class SimClient:
         while len(self.started_jobs) > 0:
             # server side method signature: def status(self, session_id: str) -> list[int]
             status: list[int] = self.server.status(self.session_id)  # type: ignore
+            # Runs that were already given, but whose data wasn't yet transferred, are still reported by the server
+            status = [runno for runno in status if runno in self.started_jobs]
             if len(status) > 0:
                 runno = status.pop(0)
                 self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list and
-- 
2.43.0


From bff71e611f402a2c66a2782e211497f0f04367bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 038/144] fix: a run refused by the server was registered as a
 started job of the client

---
 spicelib/client_server/sim_client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index fcfc783..2f4951f 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -181,6 +181,9 @@ class SimClient:
 
             # server side method signature: def run(self, session_id: str, circuit_name: str, zip_data: Binary) -> int
             run_id = int(self.server.run(self.session_id, circuit_name, zip_data))  # type: ignore
+            if run_id == -1:
+                _logger.error(f"Client: The server refused to run {circuit}")
+                return -1
             job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
             self.started_jobs[run_id] = job_info
             return run_id
-- 
2.43.0


From 25e624e3628f1628b6cba3871639bd356d1cab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 039/144] fix: the server kept forever the files of runs that
 had produced no output

---
 spicelib/client_server/sim_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 6e58ad6..ac277a4 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -156,7 +156,8 @@ class SimServer:
                     zip_file = task_info['zipfile']
                     if not zip_file:
                         _logger.error(f"Server: get_files({session_id}, {runno}) no zip file found. Probably crashed.")
-                        continue
+                        self.simulation_manager.erase_files_of_runno(runno)
+                        break
                     zip = zip_file.open('rb')
                     # Read the zip file from the buffer and send it to the server
                     zip_data = zip.read()
-- 
2.43.0


From 52d0cdc4802cd7ef81b1f0a9fb8c26a219ded655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 040/144] fix: joining the thread of the server's simulation
 manager raised a TypeError

---
 spicelib/client_server/srv_sim_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index b25748f..dd83170 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -73,7 +73,7 @@ class ServerSimRunner(threading.Thread):
         self.runner = SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout,
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
-        self._stop = False
+        self._stop_requested = False  # Note: _stop is a method of threading.Thread
 
     def run(self) -> None:
         """
@@ -105,7 +105,7 @@ class ServerSimRunner(threading.Thread):
                 _logger.debug(len(self.completed_tasks))
 
             time.sleep(0.2)
-            if self._stop is True:
+            if self._stop_requested is True:
                 break
         self.runner.wait_completion()
         self.runner.cleanup_files()  # Delete things that have been left behind
@@ -158,7 +158,7 @@ class ServerSimRunner(threading.Thread):
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-        self._stop = True
+        self._stop_requested = True
 
     def running(self):
-        return self._stop is False
+        return self._stop_requested is False
-- 
2.43.0


From c3f3aeb14406d9286c2892ca1281705903cfe255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 041/144] fix: stopping the server left behind the files of the
 runs that were never fetched

---
 spicelib/client_server/srv_sim_runner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index dd83170..fc07aa9 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -85,6 +85,7 @@ class ServerSimRunner(threading.Thread):
         is done by this class.
         When the server is stopped this process cleans all the files that were not yet cleaned.
         """
+        last_pass = False
         while True:
             self.runner.update_completed()
             while len(self.runner.completed_tasks) > 0:
@@ -106,9 +107,12 @@ class ServerSimRunner(threading.Thread):
 
             time.sleep(0.2)
             if self._stop_requested is True:
-                break
-        self.runner.wait_completion()
+                if last_pass:
+                    break
+                self.runner.wait_completion()
+                last_pass = True  # collects the tasks that were completed in the meantime
         self.runner.cleanup_files()  # Delete things that have been left behind
+        self.cleanup_completed()
 
     def add_simulation(self, netlist: str | Path | BaseEditor, *, timeout: float | None = None) -> int:
         """
-- 
2.43.0


From 92c1f684af235069b4b830f8cf17d596bb70ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 042/144] fix: the server left behind the raw file of
 simulations that failed

---
 spicelib/client_server/srv_sim_runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index fc07aa9..6896ed5 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -95,7 +95,8 @@ class ServerSimRunner(threading.Thread):
                     'runno': task.runno,
                     'retcode': task.retcode,
                     'circuit': task.netlist_file,
-                    'raw': task.raw_file,
+                    # A failed simulation has no raw file, but the simulator may have written (part of) it anyway
+                    'raw': task.raw_file or task.netlist_file.with_suffix(task.simulator.raw_extension),
                     'log': task.log_file,
                     'zipfile': zip_filename,
                     'start': task.start_time,
-- 
2.43.0


From 1571ef82ea8f147d605e98f4614df32ca1d43ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 043/144] fix: closing a session left behind the files of its
 runs that were still in progress

---
 spicelib/client_server/sim_server.py     |  2 +-
 spicelib/client_server/srv_sim_runner.py | 28 +++++++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index ac277a4..a4613e7 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -181,7 +181,7 @@ class SimServer:
         for runno in self.sessions[session_id]:
             _logger.info(f"Closing session {session_id}, erasing all files associated with run {runno}")
             try:
-                self.simulation_manager.erase_files_of_runno(runno)
+                self.simulation_manager.discard_runno(runno)
             except Exception as e:
                 _logger.error(f"Closing session {session_id}: error erasing files for run {runno}: {e}")
         del self.sessions[session_id]
diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index 6896ed5..cac3c23 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -73,6 +73,8 @@ class ServerSimRunner(threading.Thread):
         self.runner = SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout,
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
+        self._discarded: set[int] = set()  # runs in progress whose results are no longer wanted
+        self._lock = threading.RLock()  # protects the two structures above
         self._stop_requested = False  # Note: _stop is a method of threading.Thread
 
     def run(self) -> None:
@@ -105,6 +107,10 @@ class ServerSimRunner(threading.Thread):
                 _logger.debug(f"Task {task} is finished")
                 _logger.debug(self.completed_tasks[-1])
                 _logger.debug(len(self.completed_tasks))
+                with self._lock:
+                    if task.runno in self._discarded:
+                        self._discarded.remove(task.runno)
+                        self.erase_files_of_runno(task.runno)
 
             time.sleep(0.2)
             if self._stop_requested is True:
@@ -151,15 +157,25 @@ class ServerSimRunner(threading.Thread):
         """Will delete all files related with a completed task. Will also delete information on the completed_tasks
         attribute."""
         _logger.debug(f"deleting files of run {runno}")
-        for i, task_info in enumerate(self.completed_tasks):
-            if task_info['runno'] == runno:
-                self._erase_files_and_info(i)
-                break
+        with self._lock:
+            for i, task_info in enumerate(self.completed_tasks):
+                if task_info['runno'] == runno:
+                    self._erase_files_and_info(i)
+                    break
+
+    def discard_runno(self, runno):
+        """Will delete all files and information related with a run, as soon as it is completed."""
+        with self._lock:
+            if any(task_info['runno'] == runno for task_info in self.completed_tasks):
+                self.erase_files_of_runno(runno)
+            else:
+                self._discarded.add(runno)
 
     def cleanup_completed(self):
         _logger.debug("deleting all files of all completed tasks")
-        while len(self.completed_tasks):
-            self._erase_files_and_info(0)
+        with self._lock:
+            while len(self.completed_tasks):
+                self._erase_files_and_info(0)
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-- 
2.43.0


From e9bf979a2a9eeabc75366313799d19127d0b0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 044/144] fix: a client stopping the server blocked it forever,
 and the port was never released

---
 spicelib/client_server/sim_server.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index a4613e7..dd13eba 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -195,10 +195,18 @@ class SimServer:
         """
         _logger.debug("Server: stopping...ServerInterface")
         self.simulation_manager.stop()
-        self.server.shutdown()
+        if threading.current_thread() is self.server_thread:
+            # Requested by a client: the shutdown can only be made after this request is answered
+            threading.Thread(target=self._shutdown, name="ServerShutdown").start()
+        else:
+            self._shutdown()
         _logger.info("Server: stopped...ServerInterface")
         return True  # Needs to return always something. None is not supported
 
+    def _shutdown(self):
+        self.server.shutdown()
+        self.server.server_close()  # Releases the port
+
     def running(self) -> bool:
         """Checks if the server is currently running.
 
-- 
2.43.0


From 6561a616909c23ea92981a17e75f634712eed322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 045/144] fix: the server's housekeeping died if a client
 fetched a run at the moment it was registered

---
 spicelib/client_server/srv_sim_runner.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index cac3c23..d992303 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -105,8 +105,6 @@ class ServerSimRunner(threading.Thread):
                     'stop': task.stop_time,
                 })
                 _logger.debug(f"Task {task} is finished")
-                _logger.debug(self.completed_tasks[-1])
-                _logger.debug(len(self.completed_tasks))
                 with self._lock:
                     if task.runno in self._discarded:
                         self._discarded.remove(task.runno)
-- 
2.43.0


From 3dd4d98ae8470b4acb49b4f9a5e13ad1333d5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 046/144] fix: reading the axis a second time replaced it by an
 ordinary trace

---
 spicelib/raw/plot_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index df53880..6877cd2 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -601,6 +601,8 @@ class PlotData(PlotInterface):
         """
         Reads the trace data from the binary section of the RAW file.
         """
+        # what was already read is kept as it is
+        list_of_traces = [name for name in list_of_traces if name not in self._read_traces]
         with open(self._raw_filename, 'rb') as raw_file:
 
             if self._raw_type == "binary:":
-- 
2.43.0


From 122e6e34b2cc6c2925457b40467c803470f7ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 047/144] fix: the axis and the lengths of steps were not
 available until some trace had been read

---
 spicelib/raw/plot_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 6877cd2..c53c63f 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -467,6 +467,8 @@ class PlotData(PlotInterface):
 
         The axis of the RAW file, if it exists.
         """
+        if self._axis is None and self._has_axis:
+            self.read_trace_data([])  # the axis is always read
         return self._axis
 
     @property
@@ -572,7 +574,7 @@ class PlotData(PlotInterface):
             whattype = 'voltage'
         else:
             raise NotImplementedError(f'Unrecognized alias type for alias : "{alias}"')
-        trace = TraceRead(alias, whattype, self._nPoints, self._axis, 'double')
+        trace = TraceRead(alias, whattype, self._nPoints, self.axis, 'double')
         local_vars = {'pi': 3.1415926536, 'e': 2.7182818285}  # This is the dictionary that will be used to compute the alias
         local_vars.update({name: scan_eng(value) for name, value in self._spice_params.items()})
         self.read_trace_data(used_vars)
@@ -787,7 +789,7 @@ class PlotData(PlotInterface):
         :raises RuntimeError: if the RAW file does not have an axis.
         :return: Array with the X axis
         """
-        if self._axis:
+        if self._has_axis:
             axis = self.get_trace(0)
             assert isinstance(axis, Axis), "This RAW file does not have an axis."
             return axis.get_wave(step)
@@ -801,7 +803,7 @@ class PlotData(PlotInterface):
         :param step: the step index, defaults to 0
         :return: The number of data points
         """
-        if self._axis is None:
+        if self.axis is None:
             # If there is no axis, the length is the number of points
             return self._nPoints
         else:
-- 
2.43.0


From 7858321a63d876ee1dbf531dd864bf9b8e15f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 048/144] fix: exporting a selection of traces changed the
 caller's list and could miss the axis

---
 spicelib/raw/plot_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index c53c63f..3398f53 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -942,8 +942,8 @@ class PlotData(PlotInterface):
         if columns is None:
             columns = self.get_trace_names()  # if no columns are given, use all traces
         else:
-            if self._axis and self._axis.name not in columns:  # If axis is not in the list, add it
-                columns.insert(0, self._axis.name)
+            if self.axis is not None and self.axis.name not in columns:  # If axis is not in the list, add it
+                columns = [self.axis.name] + list(columns)
 
         if isinstance(step, list):
             steps_to_read = step  # If a list of steps is given, use it
-- 
2.43.0


From 0ebf26ed7f7d54ca878bb4b3370526171920c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 049/144] fix: exporting a stepped operating point repeated all
 the data for every step

---
 spicelib/raw/plot_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 3398f53..32ec477 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -963,10 +963,13 @@ class PlotData(PlotInterface):
         self.read_trace_data(columns)
         for step in steps_to_read:
             for col in columns:
+                wave = self.get_wave(col, step)
+                if not self._has_axis and self._steps is not None:
+                    wave = wave[step:step + 1]  # without an axis, each step is one point
                 if col not in data:
-                    data[col] = self.get_wave(col, step)
+                    data[col] = wave
                 else:
-                    data[col] = np.concatenate((data[col], self.get_wave(col, step)))
+                    data[col] = np.concatenate((data[col], wave))
             if self._steps is not None and step < len(self._steps):
                 for col in step_columns:
                     if col not in data:
-- 
2.43.0


From 5cd31cbdb54fa230979193e5196fe63aeab78daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 050/144] fix: a number of steps different from the log's gave
 IndexError once, and wrong data afterwards

---
 spicelib/raw/plot_data.py   | 12 ++++++------
 spicelib/raw/raw_classes.py | 15 ++++++---------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 32ec477..2113cf4 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -631,13 +631,13 @@ class PlotData(PlotInterface):
                         # Now create the axis
                         num_type = inv_dtype_map[trace_info.dtype]
                         trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, data)
+                        # Set the steps if they exist
+                        if self._steps is not None:
+                            trace.set_steps(self._steps)
                         self._axis = trace
                         self._read_traces[trace_info.name] = trace
                         if self._verbose:
                             _logger.debug(f"Axis '{trace.name}' read successfully. Data type: {trace_info.dtype}, First 5 values: {trace.data[:5]}")
-                        # Set the steps if they exist
-                        if self._steps is not None:
-                            self._axis.set_steps(self._steps)
 
                     for trace_info in self._trace_info[start_index:]:
                         data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints
@@ -685,13 +685,13 @@ class PlotData(PlotInterface):
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
                             trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, trace_data)
+                            # Set the steps if they exist
+                            if self._steps is not None:
+                                trace.set_steps(self._steps)
                             self._axis = trace
                             self._read_traces[trace_info.name] = trace
                             if self._verbose:
                                 _logger.debug(f"Axis '{trace.name}' read successfully. Data type: {trace_info.dtype}, First 5 values: {trace.data[:5]}")
-                            # Set the steps if they exist
-                            if self._steps is not None:
-                                self._axis.set_steps(self._steps)
                         elif trace_info.name in list_of_traces:
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index e070da0..9bbe282 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -95,22 +95,19 @@ class Axis(DataSet):
         self.step_offsets = None
 
     def set_steps(self, step_info: list[dict]):
-        self.step_info = step_info
-        self.step_offsets = [None for _ in range(len(step_info))]
-
         # Now going to calculate the point offset for each step
-        self.step_offsets[0] = 0
+        offsets = [0]
         i = 1
-        k = 1
         while i < len(self.data):
             if self.data[i] == self.data[0]:
-                self.step_offsets[k] = i
-                k += 1
+                offsets.append(i)
             i += 1
 
-        if k != len(self.step_info):
+        if len(offsets) != len(step_info):
             raise SpiceReadException("The file a different number of steps than expected.\n" +
-                                     "Expecting %d got %d" % (len(self.step_offsets), k))
+                                     "Expecting %d got %d" % (len(step_info), len(offsets)))
+        self.step_info = step_info
+        self.step_offsets = offsets
 
     def step_offset(self, step: int) -> int:
         """
-- 
2.43.0


From 66fb66a4d8cd589c485eb1ae51e70e1a102ffb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 051/144] fix: stepped files without log information could not
 be read

---
 spicelib/raw/plot_data.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 2113cf4..bc2ac13 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -312,6 +312,7 @@ class PlotData(PlotInterface):
         self._raw_params["Variables"] = [var.name for var in self._trace_info]
 
         # Finally, Check for Step Information
+        count_steps = False
         if "stepped" in self._raw_params["Flags"].lower():
             if self._verbose:
                 _logger.debug(f"Plot nr. {self._plot_nr}: RAW file has stepped data.")
@@ -320,14 +321,9 @@ class PlotData(PlotInterface):
             except SpiceReadException as err:
                 _logger.warning(f"Plot nr. {self._plot_nr}: {str(err)}\nError in auto-detecting steps in '{raw_filename}'")
                 if self._has_axis:
-                    number_of_steps = 0
-                    if self._axis is not None:
-                        for v in self._axis.data:
-                            if v == self._axis.data[0]:
-                                number_of_steps += 1
+                    count_steps = True  # the steps will be counted on the axis, below
                 else:
-                    number_of_steps = self._nPoints
-                self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+                    self._steps = [{'run': i + 1} for i in range(self._nPoints)]
 
         if self._verbose:
             _logger.info(f"Plot nr. {self._plot_nr}: Plot read successfully.")
@@ -341,6 +337,10 @@ class PlotData(PlotInterface):
             if self._verbose:
                 _logger.debug(f"Plot nr. {self._plot_nr}: ASCII RAW File")
             self._read_ascii_vector(raw_file)
+        if count_steps:
+            axis = self.axis
+            self._steps = [{'run': i + 1} for i in range(int(np.count_nonzero(axis.data == axis.data[0])))]
+            axis.set_steps(self._steps)
 
     def _read_ascii_vector(self, raw_file):
         # Create the traces read vector
-- 
2.43.0


From 41a281a80e6cd436bafea4442257395df9f48337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 052/144] fix: the steps of text files were looked for before
 the data was read

---
 spicelib/raw/plot_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index bc2ac13..db4fb93 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -356,8 +356,6 @@ class PlotData(PlotInterface):
                 # This is the axis trace
                 self._axis = Axis(trace_info.name, trace_info.var_type, self._nPoints,
                                   inv_dtype_map[trace_info.dtype], trace_data)
-                if self._steps is not None:
-                    self._axis.set_steps(self._steps)
                 self._read_traces[trace_info.name] = self._axis
             else:
                 # Create trace object
@@ -396,6 +394,8 @@ class PlotData(PlotInterface):
                 else:
                     self._read_traces[var.name].data[point] = float(value)
                 var_index += 1
+        if self._axis is not None and self._steps is not None:
+            self._axis.set_steps(self._steps)
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-- 
2.43.0


From 7e2d5dc2e6de89a5305b51e3e74e750a8bc481d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 053/144] fix: reading a text file with a second plot directly
 after the first never ended

---
 spicelib/raw/plot_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index db4fb93..021be25 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -399,10 +399,11 @@ class PlotData(PlotInterface):
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-            line = raw_file.readline().strip()
-            if len(line) != 0:
+            line = raw_file.readline()
+            if len(line) == 0:
+                break  # end of the file
+            if len(line.strip()) != 0:
                 raw_file.seek(cursor)  # go back to the beginning of the line
-            else:
                 break
         if self._verbose:
             _logger.debug(f"Plot nr {self._plot_nr}: ASCII data read successfully.")
-- 
2.43.0


From ac5610431cae5a2c97212021096d04552ad43f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 054/144] fix: the length of a trace was wrong in all steps but
 the first

---
 spicelib/raw/raw_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index 9bbe282..c17d162 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -309,7 +309,9 @@ class TraceRead(DataSet):
         :param step: Optional parameter the step index.
         :return: The number of data points
         """
-        return self.axis.step_offset(step + 1)
+        if self.axis is None:
+            return len(self.data)
+        return self.axis.get_len(step)
 
     def __len__(self):
         """
-- 
2.43.0


From 7b496b412eaaf1e69fdc8808bade9ddf3915368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 055/144] fix: looking up positions between the points of a
 complex axis, and past the end of the axis

---
 spicelib/raw/raw_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index c17d162..46a8036 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -201,8 +201,9 @@ class Axis(DataSet):
                 # Needs to interpolate the data
                 if i == 0:
                     raise IndexError("Time position is lower than t0")
-                frac = (t - timex[i - 1]) / (timex[i] - timex[i - 1])
+                frac = np.real((t - timex[i - 1]) / (timex[i] - timex[i - 1]))
                 return i - 1 + frac
+        raise IndexError("Position is higher than the last point of the axis")
 
     def get_len(self, step: int = 0) -> int:
         """
-- 
2.43.0


From f72d7bd6e8df4f9c59245bf3a265196a3af52f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 056/144] fix: single points of a time axis kept the spurious
 sign that get_wave() removes

---
 spicelib/raw/raw_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index 46a8036..a91aa3b 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -171,12 +171,14 @@ class Axis(DataSet):
         :param step: step index, defaults to 0
         :returns: Value of the data point
         """
-        return self.data[n + self.step_offset(step)]
+        value = self.data[n + self.step_offset(step)]
+        return np.abs(value) if self.name == 'time' else value  # See get_wave()
 
     def __getitem__(self, item) -> float | complex:
         """This is only here for compatibility with previous code. """
         assert self.step_info is None, "Indexing should not be used with stepped data. Use get_point or get_wave"
-        return self.data.__getitem__(item)
+        value = self.data.__getitem__(item)
+        return np.abs(value) if self.name == 'time' else value  # See get_wave()
 
     def get_position(self, t, step: int = 0) -> int | float:
         """
-- 
2.43.0


From ceacf99d9f47b56c966f1d9652e105e902bbba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 057/144] fix: reading all traces of a file with several plots
 used the names of the first plot for all

---
 spicelib/raw/raw_read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_read.py b/spicelib/raw/raw_read.py
index 20f837b..f8ac2c1 100644
--- a/spicelib/raw/raw_read.py
+++ b/spicelib/raw/raw_read.py
@@ -319,7 +319,8 @@ class RawRead(PlotInterface):
             # if traces_to_read is '*', read all traces
             if isinstance(traces_to_read, str):
                 if traces_to_read == '*':
-                    traces_to_read = self.get_trace_names()  # * means all traces
+                    plot.read_trace_data(plot.get_trace_names())  # * means all traces
+                    continue
                 else:
                     traces_to_read = [name.strip() for name in traces_to_read.split(',')]
             elif not isinstance(traces_to_read, (list, tuple)):
-- 
2.43.0


From 05ac34a0222df74f15cb7703edd2f6d211dd88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 058/144] fix: aliases that are neither voltages nor currents
 could not be read, nor the file exported

---
 spicelib/raw/plot_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 021be25..cafd211 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -574,7 +574,7 @@ class PlotData(PlotInterface):
         elif alias.startswith('V('):
             whattype = 'voltage'
         else:
-            raise NotImplementedError(f'Unrecognized alias type for alias : "{alias}"')
+            whattype = 'param'  # QSPICE defines Freq and Omega for instance
         trace = TraceRead(alias, whattype, self._nPoints, self.axis, 'double')
         local_vars = {'pi': 3.1415926536, 'e': 2.7182818285}  # This is the dictionary that will be used to compute the alias
         local_vars.update({name: scan_eng(value) for name, value in self._spice_params.items()})
-- 
2.43.0


From 98111a511928ca6682850fa9bd25831307536278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 059/144] fix: the last step of a log without final newline
 lost its last character

---
 spicelib/raw/plot_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index cafd211..b275028 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -839,7 +839,7 @@ class PlotData(PlotInterface):
             for line in log:
                 if line.startswith(".step"):
                     step_dict = {}
-                    for tok in line[6:-1].split(' '):
+                    for tok in line[6:].strip().split(' '):
                         if '=' not in tok:
                             continue
                         key, value = tok.split('=')
-- 
2.43.0


From e04ccf7578ad101ecae188288b7c0751297ec4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 060/144] fix: RawWrite could not create AC files without a
 plot name

---
 spicelib/raw/raw_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 3b14e7a..a8fe784 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -118,7 +118,7 @@ class RawWrite:
                 self.plot_name = self.plot_name or 'Transient Analysis'
                 flag_numtype = 'real'
             elif trace.whattype == 'frequency':
-                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in self.plot_name:
+                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in (self.plot_name or ''):
                     self.plot_name = self.plot_name or 'Noise Spectral Density - (V/Hz½ or A/Hz½)'
                     flag_numtype = 'real'
                 else:
-- 
2.43.0


From d5d8cffd5aa8dcfd4f4e0412fce72eeeb57a794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 061/144] fix: complex data was written in normal order to
 files marked as fast access

---
 spicelib/raw/raw_write.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index a8fe784..b437b7f 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -165,8 +165,7 @@ class RawWrite:
             f.write(f"\t{i}\t{trace.name}\t{trace.whattype}\n".encode(self.encoding))
         total_bytes = 0
         f.write("Binary:\n".encode(self.encoding))
-        if self.flag_fastaccess and self.flag_numtype != 'complex':  # Don't know why, but complex RAW files aren't
-            # converted to FastAccess
+        if self.flag_fastaccess:
             for trace in self._traces:
                 f.write(trace.data.tobytes())
         else:
-- 
2.43.0


From d47eb788b054bbdded81c585fda9a9e923dd07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 062/144] fix: RawWrite wrote data in types other than those
 announced in the header

---
 spicelib/raw/raw_write.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index b437b7f..a795755 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, float32, zeros
+from numpy import array, complex128, float32, float64, zeros
 
 
 class Trace(DataSet):
@@ -101,6 +101,8 @@ class RawWrite:
             flags.append('stepped')
         if self.flag_fastaccess:
             flags.append('fastaccess')
+        if self.flag_numtype == 'real' and any(trace.numerical_type == 'double' for trace in self._traces[1:]):
+            flags.append('double')
         return ' '.join(flags)
 
     def add_trace(self, trace: Trace):
@@ -164,15 +166,18 @@ class RawWrite:
         for i, trace in enumerate(self._traces):
             f.write(f"\t{i}\t{trace.name}\t{trace.whattype}\n".encode(self.encoding))
         total_bytes = 0
+        # The flags tell how the data is to be read. The first variable of real data is always a double.
+        flags = self._str_flags().split()
+        dtypes = [complex128 if 'complex' in flags else float64 if i == 0 or 'double' in flags else float32
+                  for i in range(len(self._traces))]
         f.write("Binary:\n".encode(self.encoding))
         if self.flag_fastaccess:
-            for trace in self._traces:
-                f.write(trace.data.tobytes())
+            for trace, dtype in zip(self._traces, dtypes):
+                f.write(trace.data.astype(dtype).tobytes())
         else:
-            fmts = {trace: tobytes_for_trace(trace) for trace in self._traces}
             for i in range(len(self._traces[0])):
-                for trace in self._traces:
-                    total_bytes += f.write(fmts[trace](trace.data[i]))
+                for trace, dtype in zip(self._traces, dtypes):
+                    total_bytes += f.write(trace.data[i].astype(dtype).tobytes())
         f.close()
 
     @staticmethod
@@ -368,9 +373,3 @@ class RawWrite:
     def __getitem__(self, item):
         """Helper function to access traces by using the [ ] operator."""
         return self.get_trace(item)
-
-
-def tobytes_for_trace(trace: Trace):
-    def tobytes(value):
-        return value.tobytes()
-    return tobytes
-- 
2.43.0


From e3b5729d3084b7ac684ef882ff695955318a3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 063/144] fix: aligned imports renamed the traces of their
 source, and ignored the step asked for

---
 spicelib/raw/raw_write.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index a795755..91c648c 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -307,8 +307,9 @@ class RawWrite:
                 for trace_name in trace_filter:
                     imported_trace = other.get_trace(trace_name)
                     new_name = self._rename_netlabel(trace_name, **kwargs)
-                    imported_trace.name = new_name
-                    self._imported_data.append(imported_trace)
+                    self._imported_data.append(Trace(new_name, imported_trace.get_wave(from_step),
+                                                     imported_trace.whattype, imported_trace.numerical_type))
+                    self._imported_data[-1].axis = other_axis
         else:
             assert len(self._traces[0]) == len(other.get_axis(from_step)), \
                 "The two instances should have the same size. To avoid this use force_axis_alignment=True option"
@@ -343,7 +344,7 @@ class RawWrite:
                     trace.data = self._interpolate(trace.data, my_axis, new_axis)
             for imported_trace in self._imported_data:
                 new_trace = Trace(imported_trace.name,
-                                  self._interpolate(imported_trace.get_wave(), imported_trace.axis.get_wave(), new_axis),
+                                  self._interpolate(imported_trace.get_wave(), imported_trace.axis, new_axis),
                                   imported_trace.whattype, imported_trace.numerical_type)
                 self._traces.append(new_trace)
             self._traces[0] = Trace(old_axis.name, new_axis,
-- 
2.43.0


From 65ddac1d3155d7d772130b1554d56b1eec4379ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 064/144] fix: traces were not adapted to an aligned axis of
 the same length

---
 spicelib/raw/raw_write.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 91c648c..55f788a 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -336,12 +336,10 @@ class RawWrite:
     def _consolidate(self):
         if self._new_axis and self._imported_data:
             new_axis = self._new_axis
-            axis_length = len(new_axis)
             old_axis = self._traces[0]
-            if axis_length != len(old_axis):
-                my_axis = old_axis.data
-                for trace in self._traces[1:]:
-                    trace.data = self._interpolate(trace.data, my_axis, new_axis)
+            my_axis = old_axis.data
+            for trace in self._traces[1:]:
+                trace.data = self._interpolate(trace.data, my_axis, new_axis)
             for imported_trace in self._imported_data:
                 new_trace = Trace(imported_trace.name,
                                   self._interpolate(imported_trace.get_wave(), imported_trace.axis, new_axis),
-- 
2.43.0


From 80b658d0e3dced9066b4c212125d60e3025d2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 065/144] fix: aliases of complex traces were declared as real,
 and lost their imaginary part in RawWrite

---
 spicelib/raw/plot_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index b275028..28b88ad 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -584,6 +584,8 @@ class PlotData(PlotInterface):
             trace.data = eval(formula, local_vars)
         except Exception as err:
             raise RuntimeError(f'Error computing alias "{alias}" with formula "{formula}"') from err
+        if np.iscomplexobj(trace.data):
+            trace.numerical_type = 'complex'
         return trace
 
     @staticmethod
-- 
2.43.0


From 89ea73ad8892b70878b1a4c18cc91e9480d1efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 066/144] fix: .mout files were not recognised, so that they
 could never be read

---
 spicelib/log/ltsteps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index d0c3e37..c4b5a6c 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -296,7 +296,7 @@ class LTSpiceLogReader(LogfileData):
         self.logname = log_filename
         self.fourier = {}
         if encoding is None:
-            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|([\s\S]*)--- Expanded Netlist ---)")
+            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|([\s\S]*)--- Expanded Netlist ---|\s*Measurement:)")
         else:
             self.encoding = encoding
 
-- 
2.43.0


From 2e4238bd56e52727f9cbd6aa10beb18be0dbbe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 067/144] fix: ltsteps script looked for the log of a .mout
 file under a wrong name

---
 spicelib/scripts/ltsteps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/scripts/ltsteps.py b/spicelib/scripts/ltsteps.py
index 7b633e9..33e8d1e 100644
--- a/spicelib/scripts/ltsteps.py
+++ b/spicelib/scripts/ltsteps.py
@@ -146,7 +146,7 @@ def main():
             data.split_complex_values_on_datasets()
             data.export_data(fname_out)
         elif filename.endswith(".mout"):
-            log_file = filename[:len('mout')] + 'log'
+            log_file = filename[:-len('mout')] + 'log'
             if os.path.exists(log_file):
                 steps = LTSpiceLogReader(log_file, read_measures=False)
                 data = LTSpiceLogReader(filename, step_set=steps.stepset)
-- 
2.43.0


From b33e0148d76abf0bdf764f104a85af84928f53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 068/144] fix: step_count counted the step variables instead of
 the steps when a step_set is given

---
 spicelib/log/logfile_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index c8f561a..df762eb 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -161,7 +161,8 @@ class LogfileData:
         else:
             self.dataset = dataset.copy()  # A copy is done since the dictionary is a mutable object.
 
-        self.step_count = len(self.stepset)
+        # every step variable has one value per step
+        self.step_count = max((len(values) for values in self.stepset.values()), default=0)
         self.measure_count = len(self.dataset)
 
     def __getitem__(self, key):
-- 
2.43.0


From c15c433f50849e69beb2869f1a6fa815c71de669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 069/144] fix: the options listed in the header of LTspice 24
 logs were taken for a measurement

---
 spicelib/log/ltsteps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index c4b5a6c..c2a4fab 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -394,7 +394,7 @@ class LTSpiceLogReader(LogfileData):
                     else:
                         break  # Jumps to the section that reads measurements
 
-                if self.step_count == 0:  # then there are no steps,
+                if self.step_count == 0 and not line.startswith("Options:"):  # then there are no steps,
                     match = regx.match(line)
                     if match:
                         # Get the data
-- 
2.43.0


From 6169739b7b39294a0e67bb9c355dc2837fa7488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 070/144] fix: measurements that fail on some steps were
 attributed to other steps

---
 spicelib/log/logfile_data.py |  7 ++++---
 spicelib/log/ltsteps.py      | 10 +++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index df762eb..6fbffb5 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -344,9 +344,10 @@ class LogfileData:
         The two columns correspond to the magnitude and phase of the complex value in degrees.
         """
         for param in list(self.dataset.keys()):
-            if len(self.dataset[param]) > 0 and isinstance(self.dataset[param][0], LTComplex):
-                self.dataset[param + '_mag'] = [v.mag for v in self.dataset[param]]
-                self.dataset[param + '_ph'] = [v.ph for v in self.dataset[param]]
+            if any(isinstance(v, LTComplex) for v in self.dataset[param]):
+                # measurements that failed have no complex value
+                self.dataset[param + '_mag'] = [v.mag if isinstance(v, LTComplex) else v for v in self.dataset[param]]
+                self.dataset[param + '_ph'] = [v.ph if isinstance(v, LTComplex) else v for v in self.dataset[param]]
 
     def split_complex_values_on_datasets(self):
         """
diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index c2a4fab..740c014 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -414,6 +414,11 @@ class LTSpiceLogReader(LogfileData):
                                 try_convert_value(measurements[k])]  # need to be a list for compatibility
                 line = fin.readline()
 
+            def fill_up(rows, size, width):
+                """Steps on which the measurement failed aren't listed. They are filled, so that the others keep their place"""
+                while len(rows) < size:
+                    rows.append([float('nan')] * width)
+
             dataname = None
 
             headers = []  # Initializing an empty parameters
@@ -426,6 +431,7 @@ class LTSpiceLogReader(LogfileData):
                         if len(measurements):
                             _logger.debug("Storing Measurement %s (count %d)" % (dataname, len(measurements)))
                             self.measure_count += len(measurements)
+                            fill_up(measurements, self.step_count, len(headers))
                             for k, title in enumerate(headers):
                                 self.dataset[title.lower()] = [measure[k] for measure in measurements]
                         headers = []
@@ -436,8 +442,9 @@ class LTSpiceLogReader(LogfileData):
                     tokens = line.split("\t")
                     if len(tokens) >= 2:
                         try:
-                            int(tokens[0])  # This instruction only serves to trigger the exception
+                            step = int(tokens[0])  # This instruction also serves to trigger the exception
                             meas = tokens[1:]  # remove the first token
+                            fill_up(measurements, step - 1, len(meas))
                             measurements.append(try_convert_value(meas))
                             self.measure_count += 1
                         except ValueError:
@@ -457,6 +464,7 @@ class LTSpiceLogReader(LogfileData):
                 _logger.debug("Storing Measurement %s (count %d)" % (dataname, len(measurements)))
             if len(measurements):
                 self.measure_count += len(measurements)
+                fill_up(measurements, self.step_count, len(headers))
                 for k, title in enumerate(headers):
                     self.dataset[title.lower()] = [measure[k] for measure in measurements]
 
-- 
2.43.0


From 6ffbe37f43ee52f69cfeb8c47375ad81e1a3144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 071/144] fix: QSPICE measurements that fail on some steps were
 attributed to other steps

---
 spicelib/log/qspice_log_reader.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spicelib/log/qspice_log_reader.py b/spicelib/log/qspice_log_reader.py
index 5319055..5868c91 100644
--- a/spicelib/log/qspice_log_reader.py
+++ b/spicelib/log/qspice_log_reader.py
@@ -154,6 +154,8 @@ class QspiceLogReader(LogfileData):
             while line:
                 match = meas_regex.match(line)
                 if match:
+                    if headers and self.has_steps():
+                        self._fill_up(headers, self.step_count)
                     headers = None
                     token1 = match.group(1)
                     token2 = match.group(2)
@@ -179,6 +181,18 @@ class QspiceLogReader(LogfileData):
                             for title in headers:
                                 self.dataset[title.lower()] = []
                         self.measure_count += 1
+                        if self.has_steps():
+                            # Steps on which the measurement failed aren't listed
+                            self._fill_up(headers, values[0])
                         for k, title in enumerate(headers):
                             self.dataset[title.lower()].append(values[k])
                 line = fin.readline()
+            if headers and self.has_steps():
+                self._fill_up(headers, self.step_count)
+
+    def _fill_up(self, headers, size):
+        """Fills the columns up to the given number of steps, so that the values that follow are on their step"""
+        for title in headers:
+            column = self.dataset[title.lower()]
+            while len(column) < size:
+                column.append(len(column) if title == 'step' else float('nan'))
-- 
2.43.0


From 5b5c68055c9756df05a11bfbec4924672cfaa9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 072/144] fix: maximum, minimum and average of a single step
 raised an exception

---
 spicelib/log/logfile_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 6fbffb5..75b2f96 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -307,7 +307,8 @@ class LogfileData:
         :return: maximum value of the measurement
         :rtype: float or int
         """
-        return max(self.get_measure_values_at_steps(measure, steps))
+        values = self.get_measure_values_at_steps(measure, steps)
+        return values if isinstance(steps, int) else max(values)
 
     def min_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str:
@@ -321,7 +322,8 @@ class LogfileData:
         :return: minimum value of the measurement
         :rtype: float or int
         """
-        return min(self.get_measure_values_at_steps(measure, steps))
+        values = self.get_measure_values_at_steps(measure, steps)
+        return values if isinstance(steps, int) else min(values)
 
     def avg_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str | LTComplex:
@@ -336,7 +338,7 @@ class LogfileData:
         :rtype: float or int
         """
         values = self.get_measure_values_at_steps(measure, steps)
-        return sum(values) / len(values)
+        return values if isinstance(steps, int) else sum(values) / len(values)
 
     def obtain_amplitude_and_phase_from_complex_values(self):
         """
-- 
2.43.0


From 22214fc10278c30fe2e1fa0d08e1af241e46c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 073/144] fix: export_data ignored the line terminator asked
 for

---
 spicelib/log/logfile_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 75b2f96..5beffec 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -388,7 +388,7 @@ class LogfileData:
         if encoding is None:
             encoding = self.encoding if hasattr(self, 'encoding') else 'utf-8'
 
-        fout = open(export_file, mode, encoding=encoding)
+        fout = open(export_file, mode, encoding=encoding, newline=None if line_terminator == '\n' else '')
 
         if append_with_line_prefix is not None:  # if appending a file, it must write the column title
             fout.write('user info' + value_separator)
@@ -427,7 +427,7 @@ class LogfileData:
                 fout.write(value_separator + title)
                 columns_per_line += 1
 
-        fout.write('\n')  # Finished to write the headers
+        fout.write(line_terminator)  # Finished to write the headers
 
         if data_size is None:
             data_size = 0  # Skips writing data in the loop below
@@ -463,7 +463,7 @@ class LogfileData:
             if columns_writen != columns_per_line:
                 logging.error(f"Line with wrong number of values."
                               f" Expected:{columns_per_line} Index {index+1} has {columns_writen}")
-            fout.write('\n')
+            fout.write(line_terminator)
 
         fout.close()
 
-- 
2.43.0


From 36f7062831eb0d29f207788ecef72b5e01148cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 074/144] fix: LTSpiceLogReader.export_data did not accept the
 separators that its base class documents

---
 spicelib/log/ltsteps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 740c014..0ae38b5 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -471,9 +471,10 @@ class LTSpiceLogReader(LogfileData):
             _logger.debug("%d measurements" % len(self.dataset))
             _logger.info("Identified %d steps, read %d measurements" % (self.step_count, self.measure_count))
 
-    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None):
+    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None,
+                    value_separator: str = '\t', line_terminator: str = '\n'):
         """Aside from exporting the data, it also exports fourier data if it exists"""
-        super().export_data(export_file, encoding, append_with_line_prefix)
+        super().export_data(export_file, encoding, append_with_line_prefix, value_separator, line_terminator)
 
         fourier_export_file = os.path.splitext(export_file)[0] + "_fourier.txt"
         if self.fourier:
-- 
2.43.0


From a1857baec9f19831dcb998e5f9947d14cb5c0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 075/144] fix: header of the exported Fourier harmonics had one
 column too many without steps

---
 spicelib/log/ltsteps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 0ae38b5..270caa1 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -514,7 +514,8 @@ class LTSpiceLogReader(LogfileData):
                                        f"{analysis.phd}\t"
                                        f"{analysis.thd}\n")
                 fout.write("\n\nHarmonic Analysis\n")
-                fout.write("\t".join(self.stepset.keys()) + "\t")
+                if self.step_count > 0:
+                    fout.write("\t".join(self.stepset.keys()) + "\t")
                 fout.write("Signal\tN-Periods\tHarmonic\tFrequency\tFourier\tNormalized\tPhase\tNormalized\n")
                 for signal in self.fourier:
                     for analysis in self.fourier[signal]:
-- 
2.43.0


From 4bbaebe03f60a95164c8a503bf1ad09702726825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 076/144] fix: LTSpiceExport failed on files without steps, and
 kept the line end in the last header

---
 spicelib/log/ltsteps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 270caa1..d3e4aa9 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -180,7 +180,7 @@ class LTSpiceExport:
         fin = open(export_filename, encoding=self.encoding)
         file_header = fin.readline()
 
-        self.headers = file_header.split('\t')
+        self.headers = file_header.rstrip('\n').split('\t')
         # Set to read header
         go_header = True
 
@@ -207,7 +207,12 @@ class LTSpiceExport:
                             self.dataset[key.lower()] = []  # Initializes an empty list
 
             else:
-                values = line.split('\t')
+                if go_header:  # There are no steps
+                    go_header = False
+                    for key in self.headers:
+                        self.dataset[key.lower()] = []  # Initializes an empty list
+
+                values = line.rstrip('\n').split('\t')
 
                 for key in curr_dic:
                     self.dataset[key.lower()].append(curr_dic[key])
-- 
2.43.0


From a0fae5b7874a91fd843baa0c24ddd30e54d1b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 077/144] fix: runs whose step values have a positive exponent
 were attributed to the run before

---
 spicelib/log/ltsteps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index d3e4aa9..5d0660f 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -126,7 +126,7 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
     go_header = True
     run_no = 0  # Just to avoid warning, this is later overridden by the step information
     param_values = ""  # Just to avoid warning, this is later overridden by the step information
-    regx = re.compile(r"Step Information: ([\w=\d\. \-]+) +\((?:Run|Step): (\d*)/\d*\)\n")
+    regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)\n")
     for line in fin:
         if line.startswith("Step Information:"):
             match = regx.match(line)
@@ -187,7 +187,7 @@ class LTSpiceExport:
         curr_dic = {}
         self.dataset = {}
 
-        regx = re.compile(r"Step Information: ([\w=\d\. -]+) +\(Run: (\d*)/\d*\)\n")
+        regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)\n")
         for line in fin:
             if line.startswith("Step Information:"):
                 match = regx.match(line)
-- 
2.43.0


From 41901a1582e3433d16777c42237f44c337489e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 078/144] fix: reformat_LTSpice_export dropped the header of
 files without steps

---
 spicelib/log/ltsteps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 5d0660f..a24c6ab 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -146,6 +146,11 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
                     fout.write(msg)
                     _logger.debug(msg)
                     go_header = False
+        elif go_header is None:  # There are no steps, and therefore no columns to add
+            fout.write(line)
+        elif go_header:
+            fout.write(headers + line)
+            go_header = None
         else:
             fout.write(f"{run_no}\t{param_values}\t{line}")
 
-- 
2.43.0


From f67bcc88de5400ffadadca4eaf33920a7d29cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 079/144] fix: opLogReader lost devices when a title is
 repeated or lines end with spaces, and read beyond the blocks

---
 spicelib/log/semi_dev_op_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/semi_dev_op_reader.py b/spicelib/log/semi_dev_op_reader.py
index 518cd5a..1564a16 100644
--- a/spicelib/log/semi_dev_op_reader.py
+++ b/spicelib/log/semi_dev_op_reader.py
@@ -104,9 +104,11 @@ def opLogReader(filename: str) -> dict:
             match = is_title.search(line)
             if match is not None:
                 where = match.group(1)
-                dataset[where.lower()] = {}  # Creates a dictionary for each component type
+                dataset.setdefault(where.lower(), {})  # Creates a dictionary for each component type
+            elif line.strip() == '':
+                n_devices = 0  # The block of the devices ends here
             else:
-                cols = re.split(r'\s+', line.rstrip('\r\n'))
+                cols = re.split(r'\s+', line.rstrip())
                 if len(cols) > 1 and (cols[0].endswith(":") or cols[0] == 'Gmb'):  # The last 'or condition solves an
                     # LTSpice bug where the Gmb parameter is not suffixed by :  - Thanks to Amitkumar for finding this.
                     if cols[0] == "Name:":
-- 
2.43.0


From 0bb70329da4b9c085eb57cd18bd6e1a7b6aff938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 080/144] fix: files in windows-1252 were taken for utf-16

---
 spicelib/utils/detect_encoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/utils/detect_encoding.py b/spicelib/utils/detect_encoding.py
index e0cdcd3..7c1c9f4 100644
--- a/spicelib/utils/detect_encoding.py
+++ b/spicelib/utils/detect_encoding.py
@@ -58,6 +58,11 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
             # This encoding didn't work, let's try again
             continue        
         else:
+            if encoding.startswith('utf-16') or encoding.startswith('utf_16'):
+                # Nearly any sequence of bytes can be decoded as utf-16. Text in utf-16 has a zero on every ASCII character
+                with open(file_path, 'rb') as f:
+                    if b'\x00' not in f.read():
+                        continue
             if len(lines) == 0:
                 # Empty file
                 continue
-- 
2.43.0


From 1c489de023418664f595b910ec0b4f36919529a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 081/144] fix: sweep and sweep_n lost the last point by
 rounding

---
 spicelib/utils/sweep_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index 496b7a6..8def5bc 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -79,7 +79,8 @@ class sweep(BaseIterator):
     def __next__(self):
         val = self.start + self.niter * self.step
         self.niter += 1
-        if (self.step > 0 and val <= self.stop) or (self.step < 0 and val >= self.stop):
+        margin = abs(self.step) * 1e-6  # the last point shall not be lost by rounding
+        if (self.step > 0 and val <= self.stop + margin) or (self.step < 0 and val >= self.stop - margin):
             return val
         else:
             self.finished = True
-- 
2.43.0


From 7642f8b8a690fe4a5bf335fb9603a60603b53679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 082/144] fix: sweep_log lost the last point by rounding, and
 the only one when start and stop are the same

---
 spicelib/utils/sweep_iterators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index 8def5bc..ffd05d3 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -134,8 +134,9 @@ class sweep_log(BaseIterator):
     def __next__(self):
         val = self.val  # Store previous value
         self.val *= self.step  # Calculate the next item
-        if (self.start < self.stop and val <= self.stop) or \
-           (self.start > self.stop and val >= self.stop):
+        # The margin makes sure that the last point is not lost by rounding
+        if (self.step > 1 and val <= self.stop * (1 + 1e-9)) or \
+           (self.step < 1 and val >= self.stop * (1 - 1e-9)):
             return val
         else:
             self.finished = True
-- 
2.43.0


From 41818eb9e9a6aa333ad3d0d89409a5dcbc33e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 083/144] fix: sweep_n and sweep_log_n failed when asked for a
 single point, sweep_n also for equal limits

---
 spicelib/utils/sweep_iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index ffd05d3..b716e59 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -98,6 +98,8 @@ def sweep_n(start: int | float, stop: int | float, N: int) -> Iterable[float]:
         >>> list(sweep_n(15, -15, 13))
         [15, 12.5, 10.0, 7.5, 5.0, 2.5, 0.0, -2.5, -5.0, -7.5, -10.0, -12.5, -15.0]
         """
+    if N <= 1 or start == stop:
+        return [start] * N
     return sweep(start, stop, (stop-start)/(N-1))
 
 
@@ -156,7 +158,7 @@ class sweep_log_n(BaseIterator):
         [1.0, 0.5623413251903491, 0.31622776601683794, 0.17782794100389226, 0.09999999999999999]
         """
     def __init__(self, start: int | float, stop: int | float | None, number_of_elements: int):
-        step = math.exp(math.log(stop / start) / (number_of_elements - 1))
+        step = math.exp(math.log(stop / start) / (number_of_elements - 1)) if number_of_elements > 1 else 1
         assert step != 0, "Step cannot be 0"
         super().__init__(start, number_of_elements, step)
         self.niter = 0
-- 
2.43.0


From 2ff33a25f2f9588ff8ac1454626736db974646e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 084/144] fix: nested iterations on the same sweep disturbed
 each other

---
 spicelib/utils/sweep_iterators.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index b716e59..e4be842 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -17,6 +17,7 @@
 #
 # -------------------------------------------------------------------------------
 
+import copy
 import math
 from collections.abc import Iterable
 
@@ -40,8 +41,10 @@ class BaseIterator:
         self.finished = False
 
     def __iter__(self):
-        self.finished = False
-        return self
+        # Each iteration has its own state, so that several can be in progress on the same object
+        iterator = copy.copy(self)
+        iterator.finished = False
+        return iterator
 
     def __next__(self):
         raise NotImplementedError("This function needs to be overridden")
@@ -71,10 +74,10 @@ class sweep(BaseIterator):
         self.niter = 0
 
     def __iter__(self):
-        super().__iter__()
+        iterator = super().__iter__()
         # Resets the interator
-        self.niter = 0
-        return self
+        iterator.niter = 0
+        return iterator
 
     def __next__(self):
         val = self.start + self.niter * self.step
@@ -129,9 +132,9 @@ class sweep_log(BaseIterator):
         self.val = self.start
 
     def __iter__(self):
-        super().__iter__()
-        self.val = self. start
-        return self
+        iterator = super().__iter__()
+        iterator.val = self.start
+        return iterator
 
     def __next__(self):
         val = self.val  # Store previous value
@@ -164,9 +167,9 @@ class sweep_log_n(BaseIterator):
         self.niter = 0
 
     def __iter__(self):
-        super().__iter__()
-        self.niter = 0
-        return self
+        iterator = super().__iter__()
+        iterator.niter = 0
+        return iterator
 
     def __next__(self):
         if self.niter < self.stop:
-- 
2.43.0


From c198ff7503a97f955ccc759b530ed2a8b2eb0fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 085/144] fix: SimStepper skipped combinations when a sweep is
 given by a generator

---
 spicelib/sim/sim_stepping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 4662917..6293d66 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -24,7 +24,7 @@ __author__ = "Nuno Canto Brum <nuno.brum@gmail.com>"
 __copyright__ = "Copyright 2017, Fribourg Switzerland"
 
 import logging
-from collections.abc import Callable, Iterable
+from collections.abc import Callable, Iterable, Iterator
 from functools import wraps
 from pathlib import Path
 
@@ -38,7 +38,8 @@ class StepInfo:
     def __init__(self, what: str, elem: str, iterable: Iterable):
         self.what = what
         self.elem = elem
-        self.iter = iterable
+        # One-shot iterators (ex: generators) are needed more than once
+        self.iter = list(iterable) if isinstance(iterable, Iterator) else iterable
 
     def __len__(self):
         return len(list(self.iter))
-- 
2.43.0


From 1a65275e6f56f8101e55350414bb2ec0276de969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 086/144] fix: total_number_of_simulations ignored empty
 sweeps, although nothing is simulated then

---
 spicelib/sim/sim_stepping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 6293d66..24732bb 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -157,9 +157,8 @@ class SimStepper(AnyRunner):
         total = 1
         for step in self.iter_list:
             l = len(step)
-            if l:
-                total *= l
-            else:
+            total *= l
+            if l == 0:
                 _logger.debug(f"'{step}' is empty.")
         return total
 
-- 
2.43.0


From 6dfc96a9fa742ce0a333b3ecfadac1e80a868056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 087/144] fix: export_step_info failed without simulations, or
 when values were set after the first ones

---
 spicelib/sim/sim_stepping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 24732bb..aaa2019 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -252,8 +252,10 @@ class SimStepper(AnyRunner):
         rows = [runno for runno in self.sim_info]
         rows.sort()
 
-        # Extract column names from the first dictionary
-        fieldnames = ['runno'] + list(self.sim_info[rows[0]].keys())
+        # Extract column names, values may have been set after the first simulations
+        fieldnames = ['runno']
+        for runno in rows:
+            fieldnames.extend(key for key in self.sim_info[runno] if key not in fieldnames)
 
         # Open a CSV file for writing
         with open(export_filename, 'w', newline='') as csvfile:
-- 
2.43.0


From dde815b13ff416315407b2acac7c03ae60c48a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 088/144] fix: measurements that fail in some simulations of an
 analysis were attributed to other runs

---
 spicelib/sim/tookit/sim_analysis.py | 22 ++++++++++++----------
 spicelib/sim/tookit/worst_case.py   |  2 +-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 55bc58e..129ca58 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -191,16 +191,18 @@ class SimAnalysis:
         if log_data is None:
             return
 
-        for param in log_data.stepset:
-            if param not in self.log_data.stepset:
-                self.log_data.stepset[param] = log_data.stepset[param]
-            else:
-                self.log_data.stepset[param].extend(log_data.stepset[param])
-        for param in log_data.dataset:
-            if param not in self.log_data.dataset:
-                self.log_data.dataset[param] = log_data.dataset[param][:]
-            else:
-                self.log_data.dataset[param].extend(log_data.dataset[param][:])
+        def size_of(data: LogfileData) -> int:
+            return max((len(values) for values in (*data.stepset.values(), *data.dataset.values())), default=0)
+
+        # What is missing in one of the logs is filled with NaN, so that the values of each run stay together
+        old_size = size_of(self.log_data)
+        new_size = old_size + size_of(log_data)
+        for old, new in ((self.log_data.stepset, log_data.stepset), (self.log_data.dataset, log_data.dataset)):
+            for param in [*old, *(param for param in new if param not in old)]:
+                values = old.setdefault(param, [])
+                values.extend([float('nan')] * (old_size - len(values)))
+                values.extend(new.get(param, []))
+                values.extend([float('nan')] * (new_size - len(values)))
         self.log_data.step_count += log_data.step_count
 
     def read_logfiles(self) -> LogfileData:
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index a11bcb3..6b15071 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -206,7 +206,7 @@ class WorstCaseAnalysis(ToleranceDeviations):
         if meas_data is None:
             _logger.warning("Measurement %s not found in log files", meas_name)
             return None
-        elif len(meas_data) != len(self.simulations):
+        elif len(meas_data) != len(self.simulations) or any(value != value for value in meas_data):
             _logger.warning("Missing log files. Results may not be reliable. Probable cause are:\n"
                             "  - Failed simulations.\n"
                             "  - Measurement couldn't be done in simulation results.")
-- 
2.43.0


From c445bcf050a1de24d6a34071b6a382f08fe007f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 089/144] fix: step_count of the data of an analysis counted
 the step variables instead of the runs

---
 spicelib/sim/tookit/tolerance_deviations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 5286c79..dd28579 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -246,7 +246,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 run_start = self.log_data.stepset['run'][-1] + 1 if len(self.log_data.stepset) > 0 else 0
                 log_results.stepset = {'run': list(range(run_start, run_start + len(any_meas)))}
 
-            log_results.step_count = len(log_results.stepset)
+            log_results.step_count = len(log_results.stepset['run'])
 
         self.add_log_data(log_results)
         return log_results
@@ -273,7 +273,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 # will use the size of the first element found in the dataset
                 any_meas = next(iter(self.log_data.dataset.values()))
                 self.log_data.stepset = {'run': list(range(len(any_meas)))}
-            self.log_data.step_count = len(self.log_data.stepset)
+            self.log_data.step_count = len(self.log_data.stepset['run'])
 
         self.simulation_results['log_data'] = self.log_data
         return self.log_data
-- 
2.43.0


From 3205a0b9e8d511552980308b07cf3a7fb89267cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 090/144] fix: instructions given to an analysis after saving
 or running, and measurements configured, were lost

---
 spicelib/sim/tookit/sim_analysis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 129ca58..e00e711 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -55,7 +55,7 @@ class SimAnalysis:
         self.simulations = []
         self.last_run_number = 0
         self.received_instructions = []
-        self.instructions_added = False
+        self.instructions_added = 0  # Number of instructions already applied to the netlist
         self.log_data = LogfileData()
 
     def clear_simulation_data(self):
@@ -111,7 +111,7 @@ class SimAnalysis:
         user. This is useful for the case where the user wants to run multiple simulations with different parameters
         without having to add the instructions again."""
         self.editor.reset_netlist()
-        self.instructions_added = False
+        self.instructions_added = 0
 
     def set_component_value(self, ref: str, new_value: str):
         self.received_instructions.append(('set_component_value', ref, new_value))
@@ -132,9 +132,9 @@ class SimAnalysis:
         self.received_instructions.append(('remove_Xinstruction', search_pattern))
 
     def play_instructions(self):
-        if self.instructions_added:
-            return  # Nothing to do
-        for instruction in self.received_instructions:
+        # Only the instructions that were received since the last call are still to be applied
+        for instruction in self.received_instructions[self.instructions_added:]:
+            self.instructions_added += 1
             if instruction[0] == 'set_component_value':
                 self.editor.set_component_value(instruction[1], instruction[2])
             elif instruction[0] == 'set_element_model':
@@ -149,7 +149,6 @@ class SimAnalysis:
                 self.editor.remove_Xinstruction(instruction[1])
             else:
                 raise ValueError("Unknown instruction")
-        self.instructions_added = True
 
     def save_netlist(self, filename: str):
         self.play_instructions()
@@ -219,4 +218,4 @@ class SimAnalysis:
 
     def configure_measurement(self, meas_name: str, meas_expression: str, meas_type: str = 'tran'):
         """Configures a measurement to be done in the simulation"""
-        self.editor.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
+        self.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
-- 
2.43.0


From 619eb92ccbc14f0ef6e2cbbd92ecc6fb9342e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 091/144] fix: analyses took formulas or values that another
 analysis had left as nominal values, or did not vary components

---
 spicelib/sim/tookit/fast_worst_case.py           |  4 ++--
 spicelib/sim/tookit/montecarlo.py                |  4 +++-
 .../sim/tookit/quick_sensitivity_analysis.py     |  7 ++++---
 spicelib/sim/tookit/tolerance_deviations.py      | 16 ++++++++++++----
 spicelib/sim/tookit/worst_case.py                |  7 ++++---
 5 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index a540a0b..eb6f38c 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -93,6 +93,8 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
         """
         assert measure is not None, "The measure argument must be defined"
 
+        self._reset_netlist()  # reset the netlist
+        self._start_analysis()  # play the instructions
         self.clear_simulation_data()
         self.elements_analysed.clear()
         worst_case_elements = {}
@@ -169,8 +171,6 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         _logger.info("Worst Case Analysis: %d elements to be analysed", len(self.elements_analysed))
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Simulate the nominal case
         self.run(wait_resource=True,
                  callback=callback, callback_args=callback_args,
diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 3abaa2e..9a2cec2 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -68,6 +68,7 @@ class Montecarlo(ToleranceDeviations):
         min_max_norm_func = False
         tol_uni_func = False
         tol_norm_func = False
+        self._start_analysis()
         self.elements_analysed.clear()
         for ref in self.get_components('*'):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
@@ -90,7 +91,7 @@ class Montecarlo(ToleranceDeviations):
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
 
             if new_val != val:  # Only update the value if it has changed
-                self.set_component_value(ref, new_val)  # update the value
+                self.editor.set_component_value(ref, new_val)  # update the value
                 self.elements_analysed.append(ref)
 
         for param in self.parameter_deviations:
@@ -209,6 +210,7 @@ class Montecarlo(ToleranceDeviations):
                 new_val = self._get_sim_value(val, dev)
                 if new_val != val:  # Only update the value if it has changed
                     self.editor.set_parameter(param, new_val)
+            self.netlist_modified = True
             # Run the simulation
             rt = self.run(wait_resource=True,
                           callback=callback, callback_args=callback_args,
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 1c266d8..3053d44 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -34,6 +34,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for each component"""
         no = 0
+        self._start_analysis()
         self.elements_analysed.clear()
         use_min = kwargs.get('use_min', False)
         for comp in self.get_components('*'):
@@ -46,7 +47,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                 new_val = "{sammx(%s,%g,%d)}" % (val, used_value, no)
 
             if new_val != val:
-                self.set_component_value(comp, new_val)
+                self.editor.set_component_value(comp, new_val)
                 self.elements_analysed.append(comp)
                 no += 1
 
@@ -99,6 +100,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                      timeout: float | None = None,
                      exe_log: bool | None = True,
                      ):
+        self._reset_netlist()  # reset the netlist
+        self._start_analysis()  # play the instructions
         self.clear_simulation_data()
         self.elements_analysed.clear()
         # Calculate the number of runs
@@ -132,8 +135,6 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Add the run number to the measurements by using a parameter
         self.editor.set_parameter('run', -1)  # in case the step is commented.
         self.editor.add_instruction(".meas runm PARAM {run}")
diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index dd28579..5ce3432 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -79,6 +79,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
         self.testbench_prepared = False
         self.testbench_executed = False
         self.analysis_executed = False
+        self.netlist_modified = False  # Whether an analysis left its values or formulas in the netlist
         self.last_run_number = 0
         self.simulation_results = {}
         self.elements_analysed = []
@@ -163,6 +164,15 @@ class ToleranceDeviations(SimAnalysis, ABC):
     def _reset_netlist(self):
         super()._reset_netlist()
         self.testbench_prepared = False
+        self.netlist_modified = False
+
+    def _start_analysis(self):
+        """Makes sure that the nominal values are in the netlist, which are those of the circuit and of the
+        instructions received, before they are read and changed."""
+        if self.netlist_modified:
+            self._reset_netlist()
+        self.play_instructions()
+        self.netlist_modified = True
 
     @abstractmethod
     def prepare_testbench(self, **kwargs):
@@ -194,11 +204,9 @@ class ToleranceDeviations(SimAnalysis, ABC):
         :return: The callback returns of every batch if a callback function is given. Otherwise, None.
         """
         if not self.testbench_prepared:
-            super()._reset_netlist()
-            self.play_instructions()
+            self._reset_netlist()
             self.prepare_testbench()
-        else:
-            self.play_instructions()
+        self.play_instructions()
         self.editor.remove_instruction(".step param run -1 %d 1" % self.last_run_number)  # removes this instruction
         self.clear_simulation_data()
         # calculate the ideal number of runs per simulation to avoid orphan runs. This is to avoid having a simulation
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 6b15071..4e66f44 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -61,13 +61,14 @@ class WorstCaseAnalysis(ToleranceDeviations):
             new_val = "{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calculate expression for new value
 
         if new_val != val:
-            self.set_component_value(ref, new_val)  # update the value
+            self.editor.set_component_value(ref, new_val)  # update the value
             self.elements_analysed.append(ref)
         return True
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for the components"""
         index = 0
+        self._start_analysis()
         self.elements_analysed.clear()
         for ref in self.device_deviations:
             if self._set_component_deviation(ref, index):
@@ -108,6 +109,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
         """This method runs the analysis without updating the netlist.
         It will update component values and parameters according to their deviation type and call the simulation.
         The advantage of this method is that it doesn't require adding random functions to the netlist."""
+        self._reset_netlist()  # reset the netlist
+        self._start_analysis()  # play the instructions
         self.clear_simulation_data()
         self.elements_analysed.clear()
         worst_case_elements = {}
@@ -145,8 +148,6 @@ class WorstCaseAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         self.editor.set_parameter('run', -1)  # This is aligned with the testbench preparation
         self.editor.add_instruction(".meas runm PARAM {run}")
         # Simulate the nominal case
-- 
2.43.0


From 72e83a583cf73a1d7fca306340ed9aac8f9b7417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 092/144] fix: FastWorstCaseAnalysis raised an exception when a
 component does not act as expected

---
 spicelib/sim/tookit/fast_worst_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index eb6f38c..28ac90c 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -239,7 +239,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
                 max_setting[ref] = not max_setting[ref]
                 max_value = new_value
                 # Need to restart the cycle
-                iterator = iterator(self.elements_analysed)
+                iterator = iter(self.elements_analysed)
 
             # setting it back to the maximum value
             if max_setting[ref]:
-- 
2.43.0


From 51ad9441628ad10b840354463ea609d22ffe8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 093/144] fix: FastWorstCaseAnalysis dropped the instructions
 of the user when it ends

---
 spicelib/sim/tookit/fast_worst_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index 28ac90c..4af43dd 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -307,7 +307,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.cleanup_files()
-        self.reset_netlist()
+        self._reset_netlist()
         self.play_instructions()
 
         return nominal, min_value, max_comp_values, max_value, min_comp_values
-- 
2.43.0


From 16d0b5ff6e12442c50f7dd1c2507dd3ccc077193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 094/144] fix: results of a testbench that was run with a
 callback could not be read

---
 spicelib/sim/tookit/tolerance_deviations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 5ce3432..b4c1d75 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -229,9 +229,9 @@ class ToleranceDeviations(SimAnalysis, ABC):
             self.simulations.append(sim)
             self.editor.remove_instruction(run_stepping)
         self.runner.wait_completion()
+        self.testbench_executed = True
         if callback is not None:
             return (sim.get_results() if sim is not None else None for sim in self.simulations)
-        self.testbench_executed = True
         return None
 
     def add_log(self, run_task: RunTask) -> LogfileData | None:
-- 
2.43.0


From b0e1c8c0d0ea88063e388733b8fdb43ef5fb697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 095/144] fix: a testbench saved after it was run had lost its
 .step instruction

---
 spicelib/sim/tookit/tolerance_deviations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index b4c1d75..7aaf091 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -228,6 +228,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                                   run_filename=run_filename, exe_log=exe_log)
             self.simulations.append(sim)
             self.editor.remove_instruction(run_stepping)
+        self.editor.add_instruction(".step param run -1 %d 1" % self.last_run_number)  # puts it back
         self.runner.wait_completion()
         self.testbench_executed = True
         if callback is not None:
-- 
2.43.0


From 07191e1a0fb239261b0964d0ccd55f5d24aacc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 096/144] fix: make_sensitivity_analysis divided by zero when
 nothing has influence on the measurement

---
 spicelib/sim/tookit/worst_case.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 4e66f44..93175b3 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -18,6 +18,7 @@
 # -------------------------------------------------------------------------------
 
 import logging
+import math
 
 from .tolerance_deviations import ToleranceDeviations, DeviationType, ComponentDeviation
 from ..process_callback import CallbackType, CallbackArgsType
@@ -254,6 +255,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
                 idx = self.elements_analysed.index(ref_)
                 sensitivities[ref_] = diff_for_a_ref(wc_data, idx)
             total = sum(sens[0] for sens in sensitivities.values())
+            if total == 0:
+                total = math.inf  # nothing has any influence
 
             # Calculate the sensitivity for each component if ref is '*'
             # Return the sensitivity as a percentage of the total error
-- 
2.43.0


From 9591f78f71e5aa15296c98e1103699966fde99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 097/144] fix: WorstCaseAnalysis.run_analysis numbered its runs
 the other way around than the testbench and the documentation

---
 spicelib/sim/tookit/worst_case.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 93175b3..7211f62 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -167,9 +167,9 @@ class WorstCaseAnalysis(ToleranceDeviations):
                     ref = self.elements_analysed[bit_index]
                     val, dev, typ = worst_case_elements[ref]
                     if dev.typ == DeviationType.tolerance:
-                        new_val = val * (1 - dev.tolerance) if run & (1 << bit_index) else val * (1 + dev.tolerance)
+                        new_val = val * (1 + dev.tolerance) if run & (1 << bit_index) else val * (1 - dev.tolerance)
                     elif dev.typ == DeviationType.minmax:
-                        new_val = dev.min_val if run & (1 << bit_index) else dev.max_val
+                        new_val = dev.max_val if run & (1 << bit_index) else dev.min_val
                     else:
                         _logger.warning("Unknown deviation type")
                         new_val = val
-- 
2.43.0


From 8372190ea07e2b825dc51710630b9ae1ff9220a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 098/144] fix: Montecarlo wrote wrong formulas for tolerances
 of 0 or multiples of 10

---
 spicelib/sim/tookit/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 9a2cec2..cded3ba 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -74,7 +74,7 @@ class Montecarlo(ToleranceDeviations):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
             new_val = val
             if dev.typ == DeviationType.tolerance:
-                tolstr = ('%g' % dev.tolerance).rstrip('0').rstrip('.')
+                tolstr = '%g' % dev.tolerance
                 if dev.distribution == 'uniform':
                     new_val = "{utol(%s,%s)}" % (val, tolstr)  # calculate expression for new value
                     tol_uni_func = True
-- 
2.43.0


From 160a8a71c170982b1968f2fac038c8fde49c1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 099/144] fix: functions urng and nrng of the Montecarlo
 testbench were malformed, missing or had the wrong deviation

---
 spicelib/sim/tookit/montecarlo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index cded3ba..2f2f18e 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -89,6 +89,7 @@ class Montecarlo(ToleranceDeviations):
                 elif dev.distribution == 'normal':
                     new_val = "{nrng(%s,%g,%g)}" % (
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
+                    min_max_norm_func = True
 
             if new_val != val:  # Only update the value if it has changed
                 self.editor.set_component_value(ref, new_val)  # update the value
@@ -127,7 +128,7 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+flat(df2))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         elif self.runner.simulator.__name__ == 'Qspice':
             # if gauss function is needed
             #  => This is finally not needed because Qspice has a built-in gauss function (non-documented)
@@ -141,10 +142,10 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func ntol(nom,tol) {if(run<0, nom, nom*(1+gauss(tol/3)))}")
 
             if min_max_uni_func:
-                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+(df2*(2*random()-1))")
+                self.editor.add_instruction(".func urng(nom,mean,df2) {if(run<0, nom, mean+df2*(2*random()-1))}")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) {if(run<0, nom, mean+gauss(df6))}")
         else:
             _logger.warning("Simulator not supported for this method")
             raise NotImplementedError("Simulator not supported for this method")
-- 
2.43.0


From cd6ca7ac2119b0be2cc0772a832135231c986405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 100/144] fix: the testbench of QuickSensitivityAnalysis
 ignored deviations of parameters

---
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 3053d44..fc248dc 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -51,6 +51,18 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                 self.elements_analysed.append(comp)
                 no += 1
 
+        for param in self.parameter_deviations:
+            val, dev = self.get_parameter_value_deviation_type(param)
+            if dev.typ == DeviationType.tolerance:
+                new_val = "{satol(%s,%g,%d)}" % (val, dev.tolerance, no)
+            elif dev.typ == DeviationType.minmax:
+                new_val = "{sammx(%s,%g,%d)}" % (val, dev.min_val if use_min else dev.max_val, no)
+            else:
+                continue
+            self.editor.set_parameter(param, new_val)
+            self.elements_analysed.append(param)
+            no += 1
+
         self.last_run_number = no - 1
         if use_min:
             self.editor.add_instruction(".func satol(nom,tol,idx) nom*if(run==idx,1-tol,1)")
-- 
2.43.0


From 2ad30f063eb58b657e0657618fc1793e3756d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 101/144] fix: reading the results of an analysis raised
 StopIteration when no simulation has any measurement

---
 spicelib/sim/tookit/tolerance_deviations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 7aaf091..5af4308 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -251,7 +251,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
             else:
                 # auto assign a step starting from 0 and incrementing by 1
                 # will use the size of the first element found in the dataset
-                any_meas = next(iter(log_results.dataset.values()))
+                any_meas = next(iter(log_results.dataset.values()), [])
                 run_start = self.log_data.stepset['run'][-1] + 1 if len(self.log_data.stepset) > 0 else 0
                 log_results.stepset = {'run': list(range(run_start, run_start + len(any_meas)))}
 
@@ -280,7 +280,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
             else:
                 # auto assign a step starting from 0 and incrementing by 1
                 # will use the size of the first element found in the dataset
-                any_meas = next(iter(self.log_data.dataset.values()))
+                any_meas = next(iter(self.log_data.dataset.values()), [])
                 self.log_data.stepset = {'run': list(range(len(any_meas)))}
             self.log_data.step_count = len(self.log_data.stepset['run'])
 
-- 
2.43.0


From a89a9bdff9ca7116fb71c5dbd2019b45bce342a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 102/144] fix: 10meg was read as 0.01, only MEG and Meg were
 recognised

---
 spicelib/utils/float_unit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index e2deee9..60ebf19 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -63,12 +63,12 @@ def parse_value(value, accept_invalid):
                 i += 1
 
             if i < l:  # Still has characters to consume
-                if value[i] in _MULT:
+                if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG', in any case
+                    multiplier = _MULT['M']
+                    i += 3
+                elif value[i] in _MULT:
                     multiplier = _MULT[value[i]]
-                    if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG'
-                        i += 3
-                    else:
-                        i += 1
+                    i += 1
                 elif value[i].upper() == 'R':  # This supports the format 4R7
                     i += 1
                     unit = 'Ω'
-- 
2.43.0


From e2a64ca0b2490459a6c3b9e4f9758052a53db52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 103/144] fix: numbers separated by spaces were read as one
 number with decimals, 1 5 was read as 1.5

---
 spicelib/utils/float_unit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 60ebf19..7da23be 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -73,6 +73,10 @@ def parse_value(value, accept_invalid):
                     i += 1
                     unit = 'Ω'
 
+                else:
+                    if value[i] in "0123456789":
+                        raise ValueError("Spaces within a number")
+
                 # This part is done to support numbers with the format 1k7 or 1R8
                 j = i
                 while i < l and (value[i] in "0123456789"):
-- 
2.43.0


From a21cfde28b1ff7bf7b96169a3f2868b7a4fed83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 104/144] fix: values were not hashable, and could not be used
 in sets or as keys of dictionaries

---
 spicelib/utils/float_unit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 7da23be..5e130df 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -376,6 +376,8 @@ class float_unit(float):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    __hash__ = float.__hash__  # a class that defines __eq__ doesn't inherit it
+
 
 def to_float(value: str | float | int, accept_invalid: bool = True) -> float_unit | str:
     """
-- 
2.43.0


From f75e9951ea0494905a3960900ff14ae795350507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 105/144] fix: the unit of values with the Greek letter omega
 was not recognised

---
 spicelib/utils/float_unit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 5e130df..20c094f 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -259,6 +259,7 @@ _MULT = {
 _UNITS = {
     'R': Ohm,
     'Ω': Ohm,
+    '\u03a9': Ohm,  # The Greek letter, which is the one that most keyboards and programs write
     'V': Volt,
     'A': Ampere,
     'F': Farad,
-- 
2.43.0


From b3aedfedbfb513c94a03dc288d503eab2f850b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 106/144] fix: a value read from a component was changed when
 given to another one, model 1N4148 became 1.4148n

---
 spicelib/utils/float_unit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 20c094f..c54ffba 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -9,8 +9,10 @@ def format_eng(value: float | int) -> str:
     """
     Format value with engineering SI qualifiers.
 
-    If ``value`` is a ``float_unit`` instance, the stored unit is preserved.
+    If ``value`` is a ``float_unit`` instance that was made from a text, that text is returned, with its unit.
     """
+    if isinstance(value, float_unit) and value._original:
+        return value._original
     if value == 0.0:
         return f"{value:g}"
 
-- 
2.43.0


From d465168ef84093f413f40012bb9895d04e86e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 107/144] fix: complex values and numbers of numpy could not be
 written, or read back as other numbers

---
 spicelib/editor/asc_editor.py       | 3 ++-
 spicelib/editor/primitives.py       | 3 ++-
 spicelib/editor/qsch_editor.py      | 5 ++---
 spicelib/editor/spice_components.py | 3 ++-
 spicelib/editor/spice_subcircuit.py | 5 ++---
 spicelib/utils/float_unit.py        | 2 ++
 6 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 8514f08..282593d 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -26,6 +26,7 @@ from .updates import UpdateType, UpdatePermission
 from ..utils.detect_encoding import detect_encoding, EncodingDetectError
 import re
 import logging
+from numbers import Number
 
 from .ltspice_utils import TEXT_REGEX, TEXT_REGEX_X, TEXT_REGEX_Y, TEXT_REGEX_ALIGN, TEXT_REGEX_SIZE, TEXT_REGEX_TYPE, \
     TEXT_REGEX_TEXT, END_LINE_TERM, ASC_ROTATION_DICT, ASC_INV_ROTATION_DICT, asc_text_align_set, asc_text_align_get
@@ -571,7 +572,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for {param}")
         
-        if isinstance(value, (int, float)):
+        if isinstance(value, Number):
             value_str = format_eng(value)
         else:
             value_str = value
diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index fe080c7..eeb120d 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -1,5 +1,6 @@
 from collections import OrderedDict
 import copy
+from numbers import Number
 from typing import TypeAlias
 from .editor_errors import ParameterNotFoundError
 from ..utils.float_unit import format_eng, scan_eng, to_float, float_unit
@@ -224,7 +225,7 @@ class Component(Primitive):
         :return: Component value in string format
         """
         value = self.attributes.get('value')
-        if isinstance(value, (int, float)):
+        if isinstance(value, Number):
             return format_eng(value)
         return value
 
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index f5e4c8f..cf8ede7 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -23,6 +23,7 @@ from pathlib import Path
 from typing import TextIO, Any
 import re
 import logging
+from numbers import Number
 
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
@@ -1096,10 +1097,8 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
     def set_parameter(self, param: str, value: ValueType) -> None:
         # docstring inherited from BaseEditor
-        if isinstance(value, (int, float)):
+        if isinstance(value, Number):
             value_str: str = format_eng(value)
-        elif isinstance(value, complex):
-            value_str: str = format_eng(value.real) + "+" + format_eng(value.imag) + "j"
         else:
             value_str: str = value
 
diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index a4ee6f4..3a3a5d7 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -21,6 +21,7 @@ from typing import Dict
 import re
 import io
 import logging
+from numbers import Number
 
 from .editor_errors import UnrecognizedSyntaxError
 from .primitives import Component, scan_eng, format_eng, try_value
@@ -372,7 +373,7 @@ class SpiceComponent(Component):
                 if hasattr(self, attr):
                     old_attr_value = info[attr]
                     new_attr_value = self._attributes[attr]
-                    if isinstance(new_attr_value, (float, int)):
+                    if isinstance(new_attr_value, Number):
                         new_attr_value = format_eng(new_attr_value)
                     if old_attr_value != new_attr_value:
                         new_line = _insert_section(new_line, start, stop, new_attr_value)
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 7d76df5..6fbde3d 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -22,6 +22,7 @@ import re
 from pathlib import Path
 from typing import Any, Generator
 import logging
+from numbers import Number
 
 from ..utils.float_unit import format_eng
 from .editor_errors import *
@@ -629,10 +630,8 @@ class SpiceCircuit(BaseSubCircuit):
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
 
-        if isinstance(value, (int, float)):
+        if isinstance(value, Number):
             value_str = format_eng(value)
-        elif isinstance(value, complex):
-            value_str = format_eng(value.real) + "+" + format_eng(value.imag) + "j"
         else:
             value_str = value
 
diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index c54ffba..3ed215d 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -13,6 +13,8 @@ def format_eng(value: float | int) -> str:
     """
     if isinstance(value, float_unit) and value._original:
         return value._original
+    if isinstance(value, complex):
+        return f"{value.real:g}{value.imag:+g}j"
     if value == 0.0:
         return f"{value:g}"
 
-- 
2.43.0


From d6d68df4acdf78d7024dfe9ee356744426392ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 108/144] fix: setting a parameter to a text that starts with
 the same number was not written to the netlist

---
 spicelib/editor/spice_components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 3a3a5d7..343f49b 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -338,7 +338,8 @@ class SpiceComponent(Component):
                     if key not in old_params:
                         differences = True
                         break
-                    if self.params[key] != old_params[key]:
+                    # comparing the texts, as what follows the number can make a difference (Ex: 1mil and 1m)
+                    if str(self.params[key]) != str(old_params[key]):
                         differences = True
                         break
                 else:
-- 
2.43.0


From 717ef713920865ad5ff1a1e85868be91b1a25b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 109/144] fix: set_component_parameters(..., value=x) wrote a
 parameter named value, instead of setting the value as documented

---
 spicelib/editor/spice_subcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 6fbde3d..e2bb37c 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -585,7 +585,11 @@ class SpiceCircuit(BaseSubCircuit):
         # docstring inherited from BaseEditor
         if self.is_read_only():
             raise ValueError("Editor is read-only")
-        self.get_component(reference).set_parameters(**kwargs)
+        component = self.get_component(reference)
+        for key in ('Value', 'value'):
+            if key in kwargs and key not in component.params and kwargs[key] is not None:
+                component.set_value(kwargs.pop(key))
+        component.set_parameters(**kwargs)
 
     def get_parameter(self, param: str) -> str:
         """
-- 
2.43.0


From 856b8c23af952c2d46f39598fddb38d8b77023be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 110/144] =?UTF-8?q?fix:=20parameters=20with=20values=20as?=
 =?UTF-8?q?=204k7=20or=2010=C2=B5,=20or=20expressions=20without=20{},=20we?=
 =?UTF-8?q?re=20cut=20short,=20partly=20replaced=20or=20defined=20twice?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 spicelib/editor/base_editor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 3a0afec..1f19715 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -37,7 +37,10 @@ SUBCKT_DIVIDER: Final[str] = ':'  #: This controls the sub-circuit divider when
 # Ex: Editor.set_component_value('XU1:R1', '1k')
 
 def PARAM_REGEX(pname):
-    return r"(?P<name>" + pname + r")\s*[= ]\s*(?P<value>(?P<cb>\{)?(?(cb)[^\}]*\}|(?P<st>\")?(?(st)[^\"]*\"|[\d\.\+\-Ee]+[a-zA-Z%]*)))"
+    # An expression without {} can't have spaces, and one that doesn't start as a number needs the "="
+    word = r"(?:[^\s,;(){}\"']|\((?:[^()]|\([^()]*\))*\))"
+    return r"(?P<name>" + pname + r")\s*[= ]\s*(?P<value>\{[^\}]*\}|\"[^\"]*\"|'[^']*'|[\d\.\+\-]" + word + r"*|" \
+           r"(?:(?<==)|(?<==[ \t]))(?=[^\W\d]|\()" + word + r"+)"
 
 
 class BaseEditor(ABC):
-- 
2.43.0


From 254de77380685e8423c4a980cc0dfefbaf5dda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 111/144] fix: text in the comment of a .PARAM line was taken
 as a parameter

---
 spicelib/editor/asc_editor.py       |  8 +++-----
 spicelib/editor/base_editor.py      |  7 +++++++
 spicelib/editor/qsch_editor.py      |  8 +++-----
 spicelib/editor/spice_subcircuit.py | 10 ++++------
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 282593d..50063ff 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -36,7 +36,7 @@ from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType
+from .base_editor import PARAM_REGEX, ValueType, iter_params
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -535,12 +535,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it            
             if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
+                matches = iter_params(directive.text)
                 for match in matches:
                     if match.group("name").upper() == param_name_uppercase:
                         return match, directive
@@ -549,12 +548,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it
             if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
+                matches = iter_params(directive.text)
                 for match in matches:            
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 1f19715..23baecb 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -23,6 +23,7 @@ from abc import abstractmethod, ABC
 from pathlib import Path
 import logging
 import os
+import re
 import io
 from typing import TypeAlias, Final
 
@@ -43,6 +44,12 @@ def PARAM_REGEX(pname):
            r"(?:(?<==)|(?<==[ \t]))(?=[^\W\d]|\()" + word + r"+)"
 
 
+def iter_params(line: str):
+    """Iterates over the parameters of a line, which end where a comment starts"""
+    comment = line.find(';')
+    return re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE).finditer(line, 0, comment if comment >= 0 else len(line))
+
+
 class BaseEditor(ABC):
     """
     This defines the primitives (protocol) to be used for both SpiceEditor and AscEditor
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index cf8ede7..a43eeb1 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -28,7 +28,7 @@ from numbers import Number
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType
+from .base_editor import PARAM_REGEX, ValueType, iter_params
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
@@ -1034,7 +1034,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         self.update_permission = UpdatePermission.Inform
 
     def _get_param_named(self, param_name):
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         text_tags = self.schematic.get_items('text')  # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
@@ -1043,7 +1042,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
-                for match in param_regex.finditer(line):
+                for match in iter_params(line):
                     if match.group("name").upper() == param_name_upped:
                         return tag, match
         else:
@@ -1052,7 +1051,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         text_tags = self.schematic.get_items('text') # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
@@ -1060,7 +1058,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
-                matches = param_regex.finditer(line)
+                matches = iter_params(line)
                 for match in matches:
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index e2bb37c..f2fa5e2 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -33,7 +33,7 @@ from .updates import UpdateType, UpdatePermission
 from .base_subcircuit import BaseSubCircuit
 from .spice_components import SpiceComponent, component_replace_regexs, _insert_section
 from .spice_subcircuit_instance import SpiceCircuitInstance
-from .base_editor import SUBCKT_DIVIDER, PARAM_REGEX, BaseEditor
+from .base_editor import SUBCKT_DIVIDER, PARAM_REGEX, BaseEditor, iter_params
 
 from ..utils.detect_encoding import detect_encoding, EncodingDetectError
 from ..utils.file_search import search_file_in_containers
@@ -267,7 +267,6 @@ class SpiceCircuit(BaseSubCircuit):
         Internal function. Do not use. Returns a line starting with command and matching the search with the regular
         expression
         """
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         line_no = 0
         while line_no < len(self.netlist):
@@ -290,7 +289,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj
             cmd = get_line_command(line) # pyright: ignore[reportArgumentType]
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
+                matches = iter_params(line)
                 for match in matches:
                     if match.group("name").upper() == param_name_upped:
                         return line_no, match, self.netlist
@@ -300,7 +299,6 @@ class SpiceCircuit(BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for line in self.netlist:
             if isinstance(line, IncludeFile):  # same for include files
                 if line.editor and isinstance(line.editor, SpiceCircuit):
@@ -311,7 +309,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj # pyright: ignore[reportAssignmentType]
             cmd = get_line_command(line)
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
+                matches = iter_params(line)
                 for match in matches:
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
@@ -647,7 +645,7 @@ class SpiceCircuit(BaseSubCircuit):
                     start, stop = match.span()
                     netlist[param_line]._obj = netlist[param_line].obj[:start] + netlist[param_line].obj[stop:]
                     # if no other parameters are left, remove the line from the netlist
-                    all_params = re.findall(PARAM_REGEX(r"\w+"), netlist[param_line].obj, flags=re.IGNORECASE)
+                    all_params = list(iter_params(netlist[param_line].obj))
                     if len(all_params) == 0:  # If the line is empty or only has .PARAM, remove it from the netlist
                         netlist[param_line] = '* SpiceEditor removed empty .PARAM line' + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
-- 
2.43.0


From 2b27a12eb67905db021ccdeaabe7baa759300b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 112/144] fix: symbols of a circuit were taken from the folder
 of a circuit that was read before

---
 spicelib/editor/asc_editor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 50063ff..2f985af 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -727,8 +727,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return file_found
 
     def _asy_file_find(self, filename) -> str | None:
-        if filename in self.symbol_cache:
-            return self.symbol_cache[filename]
+        # Symbols are searched first next to the circuit, so the same name can be another file for another circuit
+        key = (filename, os.path.abspath(os.path.split(self.circuit_file)[0]), os.path.abspath(os.path.curdir),
+               tuple(self.simulator_lib_paths), tuple(self.custom_lib_paths))
+        if key in self.symbol_cache:
+            return self.symbol_cache[key]
         _logger.info(f"Searching for symbol {filename}...")
         # create list of directories to search, based on the simulator_lib_paths. Just add "/sym" to the path
         my_lib_paths = [os.path.join(x, "sym") for x in self.simulator_lib_paths]
@@ -740,7 +743,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                                                *self.custom_lib_paths
                                                )
         if file_found is not None:
-            self.symbol_cache[filename] = file_found
+            self.symbol_cache[key] = file_found
         return file_found
 
     def add_instruction(self, instruction: str) -> None:
-- 
2.43.0


From 8bec16e9e5c6224ecfad3f3b29faea8e5b390a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 113/144] fix: expressions that start with a number were read
 as that number, 2*q was read as 2

---
 spicelib/utils/float_unit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 3ed215d..c12e5f4 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -92,6 +92,8 @@ def parse_value(value, accept_invalid):
             i += 1
         if i < l:
             unit = value[i:]
+            if unit[0] in "-/,<>?:|&!=~" or any(c in "*+(){}^" for c in unit):
+                raise ValueError("An expression and not a number")
 
         if suffix_number:
             value = float(value[:k] + "." + suffix_number) * multiplier
-- 
2.43.0


From aa945099858f9ee5ef26e1baf5323caf1f2ceab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:48 +0000
Subject: [PATCH 114/144] fix: instructions in schematic texts of several lines
 were not found, or were cut or removed with their neighbours

---
 spicelib/editor/asc_editor.py  |  96 ++++++++++++++++---------------
 spicelib/editor/base_editor.py |  47 ++++++++++++++-
 spicelib/editor/qsch_editor.py | 102 +++++++++++++++++++++------------
 3 files changed, 157 insertions(+), 88 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 2f985af..290e54d 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -36,7 +36,7 @@ from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, iter_params
+from .base_editor import PARAM_REGEX, ValueType, instruction_command, instruction_spans, iter_text_params, remove_instruction_span
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -538,11 +538,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it            
-            if directive.text.upper().startswith(".PARAM"):
-                matches = iter_params(directive.text)
-                for match in matches:
-                    if match.group("name").upper() == param_name_uppercase:
-                        return match, directive
+            for match in iter_text_params(directive.text):
+                if match.group("name").upper() == param_name_uppercase:
+                    return match, directive
         return None, None
     
     def get_all_parameter_names(self) -> list[str]:
@@ -551,11 +549,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it
-            if directive.text.upper().startswith(".PARAM"):
-                matches = iter_params(directive.text)
-                for match in matches:            
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
+            for match in iter_text_params(directive.text):
+                param_name = match.group('name')
+                param_names.append(param_name.upper())
         return sorted(param_names)
     
     def get_parameter(self, param: str) -> str:
@@ -758,15 +754,15 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 if directive.type == TextTypeEnum.COMMENT:
                     i += 1
                     continue  # this is a comment
-                directive_text = directive.text.strip()
-                directive_command = directive_text.split()[0].upper()
-                if directive_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    self.begin_update()
-                    self.directives[i].text = instruction
-                    _logger.info(f"Instruction {directive_text} updated to {instruction}")
-                    self.end_update("INSTRUCTION", directive_text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
+                for start, stop in instruction_spans(directive.text):
+                    old_instruction = directive.text[start:stop].strip()
+                    if instruction_command(old_instruction) in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                        self.begin_update()
+                        directive.text = directive.text[:start] + instruction + directive.text[stop:]
+                        _logger.info(f"Instruction {old_instruction} updated to {instruction}")
+                        self.end_update("INSTRUCTION", old_instruction, UpdateType.DeleteInstruction)
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        return  # Job done, can exit this method
                 i += 1
         elif set_command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
@@ -779,20 +775,29 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
         self.canvas_updated = True
 
+    def _remove_instruction_of(self, directive: Text, start: int, stop: int):
+        """Removes one instruction of a directive, which can have several lines, and the directive with the last one"""
+        self.begin_update()
+        instruction = directive.text[start:stop]
+        directive.text = remove_instruction_span(directive.text, start, stop)
+        if not directive.text:
+            self.directives[:] = [d for d in self.directives if d is not directive]
+        _logger.info(f"Instruction {instruction} removed")
+        self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
+
     def remove_instruction(self, instruction: str) -> bool:
-        i = 0
-        while i < len(self.directives):
-            if self.directives[i].type == TextTypeEnum.COMMENT:
-                i += 1
-                continue  # this is a comment   
-            if instruction in self.directives[i].text:
-                self.begin_update()
-                text = self.directives[i].text
-                del self.directives[i]
-                _logger.info(f"Instruction {text} removed")
-                self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
-                return True  # Job done, can exit this method
-            i += 1
+        directives = [d for d in self.directives if d.type != TextTypeEnum.COMMENT]
+        # The instruction itself comes first, then one that contains the text given
+        for directive in directives:
+            for start, stop in [(0, len(directive.text))] + instruction_spans(directive.text):
+                if directive.text[start:stop].strip() == instruction.strip():
+                    self._remove_instruction_of(directive, start, stop)
+                    return True  # Job done, can exit this method
+        for directive in directives:
+            for start, stop in instruction_spans(directive.text):
+                if instruction in directive.text[start:stop]:
+                    self._remove_instruction_of(directive, start, stop)
+                    return True  # Job done, can exit this method
 
         msg = f'Instruction "{instruction}" not found'
         _logger.error(msg)
@@ -801,20 +806,17 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
     def remove_Xinstruction(self, search_pattern: str) -> bool:
         regex = re.compile(search_pattern, re.IGNORECASE)
         instr_removed = False
-        i = 0
-        while i < len(self.directives):
-            if self.directives[i].type == TextTypeEnum.COMMENT:
-                i += 1
-                continue  # this is a comment            
-            instruction = self.directives[i].text
-            if regex.match(instruction) is not None:
-                self.begin_update()
-                instr_removed = True
-                del self.directives[i]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f"Instruction {instruction} removed")
-            else:
-                i += 1
+        for directive in [d for d in self.directives if d.type != TextTypeEnum.COMMENT]:
+            i = 0
+            spans = instruction_spans(directive.text)
+            while i < len(spans):
+                start, stop = spans[i]
+                if regex.match(directive.text[start:stop]) is not None:
+                    self._remove_instruction_of(directive, start, stop)
+                    instr_removed = True
+                    spans = instruction_spans(directive.text) if directive.text else []
+                else:
+                    i += 1
         if instr_removed:
             self.canvas_updated = True
             return True
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 23baecb..5463456 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -44,10 +44,51 @@ def PARAM_REGEX(pname):
            r"(?:(?<==)|(?<==[ \t]))(?=[^\W\d]|\()" + word + r"+)"
 
 
-def iter_params(line: str):
+def iter_params(line: str, start: int = 0, stop: int | None = None):
     """Iterates over the parameters of a line, which end where a comment starts"""
-    comment = line.find(';')
-    return re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE).finditer(line, 0, comment if comment >= 0 else len(line))
+    if stop is None:
+        stop = len(line)
+    comment = line.find(';', start, stop)
+    return re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE).finditer(line, start, comment if comment >= 0 else stop)
+
+
+def instruction_spans(text: str, start: int = 0) -> list[tuple[int, int]]:
+    """The start and the end of each instruction in a text of a schematic. The lines of a text are separated by the two
+    characters \\n, and a line that starts with + continues the instruction before it."""
+    spans = []
+    for line in text[start:].split('\\n'):
+        stop = start + len(line)
+        if spans and line.lstrip().startswith('+'):
+            spans[-1] = (spans[-1][0], stop)
+        else:
+            spans.append((start, stop))
+        start = stop + len('\\n')
+    return spans
+
+
+def instruction_command(text: str) -> str:
+    """The command of an instruction, in upper case"""
+    words = text.split(maxsplit=1)
+    return words[0].upper() if words else ''
+
+
+def remove_instruction_span(text: str, start: int, stop: int, first: int = 0) -> str:
+    """The text of a schematic, that starts at first, without one of its instructions"""
+    if text.startswith('\\n', stop):
+        return text[:start] + text[stop + len('\\n'):]
+    return text[:max(start - len('\\n'), first)] + text[stop:]
+
+
+def iter_text_params(text: str, first: int = 0):
+    """Iterates over the parameters of all the .PARAM instructions in a text of a schematic"""
+    for start, stop in instruction_spans(text, first):
+        if instruction_command(text[start:stop]).startswith('.PARAM'):
+            while start <= stop:
+                end = text.find('\\n', start, stop)
+                if end < 0:
+                    end = stop
+                yield from iter_params(text, start, end)
+                start = end + len('\\n')
 
 
 class BaseEditor(ABC):
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index a43eeb1..89725c6 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -28,7 +28,7 @@ from numbers import Number
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, iter_params
+from .base_editor import PARAM_REGEX, ValueType, instruction_command, instruction_spans, iter_text_params, remove_instruction_span
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
@@ -176,6 +176,11 @@ def decap(s: str) -> str:
     return regex.sub(r"\1=\2", s)
 
 
+def _instruction_start(text: str) -> int:
+    """The position where the instructions start in the text of a directive, after the qualifier"""
+    return len(QSCH_TEXT_INSTR_QUALIFIER) if text.startswith(QSCH_TEXT_INSTR_QUALIFIER) else 0
+
+
 def smart_split(s):
     """Splits a string into chunks based on spaces. What is inside "" is not divided."""
     return re.findall(r'[^"\s]+|"[^"]*"', s)
@@ -1040,11 +1045,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                for match in iter_params(line):
-                    if match.group("name").upper() == param_name_upped:
-                        return tag, match
+            for match in iter_text_params(line, _instruction_start(line)):
+                if match.group("name").upper() == param_name_upped:
+                    return tag, match
         else:
             return None, None
         
@@ -1056,12 +1059,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                matches = iter_params(line)
-                for match in matches:
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
+            for match in iter_text_params(line, _instruction_start(line)):
+                param_name = match.group('name')
+                param_names.append(param_name.upper())
         return sorted(param_names)
 
     def _qsch_file_find(self, filename: str, work_dir: str | None = None) -> str | None:
@@ -1109,8 +1109,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             _logger.debug(f"Parameter {param} found in QSCH file, updating it")
             text: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             start, stop = match.span("value")
-            start += len(QSCH_TEXT_INSTR_QUALIFIER)
-            stop += len(QSCH_TEXT_INSTR_QUALIFIER)
             text = text[:start] + value_str + text[stop:]
             tag.set_attr(QSCH_TEXT_STR_ATTR, text)
             _logger.info(f"Parameter {param} updated to {value_str}")
@@ -1258,13 +1256,13 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                     continue
                 text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-                text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-                command = text.split()[0].upper()
-                if command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + instruction)
-                    self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION" ,instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
+                for start, stop in instruction_spans(text, _instruction_start(text)):
+                    old_instruction = text[start:stop].strip()
+                    if instruction_command(old_instruction) in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                        text_tag.set_attr(QSCH_TEXT_STR_ATTR, text[:start] + instruction + text[stop:])
+                        self.end_update("INSTRUCTION", old_instruction, UpdateType.DeleteInstruction)
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        return  # Job done, can exit this method
 
         elif command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
@@ -1275,20 +1273,44 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         tag, _ = QschTag.parse(f'«text ({x},{y}) 1 0 0 0x1000000 -1 -1 "{QSCH_TEXT_INSTR_QUALIFIER}{instruction}"»')
         self.schematic.items.append(tag) # pyright: ignore[reportOptionalMemberAccess]
 
+    def _instruction_tags(self) -> list[QschTag]:
+        """The texts of the schematic that are not comments"""
+        return [text_tag for text_tag in self.schematic.get_items('text') # pyright: ignore[reportOptionalMemberAccess]
+                if text_tag.get_attr(QSCH_TEXT_COMMENT) != 1]
+
+    def _remove_instruction_of(self, text_tag: QschTag, start: int, stop: int):
+        """Removes one instruction of a text, which can have several lines, and the text with the last one"""
+        text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
+        first = _instruction_start(text)
+        instruction = text[start:stop]
+        text = remove_instruction_span(text, start, stop, first)
+        if len(text) > first:
+            text_tag.set_attr(QSCH_TEXT_STR_ATTR, text)
+        else:
+            items = self.schematic.items # pyright: ignore[reportOptionalMemberAccess]
+            items[:] = [item for item in items if item is not text_tag]
+        self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
+        _logger.info(f'Instruction "{instruction}" removed')
+
     def remove_instruction(self, instruction: str) -> bool:
         # docstring inherited from BaseEditor
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing instruction {instruction}")
-        for text_tag in self.schematic.get_items('text'): # pyright: ignore[reportOptionalMemberAccess]
-            if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
-                continue
+        # The instruction itself comes first, then one that contains the text given
+        for text_tag in self._instruction_tags():
             text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            if instruction in text:
-                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{instruction}" removed')
-                return True  # Job done, can exit this method
+            first = _instruction_start(text)
+            for start, stop in [(first, len(text))] + instruction_spans(text, first):
+                if text[start:stop].strip() == instruction.strip():
+                    self._remove_instruction_of(text_tag, start, stop)
+                    return True  # Job done, can exit this method
+        for text_tag in self._instruction_tags():
+            text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
+            for start, stop in instruction_spans(text, _instruction_start(text)):
+                if instruction in text[start:stop]:
+                    self._remove_instruction_of(text_tag, start, stop)
+                    return True  # Job done, can exit this method
 
         msg = f'Instruction "{instruction}" not found'
         _logger.error(msg)
@@ -1301,16 +1323,20 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             raise PermissionError(f"Permission denied for removing instructions with pattern '{search_pattern}'")
         regex = re.compile(search_pattern, re.IGNORECASE)
         instr_removed = False
-        for text_tag in self.schematic.get_items('text'): # pyright: ignore[reportOptionalMemberAccess]
-            if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
-                continue
+        for text_tag in self._instruction_tags():
             text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if regex.match(text):
-                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION" ,text, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{text}" removed')
-                instr_removed = True
+            first = _instruction_start(text)
+            i = 0
+            spans = instruction_spans(text, first)
+            while i < len(spans):
+                start, stop = spans[i]
+                if regex.match(text[start:stop]):
+                    self._remove_instruction_of(text_tag, start, stop)
+                    instr_removed = True
+                    text = remove_instruction_span(text, start, stop, first)
+                    spans = instruction_spans(text, first) if len(text) > first else []
+                else:
+                    i += 1
         if instr_removed:
             return True
         else:
-- 
2.43.0


From 0d40c7c6c827f3bc84cad3d132056a9229293541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:38 +0000
Subject: [PATCH 115/144] fix: the IOPIN lines of a schematic were lost when it
 was saved

---
 spicelib/editor/asc_editor.py     | 3 +++
 spicelib/editor/base_schematic.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 290e54d..f002269 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -265,6 +265,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.X} {wire.V2.Y}" + END_LINE_TERM)
             for flag in self.labels:
                 asc.write(f"FLAG {flag.coord.X} {flag.coord.Y} {flag.text}" + END_LINE_TERM)
+                for port in self.ports:
+                    if port.text is flag:
+                        asc.write(f"IOPIN {flag.coord.X} {flag.coord.Y} {port.direction}" + END_LINE_TERM)
             for component in self.components.values():
                 symbol = component.symbol
                 posX = component.position.X
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index d856984..06ff4c6 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -299,6 +299,7 @@ class BaseSchematic(BaseEditor):
         self.wires.clear()
         self.labels.clear()
         self.directives.clear()
+        self.ports.clear()
         self.lines.clear()
         self.shapes.clear()
         self.canvas_updated = False
@@ -309,7 +310,7 @@ class BaseSchematic(BaseEditor):
         from copy import deepcopy
         self.components = deepcopy(editor.components)
         self.wires = deepcopy(editor.wires)
-        self.labels = deepcopy(editor.labels)
+        self.labels, self.ports = deepcopy((editor.labels, editor.ports))
         self.directives = deepcopy(editor.directives)
         self.lines = deepcopy(editor.lines)
         self.shapes = deepcopy(editor.shapes)
@@ -397,6 +398,8 @@ class BaseSchematic(BaseEditor):
             directive.coord.X = round_fun(directive.coord.X * scale_x + offset_x)
             directive.coord.Y = round_fun(directive.coord.Y * scale_y + offset_y)
         for port in self.ports:
+            if any(port.text is label for label in self.labels):
+                continue  # already scaled
             port.text.coord.X = round_fun(port.text.coord.X * scale_x + offset_x)
             port.text.coord.Y = round_fun(port.text.coord.Y * scale_y + offset_y)
         for line in self.lines:
-- 
2.43.0


From c369d67bd6e3b8dde751c5554b1c0f1b514f9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 116/144] fix: the vertical texts of a schematic were saved as
 horizontal ones

---
 spicelib/editor/ltspice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/ltspice_utils.py b/spicelib/editor/ltspice_utils.py
index 1bbf178..a1f67b7 100644
--- a/spicelib/editor/ltspice_utils.py
+++ b/spicelib/editor/ltspice_utils.py
@@ -27,7 +27,7 @@ __copyright__ = "Copyright 2024, Fribourg Switzerland"
 
 # Regular expressions
 TEXT_REGEX = re.compile(
-    r"TEXT (-?\d+)\s+(-?\d+)\s+V?(Left|Right|Top|Bottom|Center|Invisible)\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
+    r"TEXT (-?\d+)\s+(-?\d+)\s+(V?(?:Left|Right|Top|Bottom|Center|Invisible))\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
     re.IGNORECASE
 )
 
-- 
2.43.0


From 7c7c5c9c3e4146b3112979afcccd2274da3dc495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 117/144] fix: AscEditor.set_element_model changed the drawing
 of the component instead of its model

---
 spicelib/editor/asc_editor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index f002269..4319ebc 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -616,8 +616,12 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def set_element_model(self, element: str, model: str) -> None:
         component = self.get_component(element)
-        component.symbol = model
-        _logger.info(f"Component {element} updated to {model}")
+        if "Value" in component.attributes:
+            component.set_value(model)  # This is where the model is, the symbol is only the drawing
+        else:
+            component.symbol = model
+            component.parent.canvas_updated = True # pyright: ignore[reportAttributeAccessIssue, reportOptionalMemberAccess]
+            _logger.info(f"Component {element} updated to {model}")
 
     def get_component_value(self, element: str) -> str:
         component = self.get_component(element)
-- 
2.43.0


From eff29bac2eba9d2de50a7ca56b391c7c0d9b90e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 118/144] fix: AscEditor.remove_component ignored the read-only
 permission and raised KeyError for an unknown component

---
 spicelib/editor/asc_editor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 4319ebc..5944a44 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -670,8 +670,12 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return [k for k in self.components.keys() if k[0] in prefixes]
 
     def remove_component(self, designator: str):
-        self.begin_update()
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Permission denied for removing component {designator}")
         sub_circuit, ref = self._get_parent(designator)
+        if sub_circuit is not self:
+            return sub_circuit.remove_component(ref)
+        self.get_component(ref)  # Raises an exception if it does not exist
         del sub_circuit.components[ref]
         sub_circuit.end_update(designator, "", UpdateType.DeleteComponent)
 
-- 
2.43.0


From d6429017b642047b73f441b5ba95fe17b55d440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 119/144] fix: a schematic with a sub-circuit of a library
 could not be saved

---
 spicelib/editor/asc_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 5944a44..87f0999 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -285,8 +285,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 asc.write(f"SYMATTR InstName {component.reference}" + END_LINE_TERM)
                 if component.reference.startswith('X') and "_SUBCKT" in component.attributes:
                     # writing the sub-circuit if it was updated
-                    sub_circuit: AscEditor = component.attributes['_SUBCKT']
-                    if sub_circuit is not None and sub_circuit.updated():
+                    sub_circuit = component.attributes['_SUBCKT']
+                    if isinstance(sub_circuit, AscEditor) and sub_circuit.updated():
                         sub_circuit.save_as(sub_circuit.circuit_file)
                 for attr, value in component.attributes.items():
                     if not attr.startswith('_'):  # All these are not exported since they are only used internally
-- 
2.43.0


From b3253f45fcff43bf0cbc6cdaf966936899a337a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 120/144] fix: the sub-circuits of a library that starts with a
 .SUBCKT were not found

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index f2fa5e2..92b9a53 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -986,7 +986,7 @@ class SpiceCircuit(BaseSubCircuit):
         reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + re.escape(subckt_name) + r"(?!\S)", re.IGNORECASE)
         # 1. Find Encoding
         try:
-            encoding = detect_encoding(library, r"[\* a-zA-Z]")
+            encoding = detect_encoding(library, r"[\*.;\s a-zA-Z]")
         except EncodingDetectError:
             return None
         #  2. scan the file
-- 
2.43.0


From 7f873d360a2c67b3d6cd1f6f6aca59732f037016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 121/144] fix: the changes in the sub-circuits of a sub-circuit
 were lost when the schematic was saved

---
 spicelib/editor/base_schematic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 06ff4c6..5256975 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -322,7 +322,9 @@ class BaseSchematic(BaseEditor):
             sub_ref, sub_comp = reference.split(SUBCKT_DIVIDER, 1)
 
             subckt = self.get_component(sub_ref)
-            subcircuit = subckt.attributes['_SUBCKT']
+            subcircuit = subckt.attributes.get('_SUBCKT')
+            if subcircuit is None:
+                raise ComponentNotFoundError(f"The sub-circuit of {sub_ref} was not found")
             return subcircuit, sub_comp
         else:
             return self, reference
@@ -424,4 +426,8 @@ class BaseSchematic(BaseEditor):
         self.canvas_updated = True
 
     def updated(self):
-        return self.canvas_updated or len(self.netlist_updates) > 0
+        if self.canvas_updated or len(self.netlist_updates) > 0:
+            return True
+        # A sheet that only changed in one of its sub-circuits also has to be visited when saving
+        sub_circuits = (component.attributes.get('_SUBCKT') for component in self.components.values())
+        return any(isinstance(sub_circuit, BaseSchematic) and sub_circuit.updated() for sub_circuit in sub_circuits)
-- 
2.43.0


From ef7bf03fc02475662db357e7208e8d66c98abc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 122/144] fix: AscEditor wrote None, or other text that is no
 parameter, when component parameters were removed or set by the component

---
 spicelib/editor/asc_editor.py | 85 +++++++++++++++++------------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 87f0999..238d74a 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -63,7 +63,7 @@ class AscComponent(SchematicComponent):
         parent: BaseSubCircuit = self.parent # pyright: ignore[reportAssignmentType]
         if "Value" in self.attributes:
             if isinstance(value, str):
-                value_str = value
+                value_str = value.strip()
             else:
                 value_str = format_eng(value)
             permission = parent.begin_update()
@@ -119,6 +119,9 @@ class AscComponent(SchematicComponent):
         return parameters
 
 
+    def set_parameter(self, key: str, value: ValueType | None) -> None:
+        self.set_parameters(**{key: value})
+
     def set_parameters(self, **kwargs) -> None:
         """
         Sets the parameters of a component that are related with Spice operation.
@@ -156,53 +159,45 @@ class AscComponent(SchematicComponent):
                 value_str = value.strip()
             else:
                 value_str = format_eng(value)
-            params = self.get_parameters(as_dicts=True)
-            if key in params:
-                # I only have the LTSPICE_PARAMETERS as keys here, so when I match, I can overwrite
-                # I do not support delete here, as some of the keys are mandatory
-                self.attributes[key] = value_str
-                _logger.info(f"Component {self.reference} updated with parameter {key}:{value}")
-                update_type = UpdateType.UpdateComponentParameter
+            # The attributes can be given in any case
+            key = next((name for name in LTSPICE_PARAMETERS if name.upper() == key.upper()), key)
+            if key in LTSPICE_PARAMETERS:
+                if value_str is not None:
+                    self.attributes[key] = value_str
+                    update_type = UpdateType.UpdateComponentParameter
+                elif key in self.attributes and key != "Value":  # The value is mandatory
+                    del self.attributes[key]
+                    update_type = UpdateType.DeleteComponentParameter
+                else:
+                    continue  # don't remove if there's nothing to remove
             else:
-                foundme = False
-                # not found: look in the second level dicts
-                for param_key in LTSPICE_PARAMETERS_REDUCED:
-                    if param_key in params:
-                        if key in params[param_key]:
-                            # found in the dict
-                            # update the dict
-                            if value_str is None:
-                                # remove if empty
-                                params[param_key].pop(key)
-                                update_type = UpdateType.DeleteComponentParameter
+                update_type = None
+                # look for the parameter in the attributes that have several
+                for attr in LTSPICE_PARAMETERS_REDUCED:
+                    text = self.attributes.get(attr, '')
+                    for match in re.finditer(PARAM_REGEX(r'\w+'), text, re.IGNORECASE):
+                        if match.group("name") != key:
+                            continue
+                        if value_str is None:
+                            text = f"{text[:match.start()].rstrip()} {text[match.end():].lstrip()}".strip()
+                            if text:
+                                self.attributes[attr] = text
                             else:
-                                params[param_key][key] = value_str
-                                update_type = UpdateType.UpdateComponentParameter
-                            # and make the line out of the dict
-                            self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            foundme = True
-                if not foundme:
-                    if value_str is not None:
-                        # don't add if there's nothing to add
-                        if key in LTSPICE_PARAMETERS:
-                            # known parameter, set the value
-                            self.attributes[key] = value_str
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            update_type = UpdateType.UpdateComponentParameter
+                                del self.attributes[attr]
+                            update_type = UpdateType.DeleteComponentParameter
                         else:
-                            # nothing found, and not a known parameter, put it in SpiceLine
-                            param_key = LTSPICE_PARAMETERS_REDUCED[0]
-                            if param_key in params:
-                                # if SpiceLine exists: add to the dict
-                                params[param_key][key] = value_str
-                                # and make the line out of the dict
-                                self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            else:
-                                # if SpiceLine does not exist: create the line
-                                self.attributes[param_key] = f'{key}={value_str}'
-                            update_type = UpdateType.AddComponentParameter
-                            _logger.info(f"Component {self.reference} added parameter {key}:{value_str}")
+                            start, stop = match.span("value")
+                            self.attributes[attr] = text[:start] + value_str + text[stop:]
+                            update_type = UpdateType.UpdateComponentParameter
+                        break
+                if update_type is None:
+                    if value_str is None:
+                        continue  # don't add if there's nothing to add
+                    # nothing found, and not a known parameter, put it in SpiceLine
+                    attr = LTSPICE_PARAMETERS_REDUCED[0]
+                    self.attributes[attr] = f"{self.attributes.get(attr, '')} {key}={value_str}".lstrip()
+                    update_type = UpdateType.AddComponentParameter
+            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
             parent.end_update(f"{self.reference}:{key}", value_str, update_type)
 
 
-- 
2.43.0


From 690c27fa9acedcbf980cddb66eb482383c14505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 123/144] fix: setting a parameter of a schematic to None did
 not remove it

---
 spicelib/editor/asc_editor.py  | 13 ++++++++++---
 spicelib/editor/base_editor.py | 11 +++++++++++
 spicelib/editor/qsch_editor.py | 19 ++++++++++++++++---
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 238d74a..4f0c04c 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -36,7 +36,8 @@ from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, instruction_command, instruction_spans, iter_text_params, remove_instruction_span
+from .base_editor import PARAM_REGEX, ValueType, instruction_command, instruction_spans, iter_text_params, remove_instruction_span, \
+    remove_text_param
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -570,14 +571,20 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             value_str = value
 
         match, directive = self._get_param_named(param) # pyright: ignore[reportAssignmentType]
-        if match:
+        if match and value is None:
+            directive.text = remove_text_param(directive.text, match)
+            if not directive.text:
+                self.directives[:] = [d for d in self.directives if d is not directive]
+            _logger.info(f"Parameter {param} removed")
+            self.end_update(param, None, UpdateType.DeleteParameter)
+        elif match:
             directive : Text
             _logger.debug(f"Parameter {param} found in ASC file, updating it")
             start, stop = match.span('value')
             directive.text = f"{directive.text[:start]}{value_str}{directive.text[stop:]}"
             _logger.info(f"Parameter {param} updated to {value_str}")
             self.end_update(param, value, UpdateType.UpdateParameter)
-        else:
+        elif value is not None:
             # Was not found so we need to add it,
             _logger.debug(f"Parameter {param} not found in ASC file, adding it")
             x, y = self._get_text_space()
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 5463456..56d6f8f 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -91,6 +91,17 @@ def iter_text_params(text: str, first: int = 0):
                 start = end + len('\\n')
 
 
+def remove_text_param(text: str, param: re.Match, first: int = 0) -> str:
+    """The text of a schematic, that starts at first, without one of its parameters, nor its instruction with the last"""
+    for start, stop in instruction_spans(text, first):
+        if start <= param.start() < stop:
+            instruction = text[start:param.start()] + text[param.end():stop]
+            if next(iter_text_params(instruction), None) is None:
+                return remove_instruction_span(text, start, stop, first)
+            return text[:start] + instruction + text[stop:]
+    return text
+
+
 class BaseEditor(ABC):
     """
     This defines the primitives (protocol) to be used for both SpiceEditor and AscEditor
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 89725c6..72dd180 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -28,7 +28,8 @@ from numbers import Number
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType, instruction_command, instruction_spans, iter_text_params, remove_instruction_span
+from .base_editor import PARAM_REGEX, ValueType, instruction_command, instruction_spans, iter_text_params, remove_instruction_span, \
+    remove_text_param
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
@@ -1105,7 +1106,19 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             raise PermissionError(f"Permission denied for editing {param}")
         tag: QschTag
         tag, match = self._get_param_named(param) # pyright: ignore[reportAssignmentType]
-        if match:
+        if match and value is None:
+            text: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
+            first = _instruction_start(text)
+            text = remove_text_param(text, match, first)
+            if len(text) > first:
+                tag.set_attr(QSCH_TEXT_STR_ATTR, text)
+            else:
+                items = self.schematic.items # pyright: ignore[reportOptionalMemberAccess]
+                items[:] = [item for item in items if item is not tag]
+            _logger.info(f"Parameter {param} removed")
+            if permission == UpdatePermission.Inform:
+                self.end_update(param, None, UpdateType.DeleteParameter)
+        elif match:
             _logger.debug(f"Parameter {param} found in QSCH file, updating it")
             text: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             start, stop = match.span("value")
@@ -1115,7 +1128,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             _logger.debug(f"Text at {tag.get_attr(QSCH_TEXT_POS)} Updated to {text}")
             if permission == UpdatePermission.Inform:
                 self.end_update(param, value_str, UpdateType.UpdateParameter)
-        else:
+        elif value is not None:
             # Was not found so we need to add it,
             _logger.debug(f"Parameter {param} not found in QSCH file, adding it")
             x, y = self._get_text_space()
-- 
2.43.0


From c2d716e5be05ca360edaa74388853f75ed4e79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 124/144] fix: setting the value of a component in a library
 was silently ignored by the AscEditor

---
 spicelib/editor/asc_editor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 4f0c04c..79e44fb 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -605,10 +605,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         sub_circuit, ref = self._get_parent(device)
 
         if sub_circuit != self:  # The component is in a subcircuit
-            if isinstance(sub_circuit, SpiceCircuit):
-                _logger.warning(f"Component {device} is in an Spice subcircuit. "
-                                f"This function may not work as expected.")
-            elif isinstance(sub_circuit, AscEditor):
+            if isinstance(sub_circuit, (SpiceCircuit, AscEditor)):
                 return sub_circuit.set_component_value(ref, value)
             else:
                 raise TypeError(f"Unknown subcircuit type: {type(sub_circuit)}")
-- 
2.43.0


From a4d521ba46edbf5a44ed9f9e1a059d66123aac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 125/144] fix: a schematic was not marked as updated when one
 of its components was moved

---
 spicelib/editor/asc_editor.py     | 5 -----
 spicelib/editor/base_schematic.py | 2 +-
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 79e44fb..9d163bf 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -527,11 +527,6 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         component = self.get_component(reference)
         return component.position, component.rotation
 
-    def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
-        component = self.get_component(reference)
-        component.position = position
-        component.rotation = rotation
-
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
         for directive in self.directives:
diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 5256975..70d2f32 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -362,7 +362,7 @@ class BaseSchematic(BaseEditor):
         comp = self.get_component(reference)
         comp.position = position
         comp.rotation = rotation
-        self.canvas_updated = True
+        comp.parent.canvas_updated = True # pyright: ignore[reportAttributeAccessIssue, reportOptionalMemberAccess]
 
     def add_component(self, component: SchematicComponent, **kwargs) -> None:
         reference = component.reference
-- 
2.43.0


From 45d3bef6f4f4a921096cdadad9726058ffa12041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:11 +0000
Subject: [PATCH 126/144] fix: a component removed from a QSCH schematic was
 still listed and written to the netlist

---
 spicelib/editor/qsch_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 72dd180..1683e6f 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1219,9 +1219,13 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing component {designator}")
+        sub_circuit, ref = self._get_parent(designator)
+        if sub_circuit is not self:
+            return sub_circuit.remove_component(ref)
         component = self.get_component(designator)
         comp_tag: QschTag = component.attributes['tag']
         self.schematic.items.remove(comp_tag) # pyright: ignore[reportOptionalMemberAccess]
+        del self.components[designator]
         self.end_update(designator, None, UpdateType.DeleteComponent)
 
     def _get_text_space(self):
-- 
2.43.0


From 430e8fd08fb112726d634f9e10a99c8857624094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 127/144] fix: a simulation instruction added to a QSCH
 schematic was lost when saved to the same file

---
 spicelib/editor/qsch_editor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 1683e6f..e64bfec 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1283,12 +1283,11 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
         elif command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
-        else:
-            self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
         # If we get here, then the instruction was not found, so we need to add it
         x, y = self._get_text_space()
         tag, _ = QschTag.parse(f'«text ({x},{y}) 1 0 0 0x1000000 -1 -1 "{QSCH_TEXT_INSTR_QUALIFIER}{instruction}"»')
         self.schematic.items.append(tag) # pyright: ignore[reportOptionalMemberAccess]
+        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
 
     def _instruction_tags(self) -> list[QschTag]:
         """The texts of the schematic that are not comments"""
-- 
2.43.0


From 46d10faea2f43a1a4cc6ffef16ef5c12249ae205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 128/144] fix: the new position of a QSCH component was lost,
 and could not be given with an ERotation

---
 spicelib/editor/qsch_editor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index e64bfec..99e176f 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -552,7 +552,7 @@ class QschComponent(SchematicComponent):
         else:
             raise ValueError("Invalid position object")
         if isinstance(rotation, ERotation):
-            rot = rotation.value / 45
+            rot = rotation.value // 45
         elif isinstance(rotation, int):
             rot = (rotation % 360) // 45
             if mirror:
@@ -563,7 +563,8 @@ class QschComponent(SchematicComponent):
         comp_tag.set_attr(QSCH_COMPONENT_POS, (position.X, position.Y))
         comp_tag.set_attr(QSCH_COMPONENT_ROTATION, rot)
         self.position = position
-        self.rotation = rotation if isinstance(rotation, ERotation) else ERotation(rotation)
+        self.rotation = ERotation(rot * 45)
+        self.parent.canvas_updated = True # pyright: ignore[reportAttributeAccessIssue, reportOptionalMemberAccess]
 
 
 class QschEditor(BaseSchematic, BaseSubCircuit):
-- 
2.43.0


From c1e93cd4115a7523914a1cad596718005bbc618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 129/144] fix: the texts of a QSCH schematic that contain a
 colon were not found

---
 spicelib/editor/qsch_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 99e176f..cdea858 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -239,8 +239,8 @@ class QschTag:
             raise OSError("Missing » when reading file")
         line = stream[i0:i]
         # Now dividing the
-        if ': ' in line:
-            name, text = line.split(': ')
+        name, separator, text = line.partition(': ')
+        if separator and '"' not in name:
             self.tokens.append(name + ":")
             self.tokens.append(text)
         else:
-- 
2.43.0


From b5d79c357967b998aabbbdd30b8c8f7ef2a4944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:19 +0000
Subject: [PATCH 130/144] fix: AscEditor.get_component_parameters failed for
 components in a library

---
 spicelib/editor/asc_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 9d163bf..0c3e627 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -626,6 +626,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def get_component_parameters(self, element: str, as_dicts: bool = False) -> dict:
         # docstring inherited from BaseSubCircuit
+        sub_circuit, ref = self._get_parent(element)
+        if isinstance(sub_circuit, SpiceCircuit):  # The component is in a sub-circuit of a library
+            return sub_circuit.get_component_parameters(ref)
         component: AscComponent = self.get_component(element) # pyright: ignore[reportAssignmentType]
         parameters = component.get_parameters(as_dicts)
         return parameters
-- 
2.43.0


From bc9188c1a26920f21dc741b06a1cbf57c5e12448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:03 +0000
Subject: [PATCH 131/144] fix: in the netlist of a QSCH schematic, unconnected
 pins were connected to a label with the format N##

---
 spicelib/editor/qsch_editor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index cdea858..bd78884 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -921,6 +921,8 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             # rotation = net.get_attr(QSCH_NET_ROTATION)
             net_name: str = net.get_attr(QSCH_NET_STR_ATTR) # pyright: ignore[reportAssignmentType]
             self.labels.append(Text(Point(x, y), net_name, type=TextTypeEnum.LABEL))
+            if re.match(r"N\d+$", net_name):  # The same format as that of the nets without name
+                highest_net_number = max(highest_net_number, int(net_name[1:]))
 
         for wire in self.schematic.get_items('wire'):
             # process wires
-- 
2.43.0


From 273e4872dc021d78c0a01aff2a1b9e289a233444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:45 +0000
Subject: [PATCH 132/144] fix: the changes in a sub-circuit of a schematic were
 lost on saving when its reference does not start with X

---
 spicelib/editor/asc_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 0c3e627..bed6af9 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -279,7 +279,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                         size = value.size
                         asc.write(f"WINDOW {num_ref} {posX} {posY} {alignment} {size}" + END_LINE_TERM)
                 asc.write(f"SYMATTR InstName {component.reference}" + END_LINE_TERM)
-                if component.reference.startswith('X') and "_SUBCKT" in component.attributes:
+                if "_SUBCKT" in component.attributes:
                     # writing the sub-circuit if it was updated
                     sub_circuit = component.attributes['_SUBCKT']
                     if isinstance(sub_circuit, AscEditor) and sub_circuit.updated():
-- 
2.43.0


From 089bba6ff96d768906ad3b60cafefc388ec81591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:45 +0000
Subject: [PATCH 133/144] fix: the sub-circuits of a QSCH schematic were not
 found when their reference does not start with X

---
 spicelib/editor/qsch_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index bd78884..e17a6b3 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -991,7 +991,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
             sch_comp.ports = ports
             self.components[refdes] = sch_comp
-            if refdes.startswith('X'):
+            if refdes.startswith('X') or sch_comp.attributes['type'] in ('', 'X'):
                 if sch_comp.attributes['type'].startswith("Ø"):
                     have_embedded_subcircuit = True
                 if not have_embedded_subcircuit:
-- 
2.43.0


From 39c0f669e8617e24952910c819e19e1b699af398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:53 +0000
Subject: [PATCH 134/144] fix: several parameters with <> in one text of a QSCH
 component were garbled in the netlist

---
 spicelib/editor/qsch_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index e17a6b3..c763cd5 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -173,7 +173,7 @@ QSCH_ZIGZAG_UNKNOWN2 = 8
 def decap(s: str) -> str:
     """Take the leading < and ending > from the parameter value on a string with the format "param=<value>"
     If they are not there, the string is returned unchanged."""
-    regex = re.compile(r"(\w+)=<(.*)>")
+    regex = re.compile(r"(\w+)=<(.*?)>")
     return regex.sub(r"\1=\2", s)
 
 
-- 
2.43.0


From a5a19931b02405f32b9c1eac011fb1dd1fd57467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:24 +0000
Subject: [PATCH 135/144] fix: a run was started with the command line switches
 that were changed after it was launched

---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index a24b8cc..6d17f31 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -77,7 +77,7 @@ class RunTask(threading.Thread):
         self.start_time = None
         self.stop_time = None
         self.verbose = verbose
-        self.switches = switches
+        self.switches = copy(switches)  # The list of the caller may change before the simulation starts
         self.timeout = timeout  # Thanks to Daniel Phili for implementing this
         self.simulator = simulator
         self.runno = runno
-- 
2.43.0


From f5f5a4e5614ffdf1d63b3834bb21526ed179bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:24 +0000
Subject: [PATCH 136/144] fix: the -ini switch of LTspice was written with a
 space

---
 spicelib/simulators/ltspice_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/simulators/ltspice_simulator.py b/spicelib/simulators/ltspice_simulator.py
index 2fcaecc..8f037c3 100644
--- a/spicelib/simulators/ltspice_simulator.py
+++ b/spicelib/simulators/ltspice_simulator.py
@@ -155,7 +155,7 @@ class LTspice(Simulator):
         '-FixUpSymbolFonts'   : ['-FixUpSymbolFonts'],
         # Convert the font size field of very old user - authored symbols to the modern default.
         # See Changelog.txt for application hints.
-        '-ini'                : ['- ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
+        '-ini'                : ['-ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
         '-I'                  : ['-I<path>'],  # Specify a path to insert in the symbol and file search paths.
         # Must be the last specified option.
         # No space between "-I" and < path > is allowed.
-- 
2.43.0


From f6920a9c3e5c54ab754c0d09ea906719188e2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:24 +0000
Subject: [PATCH 137/144] fix: changing the list that valid_switch() returned
 changed the switches of the simulator

---
 spicelib/simulators/ngspice_simulator.py | 2 +-
 spicelib/simulators/xyce_simulator.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index e193787..4c1a654 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -158,7 +158,7 @@ class NGspiceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)  # never the list of the table, the caller may change it
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index a77b48b..ee7b797 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -209,7 +209,7 @@ class XyceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)  # never the list of the table, the caller may change it
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
-- 
2.43.0


From 332058f762faefa6bb24b08fa2b34c03c2cf5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:24 +0000
Subject: [PATCH 138/144] fix: the switches -nox, -linsolv, -o and
 -local_variation of Xyce were not accepted

---
 spicelib/simulators/xyce_simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index ee7b797..ed58d39 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -92,13 +92,15 @@ class XyceSimulator(Simulator):
         # set option for redefined .params as ignore (use last), usefirst, warn or error
         '-subckt_multiplier': ['-subckt_multiplier', '<truefalse_option>'],
         # set option to true(default) or false to apply implicit subcircuit multipliers
+        '-local_variation'  : ['-local_variation', '<truefalse_option>'],
+        # set option to true(default) or false to enable local variation in UQ analysis
         '-delim'            : ['-delim', '<delim_option>'],  # <TAB|COMMA|string>   set the output file field delimiter
         '-o'                : ['-o', '<basename>'],  # <basename> for the output file(s)
         # '-l'                : ['-l', '<path>'],  # place the log output into <path>, "cout" to log to stdout
         '-per-processor'    : ['-per-processor'],  # create log file for each processor, add .<n>.<r> to log path
         '-remeasure'        : ['-remeasure', '<path>'],
         # [existing Xyce output file] recompute .measure() results with existing data
-        '-nox'              : ['-nox', 'onoff_option'],  # <on|off>               NOX nonlinear solver usage
+        '-nox'              : ['-nox', '<onoff_option>'],  # <on|off>               NOX nonlinear solver usage
         '-linsolv'          : ['-linsolv', '<solver>'],  # <solver>           force usage of specific linear solver
         '-maxord'           : ['-maxord', '<int_option>'],  # <1..5>              maximum time integration order
         '-max-warnings'     : ['-max-warnings', '<int_option>'],  # <#>           maximum number of warning messages
@@ -204,7 +206,7 @@ class XyceSimulator(Simulator):
                         pass
                     else:
                         ret = [switch_list[0], parameter]
-                elif param_token == '<plugin_list>':
+                elif param_token in ('<plugin_list>', '<basename>', '<solver>'):
                     ret = [switch_list[0], parameter]
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
-- 
2.43.0


From 844608acf931460c34414483417cde0302443a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:41 +0000
Subject: [PATCH 139/144] fix: asc_to_qsch did not find the symbols next to a
 schematic that is given without its folder

---
 spicelib/scripts/asc_to_qsch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/scripts/asc_to_qsch.py b/spicelib/scripts/asc_to_qsch.py
index c4a3a9f..ffcc289 100644
--- a/spicelib/scripts/asc_to_qsch.py
+++ b/spicelib/scripts/asc_to_qsch.py
@@ -96,7 +96,7 @@ def convert_asc_to_qsch(asc_file, qsch_file, search_paths=[]):
             # TODO: this should use the default locations from AscEditor, and use search_file_in_containers, just like AscEditor does.
             for sym_root in search_paths + [
                 # os.path.curdir,  # The current script directory
-                os.path.split(asc_file)[0],  # The directory where the script is located
+                os.path.dirname(os.path.abspath(asc_file)),  # The directory where the script is located
                 os.path.expanduser("~/AppData/Local/LTspice/lib/sym"),
                 os.path.expanduser("~/Documents/LtspiceXVII/lib/sym"),
                 # os.path.expanduser(r"~\AppData\Local\Programs\ADI\LTspice\lib.zip"), # TODO: implement this
-- 
2.43.0


From b416ca8246cd8ebef1862e73b138911bffd08cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:42 +0000
Subject: [PATCH 140/144] fix: asc_to_qsch failed, or mixed up texts, when a
 symbol does not have exactly the windows of reference and value

---
 spicelib/editor/asy_reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asy_reader.py b/spicelib/editor/asy_reader.py
index 7737feb..9613ffd 100644
--- a/spicelib/editor/asy_reader.py
+++ b/spicelib/editor/asy_reader.py
@@ -189,7 +189,7 @@ class AsyReader:
         spice_prefix = self.attributes['Prefix']
         symbol = QschTag("symbol", spice_prefix[0])
         symbol.items.append(QschTag("type:", spice_prefix))
-        symbol.items.append(QschTag("description:", self.attributes["Description"]))
+        symbol.items.append(QschTag("description:", self.attributes.get("Description", "")))
         symbol.items.append(QschTag("shorted pins:", "false"))
         for line in self.lines:
             x1 = int(line.V1.X * SCALE_X)
@@ -248,8 +248,10 @@ class AsyReader:
                 raise ValueError(f"Shape {shape.name} not supported")
             symbol.items.append(shape_tag)
 
-        for i, attr in enumerate(self.windows):
-            coord = attr.coord
+        # The texts have to be in the order of the arguments: first the reference (window 0) and then the value (window 3)
+        coords = {window.text: window.coord for window in self.windows if window.type == TextTypeEnum.ATTRIBUTE}
+        for i, window in enumerate(("0", "3")[:len(args)]):
+            coord = coords.get(window, Point(0, 0))
             x = coord.X * SCALE_X
             y = coord.Y * SCALE_Y
             text, _ = QschTag.parse(f'«text ({x:.0f},{y:.0f})'
-- 
2.43.0


From 9e8625ec32b21f32fbf63947c15907d7416cc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:42 +0000
Subject: [PATCH 141/144] fix: asc_to_qsch did not keep the order that the pins
 of a symbol have in the netlist

---
 spicelib/editor/asy_reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asy_reader.py b/spicelib/editor/asy_reader.py
index 9613ffd..efdf93c 100644
--- a/spicelib/editor/asy_reader.py
+++ b/spicelib/editor/asy_reader.py
@@ -258,14 +258,18 @@ class AsyReader:
                                     f' 1 7 0 0x1000000 -1 -1 "{args[i]}"»')
             symbol.items.append(text)
 
+        pins = []
         for pin in self.pins:
-            coord = pin.coord
             attr_dict = {}
             for pair in pin.text.split(";"):
                 if '=' in pair:
-                    k, v = pair.split('=')
+                    k, v = pair.split('=', 1)
                     attr_dict[k] = v
-
+            pins.append((pin, attr_dict))
+        # The order of the pins is their order in the netlist
+        pins.sort(key=lambda x: int(x[1].get("SpiceOrder", len(pins))))
+        for pin, attr_dict in pins:
+            coord = pin.coord
             pin_tag, _ = QschTag.parse(f'«pin ({coord.X * SCALE_X:.0f},{coord.Y * SCALE_Y:.0f}) (0,0)'
                                        f' 1 0 0 0x1000000 -1 "{attr_dict["PinName"]}"»')
             symbol.items.append(pin_tag)
-- 
2.43.0


From 269de048a3e2177f5d42ecdf6901c342d59ac203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:41 +0000
Subject: [PATCH 142/144] fix: asc_to_qsch failed when the symbol of a
 sub-circuit is in one of the search paths

---
 spicelib/scripts/asc_to_qsch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spicelib/scripts/asc_to_qsch.py b/spicelib/scripts/asc_to_qsch.py
index ffcc289..aabd4b9 100644
--- a/spicelib/scripts/asc_to_qsch.py
+++ b/spicelib/scripts/asc_to_qsch.py
@@ -61,8 +61,11 @@ def main():
 def convert_asc_to_qsch(asc_file, qsch_file, search_paths=[]):
     """Converts an ASC file to a QSCH schematic"""
     symbol_stock = {}
-    # Open the ASC file
-    asc_editor = AscEditor(asc_file)
+    # Open the ASC file. The symbols of its sub-circuits are needed for that, so it uses the same search paths
+    class AscEditorWithPaths(AscEditor):
+        custom_lib_paths = [*AscEditor.custom_lib_paths, *search_paths]
+
+    asc_editor = AscEditorWithPaths(asc_file)
 
     # import the conversion data from XML file
     # need first to find the file. It is in the same directory as the script
-- 
2.43.0


From c96da494a4b8566645f35d3a783e8c4f5e634c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:41 +0000
Subject: [PATCH 143/144] fix: raw_convert wrote all the traces, and not the
 ones that were asked for

---
 spicelib/scripts/raw_convert.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/scripts/raw_convert.py b/spicelib/scripts/raw_convert.py
index 66e8121..4e081d6 100644
--- a/spicelib/scripts/raw_convert.py
+++ b/spicelib/scripts/raw_convert.py
@@ -75,6 +75,7 @@ def main():
     else:
         traces = args[1:]
 
+    columns = None  # all the traces
     rawfile = args[0]
 
     # Read the raw file
@@ -106,13 +107,14 @@ def main():
                 print("\t<" + trace + ">")
             exit(1)
         print("Reading traces: ", found_traces)
+        columns = found_traces
 
     else:
         raw_data = RawRead(rawfile, traces, dialect=options.dialect, verbose=options.verbose)
 
     # Output the file
     if options.output is None:
-        data = raw_data.export()
+        data = raw_data.export(columns)
 
         text = options.separator.join(data.keys()) + '\n'
         data_size = len(data[data.__iter__().__next__()])
@@ -127,11 +129,11 @@ def main():
     else:
         if options.output.endswith(".csv"):
             print("Writing CSV file...", end="")
-            raw_data.to_csv(options.output, separator=options.separator, index=False)
+            raw_data.to_csv(options.output, columns, separator=options.separator, index=False)
             print("Done")
         elif options.output.endswith(".xlsx"):
             print("Writing Excel file...", end="")
-            raw_data.to_excel(options.output, index=False)
+            raw_data.to_excel(options.output, columns, index=False)
             print("Done")
         else:
             print("Error: Unknown output format. Valid formats are '.csv' and '.xlsx'")
-- 
2.43.0


From 7e7868bdce4c707aab0ae616a0baaaa4d539f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:41 +0000
Subject: [PATCH 144/144] fix: exporting a trace that was named twice gave a
 column that is longer than the others

---
 spicelib/raw/plot_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 28b88ad..555c07a 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -947,6 +947,7 @@ class PlotData(PlotInterface):
         else:
             if self.axis is not None and self.axis.name not in columns:  # If axis is not in the list, add it
                 columns = [self.axis.name] + list(columns)
+            columns = list(OrderedDict.fromkeys(columns))  # A trace that is asked for twice is one column
 
         if isinstance(step, list):
             steps_to_read = step  # If a list of steps is given, use it
-- 
2.43.0

