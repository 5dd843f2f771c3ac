NOTES = ("Specifications in TLA+ (specs/), checked with TLC; scenarios are behaviours generated by TLC from the same "
         "specifications, executed on the real code, and the recorded traces are validated by TLC against them. "
         "check.py <id> [quick|thorough] runs one property; known_findings.json lists recorded and fixed defects.")
TR = "TLA+ specification model-checked with TLC; spec-generated behaviours run on the real code; TLC trace validation"
RN = ("Exhaustive TLC run of the runner specification within small constants (2-3 runs, 1-2 slots), plus hundreds of "
      "TLC-generated schedules per run executed on the real runner with real threads under a gating stand-in "
      "simulator and virtual time; every recorded step is validated by TLC against the same specification. Assurance "
      "for the code is that of the executed schedules. Trusts the stand-in simulator, the driver and TLC.")
RF = ["spicelib/sim/sim_runner.py", "spicelib/sim/run_task.py", "spicelib/sim/process_callback.py"]

prop("R01", "Parallel simulation limit is respected and waiting launches make progress",
     "A launch that is asked to wait for resources starts its simulation only when fewer than the configured number of parallel simulations are still in progress (a run is in progress until its simulation and its callback have ended), and it does start as soon as one of them ends. A launch told not to wait starts at once, and a launch rejected because its callback arguments do not fit has no effect at all.",
     ["schedules", "histories", "configurations"],
     "every order of launches and of simulation/callback endings, every slot limit, with and without waiting, with any mix of successful, failing and crashing simulations",
     "No test of the suite runs the batch runner with a simulator; tests that did would sample one timing, while the limit must hold in every interleaving of launches and endings.",
     RF, [("launch loop", "SimRunner.run"), ("bookkeeping of active runs", "SimRunner.update_completed / active_threads")],
     TR, RN)
prop("R02", "Every launched run is accounted for exactly once",
     "Each started run is reported as active until it has ended and afterwards as completed exactly once, never both and never lost; the numbers of successful and of failed runs always equal the numbers of completed runs whose simulator returned success and did not. The run information reported at the end has exactly one entry per completed run with that run's own return code, error text and times.",
     ["schedules", "histories", "fault_sequences"],
     "every order in which runs end (one or several between two looks at the bookkeeping), every outcome: success, error code, negative code, exception, missing output files, failing callbacks, synchronous and asynchronous runs mixed",
     "Needs all orders of completion and all failure kinds; the suite has no test that launches simulations.",
     RF, [("counters and lists", "SimRunner.update_completed, run_now"), ("per-run report", "SimRunner.sim_info"), ("end of a run", "RunTask.run")],
     TR, RN)
prop("R03", "Each run simulates its own snapshot of the netlist under a unique name",
     "Every launch writes its own netlist file, with a name no other launch of the batch uses (or the name the caller asked for) and in the configured output folder, and the simulator is started on exactly that file. The file contains the circuit as edited at the moment of the launch and is not changed by later edits or launches; likewise the edits recorded with the run are those made before its launch, and the simulator receives exactly the switches and the timeout in force for that launch.",
     ["histories", "schedules", "configurations"],
     "every interleaving of edits, launches, changes of the runner's switches, and run endings; netlists given as an editor or as a file; with and without output folder",
     "Needs histories interleaving editing and launching; the suite never launches a simulation.",
     RF + ["spicelib/editor/updates.py"], [("preparation of the netlist", "SimRunner._prepare_sim"), ("snapshot of edits", "RunTask.edits"), ("switches", "SimRunner.add_command_line_switch / clear_command_line_switches")],
     TR, RN)
prop("R04", "Callbacks run once, after their own simulation, and results are delivered",
     "The callback given with a launch is invoked exactly once, after that launch's simulation has ended and with that launch's own output files and arguments, if the simulation produced its output files or the caller asked for callbacks on errors, and never otherwise. The result reported for the run is what the callback returned (nothing if it was not called or failed), or its output files when no callback was given; a result is reported only once the run has ended, and a failing simulation or callback (in-process or in a separate process) never disturbs other runs nor leaves its own run unfinished.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of simulations and callbacks ending, every outcome of simulation and callback (return, exception, process that dies), plain functions, callable objects and process callbacks, arguments as tuple or dictionary",
     "Fault combinations of simulator and callback are not exercised by any test.",
     RF, [("task body", "RunTask.run"), ("callback arguments", "SimRunner.validate_callback_args"), ("results", "RunTask.get_results / wait_results"), ("separate process", "ProcessCallback.run")],
     TR, RN)
prop("R05", "Waiting returns exactly when it should, with the right answer",
     "Waiting for completion returns true exactly if all runs have ended and none failed, false if all ended and some failed, and false when the given time passes without any run completing (or, with no time given, when every active run has exceeded its own timeout); it does not return earlier. A launch waiting for a free slot gives up, without starting anything, only after its timeout has elapsed, a timeout of none means no limit, and waiting for the result of one run returns once that run has ended, whatever its return code.",
     ["schedules", "fault_sequences", "configurations"],
     "every order of run endings and passing of time, all return codes, finite and absent timeouts",
     "Timeouts and hung simulations cannot be sampled by ordinary tests; behaviour must hold for every order of completions and clock advances.",
     RF, [("wait for completion", "SimRunner.wait_completion / _maximum_stop_time"), ("wait for a slot", "SimRunner.run"), ("wait for one run", "RunTask.wait_results, SimRunner.run_now")],
     TR, RN)
prop("R06", "Iterating over a runner yields every matching successful run exactly once",
     "An iteration over the runs of a runner yields each completed run whose simulator succeeded and which satisfies the iteration's condition exactly once and nothing else, runs that completed earlier first, waits while runs are still in progress, and ends only when none are left. A condition given as a dictionary accepts a run exactly if each named element was edited for that run to one of the accepted values; several iterations do not disturb each other.",
     ["schedules", "histories"],
     "every order of completion relative to iteration steps, any number of simultaneous iterations, all kinds of conditions (values, lists, sets, tuples, functions), failing runs in between",
     "No test iterates over a runner; correctness depends on the order in which runs end between iteration steps.",
     RF, [("iterator", "TaskIterator.__next__ / match_conditions"), ("entry points", "SimRunner.__iter__ / tasks")],
     TR, RN)
prop("R07", "Clean-up removes the files of completed runs and nothing else",
     "Cleaning up deletes the netlist, output, log and failure files of every completed run, including failed ones, and never deletes or alters the netlists of runs still in progress or any file of the user, not even one whose name resembles those of the runs.",
     ["histories", "schedules", "fault_sequences"],
     "every set of runs and outcomes, clean-up at any moment, with runs still in progress, with and without output folder",
     "Depends on run outcomes and on which runs are in progress at the time; not covered by any test.",
     RF, [("clean-up", "SimRunner.cleanup_files / _del_file_if_exists / _del_file_ext_if_exists"), ("failure log renaming", "RunTask.run")],
     TR, RN)
SIF = ["spicelib/sim/simulator.py", "spicelib/simulators/ltspice_simulator.py", "spicelib/simulators/ngspice_simulator.py", "spicelib/simulators/qspice_simulator.py",
       "spicelib/simulators/xyce_simulator.py", "spicelib/sim/sim_runner.py", "spicelib/sim/run_task.py"]
SIN = ("TLC exhausts a runner whose switches change between the launch and the start of its runs, for every simulator; hundreds of TLC-generated histories run with the "
       "real simulator classes and stand-in programs that record their command line; TLC judges every command.")
prop("R08", "Simulators are started with exactly the command line that was asked for",
     "Each run starts the simulator's program once, through its loader if it has one, with its netlist, the log and raw files named after that netlist (also when folders and names have blanks or dots), the compatibility mode of ngspice, and exactly the switches in force when the run was launched, in order: those given for the run, or else those added to the runner and not cleared; changing either later does not alter it. Switches are checked by valid_switch for LTspice, ngspice, QSPICE and Xyce: documented ones give their words with their parameter, those that spicelib sets itself give none, parameters of the wrong kind give none, unknown ones raise ValueError, and the answer does not depend on earlier ones. Working folder, console log (exe_log), redirected output, time limit (of the run, else of the runner; the program is ended) and return code are as asked for. create_netlist returns the netlist or raises RuntimeError. create_from accepts paths, names on the PATH and loader command lines, or raises FileNotFoundError and changes nothing. A simulator's library folders are the default ones that exist, in its wine folder if it is in one.",
     ["histories", "inputs", "schedules"],
     "every sequence of added, cleared and own switches around launches, every switch and parameter of four simulators, every form of program, file name, time limit and outcome",
     "No simulator can be run by the tests; the command lines are never looked at.",
     SIF, [("commands", "LTspice.run / NGspiceSimulator.run / Qspice.run / XyceSimulator.run, LTspice.create_netlist"), ("switches", "valid_switch, SimRunner.add_command_line_switch / clear_command_line_switches, RunTask"), ("programs", "Simulator.create_from / is_available / get_default_library_paths")],
     TR, SIN)
EN = ("Exhaustive TLC run of the editor specification (reopening, ownership and reset invariants, frame property) from a "
      "small netlist with nested subcircuits, a library and an include, to 3-4 operations; then TLC-generated editing "
      "sessions of 8 and 20 operations on hundreds of randomly generated netlists are carried out on the real editor, with "
      "several ways of calling each operation, and after every operation TLC compares the saved text (read by an "
      "independent parser), every reading method and the journal with the specification. Values, directives and netlist "
      "syntax come from tables and a random generator of common SPICE syntax. Trusts that parser, the driver and TLC.")
EF = ["spicelib/editor/spice_editor.py", "spicelib/editor/spice_subcircuit.py", "spicelib/editor/spice_components.py",
      "spicelib/editor/spice_subcircuit_instance.py", "spicelib/editor/primitives.py", "spicelib/editor/updates.py"]
prop("E01", "A netlist edit reads back as set, is saved as set, and changes nothing else",
     "After setting a component's value, a component's parameter or a circuit .PARAM, adding or removing a component, or removing a parameter, every way of reading the editor (values, floats, parameters, nodes, component lists, node lists, parameter names) and the netlist it saves show exactly the new content, and every other component, parameter, directive and comment is what it was. An unedited netlist is saved with the same meaning as the file loaded, whatever its layout: case, continuation lines, end-of-line comments, formulas, component kinds. Addressing a component that does not exist raises the documented error and changes nothing.",
     ["inputs", "histories"],
     "every netlist in common SPICE syntax, every sequence of edits through any of the equivalent ways of calling them, every kind of value (text, number, formula)",
     "Tests compare a few golden files after a handful of edits; the guarantee is about every sequence of edits on every layout of a netlist.",
     EF, [("line parsing and writing", "SpiceComponent.reset_attributes / rewrite_lines"), ("values and parameters", "BaseEditor.set_component_value, set_component_parameters, set_parameter"), ("components", "SpiceCircuit.add_component / remove_component")],
     TR, EN)
prop("E02", "Reset, save and reopen of a netlist are faithful",
     "Saving writes the circuit as edited and does not change it; opening the saved file in a new editor shows the same components, parameters and directives as the editor that saved it, including copies of subcircuits made for edited instances, and can be edited further. Resetting restores exactly the netlist as loaded and empties the list of updates. The file a netlist was loaded from is never altered except by saving over it.",
     ["inputs", "histories"],
     "every netlist and every sequence of edits, saves, resets and reopenings, including edits inside instances of subcircuits from the netlist, an included file or a library",
     "Round trips must hold after every history of edits; the suite reopens no edited netlist.",
     EF, [("saving", "SpiceEditor.save_netlist / SpiceCircuit.write_lines"), ("reset", "SpiceEditor.reset_netlist"), ("private copies", "SpiceCircuit.clone / setname")],
     TR, EN)
prop("E03", "Directives are added, replaced and removed exactly as documented",
     "Adding a directive puts it once into the netlist (before the .BACKANNO/.END lines, not a second time if the same text is already there); the analysis directives (.AC, .DC, .TRAN, .NOISE, .TF) replace the one that is present; .PARAM is refused. Removing a directive removes exactly the one with that text and removing by pattern exactly those that match, with the answer telling whether anything was removed; all other lines of the netlist stay as they are.",
     ["inputs", "histories"],
     "every netlist and sequence of additions and removals of directives, at the top level and inside subcircuits, mixed with other edits",
     "Tests add two or three directives to one netlist; the rules must hold in every state the netlist can be in.",
     EF, [("directives", "SpiceEditor.add_instruction / remove_instruction / remove_Xinstruction"), ("unique analyses", "SpiceCircuit._set_unique_instruction / UNIQUE_SIMULATION_DOT_INSTRUCTIONS")],
     TR, EN)
prop("E04", "Editing inside a subcircuit instance affects that instance only",
     "Setting values or parameters, adding or removing components or directives inside an instance (X1:R1, X1:X2:R1, or through the subcircuit object) changes what that instance contains and nothing else: other instances of the same subcircuit, the definition itself, and libraries and include files stay as they were, in memory and in the saved netlist, where the edited instance refers to a copy of its own. Merely reading inside an instance, or an edit that fails, changes nothing at all.",
     ["inputs", "histories"],
     "every nesting of definitions and instances (local, nested, included, from libraries), every sequence of edits and reads at any depth",
     "Isolation must hold for every pair of instances and order of edits at every depth; tests edit one instance of one netlist.",
     EF, [("private copy on first edit", "SpiceCircuitInstance.subcircuit / end_update"), ("name lookup", "SpiceCircuit.get_subcircuit_named / find_subckt_in_lib"), ("copying", "SpiceCircuit.clone, Component.clone")],
     TR, EN)
prop("E05", "The list of updates records exactly the edits made",
     "After any sequence of edits, netlist_updates holds one entry for each element that was changed and kind of change, in the order of first occurrence, with the full reference of the element (X1:R1), the kind of update (value changed, parameter added, updated or deleted, component or directive added, replaced or removed, subcircuit copied) and the last value set; operations that fail or change nothing record nothing, and a reset empties the list.",
     ["histories"],
     "every sequence of edits, at the top level and inside instances, through any of the equivalent ways of calling them",
     "The journal feeds the selection of simulation results; it must match the history whatever it was, tests look at single entries.",
     EF, [("journal", "Updates.add_update"), ("recording", "SpiceCircuit.end_update / SpiceCircuitInstance.end_update")],
     TR, EN)

SF = ["spicelib/client_server/sim_server.py", "spicelib/client_server/srv_sim_runner.py", "spicelib/client_server/sim_client.py"]
SN = ("Exhaustive TLC run of the server specification within small constants (2 sessions, 3 runs, 2 slots), plus hundreds "
      "of TLC-generated histories executed on a real server with real clients over the loopback network, with a gating "
      "stand-in simulator; every recorded step is validated by TLC. Assurance for the code is that of the executed "
      "histories. Trusts the stand-in simulator, the driver and TLC.")
prop("S01", "Every run of a client is handed out once, with that run's own results",
     "A client that launches simulations on a server gets a run number for each accepted run, different from those of all other runs, and the reserved answer -1 (and nothing to wait for) for a refused one. Iterating over the client hands out each of its runs exactly once, only after it has ended, whatever its outcome and whether or not earlier ones were fetched, waits while runs are in progress, and ends when none is left. Fetching the data of a run handed out returns exactly the output files of that run (or nothing if it left none) once; asking for any other run is refused without effect.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaving of sessions, launches (with and without free slots), endings with any outcome, iteration steps and fetches in any order, several clients",
     "No test of the suite starts a server; the guarantee is about histories of several clients and runs.",
     SF, [("iteration", "SimClient.__next__"), ("fetching", "SimClient.get_runno_data / SimServer.get_files"), ("launching", "SimClient.run / SimServer.run"), ("archive of a run", "zip_files")],
     TR, SN)
prop("S02", "Sessions are isolated from each other",
     "What one session does never changes what another observes: the status of a session lists exactly its own runs that have ended and were not yet fetched, the files of a run are given to its own session only, closing a session affects only its own runs, and each run simulates the netlist its own session sent with it together with the files this session sent. Requests that name an unknown or closed session are refused and change nothing on the server.",
     ["histories", "schedules"],
     "every interleaving of up to three sessions launching circuits (with equal and with different names), sending sources, iterating, fetching, closing, and of requests for unknown sessions or foreign runs",
     "Needs several clients with interleaved requests; no test starts a server.",
     SF, [("session table", "SimServer.sessions, status, get_files, close_session"), ("sources", "SimServer.add_sources")],
     TR, SN)
prop("S03", "The server erases what is no longer needed, and nothing else",
     "Once a run has been fetched, or its session closed, or the server stopped, no file of that run (netlist, outputs, archive) remains in the server's folder - for runs still in progress as soon as they end - whatever the outcome of the run; files of other runs and of the user are never touched. A server that is stopped, by its owner or by a client, ends its threads when the last run has ended and releases its port.",
     ["histories", "schedules", "fault_sequences"],
     "every order of launching, ending with any outcome, fetching, closing and stopping, with runs in progress or finished but not fetched at the time of closing or stopping",
     "Needs histories with failing runs and closings at every point; no test starts a server.",
     SF, [("erasing", "ServerSimRunner.erase_files_of_runno, discard_runno, cleanup_completed"), ("stopping", "SimServer.stop_server, ServerSimRunner.run")],
     TR, SN)
prop("S04", "Runs that end while another is being launched are accounted once",
     "The server's housekeeping and the requests of clients look at the same lists of runs from different threads. However these looks interleave with each other and with runs ending, each run that has ended becomes available to its session exactly once, no run in progress is reported as ended, a launch that waits for a slot proceeds when one is free and the limit is respected, and neither thread fails.",
     ["schedules", "histories"],
     "every interleaving of the two threads' looks at the runs in progress with the endings of one or several runs, while a launch waits for a slot",
     "A race between two threads; a test would need a particular preemption inside the bookkeeping to see it.",
     SF + ["spicelib/sim/sim_runner.py"], [("bookkeeping from two threads", "SimRunner.update_completed called by ServerSimRunner.run and SimRunner.active_threads")],
     TR, SN + " The bookkeeping itself is modelled at the granularity of its preemption points (Update.tla).")

DF = ["spicelib/raw/raw_read.py", "spicelib/raw/plot_data.py", "spicelib/raw/raw_classes.py", "spicelib/raw/raw_write.py"]
DN = ("Exhaustive TLC run of the specification over small files, plus hundreds of TLC-generated files and sequences of "
      "questions: each file is written by an independent writer with the values of the specification, the real reader is "
      "asked, and TLC validates every answer. Assurance for the code is that of the executed sequences. Trusts the writer "
      "(written from the format's documentation), the driver and TLC.")
prop("D01", "What a RAW file says does not depend on what was read before, or when",
     "Whatever was asked of a RAW file before, in whatever order and by whatever way (all traces, some or none at opening; by name in any case, by index, through the reader, a plot or a trace object that was taken earlier; traces and aliases computed from others), the axis, the waves, single points, values between points, lengths and exported tables are those stored in the file, the time axis without the spurious signs LTspice puts on it, and asking for a trace that does not exist is refused. The caller's own lists are not changed.",
     ["inputs", "histories"],
     "every file content and every sequence of questions to it, with traces read lazily or in advance",
     "Traces are read on demand, so each answer could depend on the history; tests open a file in one way and look at a few numbers.",
     DF, [("reading on demand", "PlotData.read_trace_data / get_trace"), ("aliases", "PlotData._compute_alias"), ("points and positions", "Axis.get_position / TraceRead.get_point_at"), ("export", "PlotData.export / to_csv")],
     TR, DN)
prop("D02", "The steps of a sweep partition the data of a RAW file",
     "In a file with stepped data each step has exactly its own points: waves, axes, lengths, points, values between points and exports of a step are those of that run, in every trace and alike for operating points; together the steps hold all the data once. The conditions of the steps are those the log gives, a query returns exactly the steps that match all its conditions, and without a log the steps are still told apart.",
     ["inputs", "histories"],
     "every number of steps and of points per step (including single points and equal or different lengths), every analysis, with and without log, every query by any combination of conditions",
     "Off-by-one errors at the limits of steps depend on the lengths; tests use the step structure of a few recorded files.",
     DF, [("limits of steps", "Axis.set_steps / step_offset"), ("conditions", "PlotData._load_step_information / get_steps"), ("export of steps", "PlotData.export")],
     TR, DN)
prop("D03", "Every form of RAW file gives the data stored in it, or is refused",
     "Files of LTspice, QSPICE, NGspice and Xyce, binary in normal or fast-access order or text, with single, double or complex values, in either encoding, with one or several plots of different kinds, give the names, number of points and values stored in them for each plot. A file that was cut short anywhere, or whose log tells another number of steps, is refused or gives the data that is there; wrong data is never given.",
     ["inputs", "crash_points"],
     "every combination of dialect, analysis, storage order, precision, encoding and number of plots; every place at which a file can be cut",
     "The combinations are many and the sample files few; truncated files are not in the suite at all.",
     DF, [("header and dialects", "PlotData.__init__"), ("text data", "PlotData._read_ascii_vector"), ("binary data", "PlotData.read_trace_data"), ("encodings", "raw_detect_encoding")],
     TR, DN)
prop("D04", "A RAW file that is written reads back as it was composed",
     "A file composed from traces with RawWrite and saved, in normal or fast-access order and either encoding, reads back with the same kind of analysis, the same trace names in the same order and the same values at the precision declared (double axis), real or complex, however often and in whichever order it is saved again. A trace whose length differs from that of the axis is refused and leaves the file as it was.",
     ["inputs", "histories"],
     "every analysis, number of traces, numerical type and container (list or array), order of saving and options",
     "The round trip must hold for all combinations of types and layouts; the suite compares a few files.",
     DF, [("composing", "RawWrite.add_trace / Trace.__init__"), ("writing", "RawWrite.save / _str_flags")],
     TR, "Exhaustive TLC run of the writer's specification within small constants, plus hundreds of generated compositions saved by the real writer and read back, validated by TLC. Trusts the reader as decided by D01-D03, the driver and TLC.")
prop("D05", "Merging traces of several RAW files keeps their values",
     "Importing traces of a step of a file puts exactly those traces, renamed or tagged as asked (within V() and I()), with the values of that step into the new file, which takes its axis from the first import. With axis alignment the new axis consists of the points of both axes in order, each once (points at the end of the merged range may be left out), and every trace - imported before, now or later - has its own values at its own points and values interpolated linearly between them. Imports of other lengths or kinds without alignment are refused without effect, and the files imported from are not changed.",
     ["inputs", "histories"],
     "every sequence of imports from several files of any analysis and step with any axes, additions of own traces and saves",
     "The alignment merges axes pairwise in any order; one recorded combination is tested.",
     DF, [("importing", "RawWrite.add_traces_from_raw"), ("interpolating", "RawWrite._interpolate / _consolidate"), ("renaming", "RawWrite._rename_netlabel")],
     TR, "As D04. That aligned imports may leave out points at the very end of the merged axis is pinned by a recorded file of the suite and accepted.")

LF = ["spicelib/log/ltsteps.py", "spicelib/log/logfile_data.py", "spicelib/log/qspice_log_reader.py", "spicelib/log/semi_dev_op_reader.py",
      "spicelib/scripts/ltsteps.py", "spicelib/utils/detect_encoding.py"]
LN = ("Exhaustive TLC run of the specification over small logs, plus hundreds of TLC-generated logs with sequences of "
      "questions: each log is written by the harness in the forms the simulators use, the real reader is asked, and TLC validates "
      "every answer. Assurance for the code is that of the executed sequences. Trusts the driver's writer and TLC.")
prop("D06", "The command-line conversion of RAW files writes the traces asked for",
     "raw_convert writes a table, to the screen or to a .csv file with the separator given, whose columns are the axis (if the plot has one) and then the traces that were named and exist, each once and in the order given, in full or without their V() or I() (a voltage before a current of the same name), or all the traces of the first plot when none was named; its rows are the points of all steps in order, with the values stored in the file. When none of the named traces exists, or for another type of file, it ends with an error and writes no file. The RAW file is not changed. All dialects, storages and kinds of analysis.",
     ["inputs"],
     "every RAW file and every list of traces, separators and outputs",
     "No test runs this tool; the lists of traces, their forms and the files combine without limit.",
     ["spicelib/scripts/raw_convert.py", "spicelib/raw/plot_data.py", "spicelib/raw/raw_read.py"], [("command", "raw_convert.main"), ("tables", "PlotData.export / to_csv")],
     TR, "As D01. The command runs in the driver's process; its table is read back by the driver.")

prop("L01", "LTspice logs and .mout files give the measurements of each step",
     "A log or .mout file of LTspice gives the step variables and the measurements that are in it, under their names: for each step the value, and where given the phase, interval or position, that was written for this step. A measurement that failed in some steps does not shift the values of other steps. Queries by step number, by list of steps or by conditions on the step variables return exactly the values of the steps that match all conditions; maximum, minimum and average are those of the steps asked for; asking for what does not exist, or for one value where there are several, is refused.",
     ["inputs", "histories"],
     "every number of steps and step variables, every kind of measurement, form of the log, encoding and place of failed measurements, every query by any combination of conditions",
     "How values are matched to steps depends on the number of steps and on which of them failed; tests read a few recorded logs without failures.",
     LF, [("reading logs", "LTSpiceLogReader.__init__"), ("queries", "LogfileData.steps_with_conditions / get_measure_value / get_measure_values_at_steps"), ("statistics", "LogfileData.max_measure_value, min_measure_value, avg_measure_value")],
     TR, LN)
prop("L02", "Exported tables of measurements contain each step's values once",
     "Tables exported from a log (one row for each step, with the step variables, all measurements, or each half of the complex ones after they were split into two parts) have one column for each name and in each row the values of that step only; values of failed measurements are marked, not replaced by others. Appended tables follow the ones before, with the information the caller gave. The command-line tool gives the same table. Exporting in the middle of other questions does not change the answers.",
     ["inputs", "histories"],
     "every log content, including complex measurements, failed steps and no steps at all, in every order of splitting, exporting, appending and asking",
     "Rows and columns come from different dictionaries that must stay aligned for every combination; tests compare a few recorded exports.",
     LF, [("export", "LogfileData.export_data"), ("complex values", "LogfileData.split_complex_values_on_datasets / LTComplex"), ("tool", "scripts/ltsteps.py main")],
     TR, LN)
prop("L03", "QSPICE logs give the measurements of each step",
     "What L01 says holds for the logs of QSPICE and the file of measurements made of them, for any number of steps and any analysis: each measurement has one value for each step, that of the step it was written for, and those that failed do not shift others.",
     ["inputs", "histories"],
     "every number of steps (including more than nine), analysis, kind of measurement and place of failures",
     "Matching of values to steps depends on the number of steps; tests read a few recorded logs.",
     LF, [("reading", "QspiceLogReader.parse_meas_file / obtain_measures"), ("queries", "LogfileData")],
     TR, LN + " The QPOST program that turns QSPICE results into a file of measurements is not present; the harness writes that file.")
prop("L04", "Fourier analyses are read in full, for every signal and step",
     "For each signal analysed by .FOUR, each analysis and each step the log holds, the reader gives the fundamental, the DC component, the number of periods, the distortion figures and all harmonics with the numbers written there, attributed to the right signal and step; the exported table of harmonics repeats exactly those numbers.",
     ["inputs"],
     "every number of steps, signals, analyses and harmonics, with and without the figures that only some versions print",
     "Tests read one recorded log.",
     LF, [("reading", "LTSpiceLogReader.read_fourier / FourierData"), ("export", "scripts/ltsteps.py main, FourierData")],
     TR, LN)
prop("L05", "Tables made of exported waveforms keep every row and its step",
     "Converting the text that the simulator exports (waveforms, with Step Information lines where there are steps) gives every row of numbers once, in order, with the parameters of the run it belongs to, under the names in the file, whether through the reader, the reformatting function or the command-line tool, and whichever way the parameters' values are written.",
     ["inputs"],
     "every number of steps, rows, columns and parameters, including none, and every way numbers are written",
     "No test converts a file without steps or with values in other notations.",
     LF, [("reader", "LTSpiceExport"), ("reformatting", "reformat_LTSpice_export")],
     TR, LN.replace("logs", "files").replace("each log", "each file"))
prop("L06", "Every operating point of every device is read under its own name",
     "The reader of semiconductor operating points gives, for each kind of device in the log, every device named there with all of its figures, and nothing else: no device or figure is lost, repeated or attributed to another, however many devices, blocks and kinds there are, and what follows the blocks in the log is not taken for a device.",
     ["inputs"],
     "every number of kinds, blocks and devices, names and numbers, with any other text before and after",
     "Tests read two recorded logs.",
     LF, [("reading", "opLogReader")],
     TR, LN)

WF = ["spicelib/sim/sim_stepping.py", "spicelib/utils/sweep_iterators.py", "spicelib/sim/tookit/sim_analysis.py", "spicelib/sim/tookit/tolerance_deviations.py"]
WN = ("TLC exhausts the specification's counting procedure within small constants; TLC-generated behaviours run on the real "
      "code and every observation is validated by TLC. Assurance for the code is that of the executed behaviours. Trusts the driver and TLC.")
prop("W01", "A stepped simulation makes every combination once, and records it",
     "SimStepper.run_all makes exactly one simulation for each combination of the values of all sweeps that were added, in the order of nested loops with the last one innermost, each with a netlist that has these values and all other values as set before; nothing is simulated when a sweep is empty, and total_number_of_simulations tells their number beforehand. For each simulation sim_info and the exported table hold exactly the values that were set when it was made, by whichever method, also when more values are set or sweeps added between several runs, and whichever kind of iterable gives the values; file names are asked for with these values. A sweep of an unknown component is refused without effect.",
     ["inputs", "histories"],
     "every number, order and kind of sweeps, values and iterables (also one-shot and shared ones), settings before and between runs, outcomes of simulations",
     "No test uses SimStepper; which combinations are made depends on the number of dimensions and on the iterables.",
     WF[:1], [("combinations", "SimStepper.run_all"), ("records", "SimStepper.sim_info / export_step_info"), ("settings", "SimStepper.set_parameter(s), set_component_value(s), set_element_model")],
     TR, WN)
prop("W02", "Sweep iterators give exactly the points they describe, each time",
     "sweep, sweep_n, sweep_log and sweep_log_n give exactly the points from one limit to the other (both included when they fall on a step, whatever the rounding) by the step, ratio or number asked for, downwards when the limits or the sign of the step say so, a ratio lower than one against a rising range meaning downwards from the upper limit; a single point and equal limits are allowed. Every iteration over the same object starts anew, and iterations in progress at the same time, also nested ones, do not disturb each other.",
     ["inputs", "histories"],
     "every start, stop, step, ratio and number of points, rising or falling, integer or with rounding; every interleaving of iterations over the same object",
     "Which points are lost by rounding depends on the numbers; the suite lists a dozen sweeps, each iterated once.",
     WF[1:2], [("points", "sweep, sweep_n, sweep_log, sweep_log_n"), ("restarting", "BaseIterator.__iter__")],
     TR, WN)

TK = "spicelib/sim/tookit/"
TOF = [TK + "tolerance_deviations.py", TK + "sim_analysis.py"]
TN = ("TLC exhausts the specification's procedures (counting through the bounds, the search of the fast worst case for every measurement of three "
      "elements, the bookkeeping of edits) within small constants; TLC-generated circuits, settings and histories run on the real classes with a stand-in "
      "simulator that evaluates the netlists it receives, and TLC validates each circuit, log and answer. Values are integers in several units and notations; "
      "assurance for the code is that of the executed behaviours. Trusts the driver (with its evaluator of netlist expressions) and TLC.")
prop("W03", "Worst-case analyses simulate nominal and every combination of limits once",
     "WorstCaseAnalysis simulates the nominal circuit (run -1) and every combination of the lower and upper limits of all elements with a deviation, each exactly once, whether by a testbench (formulas and a .step in the netlist, saved or run, in one piece or split over simulations of at most the size asked for, without pieces of a single run) or simulation by simulation: run 0 has all at the minimum, the last run all at the maximum, and each bit of the run number controls one element. The elements are the numeric components with a deviation of their own (a zero tolerance excludes a component) or else of their kind, and the parameters with a deviation; everything else keeps its nominal value, which is that of the circuit with the user's changes, whatever was analysed or saved before with the same object.",
     ["inputs", "histories"],
     "every circuit, notation of values, set of tolerances and limits for kinds, components and parameters, and order of saving, running, analysing, resetting and changing",
     "The suite has one worst-case analysis of one circuit and compares files; it needs a simulator for more.",
     [TK + "worst_case.py"] + TOF, [("testbench", "WorstCaseAnalysis.prepare_testbench"), ("runs", "ToleranceDeviations.run_testbench"), ("simulation by simulation", "WorstCaseAnalysis.run_analysis"), ("elements", "get_component_value_deviation_type")],
     TR, TN)
prop("W04", "The fast worst case returns extremes that no single element improves",
     "FastWorstCaseAnalysis.run_analysis always ends and returns the nominal value of the measurement, its minimum and maximum found, and for each of them a setting of every element at one of its limits: the measurement at that setting is the value returned, and changing any single element to its other limit does not improve it (so it is the true worst case when the elements act independently), also when elements act against the first guess. Every circuit simulated has each element at its nominal value or at a limit. Afterwards the netlist has its nominal values and the instructions of the user again, so that later analyses and saved testbenches are not affected.",
     ["inputs", "histories"],
     "every circuit, measurement (also with products of elements), deviations, and repetition of analyses",
     "No test runs it; which elements are flipped depends on the values measured.",
     [TK + "fast_worst_case.py", TK + "worst_case.py"] + TOF, [("search", "FastWorstCaseAnalysis.run_analysis"), ("clean up", "ToleranceDeviations._start_analysis")],
     TR, TN)
prop("W05", "Sensitivities are the shares of the changes that each element makes",
     "QuickSensitivityAnalysis simulates the nominal circuit and each element with a deviation alone at one of its limits, parameters included, by testbench (at the side asked for) or simulation by simulation, and gives for each element the percentage of its absolute change of the measurement in the sum of those of all. The sensitivity analysis of the worst case gives for each element the percentage of its mean absolute change, over all pairs of runs that differ in that element only, in the sum of those means, and the standard deviation in the same unit; both for one element or for all, and also when nothing has any influence.",
     ["inputs", "histories"],
     "every circuit, measurement, deviation, and history of the analysis object",
     "No test computes a sensitivity.",
     [TK + "quick_sensitivity_analysis.py", TK + "worst_case.py"] + TOF, [("one at a time", "QuickSensitivityAnalysis.prepare_testbench / run_analysis"), ("shares", "get_sensitivity_data / make_sensitivity_analysis")],
     TR, TN)
prop("W06", "Monte Carlo varies each element within its limits by its distribution",
     "Montecarlo gives each numeric component and parameter with a deviation a random value: uniform over exactly the range of the tolerance or limits, or normal around its middle with the limits at three standard deviations; everything else keeps its nominal value. In a testbench the formulas are well formed for LTspice and for Qspice, every function used is defined, run -1 is nominal and there are as many further runs as asked for; simulation by simulation, as many simulations as asked for are made, each with new values drawn from the nominal ones.",
     ["inputs", "histories"],
     "every circuit, notation of values, tolerance, limits and distribution for kinds, components and parameters, number of runs, and history of the analysis object",
     "The suite checks the drawing of single values and compares one file.",
     [TK + "montecarlo.py"] + TOF, [("testbench", "Montecarlo.prepare_testbench"), ("simulation by simulation", "Montecarlo.run_analysis")],
     TR, TN)
prop("W07", "Results of an analysis are those of the run asked for; user changes are kept",
     "After a testbench or analysis, the measurement of a run is the one that its simulation made: simulations that failed and measurements that could not be made are reported as missing (an IndexError, NaN, or None for the extremes) and never shift other results; the minimum and maximum are those of all runs. Callbacks are called once for each simulation and their returns are given in that order. The values, parameters, instructions and measurements that the user gives to the analysis object, before or after it was prepared, run or saved, are in every circuit simulated or saved from then on, each applied once and in order, until a reset takes back exactly these; the rest of the circuit stays as it was.",
     ["inputs", "histories", "faults"],
     "every kind of analysis, failing simulations and measurements, splits, callbacks, and every order of changes, preparations, runs and resets",
     "No test makes a simulation of an analysis fail or uses an analysis object twice.",
     TOF + [TK + "worst_case.py", TK + "montecarlo.py"], [("results", "SimAnalysis.add_log_data / ToleranceDeviations.read_logfiles"), ("user changes", "SimAnalysis.play_instructions / _reset_netlist"), ("callbacks", "run_testbench / run_analysis")],
     TR, TN)
NN = ("TLC exhausts the specification's character-by-character reader of numbers against the value that the parts denote, for all texts within small "
      "constants; TLC-generated texts, comparisons and edits run on the real functions and on minimal circuits of the three editors, and TLC validates "
      "every answer and every saved file with exact decimal arithmetic. Numbers have up to nine digits; rounding errors of binary floating point are not "
      "judged. Assurance for the code is that of the executed behaviours. Trusts the driver (which reads the saved files itself) and TLC.")
prop("N01", "Numbers in engineering notation are read as the value they denote",
     "A text is read as the number that it denotes, by scan_eng, float_unit, to_float and the values of components and parameters alike: a sign, digits with a point, an exponent, or a multiplier (f p n u and both characters for micro, m, k, M and MEG in any case, g, t, %, upper or lower case where SPICE has only one meaning) after the number or in place of the point (4k7, 4R7, -1k05), spaces before the multiplier and the unit, and a unit, which is kept (both characters for ohm). The text of a value that was read stays as it was written. Texts that are not numbers - empty, names, several numbers, misplaced signs, expressions that start with a number such as 2*q - are refused by scan_eng and float_unit and given back unchanged where invalid texts are accepted, never read as another number. Values compare, order, hash, multiply, add and negate by the number they denote, whatever the notation, also against texts and plain numbers: == and != are never both true or both false.",
     ["inputs"],
     "every text built of sign, digits, form, multiplier, spaces and unit, every pair of them, and the refusals listed",
     "Tests try a handful of texts; the reader has branches for each combination of form, suffix and unit.",
     ["spicelib/utils/float_unit.py", "spicelib/editor/primitives.py"], [("reader", "float_unit.parse_value"), ("values", "float_unit.__eq__ / __hash__"), ("components", "primitives.try_value, Primitive.get_value")],
     TR, NN)
prop("N02", "Numbers and texts given to an editor are written so they read back the same",
     "In netlists (.net), LTspice schematics (.asc) and Qspice schematics (.qsch): a component value, model, instance parameter or .PARAM parameter that is given as a text is in the saved file exactly as given (also when it differs from the one before only in notation or in the case of a multiplier), and one given as a number of any kind (int, float, float_unit, numpy) is written so that it denotes that number to six digits or more; complex numbers of any sign keep both parts. A value read from one place and given to another arrives unchanged, names and expressions too. This holds for every way of setting (set_component_value(s), .value, set_component_parameters, params, set_parameter(s)), and what the editor answers afterwards, what the file holds and what is read after loading the saved file agree. No other place of the circuit changes, and parameters are neither lost nor defined twice, whether they are in one .PARAM line or several, with spaces around = or a comment.",
     ["inputs", "histories"],
     "every sequence of setting, copying, scaling, reading, saving and loading the values, models, instance and .PARAM parameters of a circuit in each format",
     "Tests set few values and compare with stored files; numbers near powers of 1000, text that only looks like a number, and repeated changes are not tried.",
     ["spicelib/utils/float_unit.py", "spicelib/editor/primitives.py", "spicelib/editor/spice_components.py", "spicelib/editor/spice_subcircuit.py", "spicelib/editor/asc_editor.py", "spicelib/editor/qsch_editor.py"],
     [("writing", "float_unit.format_eng"), ("netlists", "SpiceComponent.write_original"), (".PARAM", "PARAM_REGEX / iter_params, set_parameter")],
     TR, NN)
SF = ["spicelib/editor/asc_editor.py", "spicelib/editor/qsch_editor.py", "spicelib/editor/base_schematic.py", "spicelib/editor/ltspice_utils.py"]
AN = ("TLC exhausts a small schematic under every history of edits, saves and resets (edits leave the rest alone, removing undoes adding, one analysis at "
      "most, comments stay, files hold what was saved); schematics and histories made by TLC are run on the real AscEditor and QschEditor, the files are "
      "read by a reader of the driver, and TLC validates every answer and every file. Assurance for the code is that of the executed behaviours: one "
      "instance of each sub-sheet, two levels deep. Trusts the driver (which writes and reads the files) and TLC.")
prop("A01", "Schematics keep every edit of a component, and everything else, when saved",
     "In LTspice (.asc) and Qspice (.qsch) schematics, the value, model, parameters, position and rotation given to a component, in any way of setting them, and also in the sheets below (X1:R1, X1:X2:R3), are what the editor answers from then on and what the saved file holds; a parameter set to None and a component removed are gone from the answers and from the file. A saved file has all the rest as it was: the other components with their attributes, windows, parameters and bare words, wires, labels and their ports, lines, arcs and shapes, texts with their alignment (horizontal or vertical) and size, in the encoding of the file. Changes in a sheet below are saved to the file of that sheet, at any depth, together with the sheet above. The file that was opened is not changed by saving elsewhere; a reset or a new editor on the saved file gives what was last saved. A schematic is marked as updated after any change, and not when it was just loaded. Unknown references raise ComponentNotFoundError. Components in a library are found and read (also when the library starts with the .SUBCKT), and edits of them are refused.",
     ["inputs", "histories"],
     "every schematic of components, sub-sheets and drawing elements, and every sequence of edits, saves, resets and reloads",
     "Tests compare a few files after one edit; losses in saved files show only for elements that the sample files lack or after several steps.",
     SF, [("saving", "AscEditor.save_netlist / QschEditor.save_netlist, QschTag.out"), ("loading", "AscEditor.reset_netlist / QschEditor._parse_qsch_stream"), ("components", "AscComponent.set_parameters, QschComponent.set_parameters / set_position"), ("sheets below", "BaseSchematic._get_parent, updated")],
     TR, AN)
prop("A02", "Instructions and parameters of schematics are replaced and removed exactly",
     "In LTspice and Qspice schematics the instructions are those of the texts that are not comments, whether a text holds one or several and whether a .param goes over more lines. Adding an instruction puts it in once; an analysis (.AC, .DC, .TRAN, .NOISE, .TF in any case) replaces the one that is there, in its place, so that there is one at most; .PARAM is refused with a RuntimeError. Removing removes the instruction of that text, or one that contains it, and removing by pattern all those that match from their start in any case; the answer tells whether one was removed, and the other instructions of the text stay. Parameters are found in any case of their name, listed once each, changed where they are, added when they are new, and removed when set to None; unknown ones raise ParameterNotFoundError. Comments are never read or changed. Saved files hold exactly these instructions and keep the place and look of each text that was there.",
     ["inputs", "histories"],
     "every combination of texts with one or several instructions, parameters and comments, and every sequence of additions, removals, settings, saves and resets",
     "Tests use texts with one instruction each; texts of several lines, comments with the text of instructions and repeated changes are not tried.",
     SF, [("instructions", "AscEditor.add_instruction / remove_instruction / remove_Xinstruction and those of QschEditor"), ("parameters", "get_all_parameter_names / _get_param_named / set_parameter"), ("texts", "base_editor.instruction_spans, iter_text_params")],
     TR, AN)
prop("A03", "The netlist of a QSPICE schematic is the circuit that is drawn",
     "QschEditor.save_netlist to a netlist (or to a text buffer) writes each enabled component of the sheet exactly once, with its reference (with the letter of its kind and a separator before it when it starts with another one), and one net for each pin, in the order of the pins: the net of the label or the wire that ends where the pin is at the component's position, rotation and mirroring, 0 for GND, and for pins without one a net of their own that every unconnected pin at the same place shares and that no other net, label or wire has. Values, models and parameters are written as last edited, also several in one text and after saving and loading. Disabled and removed components are absent. Every sheet below that an enabled block uses is defined exactly once with .subckt, with the block's pins and the sheet's own netlist, whatever the blocks' references. Instructions are written in their order, comments never. Libraries and embedded models of enabled components are included once each. The netlist ends with one .end, and a second netlist is the same as the first.",
     ["inputs", "histories"],
     "every placement of components with any rotation, wire ends, labels and texts, and every history of edits, removals, netlists and saves",
     "Tests compare the netlists of a handful of schematics; placements, rotations, name collisions, disabled components and edits combine without limit.",
     SF, [("netlist", "QschEditor.save_netlist / write_spice_to_file"), ("nets", "QschEditor._find_net_at_position / _find_pin_position"), ("components", "QschEditor._parse_qsch_stream / reset_netlist")],
     TR, AN)

prop("A04", "Converting an LTspice schematic to QSPICE keeps the circuit",
     "asc_to_qsch (convert_asc_to_qsch and the command line with its -a paths and its default output name) writes a QSPICE schematic with one component for each component of the LTspice schematic, in their order: at its scaled position (16 units are 100, Y points up, cut towards zero), turned and mirrored so that its pins stay where they were connected, with its reference and value, and with the symbol of the first folder that has it (the search paths in their order, with their sub-folders, then the folder of the schematic): its type, description, drawing, text positions, and its pins, with their names, in the order of SpiceOrder. All wires, labels, texts with all their lines, lines, rectangles and circles are kept at their scaled positions; comments stay comments, instructions instructions; wires have the name of the label they are joined to. The source files are not changed, no other file is written, and relative paths work.",
     ["inputs"],
     "every schematic with any symbols in any of the folders, rotations, mirrorings, texts, wires, labels and drawings",
     "The only test converts one schematic without mirrored or ordered pins and compares with a file that has the known defects.",
     ["spicelib/scripts/asc_to_qsch.py", "spicelib/editor/asy_reader.py", "spicelib/editor/qsch_editor.py", "spicelib/editor/base_schematic.py"],
     [("conversion", "convert_asc_to_qsch / main"), ("symbols", "AsyReader.to_qsch"), ("sheet", "QschEditor.copy_from / BaseSchematic.scale")],
     TR, AN)
