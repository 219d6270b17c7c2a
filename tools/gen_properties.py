#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every trace line of a selected event becomes exactly one faithful row",
 "Every line of a text trace that carries the ftrace fields and an event TRAPpy was asked to parse yields exactly one row in that event's table, in file order, and no other line yields a row. The row carries the line's task name (__comm), pid (__pid), CPU (__cpu) and its position counted from the first trace line (__line). Headers before the first trace line, malformed lines and lines of events that were not selected contribute no row but still count as positions.",
 ["inputs"], "All text traces: any interleaving of header, malformed, selected and unselected lines, any task names (spaces, dashes, brackets), pids, TGID and irq-flag columns.",
 "The tests parse a handful of fixed traces and assert a few cells; they never check that nothing is lost, duplicated or attributed to the wrong task for arbitrary lines.",
 ["trappy/ftrace.py", "trappy/base.py", "trappy/bare_trace.py"],
 [("SPECIAL_FIELDS_RE + line loop", "trappy/ftrace.py:GenericFTrace.__populate_data"), ("row accumulation", "trappy/base.py:Base.append_data/create_dataframe")],
 [("lines", "position of the current line relative to the first trace line", "GenericFTrace.lines"), ("*_array", "per event accumulated rows", "Base")],
 ["event.data_frame of every event after FTrace(path)"])

prop("C02", "Each line goes to the one event class it belongs to, fallback only last",
 "A trace line whose text contains the unique word of a selected event is stored in that event's table only. A fallback event (tracing_mark_write) receives a line only when no other selected event's unique word occurs in it, whatever the order in which events were registered or selected.",
 ["inputs", "configurations"], "All sets of selected events/scopes, all registration orders, and all lines, including userspace markers whose text mentions other events.",
 "Tests use one fallback trace with default registration order; dispatch depends on dictionary order, selection and line content.",
 ["trappy/ftrace.py", "trappy/fallback.py"],
 [("unique word dispatch", "trappy/ftrace.py:GenericFTrace.__get_trace_class"), ("parser map", "trappy/ftrace.py:GenericFTrace.__parse_trace_file")],
 (), ["event.data_frame of every event"])

prop("C03", "Row times equal trace times, are globally unique and strictly increasing",
 "Row times are the trace timestamps in seconds (nanosecond clocks scaled), every trace line of the file gets a time strictly greater than the previous line's (ties and backward steps are bumped by the smallest representable amount), so joining event tables recovers file order. basetime is the time of the first trace line and endtime of the last one; with normalize_time (default) basetime is subtracted from all row times, with normalize_time=False they are left as in the file.",
 ["inputs", "configurations"], "All timestamp sequences (equal, decreasing, us or ns clocks) spread over any events, normalised or not.",
 "Tests check a few timestamps; uniqueness across event tables and order for arbitrary duplicates is never checked.",
 ["trappy/ftrace.py", "trappy/base.py", "trappy/utils.py"],
 [("timestamp bump", "trappy/ftrace.py:GenericFTrace.__populate_data"), ("normalisation", "trappy/base.py:Base.normalize_time"), ("duplicate handling", "trappy/utils.py:handle_duplicate_index")],
 [("timestamp", "last time handed out", "__populate_data"), ("basetime/endtime", "first/last time", "GenericFTrace")],
 ["data_frame.index", "trace.basetime", "trace.endtime"])

prop("C04", "key=value payloads become columns with faithful names and typed values",
 "Every key=value field of an event payload appears in the row under its key; the text after the first '=' is the value, which is an integer exactly when the whole text is an integer literal (decimal, 0x, 0o, 0b, signed) and the same string otherwise. A word without '=' extends the preceding string value with one space and is ignored after an integer; a payload with no key at all is an error naming the line, except trace-cmd's FAILED TO PARSE marker, which only warns. Repeated keys keep the last value and keys missing from a row read as missing.",
 ["inputs"], "All payload strings over keys, integer literals in any base, strings, '=' inside values, free words.",
 "Tests cover a few literal payloads; the parse is a function of arbitrary text.",
 ["trappy/base.py"],
 [("field splitting", "trappy/base.py:Base.generate_data_dict"), ("integer cast", "trappy/base.py:Base.string_cast_int")],
 (), ["event.data_frame columns and cells"])

prop("C05", "Array payloads explode into one zero-padded column per element",
 "An array field name={a b c} becomes columns name0, name1, ... holding the elements in order; in every row, elements beyond the row's own array length up to the longest array of that name in the event read 0. Empty arrays contribute no column and disturb no other field. Fields before and after arrays keep their values.",
 ["inputs"], "All events with any number of arrays per line, any lengths, varying from line to line, including lines without arrays.",
 "The tests contain one or two array lines with constant lengths.",
 ["trappy/base.py", "trappy/ftrace.py"],
 [("array explosion", "trappy/base.py:trace_parser_explode_array"), ("array lengths", "trappy/base.py:Base.__get_trace_array_lengths"), ("empty arrays", "trappy/ftrace.py:GenericFTrace.__populate_data")],
 (), ["event.data_frame columns and cells"])

prop("C06", "Time windows keep exactly the rows inside both windows, inclusively",
 "With window (relative to the first trace line) and/or abs_window (trace timestamps), every event table contains exactly the rows whose time lies within both windows, bounds included, None meaning unbounded. This holds for every event, and basetime, endtime, __line numbering and the values of kept rows are the same as without a window.",
 ["inputs", "configurations"], "All traces and all pairs of window/abs_window bounds, including bounds equal to row times, zero, empty and disjoint windows, with and without cache.",
 "Tests use single windows on one trace, never both together nor degenerate bounds.",
 ["trappy/ftrace.py"],
 [("window intersection", "trappy/ftrace.py:GenericFTrace._calc_max_window"), ("slicing", "trappy/ftrace.py:GenericFTrace._windowify_class")],
 [("max_window", "absolute intersection of both windows", "GenericFTrace.max_window")],
 ["event.data_frame.index"])

prop("C07", "The cache never changes what a trace object contains",
 "Opening a trace with caching enabled gives exactly the same tables (rows, columns, values and value types), basetime, endtime and metadata as opening it with caching disabled, whatever sequence of earlier openings (other events, scopes, windows, normalisation) of this or of a previous version of the file happened in the same directory. A changed trace file is never answered from the old file's cache.",
 ["histories", "inputs", "configurations"], "All histories of open(events, scope, window, normalize) / replace-trace-file / remove-some-cache-files over a directory and all trace contents.",
 "Tests open one trace twice; staleness, partial caches and column typing after arbitrary histories are not explored.",
 ["trappy/ftrace.py", "trappy/base.py"],
 [("cache load", "trappy/ftrace.py:GenericFTrace._load_cache"), ("cache update", "trappy/ftrace.py:GenericFTrace._update_cache"), ("validity", "trappy/ftrace.py:GenericFTrace._is_cache_valid"), ("csv i/o", "trappy/base.py:Base.write_csv/read_csv")],
 [("cached", "event loaded from cache", "Base.cached"), ("cache directory", "metadata.json + <Class>.csv", "<dir>/.<trace>.cache")],
 ["data_frame of every event", "basetime/endtime/metadata"])

prop("C08", "A damaged or interrupted cache never breaks or corrupts opening a trace",
 "If writing the cache was cut short at any point, or the cache directory or any file in it is missing, empty, truncated, unreadable or not creatable, then opening the trace still succeeds and returns the same data as without a cache.",
 ["crash_points", "fault_sequences"], "All points at which the process can die while updating the cache, and all combinations of missing/empty/truncated/garbage metadata and per-event files.",
 "Tests cover a read-only directory and a missing CSV only.",
 ["trappy/ftrace.py", "trappy/base.py"],
 [("cache validation", "trappy/ftrace.py:GenericFTrace._load_cache/_is_cache_valid"), ("cache write", "trappy/ftrace.py:GenericFTrace._update_cache")],
 [("cache directory", "metadata.json + <Class>.csv", "<dir>/.<trace>.cache")],
 ["FTrace(path) outcome and tables after injected faults"])

prop("C09", "Event registration, scopes and event selection compose as documented",
 "A registered parser is selected exactly by the scopes it belongs to ('all' registrations in every scope but custom) or by naming it (name, unique word, or unique word without colon) in events; unregistering removes it from later traces only. A trace object has exactly one attribute per selected event, named by the parser; unknown names in events get a new parser for '<name>:' local to that trace. Two selected events whose unique words contain one another are rejected when the trace is opened.",
 ["histories", "configurations"], "All histories of register/unregister (dynamic or class, any scope) interleaved with opening traces with any scope/events.",
 "Tests register a few names once; the registry is global mutable state whose histories are not explored.",
 ["trappy/ftrace.py", "trappy/dynamic.py"],
 [("registry", "trappy/ftrace.py:GenericFTrace.register_parser/unregister_parser"), ("selection", "trappy/ftrace.py:GenericFTrace.__init__/__add_events"), ("naming", "trappy/dynamic.py:_get_name")],
 [("*_classes", "parsers per scope", "GenericFTrace.thermal_classes/sched_classes/dynamic_classes"), ("class_definitions", "parsers of one trace", "BareTrace")],
 ["trace.class_definitions / attributes / get_filters()"])

prop("C10", "Event-specific parsers decode their own line formats faithfully",
 "For every built-in event with its own line format (common clock, raw syscalls, cpu_idle, ext4/f2fs file system, cpu_frequency, cpu_capacity, sched_switch, sched_load_avg_sg) the row contains the values written in the line under the documented column names: clock name plus fields, syscall number with hex arguments decoded and signed return values, idle exit state 4294967295 as -1, inode for ino, frequency/capacity/rate for state, cpu for cpu_id, prev_*/next_* on both sides of '==>', eight-digit cpu masks. SchedLoadAvgTask.get_pids(key) lists each (comm, pid) whose comm contains the key, once, in order of appearance.",
 ["inputs"], "All well-formed lines of these events with arbitrary field values.",
 "Each parser has at most a couple of sample lines in the tests; several assert only that parsing succeeds.",
 ["trappy/common_clk.py", "trappy/raw_syscalls.py", "trappy/idle.py", "trappy/filesystem.py", "trappy/sched.py"],
 [("line decoders", "generate_data_dict/explode/finalize_object/create_dataframe of each class")],
 (), ["event.data_frame"])

prop("C11", "Systrace HTML: only the embedded trace region is parsed, markers are decoded",
 "A SysTrace object contains exactly the trace lines embedded between the trace marker of the HTML file (legacy and new formats) and the closing script tag, and nothing from the rest of the file. Userspace marker lines are decoded into event letter, pid, function and data, with absent parts reading as missing and other text kept whole as string. The number of CPUs is one more than the largest CPU seen in sched_switch.",
 ["inputs"], "All HTML files with any placement of trace-like lines before/inside/after the region and all marker texts.",
 "Two or three fixed HTML files are parsed by the tests.",
 ["trappy/systrace.py", "trappy/fallback.py"],
 [("region detection", "trappy/systrace.py:drop_before_trace / trace_hasnt_finished"), ("marker decoding", "trappy/systrace.py:SysTrace.generate_data_dict")],
 (), ["trace tables", "trace._cpus"])

prop("C12", "Trace file resolution is deterministic, loud on failure and leaves no debris",
 "Given a directory or file, FTrace reads the trace.dat if there is one (via trace-cmd, asking for raw output of exactly the events that need it), else the .txt with a warning, and raises IOError when neither exists and RuntimeError when only a .raw.txt exists. Header metadata (version, cpus) found before the first trace line are exposed. No temporary file and no change to the input remains after opening, whether opening succeeds or fails.",
 ["configurations", "fault_sequences"], "All combinations of existing files and path spellings, headers, trace-cmd success/failure and parse failure.",
 "Tests check one path each and never the failure paths' leftovers.",
 ["trappy/ftrace.py"],
 [("path processing", "trappy/ftrace.py:FTrace.__process_path"), ("trace-cmd", "trappy/ftrace.py:FTrace.__generate_trace_txt"), ("metadata", "trappy/ftrace.py:FTrace.__get_trace_metadata")],
 (), ["exceptions, warnings, trace-cmd argv, directory contents, trace._cpus/_version/metadata"])

prop("C13", "BareTrace: added events behave like parsed ones; duration and filters are exact",
 "add_parsed_event makes the given table available under its name (with its pivot) without altering it or other events and refuses a name already present. get_duration is the latest minus the earliest time over all non-empty events and 0 if there are none; get_filters returns exactly the event names matching the key.",
 ["histories", "inputs"], "All sequences of added events (including empty tables) and queries.",
 "Tests cover two or three fixed sequences.",
 ["trappy/bare_trace.py"],
 [("BareTrace API", "trappy/bare_trace.py:BareTrace.add_parsed_event/get_duration/get_filters")],
 [("trace_classes", "events of the trace", "BareTrace.trace_classes")],
 ["return values, data_frame identity, exceptions"])

prop("C14", "apply_callbacks visits every selected event once, in trace order",
 "apply_callbacks calls the function of an event exactly once for each of its rows, over all requested events in trace order, passing the row's time under 'Index' and all its columns with their values (including columns starting with an underscore). Events that were not requested are not visited and empty tables are allowed.",
 ["inputs", "configurations"], "All interleavings of rows of any number of events, including empty ones, windows and duplicate timestamps.",
 "One small fixed trace is used by the tests.",
 ["trappy/ftrace.py"],
 [("merge by line", "trappy/ftrace.py:GenericFTrace.apply_callbacks")],
 (), ["sequence of callback invocations"])

prop("C15", "De-duplicating an index keeps order and values and moves times minimally",
 "handle_duplicate_index returns the same values in the same order with a strictly increasing (duplicate free) index for any sorted time index; first occurrences and unique entries keep their time, later duplicates move forward by less than the gap to the next time and by multiples of at most max_delta. Input rows that are ordered by __line at equal times keep that order, and data without duplicates is returned unchanged. The data given is left as it was.",
 ["inputs"], "All sorted numeric indices with any multiplicities and gaps.",
 "Tests use indices with pairs and a triple at fixed gaps.",
 ["trappy/utils.py"],
 [("duplicate spreading", "trappy/utils.py:handle_duplicate_index")],
 (), ["returned series/frame index and values"])

prop("C16", "Triggers fire exactly on the rows satisfying their filters",
 "A Trigger generates, per pivot value, a series over exactly the event rows of that pivot which satisfy all filters (a value, a list of accepted values, or a predicate), carrying the constant value or the row's value of the named column. Rows of other pivot values or failing a filter never appear, and non-firing combinations give an empty series.",
 ["inputs", "configurations"], "All event tables, pivots, filter sets (values, lists, functions) and values.",
 "Tests use one trace and single filters.",
 ["trappy/stats/Trigger.py"],
 [("filtering", "trappy/stats/Trigger.py:Trigger.generate")],
 (), ["returned series"])

prop("C17", "Aggregation over a topology sums exactly the member triggers' series",
 "For any topology and level, aggregating a trigger yields one series per group of that level which, at every trace time, equals the aggregation function applied to the members' values at that time; repeating an aggregation, or aggregating other levels in between, gives the same result. Topology levels always contain the groups they were given plus the automatic 'all' level, with consistent index lookups and spans.",
 ["histories", "configurations", "inputs"], "All topologies, levels, triggers and histories of aggregate calls.",
 "Tests aggregate once at one or two levels.",
 ["trappy/stats/Aggregator.py", "trappy/stats/Topology.py"],
 [("memoised results", "trappy/stats/Aggregator.py:MultiTriggerAggregator._result/_aggregate"), ("levels", "trappy/stats/Topology.py")],
 [("_result", "memoised per pivot aggregates", "MultiTriggerAggregator"), ("_levels", "topology levels", "Topology")],
 ["aggregate() results", "Topology accessors"])

prop("C18", "Correlation and indexing compare series on the right common times",
 "The unified index of several traces is the sorted union of their event times, and the correlator reports per-group and total scores that depend only on agreement of the two aligned series: identical inputs score as full correlation, scores are symmetric functions of the data given, and residency-style totals are weighted by the time the references are active. Correlator.plot draws, for each group, exactly the two series compared in it.",
 ["inputs", "configurations"], "All pairs of event tables/traces and weights.",
 "Tests compare a few handmade vectors.",
 ["trappy/stats/Correlator.py", "trappy/stats/Indexer.py"],
 [("index unification", "trappy/stats/Indexer.py"), ("correlation", "trappy/stats/Correlator.py")],
 (), ["unified(), correlate() results"])

prop("C19", "Stats expressions evaluate with the documented precedence and associativity",
 "Parser.solve on any expression built from numbers, comparison, arithmetic, bitwise, logical and unary operators, parentheses and function calls returns the value Python's operators give for the grammar's documented precedence and left associativity. Evaluation does not depend on white space or on expressions solved before with the same parser.",
 ["inputs", "histories"], "All expressions of the grammar up to any depth and histories of solve() calls.",
 "Tests solve a handful of fixed expressions.",
 ["trappy/stats/grammar.py"],
 [("grammar", "trappy/stats/grammar.py:Parser.__init__"), ("evaluation", "trappy/stats/grammar.py:eval_* functions")],
 (), ["Parser.solve() value"])

prop("C20", "Stats expressions over trace data align, pad, pivot and filter correctly",
 "Data accessors event:column in an expression stand for that very column of that event, pivoted by the event's pivot, restricted to the window and to rows matching all filters, and aligned on the sorted union of the times of all events the parser has accessed so far, with the last known value carried forward (or with the method, limit and fill the parser was given). The result of an expression over several accessors is the operator applied element-wise to those aligned tables; at every time the values are the same whichever expressions were solved before and in whichever order. ref(mask) gives that aligned data at the times of the mask, and inspect() describes the very event and column named; events may be named by their name, by the names the parser was given for them, or by their class path.",
 ["inputs", "histories", "configurations"], "All traces, pairs of events (same or different column names/pivots), filters, windows, and histories of solve() calls.",
 "Tests use one- or two-row frames and single accessors.",
 ["trappy/stats/grammar.py"],
 [("data access", "trappy/stats/grammar.py:Parser._pre_process/_get_data_frame..."), ("alignment", "trappy/stats/grammar.py:Parser._agg_df")],
 [("_agg_df", "aligned data accessed so far", "Parser")],
 ["Parser.solve()/inspect()/ref()"])

prop("C21", "A plot constraint yields exactly the column data of its pivot and filters",
 "For each constraint (trace, event, column) and pivot value, the plotted data are exactly the rows of the event with that pivot value which satisfy every filter (value or list of accepted values), limited to the window, in time order. Pivot values reported are exactly those present, sorted, and without a pivot there is one group holding all rows.",
 ["inputs", "configurations"], "All event tables, filters, pivots and windows.",
 "Tests check a couple of constraints on small frames.",
 ["trappy/plotter/Constraint.py"],
 [("constraint application", "trappy/plotter/Constraint.py:Constraint._apply/get_data_frame")],
 (), ["Constraint.result / ConstraintManager"])

prop("C22", "Traces, templates and columns expand into the documented constraint set",
 "A plotter given traces, templates and columns builds exactly the documented combinations: with permute every trace with every column/template pair, otherwise single entries broadcast over lists of equal length; mismatching lengths and requests that are incomplete or contradictory (no column, templates without data they belong to, signals together with columns) are rejected. Each combination occurs exactly once, in order, with the union of pivots and legend labels corresponding to its own trace, template and column.",
 ["configurations"], "All list lengths (1..n) of traces/templates/columns, permute or not, with or without templates and pivots.",
 "Tests cover a few lengths.",
 ["trappy/plotter/Constraint.py", "trappy/plotter/AbstractDataPlotter.py"],
 [("expansion", "trappy/plotter/Constraint.py:ConstraintManager._expand/_create_constraints"), ("labels", "trappy/plotter/Constraint.py:ConstraintManager.get_all_pivots/constraint_labels")],
 (), ["ConstraintManager iteration, pivots, labels"])

prop("C23", "Static plots draw every series exactly once on its own, titled axis",
 "A LinePlot/BarPlot shows, for each constraint and pivot value, one artist with exactly the constraint's data, on the axis belonging to that pivot value (with permute: to that trace and pivot value, titled after the trace; with concat: to that constraint), in the colour of its signal, with legend entries naming what the artist shows. Every pivot value gets its own axis, unused cells stay empty, for any per_line; titles, limits, styles and stacking are those asked for, and arguments of matplotlib reach it exactly while they are registered for forwarding.",
 ["configurations", "inputs"], "All numbers of constraints, pivot values, per_line values, concat/permute modes and data.",
 "Tests only check that plotting does not raise.",
 ["trappy/plotter/StaticPlot.py", "trappy/plotter/LinePlot.py", "trappy/plotter/BarPlot.py", "trappy/plotter/PlotLayout.py"],
 [("axis resolution", "trappy/plotter/StaticPlot.py:StaticPlot._resolve*"), ("layout", "trappy/plotter/PlotLayout.py")],
 (), ["matplotlib axes, lines, legends, titles"])

prop("C24", "Interactive plots ship exactly the series' data to the page",
 "The page of an ILinePlot holds one figure per pivot value (with permute: per trace and pivot value; with concat: per constraint), each drawn once and placed in its own cell. A figure's data has one column per series, labelled after it, over the sorted union of the times of its series: at its own times a series shows exactly its values, elsewhere the last (steps-post), the next (steps-pre) or one between its neighbours. Colours follow the signals; title, fill, step, scatter, limits, size limit, zoom group are passed through, and plots without a group in common stay unsynchronised.",
 ["inputs", "configurations"], "All series sets with different time bases, names and options.",
 "Tests only check that plotting does not raise.",
 ["trappy/plotter/ILinePlot.py", "trappy/plotter/ILinePlotGen.py"],
 [("index fixing", "trappy/plotter/ILinePlot.py:ILinePlot._fix_indexes"), ("data generation", "trappy/plotter/ILinePlotGen.py")],
 (), ["emitted HTML/JSON data"])

prop("C25", "Task residency intervals are exact, complete and non-overlapping",
 "From the scheduling switches of a trace, the residency data list for every task one interval per stay on a CPU, starting at the switch that brought it in and ending at the next one that took it out (or at the end of the trace), on the CPU it came in on, in time order; for sound histories without overlap per CPU or task. A stay whose end was lost is left out with a warning, under whichever name; filters by name and pid keep exactly the tasks named. The interactive event plot ships exactly these intervals, lanes, keys and options, whichever kind of trace or path it is given.",
 ["inputs", "histories"], "All consistent and truncated sequences of switches over any CPUs and tasks.",
 "Tests check two small traces.",
 ["trappy/plotter/Utils.py", "trappy/plotter/EventPlot.py"],
 [("residency", "trappy/plotter/Utils.py:get_trace_event_data"), ("payload", "trappy/plotter/EventPlot.py")],
 [("pmap/data", "open interval per task", "get_trace_event_data")],
 ["get_trace_event_data() result", "EventPlot.html()"])

prop("C26", "Signal strings and colours resolve to the requested data and colours",
 "Signals event:column[:colour] plot exactly those events and columns, in order, in the colours given as three decimal or 0x numbers; signals without a colour get a valid one; malformed signals, unknown events and signals combined with columns are rejected. A colour map of given colours returns the i-th for every i, whatever their number; the default map of up to 200 colours yields distinct ones, spread evenly.",
 ["inputs", "configurations"], "All signal lists and colour spellings, all colour map sizes and indices.",
 "Tests use one signal list.",
 ["trappy/plotter/AttrConf.py", "trappy/plotter/AbstractDataPlotter.py", "trappy/plotter/ColorMap.py"],
 [("signal parsing", "trappy/plotter/AbstractDataPlotter.py"), ("colour map", "trappy/plotter/ColorMap.py")],
 (), ["plotter attributes", "ColorMap results"])

prop("C27", "CPU/devfreq power tables map clusters to columns without mixing them",
 "get_all_freqs, load and normalised load tables of the power allocator events contain one column per mapped cluster that reported, holding at each time that cluster's last report, none before its first: frequencies in MHz, the sum of the CPUs' loads, or that sum scaled by frequency over the cluster's highest and divided by its CPUs. A cluster missing from the mapping is rejected, one that stays silent disturbs nothing, and no value is attributed to another cluster, direction or the GPU. Load, frequency and histogram plots show exactly these columns (GPU included) under titles naming actor, direction and unit.",
 ["inputs", "configurations"], "All sequences of events over any clusters and mapping labels.",
 "Tests check a few cells of one trace.",
 ["trappy/cpu_power.py", "trappy/devfreq_power.py", "trappy/ftrace.py"],
 [("pivoting", "trappy/cpu_power.py:pivot_with_labels/get_all_freqs/get_load_data"), ("plots", "trappy/ftrace.py:get_all_freqs_data/plot_load/plot_allfreqs/plot_freq_hists")],
 (), ["returned data frames", "axes of plots"])

prop("C28", "Thermal plots and run comparisons show the requested zones and runs",
 "Thermal and comparison plots draw for each run, in its own axis or line, exactly that run's data for the requested thermal zone/actors with labels naming the run; runs without the data leave no foreign data in their place, and tables derived for plotting (weights, temperatures in degrees) are exact.",
 ["inputs", "configurations"], "All combinations of runs with or without thermal events, zones, map labels and control temperatures.",
 "Tests only check that plotting does not raise.",
 ["trappy/thermal.py", "trappy/plot_utils.py", "trappy/compare_runs.py", "trappy/pid_controller.py"],
 [("plot helpers", "trappy/plot_utils.py"), ("thermal", "trappy/thermal.py")],
 (), ["matplotlib axes, lines, labels"])

prop("C29", "Workload-automation results keep every benchmark/run score, once",
 "get_results() of a workload automation results.csv (or of the directory holding it) has exactly one column per benchmark and run, the run being the row's id without its _<number> parts or the given name; its rows are the numbers in the metrics' names (first run, second run...), each cell the first score reported for that benchmark, run and number, and empty where none was. Only Overall_Score*, score* and FPS* metrics are scores. Combining results keeps every score of every one of them, of differing benchmarks too; plots draw those benchmarks and runs, on their own axes, under their names, and enlarge_axis() leaves room around all data which reached the limits. Arguments which are not a list of results are rejected.",
 ["inputs", "configurations"], "All results files with any ids, workloads, iterations and metrics, and lists of such.",
 "Two CSV files are read by the tests.",
 ["trappy/wa/results.py"],
 [("parsing", "trappy/wa/results.py:get_results/combine_results")],
 (), ["returned tables", "axes of the plots"])

prop("C30", "Sysfs parameters of a run are extracted verbatim",
 "SysfsExtractor(path).get_parameters() has exactly the parameters (policy, gains, sustainable power, cdev<N>_weight, trip_point_<N>_temp) that are files in the dump made after the run of thermal zone 0, each under its file's name with its contents, one final newline removed, as an integer where they are one; files that are absent, directories, other zones and the dump made before the run contribute nothing and a missing dump gives no parameters. The table displayed in a notebook shows these same names and values, sorted, and nothing is displayed when there are none.",
 ["inputs", "configurations"], "All dumps with any set of files and contents.",
 "One archive is read by the tests.",
 ["trappy/wa/sysfs_extractor.py"],
 [("extraction", "trappy/wa/sysfs_extractor.py:SysfsExtractor.get_parameters")],
 (), ["get_parameters()", "displayed HTML"])

prop("C31", "Notebook export makes plot output portable without touching anything else",
 "Exporting a notebook removes from the HTML that code cells display the lines marked for removal and the marked blocks (markers included; an unclosed block reaches to the end of its output), replaces each line marked as importing a trappy file by that file's contents and each one marked as sourcing a library by the tag loading it, both only the first time in that notebook, whatever was exported with the same exporter before; all other lines keep their text and order, and other outputs, sources, markdown and cells are unchanged. What the interactive plots display is self-contained afterwards.",
 ["inputs", "histories"], "All notebooks with any mixture of outputs and marks, and sequences of notebooks through one exporter.",
 "No test covers the exporter.",
 ["trappy/nbexport/exporter.py"],
 [("output filter", "trappy/nbexport/exporter.py:TrappyPlotterPreprocessor.filter_output")],
 (), ["exported notebook/cells"])

prop("C32", "A plot's page is shown only once all files it loads are installed whole",
 "Viewing an interactive plot (EventPlot, ILinePlot) first puts every file its page loads in the folder of the notebook server under the path the page asks for: the scripts and images trappy brings along always as they are in this trappy, and web libraries by downloading those which are not there yet, keeping those which are. Whatever downloads fail, are cut short or are killed half way, and whoever else is viewing plots meanwhile, no piece of a downloaded file ever stands under its final name, other files of the folder are not touched, and no temporary file remains after a view that ended. If a download fails the view raises ImportError and displays nothing, and a later view tries again.",
 ["fault_sequences", "crash_points", "schedules", "histories"], "All sequences of views by two processes with downloads succeeding, refused, cut short, reset or killed at any of them, over folders with any files present.",
 "The tests never install resources: they need a network; failing downloads and interrupted processes are not explored.",
 ["trappy/plotter/IPythonConf.py", "trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlot.py"],
 [("installation", "trappy/plotter/IPythonConf.py:iplot_install/install_resource/install_http_resource/install_local_resource"), ("paths in the page", "trappy/plotter/EventPlot.py:EventPlot._generate_html, trappy/plotter/ILinePlot.py:ILinePlot._generate_html")],
 [("folder of resources", "<jupyter data dir>/nbextensions/plotter_scripts/<plot>", "IPythonConf.get_scripts_path")],
 ["files of the folder", "exception of view()", "displayed HTML"])

prop("C33", "Publishing a notebook sends its plots to public scripts and changes nothing else",
 "publish_interactive_plots.py NOTEBOOK [-o NAME] writes a notebook (published_<name> or NAME, with .ipynb appended where missing) which is the given one with every path under which interactive plots ask the local server for a library replaced by the URL that library is downloaded from, less its .js, and those of trappy's own scripts by public addresses. Every other character stays, the given notebook is not changed, and the written one is signed as trusted. Publishing a published notebook changes nothing.",
 ["inputs", "histories"], "All notebooks with any cells and mixture of paths and other text, and publishing them repeatedly.",
 "No test runs the script.",
 ["scripts/publish_interactive_plots.py", "trappy/plotter/IPythonConf.py"],
 [("replacement", "scripts/publish_interactive_plots.py:change_resource_paths"), ("writing and signing", "scripts/publish_interactive_plots.py:publish/main")],
 (), ["written notebook", "signature store"])

prop("C34", "The timeline of an event plot shows every event in view, whatever the gestures",
 "In the browser, an event plot's chart and its summary draw, in the lane of each event and in its name's colour, exactly the parts of events within the window (at least a pixel of each), with the axis, the lane names and the brush of the summary telling that same window. Zooming, panning (never out of the trace), brushing and resizing lead to the window the gesture asks for; clicks set the markers A and B at the time clicked (drawn where that time is in view, and listed with the difference) and select the event clicked, whose name, times and place are shown. Given colours are used, names have one colour each, events are left out for stride only when there are more than 2000 in view and then evenly, and gestures on a plot do not change the other plots of the page.",
 ["inputs", "histories"], "All event tables, options and sequences of gestures on several plots of a page.",
 "No test runs any JavaScript.",
 ["trappy/plotter/js/EventPlot.js", "trappy/plotter/EventPlot.py"],
 [("drawing", "trappy/plotter/js/EventPlot.js:drawMain/drawMini/getPaths"), ("gestures", "trappy/plotter/js/EventPlot.js:zoomed/brushHandler/getCurrentInfo"), ("options", "trappy/plotter/EventPlot.py:EventPlot.__init__")],
 (), ["elements of the page"])

prop("C35", "Interactive line plots draw their tables and those of a group share a window",
 "In the browser, each figure of an interactive line plot is a graph of exactly its table (with at most blank rows added at its ends, in order of time), under its own labels, title, colours, style and legend, as wide as its share of the line and no wider, also after the notebook is resized. Whenever a plot is shown, the figures of its group which are on the page, whichever plots they came with, all get the smallest window and range that cover what each of them showed, and are zoomed together if all of them ask for it; graphs of other groups, or removed from the page, neither change nor count.",
 ["inputs", "histories"], "All tables, options, groups and sequences of plots being shown, removed, looked at and resized.",
 "No test runs any JavaScript.",
 ["trappy/plotter/js/ILinePlot.js", "trappy/plotter/ILinePlotGen.py"],
 [("graphs", "trappy/plotter/js/ILinePlot.js:create_graph"), ("groups", "trappy/plotter/js/ILinePlot.js:sync/purge")],
 (), ["graphs of the page", "synchronized groups"])

prop("C36", "Event tables written as CSV come back the same when read",
 "Base.write_csv writes the table of an event as a plain CSV file with a header line (Time and the names of the columns) and a record per row, replacing what the file had, and changes nothing else, the table included. Base.read_csv of that file gives the same rows in the same order, at exactly the same times on an index named Time, in the same columns in the same order: whole numbers, including very large and negative ones, and words come back as they were (words spelled like numbers, booleans or missing values excepted), missing cells stay missing, and the whole previous table is replaced.",
 ["inputs", "histories"], "All tables of events of any payload, repeated and close times, and histories of writing, reading and writing again.",
 "One test writes one table and looks at its first record; nothing reads one back.",
 ["trappy/base.py"],
 [("writing", "trappy/base.py:Base.write_csv"), ("reading", "trappy/base.py:Base.read_csv")],
 (), ["file written", "data_frame after reading"])

prop("C37", "Traces opened or replaced at the same time still give the right tables",
 "However the file operations of several processes opening the same trace with caching interleave (whatever events each selects, whatever the cache held before, and also if some of them are killed), each opening that is not killed succeeds and, if the trace file did not change meanwhile, gives exactly what it gives alone without a cache. If the trace file is replaced by another one during an opening, that opening still succeeds and its tables hold only rows of versions the file had meanwhile. Every later opening gives exactly what opening the file as it is by then gives without a cache; nothing is left beside the trace but its cache.",
 ["schedules", "crash_points", "histories"], "All interleavings at each file opened, closed, made or removed of two or three openings with any selections, kills and replacements of the trace.",
 "The tests open traces in one process, one after the other.",
 ["trappy/ftrace.py", "trappy/base.py"],
 [("loading", "trappy/ftrace.py:GenericFTrace._load_cache"), ("writing", "trappy/ftrace.py:GenericFTrace._update_cache"), ("tables", "trappy/base.py:Base.write_cache/read_cache")],
 [("cache", "directory .<trace>.cache: tables and metadata.json", "GenericFTrace._update_cache")],
 ["trace objects", "files beside the trace"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
