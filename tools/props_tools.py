BULK = "src/bin/bulk_fbas_analyzer.rs"
PERF = "src/bin/bulk_performance_experiment.rs"
TOOLSIM = ("The real binary runs single-steppable under libdst.so (threads, futexes, clocks, entropy, file operations, allocations behind the libc seam); "
           "each run is first done without faults to place the faults at operations that really happen. Rows are judged by the brute-force model; "
           "networks are small, jobs <= 7. ")
TOOL_WHY = ("The only tests of the tools start the real binary once per feature on stored data, with one thread, on a healthy disk, with whatever schedule the machine gives; "
            "none injects an error, a crash or a different interleaving.")

prop("P20", "The bulk table is complete, right and ordered under every schedule",
     "Whatever the number of worker threads, the interleaving, the order of the arguments, delays, spurious wake-ups, clock changes and partial or interrupted reads and writes, the bulk analyzer ends with status 0 and one row per label, sorted by label. "
     "Each row holds the right numbers for that label's own nodes and organizations files, for nodes and merged by organization, ISP and country.",
     ["schedules", "inputs"], "all thread interleavings, job counts, input collections and naming schemes; partial and interrupted I/O", TOOL_WHY,
     [BULK, "src/core_types/groupings.rs", "src/io/groupings.rs"],
     [("worker threads with ordered output", BULK + ": bulk_do (par-map)"), ("labels from file names", BULK + ": extract_label, build_inputs"), ("rows", BULK + ": analyze, maybe_merge_sets")],
     TOOLSIM, ["CSV output file or stdout, exit status"])
prop("P21", "Bulk analysis never passes off a wrong or short table as success",
     "When opening, reading or writing fails, the disk is full, a thread or memory cannot be had, or an input is missing or cut short, the bulk analyzer ends (it never hangs) and reports failure unless the table is complete and right. "
     "What it leaves behind is at most the beginning of the right table, with no row skipped and at most one incomplete row at the end.",
     ["fault_sequences", "schedules", "inputs"], "errors at every file operation, thread creation and allocation, in every interleaving; all truncations of inputs", TOOL_WHY,
     [BULK], [("errors of workers and of the writer", BULK + ": bulk_do, write_csv_via_writer"), ("flush after every row", BULK + ": write_csv_via_writer")],
     TOOLSIM, ["CSV output, exit status"])
prop("P22", "An interrupted bulk analysis can be resumed without losing or redoing rows",
     "After a crash at any point, running again with the update option either refuses, leaving the file as it is, or ends with the complete table, in which every row that was already complete is unchanged and was not analyzed again, rows of other labels included. "
     "An update that fails or crashes before all new results are there leaves the existing file untouched, also when the existing file cannot be read. "
     "Without that option rows are saved as the work proceeds: at any time all rows but those of the labels in progress (at most twice the number of threads, plus one) are in the file.",
     ["crash_points", "histories", "schedules", "fault_sequences"], "crashes and errors at every operation (writes torn at every byte), repeated crashes, changing sets of inputs", TOOL_WHY,
     [BULK], [("reuse of existing rows", BULK + ": load_existing_outputs, make_sorted_tasklist"), ("rewriting only when everything is there", BULK + ": write_csv_to_file")],
     TOOLSIM + "Durability means what the kernel has been given: a crash of the process, not of the machine. Three findings are recorded in known_findings.txt.",
     ["CSV output file after every crash and restart"], [("the output file", "results of earlier runs; all that survives a crash", "the file given with -o")])
prop("P23", "Existing output is never overwritten unless an update was asked for",
     "Without the update option, the bulk analyzer and the performance experiment never change a file that exists where the output should go, whether it was there before or appears while they run, and they report failure. "
     "This holds for any contents, for directories and for links.",
     ["schedules", "histories", "inputs"], "all points at which another program may create the file; all existing contents", TOOL_WHY,
     [BULK, PERF], [("create-new open", BULK + ": write_csv_to_file"), ("create-new open", PERF + ": write_csv_to_file")],
     TOOLSIM + "The other program is a fault of the simulator that creates the file at a chosen operation.", ["the file at the output path, exit status"])
prop("P26", "Reported analysis durations are the time that really passed",
     "Every duration the bulk analyzer reports for a new row is the non-negative time that passed between two points in the work of the thread that analyzed the row, in seconds, whatever happens to the wall clock and to other threads. "
     "The total covers loading the row's input and is never less than the sum of its parts; durations of reused rows stay as they were.",
     ["fault_sequences", "schedules"], "all jumps of the wall clock, all delays and stalls, all interleavings", "No test looks at durations, and none can set the clock.",
     [BULK, "src/analysis/timing.rs"], [("timed_secs!", "src/analysis/timing.rs"), ("duration columns", BULK + ": analyze")],
     TOOLSIM + "Judged against the readings the simulated monotonic clock really handed to that thread.", ["duration columns"])
prop("P27", "The performance experiment's table is right and survives crashes",
     "Under every interleaving the performance experiment ends with one row per requested size and run, ordered by size, with the right counts and mean sizes for the almost-ideal or Stellar-like network of that size. "
     "With the update option existing rows are kept and only missing ones are measured, an update stopped before it has measured everything leaves the file as it was, an interrupted run can be completed later, and errors never lead to a wrong or short table with exit status 0.",
     ["schedules", "crash_points", "fault_sequences", "inputs"], "all interleavings and job counts, crashes and errors at every operation, sizes up to 12 nodes", TOOL_WHY,
     [PERF], [("worker threads with ordered output", PERF + ": bulk_do"), ("reuse of existing rows", PERF + ": make_sorted_tasklist"), ("the networks", PERF + ": make_almost_ideal_fbas, make_almost_ideal_stellarlike_fbas")],
     TOOLSIM + "The same three findings as for P22 apply.", ["CSV output, exit status"])
CLI = "src/bin/fbas_analyzer.rs"
prop("P24", "The analysis command line tool tells the truth, or says that it failed",
     "For every combination of options, the analyzer prints exactly the results of the chosen analyses of the given network - minimal quorums, minimal blocking and splitting sets, top tier, whether there is a quorum intersection - as lists of ids or public keys, as histograms or merged by organization, ISP or country - with remarks that agree with them, or without remarks if only results were asked for. "
     "This does not depend on how its input arrives in pieces, on the clock, or on irrelevant fields of the input. "
     "When an input or the output fails or is cut short it reports failure, and what it printed until then is right; the durations it prints are real elapsed time.",
     ["inputs", "fault_sequences", "configurations"], "all option combinations, inputs, chunkings and errors of reading and writing; truncations", 
     "The tests of this tool run it on two stored files and look at its exit status or a few lines, always on a healthy system.",
     [CLI, "src/io/core_types.rs", "src/io/results.rs", "src/io/groupings.rs"],
     [("options and output", CLI + ": main, do_analysis"), ("reading JSON", "src/io/core_types.rs"), ("result formats", "src/io/results.rs")],
     TOOLSIM, ["stdout and exit status"])
prop("P25", "Graphs and simulated networks arrive complete and right, or the tools fail",
     "The graph generator writes exactly one graph of the requested model (its nodes shuffled unless told not to), and the simulator reads from a stream or a file - plain or bz2, in one or several streams - exactly the graph it is given and prints exactly the network the chosen policy defines for the chosen size, in a form the analyzer reads as the same network. "
     "Interrupted and partial I/O and the clock change nothing; when an input is malformed or cut short, or reading, writing, memory or random numbers fail, the tool in question reports failure instead of going on with a smaller graph or network.",
     ["inputs", "fault_sequences", "configurations", "crash_points"], "all graphs, policies and sizes; errors, crashes and torn writes at every operation of every tool in the pipeline; all truncations of compressed graphs",
     "No test starts the graph generator or connects the tools; the tests of the file format read one stored file and parse one string on a healthy system.",
     ["src/bin/graph_generator.rs", "src/bin/qsc_simulator.rs", "src/io/graph.rs", "src/io/core_types.rs"],
     [("AS-relationship format, bz2 files", "src/io/graph.rs"), ("sizes, policies and output", "src/bin/qsc_simulator.rs: main, parse_qsc_config"), ("output", "src/bin/graph_generator.rs: main")],
     TOOLSIM + "A plain text graph that is cut short at a line end is a smaller graph and not covered. One finding (directed links) is recorded in known_findings.txt.", ["graph files, stdout, exit status"])
