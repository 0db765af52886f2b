import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
T="pipit/trace.py"
p("C01","Enter/Leave pairing is exactly the call-stack discipline of each location",
 "For every trace, after event matching a Leave event is paired with the most recent not-yet-closed Enter of the same function name on the same process (and thread, when the trace has threads), and with nothing else; Enter and Leave rows point at each other by row index and timestamp. Calls that never close, Leaves that never opened, and instant events stay unpaired, and pairing never depends on what other locations do or on how rows of different locations are interleaved.",
 ["inputs","histories","schedules"],"every event history of one location and every interleaving of the histories of several locations, for any names, process ids, thread ids and timestamps",
 "The tests look at one OTF2 ping-pong trace where every call except main is a leaf; recursion, re-entrancy, unmatched events, overlapping calls, shared thread ids across processes and interleavings are never exercised.",
 [T],[("per-location filtering and name stack","Trace._match_events")],
 [dict(name="_matching_event/_matching_timestamp",meaning="row index and timestamp of the partner event",where="events dataframe columns")],["events['_matching_event']","events['_matching_timestamp']"])
p("C02","Parent, depth and children describe the call tree of each location",
 "For every trace, the parent of a matched call is the innermost matched call still open on the same location when it is entered, its depth is the number of such open calls, and a call's children are exactly the matched calls that name it as parent, in entry order. Unmatched Enters, unmatched Leaves and instant events have no depth, parent or children and do not affect those of other calls.",
 ["inputs","histories","schedules"],"every event history per location, every interleaving of locations, every nesting depth and fan-out, including overlapping calls and unmatched events",
 "The test checks one two-level ping-pong trace; deep nesting, re-parenting after returns, several threads, unmatched frames and overlapping calls are out of its reach.",
 [T],[("stack of open matched calls per location","Trace._match_caller_callee")],
 [dict(name="_depth/_parent/_children",meaning="call-tree links by row index",where="events dataframe columns")])
p("C03","Inclusive and exclusive metrics obey their definition and conserve cost",
 "For every matched call and every numeric column, the inclusive metric is the column's value at its Leave minus its value at its Enter, and the exclusive metric is the inclusive metric minus the inclusive metrics of its direct children, so the exclusive values over a call's whole subtree sum to its inclusive value. All other rows carry no metric value, the metrics computed are listed once in the trace's inclusive/exclusive metric lists, and the values do not depend on which columns are requested or in which order.",
 ["inputs","histories"],"every event history, every set and order of requested numeric columns (time and counters, integer or float, increasing or decreasing)",
 "No test computes inclusive or exclusive metrics at all.",
 [T],[("leave minus enter","Trace.calc_inc_metrics"),("subtraction of children's inclusive values","Trace.calc_exc_metrics")])
p("C04","The calling context tree has exactly one node per distinct call path",
 "For every trace, the calling context tree contains exactly one node per distinct sequence of open function names ending in a call, shared by all processes and threads that make that call path, and every Enter row refers to the node of its own path while no other row refers to a node. Node ids are unique, each non-root node is listed exactly once among its parent's children and lies one level below it, and roots are exactly the level-0 nodes.",
 ["inputs","histories","schedules"],"every event history and interleaving, any function names (including names that contain separators such as '->' or are prefixes of one another)",
 "No test builds a calling context tree.",
 ["pipit/util/cct.py","pipit/graph.py"],[("call-path keyed node map","create_cct"),("node/parent/child links","Node, Graph")])
p("C05","Flat profiles are exact per-process sums and per-group means of the metric",
 "For every trace, metric list and grouping column or list of columns, the per-process flat profile has one row for each (group, process) pair that has an Enter event and its value is the sum of the metric over those Enter rows. The default profile has one row per group that has an Enter event, holding the mean of those sums over the processes that execute the group, and contains no groups that never execute.",
 ["inputs","histories"],"every event history over several processes, every supported metric/grouping combination, any column dtypes (categorical or plain)",
 "No test calls flat_profile; unused category levels, functions missing on some processes and multi-column grouping are never sampled.",
 [T],[("two-stage groupby","Trace.flat_profile")])
p("C06","Load imbalance reports max over mean across the processes running a function",
 "For every trace and every function that has an Enter event, load imbalance reports the mean of the function's per-process metric totals, the ratio of the largest total to that mean, and the requested number of processes with the largest totals in descending order. Functions are listed in descending order of mean, and asking for more processes than exist lists all that execute the function.",
 ["inputs","histories"],"every distribution of function time over processes, every metric and every requested number of processes",
 "No test calls load_imbalance (on the pinned commit it raises for every input).",
 [T],[("per-function sort and mean","Trace.load_imbalance")])
p("C07","Idle time is the inclusive time of exactly the requested idle functions",
 "For every trace, idle time lists every process exactly once with the sum of inclusive times of its completed calls to the given idle functions, plus MPI_Wait, MPI_Waitall and MPI_Recv when MPI events are requested. The result depends only on the trace and the arguments of this call, and neither the arguments nor later calls are affected by it.",
 ["inputs","histories"],"every event history and every sequence of idle_time calls with any arguments",
 "No test calls idle_time; a single call can also never reveal state carried from one call into the next.",
 [T],[("name filter and per-process sum","Trace.idle_time, Trace._calculate_idle_time_for_process")],
 [dict(name="idle_functions",meaning="idle function list shared by calls through the default argument",where="Trace.idle_time")])
p("C08","Time profiles distribute every function's exclusive time over the bins",
 "For every trace and number of bins, the time profile divides the interval from the first to the last timestamp into equal consecutive bins, and the value of a function in a bin is the time within that bin during which some location is executing that function and none of its callees, summed over all locations. For traces with one thread per process the idle column is the remainder of the total bin duration over processes that have calls, and the normalized profile is the same data divided by that total.",
 ["inputs","histories"],"every nesting of calls relative to every placement of bin edges, any number of bins, processes, unmatched calls",
 "One trace's row sums are checked; they stay right when time is attributed to the wrong function, and nested calls that start, end, span or touch bin edges are never checked.",
 [T],[("four overlap cases and child subtraction per bin","Trace.time_profile")])
p("C09","Communication matrix and totals equal the point-to-point messages sent",
 "For every trace whose processes are numbered 0..n-1, entry (i, j) of the n-by-n communication matrix is the total bytes (or the number) of point-to-point messages that blocking and non-blocking send events on process i address to process j. Per-process communication reports for each process the row sum as Sent and the column sum as Received, whatever the order of events.",
 ["inputs","histories"],"every multiset and order of send/receive events over n processes, both output modes, self messages and zero-byte messages included",
 "The tests use one two-process trace with a symmetric pattern, which cannot tell rows from columns or accumulation from overwriting for other shapes.",
 [T],[("send filter and accumulation","Trace.comm_matrix"),("axis sums","Trace.comm_by_process")])
p("C10","Message-size and over-time histograms account for every selected message once",
 "For every trace, the message histogram counts each sent message exactly once by its size, and communication over time puts each send (or each receive, when receives are requested) in the time interval of the whole trace in which it occurs, weighted by its size or by one. The totals over all bins equal the number or the bytes of the selected messages.",
 ["inputs","histories"],"every set of sends and receives, blocking or not, any number of bins, both output modes and message types",
 "The tests look at five bins of one symmetric trace in which sends and receives have identical volumes.",
 [T],[("event filters and weights","Trace.message_histogram, Trace.comm_over_time")])
p("C11","Multi-run analysis tabulates each run's own profile under its process count",
 "For every list of traces, multi-run analysis returns one row per trace, in the given order, labelled with that trace's number of processes, one column per group that executes in some trace, and each entry is that trace's mean-over-processes exclusive metric for that group (absent when the trace never executes it). Columns are in descending order of their total over runs.",
 ["inputs","histories"],"every list of traces, including equal process counts, functions missing from some runs, and other numeric metrics",
 "No test calls multirun_analysis.",
 [T],[("concatenation of flat profiles","Trace.multirun_analysis")])
p("C12","Analyses are pure: results do not depend on what was called before",
 "For every sequence of public analysis, tree-building and export calls on a trace (or on several traces), each call returns the same result it returns on a freshly loaded trace, and calling it again changes nothing. No call alters the originally loaded columns, rows or definitions, the columns an earlier call has added, the caller's argument objects, or any other trace, and editing a returned table affects neither the trace nor a later result.",
 ["histories"],"every sequence of API calls up to the explored depth, from every reachable cache state of the trace",
 "Each test calls one or two methods on a fresh trace; the derived columns cached on the trace make every result potentially history dependent.",
 [T,"pipit/util/cct.py","pipit/writers/chrome_writer.py"],[("column-existence guards around every cached computation","Trace._match_events, _match_caller_callee, calc_inc_metrics, calc_exc_metrics")],
 [dict(name="derived columns",meaning="cache of matching, tree and metric results",where="Trace.events")])
p("C13","CSV traces are read row for row, in time order, in nanoseconds",
 "For every well-formed CSV trace, the loaded trace has exactly the file's rows with their values (extra columns included), sorted by timestamp, and rows with equal timestamps keep the file's order. Timestamps given in seconds are converted to nanoseconds and those given in nanoseconds are kept.",
 ["inputs"],"every row set and row order, ties, both time units, optional spaces after commas, any process ids, extra columns",
 "No test reads a CSV trace.",
 [T],[("parsing, unit conversion and sort","Trace.from_csv")])
p("C14","Nsight ranges become correctly nested Enter/Leave pairs per thread",
 "For every Nsight range report, each range becomes one Enter at its start and one Leave at its end carrying the range's attributes, on a process and thread numbering that maps distinct process ids and distinct thread ids of a process one-to-one to 0..n-1. Events are in time order and, for the properly nested or consecutive ranges of a thread, the resulting events pair back to exactly the original ranges even when their boundaries coincide.",
 ["inputs"],"every set of nested or consecutive ranges over single/multiple processes and threads, coinciding boundaries and zero-length ranges included, in any row order",
 "No test reads an Nsight report.",
 ["pipit/readers/nsight_reader.py"],[("row duplication, numbering and sort","NsightReader.read")])
p("C15","Every Projections log record decodes to the event it denotes",
 "For every Projections log, each record of a supported type becomes the event(s) it denotes: name resolved through the sts file, Enter/Leave/Instant kind, timestamp in nanoseconds, the PE whose log it is in, and the record's own fields as attributes (idle and begin/end of computation and trace records have none). A log that does not end with the end of computation is closed with one at the time of its last event, and no valid record is dropped, duplicated or makes reading fail.",
 ["inputs"],"every sequence of records of the supported types with any field values, entry-method dimensions, PAPI counters, quoted names, user events and notes",
 "The test reads one ping-pong log that contains only a few of the record types and checks process numbers and counts.",
 ["pipit/readers/projections_reader.py"],[("sts table","STSReader.read_sts_file"),("record switch","ProjectionsReader._read_log_file")])
p("C16","Projections reading is complete and independent of parallelism",
 "For every number of PEs and of reader processes, and every order in which the workers finish, the loaded trace contains each PE's log exactly once with that PE's events in log order, sorted by time. A directory with no or several sts files or a missing log is rejected before reading, and an unreadable log makes reading fail instead of yielding a partial trace.",
 ["schedules","configurations","inputs","fault_sequences"],"every (number of PEs, number of reader processes) pair and every worker completion order, ties within and across PEs, every missing or damaged log",
 "The tests run with whatever worker count and completion order the machine gives.",
 ["pipit/readers/projections_reader.py"],[("rank/size partition","ProjectionsReader._read_log_file"),("pool, concat and sort","ProjectionsReader.read")])
p("C17","OTF2 events are read faithfully",
 "For every OTF2 archive, each non-metric event of every CPU-thread location appears exactly once with its kind, region or record name, process, its time converted by the archive's global offset and timer resolution to nanoseconds, and its non-empty fields as attributes. Rows are sorted by time with each location's own order preserved, and each process's threads are numbered 0..k-1 in location order.",
 ["inputs","histories"],"every archive: event sequences with ties, record types, clock properties, location/group reference numbering (contiguous or sparse), non-CPU locations",
 "The tests read one two-process single-thread archive.",
 ["pipit/readers/otf2_reader.py"],[("event conversion","OTF2Reader.events_reader"),("clock conversion and sort","OTF2Reader.read_events"),("thread numbering","OTF2Reader.read_definitions")])
p("C18","OTF2 reading does not depend on the number or order of reader processes",
 "For every archive and every requested number of reader processes, and every order in which the workers run and finish, the loaded trace is the same up to the relative order of simultaneous events on different locations. A request for no, too few or too many processes is clamped rather than losing or duplicating locations, and a failing worker makes reading fail.",
 ["schedules","configurations","fault_sequences"],"every (locations, reader processes, CPU count) triple up to the bound and every worker completion order",
 "Worker count and completion order come from the machine the tests run on; nothing compares two of them.",
 ["pipit/readers/otf2_reader.py"],[("location partition","OTF2Reader.events_reader"),("pool.map and concat","OTF2Reader.read_events")])
p("C19","OTF2 metrics and definitions are attributed to the right rows",
 "For every OTF2 archive, each metric value recorded with an event appears on that event's row in the column named after the metric, and rows without a recorded value hold a missing value, for any number of metrics and metric classes and any interleaving of locations. The definitions table lists every definition of the archive once with its type, reference number and fields.",
 ["inputs","schedules"],"every assignment of metric classes/members to locations and events, metric ids of any size, simultaneous events on several locations",
 "No test archive contains metrics, and the definitions test checks only a handful of counts.",
 ["pipit/readers/otf2_reader.py"],[("metric columns","OTF2Reader.events_reader"),("definition conversion","OTF2Reader.read_definitions, fields_to_dict, handle_data, field_to_val")])
p("C20","HPCToolkit samples turn into a consistent call-stack trace",
 "For every HPCToolkit database, each process/thread's sample sequence becomes Enter and Leave events such that after each sample the open calls are exactly the sampled context's call path, a call stays open across consecutive samples that share it, calls are left innermost first and entered outermost first at the sample's time, and calls still open after the last sample are left at the end of the database's time range. Functions and loops of the calling context are calls, source lines and instructions are not; every sampled context of every trace appears on the process and thread of its profile.",
 ["inputs","histories"],"every sequence of sampled contexts over every small context tree, any number of ranks and threads",
 "The test checks a handful of rows of one database.",
 ["pipit/readers/hpctoolkit_reader.py","pipit/graph.py"],[("transition between consecutive sample contexts","TraceDB, HPCToolkitReader"),("common ancestor and path lists","Node.get_intersection, Node.get_node_list")])
p("C21","HPCToolkit metadata is decoded as the format specifies",
 "For every well-formed HPCToolkit meta.db, profile.db and trace.db, each call's function, source file, line and load module, and each profile's rank and thread, are those encoded in the database; a call without a location of its own takes that of its call site, and one directly below an entry point that of its function's definition. This holds for any offsets, section order, record strides larger than the minimum, and string contents the format allows.",
 ["inputs"],"every layout and field assignment of a generated database: context tree shapes, flag combinations, line numbers, anonymous functions, non-ASCII names, padded strides",
 "One database produced by one tool version is read in the tests.",
 ["pipit/readers/hpctoolkit_reader.py"],[("binary section parsers","MetaReader, ProfileReader, TraceReader")])
p("C22","Truncated trace files never hang the reader or yield a silently different trace",
 "For every truncation of an HPCToolkit database file, of a compressed Projections log or of a Projections sts file, reading terminates and either raises an error or returns exactly the trace of the undamaged input; a missing file is an error. It never loops forever and never returns a trace with missing or altered events.",
 ["crash_points","fault_sequences"],"every byte position at which a file of the database may have been cut off (an interrupted copy or a crashed measurement)",
 "No test reads a damaged file.",
 ["pipit/readers/hpctoolkit_reader.py","pipit/readers/projections_reader.py"],[("binary reads","hpctoolkit_reader byte readers"),("gzip log reading","ProjectionsReader._read_log_file")])
p("C23","Chrome export contains every event once, unmodified",
 "For every trace, the exported Chrome JSON lists every event exactly once in trace order with its name, begin/end/instant phase, timestamp in whole microseconds (rounded down), process, thread when present and attributes when present. The same records are produced when exporting to a file or to a string, and the trace itself is not modified.",
 ["inputs"],"every event list, any names (quotes, unicode), ids, optional columns, derived columns already computed or not",
 "No test exports a trace.",
 ["pipit/writers/chrome_writer.py"],[("column mapping","ChromeWriter.write")])
p("C24","Configuration behaves as independent validated cells with defaults",
 "For every sequence of get, set and reset operations, reading an option returns its last successfully set value since its last reset, or its default, and setting or resetting one option never changes another unless all are reset. An invalid key or value (a log level other than the five, a notebook address that is no http:// or https:// URL) is rejected with an error and leaves every option unchanged.",
 ["histories"],"every sequence of get/set/reset calls over all keys and valid and invalid values",
 "The tests perform one get and one set.",
 ["pipit/util/config.py"],[("registry and validators","get_option, set_option, reset_option")],[dict(name="global_config",meaning="current option values",where="pipit/util/config.py")])
p("C25","Tree node queries agree with the tree",
 "For every forest of nodes, a node's level is its distance from its root, the intersection of two nodes is their deepest common ancestor-or-self (none when they are in different trees), and the node list down to a level is the chain of ancestors from the node upward with levels above that limit. The intersection is symmetric and none of the queries changes the tree.",
 ["inputs"],"every forest up to the bound and every pair of nodes and level",
 "Only one HPCToolkit trace exercises these indirectly.",
 ["pipit/graph.py"],[("ancestor walks","Node.get_intersection, Node.get_node_list, Node._calculate_level")])
p("C26","Detected patterns are the selected process's rows of each reported window",
 "For every trace and every answer of the motif search, pattern detection searches only the selected process's values of the metric between the first entry and the last exit of the start event, and returns one pattern per reported position containing exactly the rows of that window, on that process. The metric is calculated when it has not been yet. The window defaults to the region length divided by the number of iterations, which defaults to the number of start-event calls on that process.",
 ["inputs","schedules"],"every trace shape and every possible set of positions the motif search may report",
 "No test calls detect_pattern; the result depends on which positions the external search reports.",
 [T],[("region selection and row lookup","Trace.detect_pattern")])
p("C27","Analyses mean the same whatever file the trace was read from",
 "For every input in every supported format, the rows of the loaded trace are numbered consecutively in time order, and every analysis and the Chrome export return what their definition gives for those rows, whether the trace is fresh or was analysed before. A calling context tree built while reading equals the one built afterwards, and traces of different formats can be compared with each other.",
 ["inputs","histories"],"every event history in every format that can express it, every analysis on it",
 "The tests call at most one analysis per format on one fixed file; column types, missing values, row numbering and categories differ between readers, and so does what an analysis makes of them.",
 [T,"pipit/readers/","pipit/writers/chrome_writer.py","pipit/util/cct.py"],[("data frames built by the readers","OTF2Reader, HPCToolkitReader, ProjectionsReader, NsightReader, Trace.from_csv"),("column and category handling of the analyses","Trace")])
p("C28","Reading is repeatable and changes nothing but its result",
 "For every sequence of reads of inputs of any format, in which inputs are replaced, fail to be read and earlier traces are analysed or edited in between, each read yields exactly the trace that a fresh process reads from the input as it is then, or fails if that does. No read changes an earlier trace, an input file or any other file, or what the process shares with its caller: working directory, environment, warning filters, display options, recursion limit, signal handlers and random state.",
 ["histories"],"every sequence of reads, replacements, failures and analyses within one process",
 "Each test reads one fixed file once; a single read cannot reveal state kept in modules, classes, default arguments or on disk.",
 [T,"pipit/readers/"],[("entry points of the readers","Trace.from_otf2, from_hpctoolkit, from_projections, from_nsight, from_csv")])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q,s)
print(len(P), max(len(q["title"]) for q in P))
