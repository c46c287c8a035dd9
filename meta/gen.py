#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json (both committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = "measureme/src/serialization.rs"
ST = "measureme/src/stringtable.rs"
PR = "measureme/src/profiler.rs"
RE = "measureme/src/raw_event.rs"
EI = "measureme/src/event_id.rs"
FH = "measureme/src/file_header.rs"
CO = "measureme/src/counters.rs"
DL = "decodeme/src/lib.rs"
DS = "decodeme/src/stringtable.rs"
DE = "decodeme/src/event.rs"
DP = "decodeme/src/event_payload.rs"
AP = "analyzeme/src/profiling_data.rs"
AA = "analyzeme/src/analysis.rs"
AC = "analyzeme/src/stack_collapse.rs"
A8 = "analyzeme/src/file_formats/v8.rs"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, level=level))

prop("C01", "Stream writes are lossless and every returned address is exact",
 "Whatever sequence of writes of whatever sizes (including empty ones, and ones larger than a page) is made to the data streams sharing one profile file or memory store, each stream read back is exactly the concatenation of the writes made to it, in order, and the address returned for a write is its byte offset in its own stream. The streams never disturb each other, however their writes are interleaved. After an explicit flush of a stream everything written to it so far is already in the backing storage; dropping the stream writes out the rest.",
 ["inputs", "histories"], "all sequences of buffered and direct writes, of any size, on 1 to 3 streams, with flushes at any point, to a file and to memory",
 "The unit tests write a handful of fixed patterns to one stream; page-boundary behaviour depends on the exact combination of buffer fill level, write size and write path.",
 [S], [("page splitting, buffer refill and flush", S), ("stream reconstruction", S)],
 ["bytes of the file or memory store, decoded by an independent page parser", "returned addresses", "split_streams"],
 "runtime monitoring: random write histories checked against an append-only stream model",
 "Held on the write histories generated (boundary-biased sizes around the small-write limit and the page sizes, plus an enumerated grid of two-write combinations); the page container is decoded by an independent parser.")

prop("C02", "Concurrent writers never lose, duplicate, tear or reorder data",
 "When many threads write concurrently to the same stream and to different streams of one profile, every completed write appears exactly once in its stream, as one contiguous run of its bytes, at the address that was returned to its caller; the writes tile the stream without gaps or overlaps. A write that returned before another one to the same stream was started has the lower address. No schedule makes the writers deadlock.",
 ["schedules", "histories"], "all interleavings of writers on several threads over the three streams of one profile, with flushes and slow or interrupted storage in between",
 "One existing test spawns a few threads over one event pattern; the guarantee quantifies over all schedules and over the mix of small, large and flush operations.",
 [S, PR, ST], [("per-stream lock around buffer and address", S), ("storage lock held for a whole page", S)],
 ["self-describing payloads in the finished streams", "call/return timestamps and addresses recorded at the caller"],
 "runtime monitoring: concurrent histories with unique self-describing payloads, checked offline for exactly-once, contiguity and real-time order; delays injected into write(2)",
 "Held on the concurrent histories produced; interleavings are diversified with random spinning, yields and delays injected into the write system call. Evidence reports context switches between writers that were actually observed in the streams.")

prop("C03", "Every recorded event is read back exactly once, unaltered",
 "Every event recorded through any recording call (instant, integer, interval guard, detached interval, interval finished under a different event id), from any number of threads and in any number, is found exactly once when the profile is read after the profiler was dropped, with the kind, label, arguments, thread id and value it was recorded with; no other event is found. Events recorded one after the other appear in that order, an interval taking its place when it is finished.",
 ["histories", "schedules", "inputs"], "all event histories over any number of threads, kinds, labels, arguments and thread ids, up to several pages of events",
 "The end-to-end tests use three event templates and a fixed nesting; they do not cover integers, detached or overridden intervals, page-crossing event counts or hostile labels.",
 [PR, S, RE, DL, AP], [("event recording", PR), ("event packing", RE), ("event decoding", DL)],
 ["ProfilingData of the finished file compared with the recorder's own log"],
 "runtime monitoring: exactly-once and order check of a recorder-side event log against the profile read back",
 "Held on the event histories generated, single- and multi-threaded.")

prop("C04", "Recorded times are truthful",
 "With the default wall-clock counter, the time stored for an instant event lies between the moment just before and the moment just after it was recorded, and the start and end stored for an interval lie within the calls that started and finished it, all as nanoseconds since the profiler was created; an interval never ends before it starts, and later events of a thread never carry earlier recording times. The start time stored with the profile is the wall-clock time at which the profiler was created.",
 ["histories", "schedules"], "all sequences of recording calls, nesting depths, pauses and threads",
 "The existing tests discard the timestamps of real recordings altogether.",
 [PR, CO, RE, DP], [("wall-time counter", CO), ("interval guard", PR), ("timestamp decoding", DP)],
 ["decoded timestamps compared with monotonic clock readings taken around each call"],
 "runtime monitoring: bracketing of every decoded timestamp by clock readings taken at the call boundary",
 "Held on the recordings made; brackets come from the same monotonic clock, so no tolerance is needed. The check of the stored start time is skipped when the wall clock was stepped during the recording.")

prop("C05", "Every string identifier resolves to exactly the string it was created for",
 "Every string added to a profile, plain or composed of text pieces and references to other strings (references first, last, adjacent, nested to any depth, or alone), of any length and any Unicode content, reads back as exactly the concatenation of its parts under the identifier returned for it, however much other string data surrounds it and however large the string data has become, including beyond 4 GiB. Both ways of reading a string (borrowed or appended to a buffer) give the same text.",
 ["inputs", "histories"], "all string tables: any mix of plain and composite strings, nesting, sizes from empty to several pages, offsets from 0 to beyond 2^32",
 "The two unit tests use at most 22-byte ASCII strings at the beginning of the table, so length-, offset- and encoding-dependent cases are never reached.",
 [ST, DS], [("string encoding", ST), ("fast and slow string expansion", DS)],
 ["decoded strings compared with the recorded ones"],
 "runtime monitoring: random string tables compared with a reference map, incl. sparse high-address tables",
 "Held on the string tables generated.")

prop("C06", "Virtual strings resolve to the string they were mapped to",
 "A virtual string identifier may be used in events and other strings before or after it is mapped; when the profile is read it resolves to the string it was mapped to, whether it was mapped singly or as part of a bulk mapping of any size, and identifiers that were never mapped show up as an unknown-string placeholder instead of some other string. Mapping many identifiers neither drops nor alters any of them nor any other identifier's mapping, and the identifiers reserved for internal use can be neither created nor remapped.",
 ["inputs", "histories"], "all sets of virtual identifiers over the whole allowed range, all mapping orders and bulk sizes, concurrent mapping from several threads",
 "The end-to-end test maps a single identifier and the bulk interface is not tested at all.",
 [ST, DS, PR], [("index entries, single and bulk", ST), ("index lookup", DS)],
 ["decoded strings of mapped and unmapped identifiers", "rejection of out-of-range identifiers"],
 "runtime monitoring: random mapping histories compared with a reference map",
 "Held on the mapping histories generated; each identifier is mapped at most once, remapping order is not specified.")

prop("C07", "Event labels and arguments survive the round trip separately",
 "An event recorded with a label and any number of arguments reads back with exactly that label and exactly those arguments in order, for any texts free of control characters other than white space, however long, whatever their number, and whether the label or arguments are themselves composed or virtual strings. An event text that violates this grammar (empty label or argument, control characters) is reported without disturbing any other event: a bad label reads as a parse-error marker, a bad argument drops only itself and the arguments after it.",
 ["inputs"], "all labels and argument lists (0 to 40 arguments, 1 byte to several pages, any Unicode), well-formed and malformed",
 "Existing tests use at most three short ASCII arguments and do not go through the string table.",
 [EI, DE, PR], [("event id composition", EI), ("event id parser", DE)],
 ["label and additional_data of decoded events"],
 "runtime monitoring: random labels/arguments compared with what was recorded, incl. malformed texts",
 "Held on the texts generated. The vertical-tab character, on which the two sides' documented grammars disagree, is not generated.")

prop("C08", "Event values keep their full 48-bit range and kinds are never confused",
 "Interval, instant and integer values anywhere in the documented range round-trip exactly, and an event is always read back as the kind it was written as, whatever its values; a value outside the documented range, or an interval that ends before it starts, is rejected when recorded instead of being stored as a different value or kind.",
 ["inputs"], "all values of 0..2^48 for each event kind, all thread ids, and out-of-range values",
 "The unit tests sample ten values per kind; confusion of kinds depends on particular bit patterns.",
 [RE, DP, PR], [("48-bit packing and markers", RE), ("payload decoding", DP)],
 ["packed records, decoded payloads, rejection of invalid values"],
 "runtime monitoring: boundary-biased value sweeps through pack/serialize/deserialize/decode against exact arithmetic",
 "Held on the values explored: all single-bit, boundary and marker-adjacent values in every pairing plus random ones.")

prop("C09", "The current on-disk format is exactly the documented one",
 "A file written by the library is decodable by the documented version-9 layout alone: file and stream headers, little-endian tagged pages, 32-byte event records, terminated string encoding with 8-byte references, and 16-byte index entries. Conversely any file laid out that way is read correctly, whoever wrote it and whichever byte order and word size the machine has.",
 ["inputs", "configurations"], "all profiles, written by the library and by an independent encoder; little- and big-endian, 32- and 64-bit targets",
 "Round-trip tests cannot notice a change made to both the writer and the reader; the stored sample file covers one shape of data.",
 [S, FH, ST, RE, DL], [("headers", FH), ("pages", S), ("records", RE), ("string encoding", ST)],
 ["raw file bytes decoded by an independent decoder; library reading of independently encoded files; Miri runs on a big-endian and on a 32-bit target"],
 "runtime monitoring: differential decoding against an independent implementation of the format, and Miri executions on a big-endian and on a 32-bit target",
 "Held on the profiles generated; the reference implementation was written from the documentation. The behaviour of other machines is executed under Miri for s390x (big-endian) and i686 (32-bit).")

prop("C10", "Files of the previous format version read the same as current ones",
 "A version-8 profile decodes to the same events (kinds, labels, arguments, thread ids, times, integer values), the same metadata and the same iteration and analysis results as the same data stored as a current-version profile.",
 ["inputs"], "all version-8 profiles: any strings, events, virtual identifiers, pages",
 "One stored sample file is compared by a few counts and single values.",
 [A8, AP], [("version 8 conversion", A8), ("version dispatch", AP)],
 ["ProfilingData over independently encoded v8 and v9 files of the same trace"],
 "runtime monitoring: differential reading of one trace stored in both formats",
 "Held on the traces generated; version-8 files come from an independent encoder and from the released 10.1.3 writer.")

prop("C11", "Unreadable input is rejected with an error, never a crash",
 "Opening a file that is missing, empty, too short, of a foreign or unsupported format version, or structurally damaged (unknown page tag, empty page, page running past the end, missing stream, damaged stream header, partial event or index record, missing or malformed metadata) returns an error; it never panics, aborts, hangs or yields events. The error for an unsupported version states that version and says whether it is too new or too old.",
 ["inputs"], "all structural damages of valid profiles of the current version at any place, and arbitrary short inputs",
 "Tests check four header damages and no damage of pages, streams or metadata.",
 [DL, DS, AP, FH, S], [("header checks", FH), ("page parsing", S), ("decoder construction", DL), ("version dispatch", AP)],
 ["result of opening the damaged input"],
 "runtime monitoring: structural fuzzing with a known-damage oracle, panics and aborts trapped",
 "Held on the damages generated; inconsistencies inside well-formed records (such as cyclic string references) are out of scope.")

prop("C12", "A truncated profile never reads as different data",
 "Cutting a valid current-version profile file off at any byte, as a crash of the recording program does, leaves a file that either is rejected with an error or reads as a profile whose events are a prefix of the original events, each with its original times, values and thread id and with each text either as originally recorded or replaced in its unresolvable parts by a placeholder. Reading it never panics.",
 ["crash_points", "inputs"], "every truncation point of generated profiles, including real recordings cut off before the final flush",
 "No existing test reads a truncated file.",
 [DL, DS, S, AP], [("page parsing", S), ("decoder construction", DL), ("string lookup", DS)],
 ["reading every prefix of a profile file; files left by recording processes killed part-way"],
 "runtime monitoring with crash-point enumeration: every byte prefix of generated files, and killed recorder processes, checked against the prefix oracle",
 "Every truncation point of each generated file is tried (for large files all points near page and record boundaries plus random ones).", "fault_enumeration")

prop("C13", "Iterating over a profile is consistent from both ends",
 "Iterating over the events of a profile yields each event exactly once and in recorded order from the front and in reverse order from the back, for any mixture of taking from both ends, and always reports the exact number remaining; taking more than there is yields nothing. Light-weight and full events, and repeated decoding of one event, agree with each other, and a profile built in memory reads the same as what was put into the builder.",
 ["inputs", "histories"], "all profiles including empty ones, all sequences of next, next_back, nth, len and size queries",
 "Tests iterate completely forwards and completely backwards only.",
 [AP, DL], [("double-ended iterator", AP), ("event decoding", DL), ("in-memory builder", AP)],
 ["iterator results compared with a deque model"],
 "runtime monitoring: random iterator operation histories against a deque model",
 "Held on the histories generated.")

prop("C14", "The summary accounts for every event and every nanosecond",
 "For properly nested traces, the analysis reports for each label the total duration and the self time (own duration minus that of direct children on the same thread), the number of invocations, cache hits and misses, and the blocked, incremental-load and result-hashing time exactly as an explicit call tree gives them; artifact sizes are summed per label, and total time is the sum over threads of the span from the first start to the last end. Self times over all labels therefore add up to the total duration of all top-level intervals.",
 ["inputs"], "all well-nested multi-threaded traces over all event kinds, known and unknown, with repeated, recursive and shared labels",
 "The unit tests check about ten hand-written traces.",
 [AA], [("reverse-order stack analysis", AA)],
 ["AnalysisResults compared with a call-tree model"],
 "runtime monitoring: random well-nested traces compared with an explicit call-tree model, plus conservation checks",
 "Held on the traces generated (well-nested per thread, finished in end order, as the recording API produces).")

prop("C15", "Collapsed stacks conserve time and name the right stacks",
 "For properly nested traces, the collapsed stacks map every call stack (labels from the outermost inwards below a common root) to the time spent in it excluding its children, summed over all its occurrences and threads, and give the root the time between a thread's first start and last end not covered by any interval; their sum is the sum of the thread spans. The stack_collapse tool writes exactly these stacks, one per line.",
 ["inputs"], "all well-nested multi-threaded traces, any labels",
 "Two hand-written traces are tested, the tool itself not at all.",
 [AC, "stack_collapse/src/main.rs"], [("stack collapsing", AC), ("folded output", "stack_collapse/src/main.rs")],
 ["returned map and tool output file compared with a call-tree model"],
 "runtime monitoring: random traces compared with a call-tree model, library and tool",
 "Held on the traces generated; stacks with zero time are ignored.")

prop("C16", "The summarize table and JSON show exactly the analysis results",
 "The summarize command lists every item of the profile once, ordered by decreasing self time, with its self time, percentage of total time, total time and counts, shows the cache, blocked, load and hashing columns exactly when some item has such data, applies the percentage filter to exactly the items below it and reports the share of the items kept, refuses limits below 0 or above 100 percent with an error message instead of printing a table, and prints total time and all artifact sizes. With the JSON option it writes the same analysis in full next to the input instead.",
 ["inputs", "configurations"], "all profiles and filter values",
 "No existing test runs the command-line tool.",
 ["summarize/src/main.rs", AA], [("table and JSON output", "summarize/src/main.rs")],
 ["stdout and JSON file of the tool compared with a model"],
 "runtime monitoring: black-box runs of the tool on random traces, output parsed and compared with the call-tree model",
 "Held on the traces and options generated; table labels avoid characters that would break the table.")

prop("C17", "summarize diff reports exactly the change between two profiles",
 "The diff of two profiles lists every item present in either one exactly once, with the exact signed change of every time, count and artifact size, the percentage change relative to the base (minus 100 percent for vanished items, infinite for new ones), ordered by decreasing size of the self-time change, and the exact change of total time. Swapping the inputs negates every change, and using a previously written JSON summary in place of a profile gives the same result.",
 ["inputs", "configurations"], "all pairs of profiles or JSON summaries, exclusion filters, table and JSON output",
 "Only the subtraction of signed durations is unit-tested.",
 ["summarize/src/diff.rs", "summarize/src/main.rs"], [("diff calculation", "summarize/src/diff.rs"), ("input selection", "summarize/src/main.rs")],
 ["stdout and JSON file of the tool compared with a model"],
 "runtime monitoring: black-box runs on pairs of random traces compared with an exact model, plus swap and JSON-input metamorphic checks",
 "Held on the pairs generated.")

prop("C18", "summarize aggregate reports the true extremes across runs",
 "For any number of single-threaded profiles of the same event sequence, the aggregate command reports the ten smallest and ten largest distinct durations between consecutive event boundaries (smallest from the minima, largest from the maxima over the runs) and the ten smallest and largest spreads across the runs, each with the place it occurred at or, if it occurred at several, how often. Profiles with differing event sequences or several threads are refused with a failure.",
 ["inputs"], "all sets of 1 to 6 profiles of one event sequence with varying times; mismatching sets",
 "No existing test covers aggregation.",
 ["summarize/src/aggregate.rs"], [("sample intervals and extrema", "summarize/src/aggregate.rs")],
 ["stdout and exit status compared with a model"],
 "runtime monitoring: black-box runs on families of jittered traces compared with an independent boundary-sequence model",
 "Held on the families generated.")

prop("C19", "crox converts every interval faithfully to Chrome's trace format",
 "crox writes valid JSON holding, for all given profiles and all profiles of a given directory, one complete event per interval, in order, with its label, category, start and duration in whole microseconds, process and thread id and arguments; intervals shorter than a given minimum are left out and nothing else is. Each process gets its sort index and, if its command line names a crate, that name. With thread collapsing, every thread maps to a single lane, threads whose activity overlaps in time never share one, and no more lanes are used than threads are ever active at once.",
 ["inputs", "configurations"], "all sets of profiles, minimum durations, directory and collapsing options",
 "No existing test covers the tool.",
 ["crox/src/main.rs"], [("event conversion", "crox/src/main.rs"), ("thread collapsing", "crox/src/main.rs")],
 ["chrome_profiler.json parsed and compared with the trace"],
 "runtime monitoring: black-box runs on random profiles, output JSON checked against the trace and a lane-validity oracle",
 "Held on the profiles and options generated.")

prop("C20", "mmview prints every event, in order, with relative times",
 "mmview prints every event of a profile in recorded order with its kind, label, arguments, thread id and its value: times in whole microseconds since the earliest time in the profile, or the integer; with a thread filter it prints exactly the events of that thread, with unchanged times.",
 ["inputs", "configurations"], "all profiles, incl. empty and integer-only ones, and thread filters",
 "No existing test covers the tool.",
 ["mmview/src/main.rs"], [("event printing", "mmview/src/main.rs")],
 ["stdout compared with a model"],
 "runtime monitoring: black-box runs on random profiles compared with the expected listing",
 "Held on the profiles generated.")

prop("C21", "mmedit truncate yields a valid, faithful, smaller profile",
 "Truncating a profile of any supported version writes a new file and leaves the input untouched; the new file is a valid profile with the same metadata that holds exactly the events of the input's first event page, each reading exactly as in the input.",
 ["inputs"], "all profiles of versions 8 and 9, any page layout",
 "No existing test covers the tool.",
 ["mmedit/src/main.rs"], [("page filter", "mmedit/src/main.rs")],
 ["output file decoded and compared with the input"],
 "runtime monitoring: black-box runs on random profiles, output decoded and compared",
 "Held on the profiles generated (event records do not straddle the first page's end, as the library's writer guarantees).")

prop("C22", "The flame graph shows every stack with its inclusive time",
 "The flamegraph tool writes an SVG in which every call path of the profile that is wide enough to draw appears as one frame, nested in its callers, labelled with the function and its inclusive time; the root frame carries the total of all thread spans. (Labels that the folded-stack line format cannot express are excepted: those holding a semicolon or ending in a blank and a number.)",
 ["inputs"], "all well-nested profiles with non-zero time",
 "No existing test covers the tool.",
 ["flamegraph/src/main.rs", AC], [("flame graph generation", "flamegraph/src/main.rs")],
 ["frames parsed from the SVG compared with a call-tree model"],
 "runtime monitoring: black-box runs on random traces, SVG frames compared with the call-tree model",
 "Held on the traces generated; the drawing itself is done by the inferno crate and only its frame titles are judged.")

prop("C23", "Recording and reading are free of memory errors and data races",
 "No use of the recording and reading interfaces, from any number of threads, reads or writes memory out of bounds or uninitialised, uses freed memory, leaks, breaks aliasing or alignment rules, or has a data race.",
 ["schedules", "inputs", "programs"], "all uses of the safe public interfaces, on all schedules",
 "The tests run without sanitizers, and undefined behaviour usually leaves no visible trace.",
 [S, ST, RE, PR, DS], [("bulk index encoding", ST), ("record (de)serialization", RE), ("locks", S)],
 ["AddressSanitizer, LeakSanitizer, ThreadSanitizer, MemorySanitizer and Miri reports"],
 "sanitizers: all in-process workloads of the other checks under AddressSanitizer+LeakSanitizer, ThreadSanitizer and MemorySanitizer (std rebuilt), and seeded scenarios under Miri (many schedules, Stacked and Tree Borrows); deliberate faults show on each run that every detector is awake",
 "No report on the executions made; says nothing about code the workloads do not reach (Miri and MemorySanitizer cannot run the hardware counters' inline assembly and system calls).")

prop("C24", "Storage faults are either transparent or reported, never silent",
 "Short writes and interrupted system calls while recording do not change the resulting file in any way. When storage fails for good (full disk, I/O error) at any point of recording or of a tool's output, the program using the library or tool sees an error, panic or failure exit; it never finishes successfully with an incomplete file.",
 ["fault_sequences", "crash_points"], "all placements of short writes, interruptions and hard errors over the writes of a recording and of each tool",
 "No existing test injects faults.",
 [S, PR, FH, "crox/src/main.rs", "stack_collapse/src/main.rs", "flamegraph/src/main.rs", "summarize/src/main.rs"], [("page writes", S), ("tool output", "crox/src/main.rs")],
 ["file contents and exit status under injected write(2) faults"],
 "runtime monitoring with fault injection: an interposed write(2) enumerates fault points, outcome checked for fail-loud or complete",
 "Every write call of the workloads is failed once for each fault kind; workloads are small recordings and each tool.", "fault_enumeration")

prop("C25", "Profile metadata is truthful and readable for any program",
 "A profile recorded by any process, whatever its command-line arguments contain, can be opened, and its metadata gives the process id, the time the profiler was created, and the command line as all arguments in order, each followed by a space (text that is not Unicode appearing with replacement characters).",
 ["inputs", "configurations"], "all argument vectors: quotes, backslashes, control characters, any Unicode, invalid Unicode, empty and huge ones",
 "The tests only run under one benign command line.",
 [PR, DL], [("metadata encoding", PR), ("metadata decoding", DL)],
 ["metadata of profiles recorded by child processes with hostile argument vectors"],
 "runtime monitoring: recorder processes started with hostile argument vectors, metadata compared with what the parent passed",
 "Held on the argument vectors generated.")

prop("C26", "How a file is cut into pages never affects what is read",
 "Two files carrying the same stream contents read identically, however the streams are divided into pages, whatever the page sizes (from one byte up), and however the pages of different streams are interleaved.",
 ["inputs"], "all page divisions and interleavings of the three streams",
 "Only files with the page layout of the current writer are ever read in tests.",
 [S, DL], [("stream reconstruction", S)],
 ["decoded events, strings and metadata of differently paged copies"],
 "runtime monitoring: metamorphic re-paging of generated profiles, incl. one-byte pages",
 "Held on the page layouts generated.")

prop("C27", "A panic in one write leaves the rest of the stream intact",
 "If caller-supplied code that fills in a piece of data panics in the middle of a write, all data written to the streams before and after, by any thread, is still read back intact at the addresses or identifiers returned for it.",
 ["histories", "fault_sequences"], "all positions of panicking writes among successful ones, on all write paths and sizes",
 "No existing test panics inside a write.",
 [S, ST], [("callback write", S)],
 ["stream contents and strings read back after caught panics"],
 "runtime monitoring with fault injection: panicking writers among normal ones, streams checked against the address model",
 "Held on the histories generated.")

prop("C28", "Counters are selected by name and failures are reported as they are",
 "Asking for a counter by name gives that counter or an error, never a different counter; the profile's metadata names the counter really used and its units. When the system refuses a hardware counter or offers one that cannot be used correctly, creating it returns an error that states the system's actual reason, and with a usable one the recorded values are the counter's true advance since creation (minus interrupts for the corrected variants).",
 ["configurations", "fault_sequences"], "all names, all system errors, all states of the kernel's counter page, all counter readings",
 "The hardware counters cannot work in the test environment and have no tests.",
 [CO, PR], [("selection", CO), ("kernel interface", CO), ("metadata", PR)],
 ["result of counter creation under an emulated kernel interface; recorded values; stored metadata"],
 "runtime monitoring with an emulated kernel: interposed perf_event_open and trapped rdpmc drive every error and value path",
 "Held on the emulated kernel behaviours generated; x86-64 Linux only, with the CPU model of the machine it runs on.")

prop("C29", "Profilers create exactly their own file and never affect each other",
 "Creating a profiler for a path yields exactly one profile file there (with the profile extension, missing parent directories created, an older file fully replaced) or an error, never a panic, and touches nothing else; any number of profilers in one process, used concurrently, each produce a complete profile holding only their own events and strings.",
 ["histories", "configurations", "schedules"], "all path stems, pre-existing contents and numbers of concurrent profilers",
 "The tests create one profiler per fresh directory.",
 [PR, FH], [("file creation", PR)],
 ["directory contents and decoded profiles"],
 "runtime monitoring: scratch-directory scenarios with concurrent profilers, directory snapshots and decoded files compared with the scenario",
 "Held on the scenarios generated.")

prop("C30", "Tools fail cleanly on unusable input and never alter their inputs",
 "Every command-line tool given a missing, foreign, unsupported or structurally damaged profile exits with a failure status and a message rather than a crash (mmedit truncate, which copies whole pages without decoding them, only has to notice a wrong file header or damaged pages), and no tool ever modifies, truncates or removes a profile it reads, whether it succeeds or fails.",
 ["inputs", "configurations"], "all tools and options on damaged, unsupported and missing profiles",
 "No existing test runs the tools.",
 ["crox/src/main.rs", "mmview/src/main.rs", "mmedit/src/main.rs", "summarize/src/main.rs", "stack_collapse/src/main.rs", "flamegraph/src/main.rs", AP], [("error propagation", "summarize/src/main.rs"), ("input opening", AP)],
 ["exit status, messages and directory snapshots around tool runs"],
 "runtime monitoring: black-box tool runs on damaged inputs with directory snapshots and crash detection",
 "Held on the damages and tools tried.")

prop("C31", "Questions about an event's time and value follow what was recorded",
 "For every event, asked as payload, light-weight or full event: exactly one of interval, instant and integer holds; start, end, duration (intervals whose end is not before their start only), time stamp and integer value are those recorded, at the profile's start time plus the recorded offset; an event contains another exactly if it is an interval and the other an interval or instant that lies within it, ends included; a time stamp contains a point of time exactly if it is an interval and the point is not before its start and before its end. Equal payloads and only those compare and hash equal.",
 ["inputs"], "all payloads, pairs of payloads and points of time, also before 1970 and inverted intervals as damaged files may hold",
 "The existing tests only use these functions in passing on ordered intervals.",
 [DP, DE, "decodeme/src/lightweight_event.rs"], [("payload predicates and containment", DP), ("delegation by the events", DE)],
 ["return values compared with a model over integers"],
 "runtime monitoring: random payloads and pairs, every answer compared with an integer model",
 "Held on the payloads, pairs and points of time tried (boundary-biased).")

prop("C32", "Headers identify files and streams",
 "Writing a header yields exactly the four magic bytes and the current version (or the writer's error), whatever way the writer takes the bytes; a header is verified exactly if it is complete and has the expected magic and the current version, its version is read exactly if it is complete and has the expected magic, and otherwise the error names the file and the stream. A profile in which a stream carries the header of another stream, an unknown magic or another version is refused.",
 ["inputs", "faults"], "all byte strings, magics and versions; writers that write short, are interrupted or fail",
 "Four fixed headers are tested.",
 [FH, DL, DS, A8], [("header writing and verification", FH), ("version dispatch", DL)],
 ["bytes written", "results and messages"],
 "runtime monitoring: random headers and writers judged by an independent header model",
 "Held on the headers, writers and altered profiles tried.")

prop("C33", "Recording streams its data to the file as it goes",
 "At any moment between two calls the file of a recording consists of complete pages of at most 256 KiB, holding a prefix of each stream that lacks no more than the last 256 KiB recorded to it. If the process is killed at any point, what was recorded before is still in the file: at most the last 256 KiB of each stream are missing, and only the very last page may be incomplete. The memory used for recording does not grow with the amount recorded.",
 ["histories", "crash points"], "all recording histories, cut off between calls and by SIGKILL at any point, with one or several threads",
 "No existing test looks at the file before the recording ends.",
 [S, PR], [("page-wise flushing", S)],
 ["contents of the file between calls and after a kill, compared with what was acknowledged", "peak memory of a recording process"],
 "runtime monitoring: crash injection (SIGKILL) and quiescent snapshots of the file, judged against acknowledged writes",
 "Held on the histories, kill points and snapshots observed.")

prop("C34", "A profile is found under the path stem it was recorded under",
 "For every path stem, opening it after recording under it gives that very profile, whatever other files and profiles lie around it; for a stem without a dot the profile is the file with the profile extension appended, and naming that file opens it as well. If there is none, opening fails with an error that names the expected file and mentions the outdated format exactly if files of the old format lie there.",
 ["inputs", "configurations"], "all path stems (any bytes; dotted ones for the round trip only; none that starts with two dots) and surroundings",
 "The existing tests use one plain stem each.",
 [AP, PR], [("path of the profile", AP), ("path of the recording", PR)],
 ["the event read back", "error messages"],
 "runtime monitoring: recordings under random stems among decoy files, opened again",
 "Held on the stems and surroundings tried.")

prop("C35", "The work done grows in proportion to the profile",
 "Recording an event, string or mapping takes an amount of work that does not depend on how much was recorded before, and opening, iterating (from either end), analysing, listing, converting, summarizing, comparing or truncating a profile takes work in proportion to its size, up to a logarithmic factor: the work per event, string, argument, page or byte does not grow with their number, whatever the labels, nesting, threads, kinds of events, strings or pages (collapsed stacks excepted where the stacks themselves get longer).",
 ["inputs", "sizes"], "all profiles and recordings, of every shape and size",
 "The existing tests assert nothing about work, and use small inputs on which disproportionate work goes unnoticed.",
 [PR, S, "measureme/src/stringtable.rs", AP, "analyzeme/src/analysis.rs", "analyzeme/src/stack_collapse.rs", "decodeme/src/stringtable.rs", "crox/src/main.rs", "summarize/src/main.rs", "mmview/src/main.rs", "mmedit/src/main.rs", "flamegraph/src/main.rs"],
 [("recording", PR), ("reading", AP), ("analysis", "analyzeme/src/analysis.rs"), ("string index", "decodeme/src/stringtable.rs")],
 ["number of instructions executed"],
 "runtime monitoring: instructions counted by an instrumenting virtual machine (cachegrind) at three sizes of every workload and operation",
 "Held for the workload shapes and operations tried, with sizes up to some tens of thousands of events; the bound is four times the work per unit at sixteen times the size.")

prop("C36", "Results depend on the profiles and the options alone",
 "What a tool prints and the files it makes (up to order, and up to a flame graph's colours and a terminal's attributes), and what the reading interfaces give, depend on the contents of the profiles and on the options alone: not on the working directory or how the paths are spelled, environment variables, standard input, the kind or width of the output device, the number of files that may be open, the name the program is run under, what earlier runs left behind, a file's times, what was read before under the same path, or what runs at the same time. Every output goes to its fixed place in the working directory or beside the input, replaces what lay there, and nothing else is made.",
 ["circumstances", "histories", "schedules"], "all profiles, invocations and circumstances in which they are run",
 "The existing tests read a few fixed files once each and never start a tool, let alone twice.",
 ["crox/src/main.rs", "summarize/src/main.rs", "mmview/src/main.rs", "mmedit/src/main.rs", "flamegraph/src/main.rs", "stack_collapse/src/main.rs", AP],
 [("tools", "summarize/src/main.rs"), ("converter", "crox/src/main.rs"), ("reading", AP)],
 ["exit code, standard output and files of every run", "decoded profiles"],
 "runtime monitoring: the same invocation run under plain and under varied circumstances, outputs and files compared; re-readings of one path and readings at once compared with the reference",
 "Held for the profiles, invocations and circumstances tried: 24 environment variables, four spellings of paths, three working directories, a terminal of 20 columns, and up to four runs at the same time.")

prop("C37", "Every way of opening a profile reads the same, also when shared by threads",
 "Opening a profile by its path stem, by its file's name or from memory, with the analysis crate or with the decoder crate, from the whole file or from its separate streams, and under whatever name for messages, either fails in every way or gives the same metadata, number of events, events and light-weight events in every way, for intact and for damaged files alike. A decoder that is shared by several threads gives each of them these same events, in whatever order they ask.",
 ["inputs", "schedules"], "all files, intact and structurally damaged, all ways of opening them, and all interleavings of threads that share a decoder",
 "The existing tests open a few intact files in one way, from one thread.",
 [AP, DL, DS, "analyzeme/src/file_formats/v9.rs"],
 [("opening", AP), ("decoding", DL), ("strings", DS)],
 ["results of every way of opening, compared with each other and with the reference"],
 "runtime monitoring: differential comparison of all reading interfaces, stress with decoders shared by threads (plain, and under ThreadSanitizer and Miri in C23)",
 "Held for the files, damages and interleavings tried.")

def main():
    claimed = [l.strip() for l in open(os.path.join(ROOT, "meta/claimed.txt")) if l.strip()] if os.path.exists(os.path.join(ROOT, "meta/claimed.txt")) else []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks = []
    na = []
    for p in P:
        if p["id"] in claimed:
            checks.append({"property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']} quick",
                "thorough_cmd": f"python3 check.py {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet (work in progress)"})
    m = {"version": 1, "setup_cmd": "python3 check.py setup",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks: all monitors observe the public interfaces, the files and the system-call boundary."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
