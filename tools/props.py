"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Intercepted library calls stay transparent to the application",
  "Whenever the application calls a function Caliper intercepts (MPI functions, POSIX and C stdio I/O functions, pthread_create, the malloc family), the original function is executed exactly once with the arguments the application passed, and the application receives exactly the original's result. This holds on every path through the interception: measurement active or not, nested calls, channels active or not, errors returned by the original. Each interception is bound to the function it claims to intercept, and allocation interception leaves errno as the original set it.",
  ["programs", "inputs", "configurations"], "every intercepted function, every path through its wrapper, every argument value",
  "the tests call about a dozen of the >350 intercepted functions, always with succeeding calls and one configuration each",
  ["src/services/mpiwrap/Wrapper.w", "src/services/mpiwrap/wrap.py", "src/services/io/CurIOus/src/wrappers.c", "src/services/pthread/PthreadService.cpp", "src/services/sysalloc/SysAllocService.cpp"],
  [("gotcha bindings: name, wrapper, handle", "src/services/*/; gotcha_wrap call sites"), ("each wrapper calls gotcha_get_wrappee(handle)(args) and returns its value", "wrapper functions")])

p("C02", "Shared runtime and reader state is only touched under its lock",
  "State of the measurement runtime, of the measurement services and of the query engine that several threads can reach (attribute registry, process-wide and per-channel blackboards, memory pool, thread and trace/aggregation buffer lists, metadata database, record writers and formatters, allocation tracker, MPI request tables) is read and written only while the lock that protects it is held by the accessing thread, counters and flags shared without a lock are atomic, and one-time initialisation happens once even when threads race for it. No sequence of concurrent calls into Caliper can therefore race on it.",
  ["schedules", "programs"], "all interleavings of any number of threads calling the annotation, channel, flush, query and reader interfaces",
  "a data race shows only under particular interleavings; the suite runs at most a handful of threads without a race detector",
  ["src/caliper/Caliper.cpp", "src/caliper/MemoryPool.cpp", "src/services/trace/Trace.cpp", "src/services/aggregate/Aggregate.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/CaliWriter.cpp", "src/reader/Aggregator.cpp"],
  [("util::spinlock / std::mutex with std::lock_guard or unique_lock", "the classes owning the state")])

p("C03", "Locks are released on every path and never deadlock",
  "No Caliper operation returns to its caller while still holding one of Caliper's internal locks or with the thread's reentrancy guard raised, on any path including early returns and exceptions. No operation acquires a lock the same thread already holds, and the locks are acquired in an order that admits no cycle, so concurrent operations cannot deadlock on them.",
  ["schedules", "programs", "inputs"], "all paths of all operations and all interleavings of them",
  "a leaked or inverted lock appears only on the early-return path or the interleaving that hits it",
  ["src/caliper/Caliper.cpp", "src/services", "src/reader", "include/caliper/common/util/spinlock.hpp"],
  [("scoped guards", "std::lock_guard / unique_lock over spinlock, mutex and the thread's signal lock")])

p("C04", "Interrupted or nested Caliper calls never re-enter the runtime",
  "If a signal handler, sampling timer, intercepted library function or other callback invokes Caliper while the same thread is inside a Caliper operation, the nested invocation does not modify or read measurement state: the entry points meant for such contexts see that the thread is inside Caliper and do nothing. Every operation of the runtime that touches measurement state marks the thread as inside for its whole duration, and snapshots taken in a signal context neither allocate memory dynamically nor flush the channel.",
  ["schedules", "programs"], "every instruction at which a signal or nested call can arrive in any operation",
  "the interruption must hit a window of a few instructions",
  ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp", "include/caliper/Caliper.h", "src/services/sampler/Sampler.cpp", "src/services/sysalloc/SysAllocService.cpp", "src/services/trace/Trace.cpp", "src/services/aggregate/Aggregate.cpp"],
  [("per-thread siglock counter", "Caliper::ThreadData::lock"), ("Caliper::sigsafe_instance", "src/caliper/Caliper.cpp")])

p("C05", "Region updates follow the event protocol and stay balanced",
  "A begin, set or end on an attribute notifies every active channel before the blackboard changes, and begin notifies again after it, exactly once per operation and channel; attributes marked to skip events update the blackboard without notifying anyone. Ending a region removes the value it opened and nothing else, from the blackboard of the attribute's own scope; an end without matching begin, or a mismatched one, changes no blackboard, is reported, and never notifies end-callbacks.",
  ["histories", "programs"], "all sequences of begin/set/end over any attributes, scopes and channels, including mismatched ones",
  "tests run a few well-nested sequences and one or two mismatches",
  ["src/caliper/Caliper.cpp", "include/caliper/Caliper.h"],
  [("begin/end/set/begin(chB)/end(chB)/set(chB)", "src/caliper/Caliper.cpp")])

p("C06", "Only active channels observe events and record snapshots",
  "A channel that is not active (never activated, deactivated, or closed) receives no region, async or memory events and records no snapshots, whether these come from annotations, signals, monitoring threads, intercepted library calls or tool callbacks; an active channel receives each event addressed to it or to all channels exactly once. Attribute creation and thread start and exit are announced to every existing channel. Activating, deactivating or closing one channel changes nothing for the others; closing one first announces the end to its services, then removes it from the runtime, and then lets its services finish.",
  ["histories", "configurations"], "all sequences of channel creation, activation, deactivation, deletion and annotation calls",
  "tests use one or two channels in a handful of orders",
  ["src/caliper/Caliper.cpp", "src/caliper/ChannelController.cpp", "src/caliper/cali.cpp"],
  [("active flag and active channel list", "src/caliper/Caliper.cpp")])

p("C07", "Fixed-capacity buffers are never overrun",
  "Snapshot records, compressed records, trace chunks, node and snapshot serialisation buffers, the memory pool and the fixed arrays of the C interface accept data only while it fits: entries are never written outside the buffer, whatever their number, size and encoding; what does not fit is dropped and counted, or moved to a buffer that is large enough, and the recorded lengths never exceed the memory.",
  ["inputs", "configurations", "histories"], "all numbers and sizes of snapshot entries, attributes, strings and all buffer-size settings",
  "the overrun needs a record larger than any in the tests, or a buffer fill level off by one",
  ["include/caliper/SnapshotRecord.h", "src/common/CompressedSnapshotRecord.h", "src/common/CompressedSnapshotRecord.cpp", "src/services/trace/TraceBufferChunk.cpp", "src/common/NodeBuffer.cpp", "src/common/SnapshotBuffer.cpp", "src/caliper/Blackboard.cpp", "src/caliper/MemoryPool.cpp", "src/caliper/MetadataTree.cpp"],
  [("capacity comparisons before each store", "the buffer classes")])

p("C08", "Values of every type are compared, converted and packed consistently",
  "For variant values of every type: the constructors store the type and (for text) the size and the pointer or value they are given; equality of two values holds exactly when the types, the sizes and the content (all bytes for text and blobs) are the same; the ordering of two values of a type is the mathematical one (text and blobs by content, then size), is zero exactly for equal values and is antisymmetric, and values of different types are ordered by type; unpacking what was packed gives back the same type and value for every type, reads no more than it reports and rejects an unknown type tag; conversions to an integer, unsigned, floating-point or boolean value return the value when the target type can represent it and report failure otherwise; the address and size reported for the data of a value are those of the stored data; type names map to types and back without loss; and the arithmetic helpers on variants combine the values as their type prescribes. Excluded: NaN in orderings, floating-point values outside the range of the target of a conversion, text longer than 2^31 bytes, and the text form of values (see C09).",
  ["inputs"], "all values of all ten variant types",
  "tests compare a few small values; the order breaks on wide differences and rarely used types",
  ["src/common/cali_variant.c", "src/common/Variant.cpp", "include/caliper/common/cali_variant.h", "src/common/cali_types.c"],
  [("switch over cali_attr_type", "src/common/cali_variant.c")])

p("C09", "Writers and readers of the .cali format agree on its vocabulary",
  "Every record kind, field name, separator and escape sequence the .cali writer emits is understood by the C++ reader and the Python reader, and no reader requires one the writer never emits; attribute properties and type names are encoded and decoded from the same table, and metadata attributes known to all processes have the same identifiers everywhere.",
  ["inputs", "programs"], "every stream the writer can produce",
  "round-trip tests cover only the characters, types and properties that occur in their sample data",
  ["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/common/cali_types.c", "src/caliper/MetadataTree.cpp", "src/reader/CaliperMetadataDB.cpp", "python/caliper-reader/caliperreader/caliperreader.py", "python/caliper-reader/caliperreader/metadatadb.py"],
  [("writer templates and reader key table", "src/reader/CaliWriter.cpp, src/reader/CaliReader.cpp")])

p("C10", "User-provided text is escaped in every machine-readable output",
  "Every text that can come from the application, the environment or the input (attribute names, region names, values, aliases, globals) is escaped for the format before it is written into a .cali stream or a JSON document: in JSON it stands between quotes and only the text of numeric and boolean values stands unquoted; no quote is left open; and the escaping covers every character that is special in that format (quote, backslash and newline in JSON; comma, equals sign, backslash and newline in .cali) while leaving all other bytes alone, except control characters, which are dropped by design. The text of numeric values (inf, nan) is not covered.",
  ["inputs"], "all strings, through every output path of the .cali and JSON writers",
  "test data contains hardly any special characters and reaches a few of the output paths",
  ["src/common/util/format_util.h", "src/common/util/write_util.h", "src/reader/CaliWriter.cpp", "src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp"],
  [("write_cali_esc_string / write_json_esc_string", "src/common/util/format_util.h")])

json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")

p("C11", "Metadata nodes are immutable once visible and visible only when complete",
  "A metadata tree node of the measurement runtime that another thread can reach is fully initialised and never changes or moves afterwards; its string data lives in storage owned by the runtime, not by the caller. Looking up a value under a parent, alone or as part of a path, returns a node with that value, an existing one if there is one; removing and replacing values in a path yields the path with exactly those values removed or replaced. When the configured node storage is exhausted, operations return no node and the callers cope with that instead of following it.",
  ["schedules", "inputs"], "all interleavings of concurrent node creation and all key/value strings",
  "the window between publishing and completing a node is a few instructions wide",
  ["src/caliper/MetadataTree.cpp", "include/caliper/common/Node.h", "include/caliper/common/util/lockfree-tree.hpp", "src/reader/CaliperMetadataDB.cpp"],
  [("append with compare-exchange after construction", "include/caliper/common/util/lockfree-tree.hpp")])

p("C12", "A .cali stream defines every node before it is used",
  "In any .cali stream Caliper writes, the record of a metadata node appears after the records of its parent and of its attribute, each node at most once per stream, and before the first snapshot or globals record that refers to it, also when several threads write to the stream.",
  ["inputs", "schedules"], "all trees, records and interleavings of concurrent writes",
  "readers tolerate missing nodes silently, and tests look at small trees",
  ["src/reader/CaliWriter.cpp", "src/common/NodeBuffer.cpp", "src/common/OutputStream.cpp"],
  [("recursive node writer with written-node set", "src/reader/CaliWriter.cpp")])

p("C13", "Built-in configurations only refer to things that exist",
  "Every built-in measurement configuration and option names only services that are registered, service settings that these services declare, query functions and formatters that exist, and option categories that are offered to the controllers; every setting a service reads is one it declares. Selecting any built-in configuration with any of its options can therefore not fail or be silently ignored because of a dangling name.",
  ["configurations"], "all built-in configurations with all combinations of their options",
  "the tests start a fraction of the configurations with a fraction of their options",
  ["src/caliper/controllers", "src/caliper/builtin_configmanager.cpp", "src/services"],
  [("JSON configuration and option specs", "src/caliper/controllers/*.cpp"), ("service spec and settings tables", "src/services/*")])

p("C14", "Configuration and query errors are reported, never half-applied",
  "A query clause, a configuration string, a config or option spec, or an option value that does not follow its grammar (a required name, value, '=' or ')' is missing, an unknown keyword, function, option or argument key, a wrong number of arguments, text left over) sets the error status of the parser that reads it; the status is never taken back; a parsed query is not used, and no channel is created for a configuration string, before that status has been looked at, and a config whose check reported an error creates none.",
  ["inputs", "configurations"], "all configuration and query strings",
  "tests try a few malformed strings",
  ["src/caliper/ConfigManager.cpp", "src/reader/CalQLParser.cpp", "src/caliper/config_sanity_check.cpp", "src/common/util/parse_util.cpp"],
  [("set_error / m_error", "src/caliper/ConfigManager.cpp, src/reader/CalQLParser.cpp")])

p("C15", "The query language tables agree with their implementations",
  "Every aggregation, preprocessing and output function the query language accepts is implemented, with the number of arguments and the keywords it announces; every implemented one is accepted. The name under which a result is announced (for default column selection and across processes) is the one the implementation stores it under, and exactly the inclusive_* functions aggregate over the region hierarchy. The query parser and the record filter agree on conditions: NOT of a presence or equality condition selects exactly the records the condition rejects, NOT of an ordering condition the records with a value on the other side.",
  ["inputs", "configurations"], "all queries",
  "tests exercise a part of the functions in default formatting",
  ["src/reader/Aggregator.cpp", "src/reader/Preprocessor.cpp", "src/reader/FormatProcessor.cpp", "src/reader/CalQLParser.cpp", "src/reader/RecordSelector.cpp"],
  [("function signature tables", "src/reader/Aggregator.cpp, Preprocessor.cpp, FormatProcessor.cpp")])

p("C16", "Calls without a runtime, channel or attribute are safe",
  "Every function of the C interface, every annotation class, channel controller and wrapper that obtains the runtime itself may be called before initialisation, after finalisation, or with the id of a channel, attribute or node that does not exist: it never follows a missing runtime, channel, attribute or metadata node, and never hands one to a method of the runtime that would follow it. An id is resolved only to a node that exists. Pointers handed in by the caller (strings, buffers, configuration sets) are the caller's responsibility.",
  ["histories", "inputs"], "all call sequences and ids",
  "tests call the interface in the regular order with valid ids",
  ["src/caliper/cali.cpp", "src/caliper/Caliper.cpp", "src/interface/c_fortran"],
  [("validity test of the runtime handle / channel before use", "src/caliper/cali.cpp")])

p("C17", "Language bindings forward to the matching native operation",
  "Each function of the Fortran/C binding layer, of the Python module, of the typed C helpers and of the C++ annotation classes performs the operation of its name on the value and type it was given, and destructors and scope guards end exactly what their constructors began.",
  ["programs", "inputs"], "all calls of the binding layers with all values",
  "tests call a part of the typed variants",
  ["src/interface/c_fortran", "src/interface/python", "src/caliper/cali.cpp", "src/caliper/Annotation.cpp", "include/caliper/cali.h"],
  [("forwarding wrappers", "src/interface/c_fortran/wrap*.cpp")])

p("C18", "Services live exactly as long as their channel",
  "State a measurement service creates for a channel is released exactly once, when that channel finishes, and is not used afterwards; timers, hooks, files and other external resources a service acquires are given back by then, and two channels using the same service do not disturb each other's state.",
  ["histories", "configurations"], "all sequences of channel creation and deletion with any set of services",
  "tests rarely delete a channel and never create many",
  ["src/services"],
  [("register function connects callbacks and deletes the instance in finish_evt", "src/services/*/*.cpp")])

p("C19", "Flushing and finishing never lose or duplicate recorded data",
  "Flushing a channel announces the flush, delivers every stored record through post-processing, and announces its end, in this order; finishing flushes each channel that asks for it exactly once before its services are torn down, on every way out of the program. Clearing removes only data of the channel cleared.",
  ["histories", "crash_points"], "all sequences of flush, clear, close and exit",
  "tests flush once at exit",
  ["src/caliper/Caliper.cpp", "src/services/trace/Trace.cpp", "src/services/aggregate/Aggregate.cpp", "src/services/recorder/Recorder.cpp"],
  [("flush/flush_and_write/clear/finalize", "src/caliper/Caliper.cpp")])

p("C20", "Cross-process communication matches on all processes",
  "In every communication Caliper performs across processes, each send has a receive with the same element type, tag and partner, message lengths are known to the receiver beforehand, and collective operations are executed by every process in the same order regardless of rank or local failures, on a communicator that Caliper duplicates and frees itself.",
  ["schedules", "configurations", "fault_sequences"], "all numbers of processes and all process-local outcomes",
  "tests run up to four processes, all of them succeeding",
  ["src/caliper/aggregate_over_mpi.cpp", "src/caliper/OutputCommMpi.cpp", "src/caliper/collective_flush.cpp", "src/services/mpireport", "src/caliper/MpiChannelManager.cpp"],
  [("tree reduction and broadcast helpers", "src/caliper/aggregate_over_mpi.cpp, src/caliper/OutputCommMpi.cpp")])

p("C21", "Snapshots see the current content of the thread and process blackboards",
  "Every snapshot contains the visible thread- and process-scope values current when it is taken: the copy of process-wide data a thread keeps is refreshed whenever any process-wide value changed since it was made; every update and query of an attribute uses the blackboard, slot and visibility of the attribute's properties, and updates of shared blackboards are atomic.",
  ["schedules", "histories"], "all interleavings of updates and snapshots on all threads",
  "staleness needs an update between two specific reads, or an operation that forgets to mark the change",
  ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp", "src/caliper/Blackboard.h"],
  [("blackboard update counter and per-thread cached process snapshot", "src/caliper/Caliper.cpp, src/caliper/Blackboard.cpp")])

p("C22", "Malformed input cannot take the process down",
  "Malformed numbers, unknown or out-of-range ids and missing arguments in .cali streams, queries and configurations never lead to an uncaught exception, to an access outside the node table or the argument list, or to the use of a null node: reading completes with a result or a reported error.",
  ["inputs"], "all input byte sequences",
  "tests read well-formed files and a few malformed ones",
  ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/CalQLParser.cpp", "src/caliper/ConfigManager.cpp", "src/common/RuntimeConfig.cpp", "src/common/StringConverter.cpp", "src/common/Variant.cpp"],
  [("checked conversions", "src/common/StringConverter.cpp")])

p("C23", "Adapters for other tool interfaces open and close regions in pairs",
  "For every runtime event stream Caliper adapts (OpenMP tools interface, Kokkos tools interface, MPI function wrappers, I/O function wrappers, scoped annotations and loops), a begin notification opens regions that exactly the matching end notification closes, in the same attributes and in reverse order, on every path through the two notification functions that the same arguments and the same activation state of the tool can take; a notification that has no counterpart opens and closes nothing. Every wrapped MPI function leaves the region of the function it opened whatever the function returned, counts its nesting depth back, and every wrapped I/O function reports one begin and one end around the original call, whatever the original call returned. Annotation objects of the same name work on the same attribute, so a region begun through one can be ended through another. Out of scope: channels that are created, activated or deactivated between the begin and the end notification, and annotations whose value has another type than the attribute that exists already.",
  ["histories", "programs"], "all sequences of tool callbacks",
  "most adapters are exercised by no test or by one",
  ["src/services/ompt", "src/services/kokkos", "src/services/io", "src/services/mpiwrap", "include/caliper/cali_macros.h", "src/caliper/Annotation.cpp"],
  [("begin/end callback pairs", "src/services/*")])

# --- declined (not_applicable)
p("C30", "Reported metrics are numerically right",
  "The times, counts, sums, percentages, histograms and statistics Caliper reports equal the mathematical aggregates of what was measured.",
  ["inputs", "histories"], "all recorded values and queries",
  "tests compare a few numbers",
  ["src/reader/Aggregator.cpp", "src/services/aggregate/AggregationDB.cpp", "src/services/timer/Timer.cpp"],
  [("aggregation kernels", "src/reader/Aggregator.cpp")])
p("C31", "Cross-process aggregation equals serial aggregation",
  "Aggregating profiles across any number of processes yields the result of aggregating all records in one process, independent of process count and arrival order.",
  ["inputs", "configurations"], "all profiles and process counts", "tests use up to four processes",
  ["src/caliper/aggregate_over_mpi.cpp", "src/reader/Aggregator.cpp"], [("tree reduction", "src/caliper/aggregate_over_mpi.cpp")])
p("C32", "Writing and reading a stream reproduces the recorded data",
  "Reading a .cali stream yields exactly the metadata trees, records and globals that were written.",
  ["inputs"], "all recorded data", "tests round-trip small samples",
  ["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp"], [("writer and reader", "src/reader")])
p("C33", "Blackboard operations behave like a map",
  "After any sequence of set, exchange and delete operations on a blackboard, a lookup returns the last value set, snapshots contain exactly the live visible entries, and every change raises the update count; adding entries to a snapshot record and removing one keeps all other entries in order.",
  ["histories"], "all operation sequences", "tests run short sequences",
  ["src/caliper/Blackboard.cpp"], [("open-addressing hash table with backward-shift deletion", "src/caliper/Blackboard.cpp")])
p("C34", "Instrumentation overhead stays bounded",
  "The time an annotation takes stays bounded and does not grow with the run's length.",
  ["histories"], "all programs", "no performance tests exist", ["src/caliper/Caliper.cpp"], [("constant-time snapshot path", "src/caliper/Caliper.cpp")])

open(json_path, "w").write("".join(json.dumps(x) + "\n" for x in P))
