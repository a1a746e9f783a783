#!/usr/bin/env python3
"""Writes ../properties.jsonl. One entry per property; edit here and re-run."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


p("C01", "Evaluating any program is memory-safe",
  "Evaluating any Rayfall expression - any builtin applied to arguments of any type, shape, emptiness, nullness and arity - ends with a value or an error value. It never reads or writes outside a live object, never uses a released object, and never stops the process.",
  ["inputs", "programs"], "every builtin, every combination of argument types and shapes, nested calls",
  "The tests call each builtin with a handful of well-typed arguments; the space of type/shape/arity combinations is far larger and errors there are silent memory corruption.",
  ["core/eval.c", "core/unary.c", "core/binary.c", "core/vary.c", "core/items.c", "core/compose.c", "core/math.c", "core/ops.c", "core/string.c"],
  [("type dispatch in every builtin", "core/*.c ray_* functions"), ("vm_stack_enough", "core/eval.c")],
  ["process exit, sanitizer reports, answer of every evaluation"])
p("C02", "Evaluation neither leaks nor over-releases objects",
  "Once an expression has been evaluated and its result dropped, repeating that evaluation leaves the number of live heap blocks unchanged, whether it succeeds or fails. Every block allocated for intermediate results is released exactly once.",
  ["inputs", "programs"], "every successful and every failing evaluation",
  "Tests compare results only; a missing or double release on one path is invisible to them.",
  ["core/rayforce.c", "core/heap.c", "core/eval.c", "core/query.c", "core/aggr.c", "core/index.c"],
  [("reference counting", "core/rayforce.c clone_obj/drop_obj"), ("query context cleanup", "core/query.c")],
  ["allocation balance at the heap interface"])
p("C03", "A failed evaluation leaves the interpreter intact",
  "After any evaluation that ends in an error - raised, type, arity, limit, at any depth and through any mixture of builtins, lambdas, iterators, queries and try - the interpreter's stacks are back to where they were and every later evaluation gives the same answer as in a fresh interpreter. try yields the handler's value exactly when its expression fails, and its expression's value otherwise.",
  ["programs", "histories"], "all sequences of failing and succeeding evaluations",
  "Tests mostly run each expression in a fresh state and check the error text only.",
  ["core/eval.c", "core/error.c", "core/lambda.c", "core/query.c", "core/iter.c"],
  [("vm_error_unwind", "core/eval.c"), ("try_obj", "core/eval.c"), ("remap_error/query_ctx_destroy", "core/query.c")],
  ["stack depths between evaluations", "answers of a fixed probe set"])
p("C04", "A lambda computes what its body says",
  "Calling a lambda gives the value (or error) its body gives when evaluated directly with the parameters bound to the arguments, for any body and at any call depth; conditionals, do blocks, let locals, nested lambdas and self calls included. Too deep a recursion gives a limit error, and calling with the wrong number of arguments gives an error.",
  ["programs", "inputs"], "all lambda bodies, argument values, call depths",
  "Bodies are compiled to bytecode and run by a different engine than top-level code; tests cover a few small bodies.",
  ["core/cc.c", "core/eval.c", "core/lambda.c", "core/cond.c"],
  [("cc_compile", "core/cc.c"), ("vm_eval", "core/eval.c")],
  ["value of the call against the value of the substituted body and an independent interpreter"])
p("C05", "Values are immutable through every alias",
  "No operation changes a value that another name, container, closure or pending result still refers to: after any history of set, let, alter, modify, insert, upsert, update and container operations, each name holds exactly what a copy-always interpreter would hold. In-place modification is visible only through the name it was applied to.",
  ["histories", "programs"], "all histories of aliasing and modifying operations",
  "Copy-on-write depends on reference counts along each path; tests modify one unshared value at a time.",
  ["core/rayforce.c", "core/update.c", "core/compose.c", "core/items.c"],
  [("cow_obj / copy_obj", "core/rayforce.c"), ("alter / modify", "core/update.c")],
  ["contents of every bound name after each step"])
p("C06", "Arithmetic is elementwise, typed and null-propagating",
  "For every pair of numeric or temporal operands of any types and any shapes (atom-atom, atom-vector, vector-atom, vector-vector, list), +, -, *, /, %, div, xbar, neg, round, floor and ceil give, element by element, the exact result for the documented result type, with a null in any input element giving a null. The shape and length of the operands, including lengths that are processed in parallel chunks, make no difference to any element.",
  ["inputs"], "all operand types, shapes, values (nulls, extremes, zero), lengths",
  "Each operator has a separate hand-expanded kernel per type pair and shape; tests sample a few.",
  ["core/math.c", "core/ops.c"], [("type-pair kernels", "core/math.c")],
  ["every element of every result"])
p("C07", "Comparison and logic are one consistent order",
  "For every pair of comparable operands, ==, !=, <, <=, >, >= agree element by element with a single total order per type (null first, symbols by name) for every shape, and the six are mutually consistent; and, or, not, nil? and within agree with their elementwise definition.",
  ["inputs"], "all operand types, shapes, values, lengths",
  "One kernel per operator, type pair and shape; tests sample a few.",
  ["core/cmp.c", "core/logic.c", "core/ops.c"], [("comparison kernels", "core/cmp.c")],
  ["every element of every result"])
p("C08", "Aggregates equal their definition over the non-null elements",
  "count, sum, avg, min, max, first, last, med and dev of a vector of any numeric or temporal type and any length equal their definition computed over its non-null elements, whatever the position of nulls and however the vector is split for parallel evaluation.",
  ["inputs", "configurations"], "all vectors, lengths around every chunk boundary, thread counts",
  "Tests use short vectors with few nulls; chunked and parallel code runs only for long ones.",
  ["core/math.c", "core/items.c", "core/aggr.c", "core/pool.c"], [("fold kernels", "core/math.c")],
  ["value of each aggregate"])
p("C09", "Sorting gives the stable ordered permutation",
  "iasc and idesc of any vector give a permutation of its indices that orders its elements (nulls first ascending) and keeps equal elements in their original order; asc, desc, rank, xasc and xdesc agree with it, rows of a table staying whole. This holds for every type, length and distribution of values.",
  ["inputs"], "all vectors and tables, all lengths and value distributions",
  "Different algorithms (counting, radix, merge, parallel) are chosen by type, range and length; tests reach few.",
  ["core/sort.c", "core/order.c"], [("radix / counting / merge sorts", "core/sort.c")],
  ["the index permutation and the sorted values"])
p("C10", "Set and search operations match their definition",
  "distinct, group, in, find, union, sect, except, where, filter, bin and binr on vectors of any type agree with their definition by value (first occurrence, order of the left operand, multiplicity), for any length, range of values and hash distribution.",
  ["inputs"], "all vectors, value ranges, key distributions",
  "Hash, range-scan and perfect-index variants are chosen by the data; tests reach small dense inputs.",
  ["core/index.c", "core/hash.c", "core/items.c", "core/filter.c"], [("index_* functions", "core/index.c"), ("open-addressing table", "core/hash.c")],
  ["the full result"])
p("C11", "Grouped queries equal per-group evaluation",
  "select with by over one or more key columns yields exactly one row per distinct key combination among the selected rows, in order of first appearance, and each aggregate in it equals that aggregate over exactly the rows of that group. This holds for every key type, number of groups and size, with or without where.",
  ["inputs", "configurations"], "all tables, key types and cardinalities, where clauses, thread counts",
  "The grouping strategy (range, hash, perfect, parallel partitions) depends on the data; tests use a few rows.",
  ["core/query.c", "core/index.c", "core/aggr.c", "core/group.h"], [("index_group*", "core/index.c"), ("aggr_*", "core/aggr.c")],
  ["the full result table"])
p("C12", "Filtering and projection select exactly the matching rows",
  "select returns, for each result column, its expression evaluated over exactly the rows for which where is true, in table order; take limits that result, and the source table is unchanged.",
  ["inputs", "programs"], "all tables, predicates, projections",
  "Filters are lazy maps materialised at different points; tests check a few expressions.",
  ["core/query.c", "core/filter.c", "core/items.c"], [("select_*", "core/query.c"), ("filter_map/filter_collect", "core/filter.c")],
  ["the full result table and the source"])
p("C13", "Insert, upsert and update change exactly what they name",
  "insert appends exactly the given rows; upsert replaces the rows whose key is present and appends the others in order; update sets exactly the named columns on exactly the matching rows (per group with by). All other rows, columns, types and lengths stay as they were, and a call that fails changes nothing.",
  ["inputs", "histories"], "all tables and sequences of modifications",
  "Tests apply one modification to a small table.",
  ["core/update.c"], [("ray_insert/ray_upsert/ray_update", "core/update.c")],
  ["full table contents after every step"])
p("C14", "Equi-joins match rows by key",
  "left-join keeps every left row in order, filled with the columns of the matching right row (null where none); inner-join keeps exactly the left rows that have a match. For any number and type of key columns.",
  ["inputs"], "all pairs of tables, key columns and types",
  "Tests join a few rows on one or two keys.",
  ["core/join.c", "core/index.c"], [("ray_left_join / ray_inner_join", "core/join.c")],
  ["the full result table"])
p("C15", "As-of and window joins pick the right time rows",
  "asof-join gives each left row the last right row with the same keys whose time is not after it (null where none); window-join1 gives each left row the aggregate over exactly the right rows with the same keys whose time lies in its closed window, window-join over these and the row prevailing at the lower bound (from the last row not after it, or the first row, to the last not after the upper bound), and nothing (null) where there is none.",
  ["inputs"], "all pairs of tables, windows, duplicate and out-of-range times",
  "Boundary rows and missing groups are rare in the tests' few rows.",
  ["core/join.c", "core/index.c", "core/aggr.c"], [("ray_asof_join / window_join", "core/join.c")],
  ["the full result table"])
p("C16", "Iterators equal the explicit loop",
  "map, pmap, map-left, map-right, fold, fold-left, fold-right, scan, scan-left, scan-right and apply over any callable and any collections give what the corresponding explicit loop of single calls gives, in order, with the same result type rules, and fail if one of the calls fails.",
  ["inputs", "programs"], "all callables, collections, thread counts",
  "Each iterator has separate code per callable kind and shape; tests use a few.",
  ["core/iter.c", "core/pool.c"], [("ray_map ... ray_scan_right", "core/iter.c")],
  ["the result against the loop"])
p("C17", "The number of threads never changes a result",
  "Evaluating the same expression on the same data with any number of worker threads gives the same value, up to the rounding of floating-point sums, and never fails where a single thread succeeds.",
  ["configurations", "schedules"], "all thread counts, sizes around the split thresholds, schedules",
  "Tests run with fixed small inputs that never reach the parallel paths.",
  ["core/pool.c", "core/math.c", "core/cmp.c", "core/index.c", "core/aggr.c", "core/sort.c", "core/filter.c"],
  [("pool_run / chunking", "core/pool.c")], ["values under 1..8 threads"])
p("C18", "Parallel evaluation is free of data races",
  "No two threads touch the same memory without synchronisation, one of them writing, while parallel operations, pmap, parallel CSV reading, symbol interning or start-up and shutdown of the worker pool run.",
  ["schedules"], "all interleavings of workers and the main thread",
  "A race shows in a test's result only by rare luck.",
  ["core/pool.c", "core/symbols.c", "core/heap.c", "core/rayforce.c", "core/mutex.c", "core/cond.c"],
  [("mpmc queue, run mutex, atomic reference counts", "core/pool.c"), ("rc_sync", "core/rayforce.c")],
  ["happens-before race detector"])
p("C19", "The allocator hands out disjoint blocks and loses none",
  "For any history of allocations, reallocations and frees from any of the interpreter's threads, live blocks never overlap, keep their contents, are at least as large as requested and suitably aligned; memory freed is available again, so a bounded live set needs bounded memory.",
  ["histories", "schedules"], "all allocation histories, sizes from 1 byte to several pools, borrow/merge between threads",
  "Tests exercise a few fixed allocation patterns on one thread.",
  ["core/heap.c", "core/heap.h", "core/freelist.c", "core/mmap.c"],
  [("buddy split and coalesce", "core/heap.c"), ("heap_borrow / heap_merge", "core/heap.c")],
  ["a shadow map of live blocks, pattern checks, memory statistics"])
p("C20", "The worker pool runs each task once and always finishes",
  "Every task given to the pool is run exactly once with its own arguments, its result is returned at its own position, whatever the number of tasks and the timing of the workers; each run, and the shutdown of the process, completes.",
  ["schedules", "histories"], "all task counts (including beyond the initial queue size), thread counts and worker timings",
  "Tests never run the pool directly; lost wake-ups and queue growth need specific timing.",
  ["core/pool.c", "core/thread.c", "core/cond.c"], [("mpmc_push/mpmc_pop, pool_prepare/pool_add_task/pool_run", "core/pool.c"), ("pool_destroy", "core/pool.c")],
  ["a log of task executions; completion of runs and of shutdown"])
p("C21", "Serialisation round-trips every value",
  "Deserialising the serialisation of any data value gives an equal value of the same type, nested structure, length and nulls, and the serialised size equals the number of bytes produced; the same holds through the file functions.",
  ["inputs"], "all values: all types, shapes, nesting, lengths",
  "Tests round-trip a few values per type.",
  ["core/serde.c", "core/binary.c"], [("ser_raw / de_raw / size_obj", "core/serde.c")],
  ["full dump before and after"])
p("C22", "Hostile bytes cannot corrupt the deserialiser",
  "Deserialising any byte sequence - truncated, corrupted, with inconsistent lengths or types - gives a value or an error. It never reads outside the buffer, never allocates out of proportion to it, never leaks and never stops the process.",
  ["inputs"], "all byte strings, in particular all truncations and corruptions of valid messages",
  "Tests deserialise only well-formed bytes.",
  ["core/serde.c", "core/ipc.c"], [("length checks in de_raw", "core/serde.c")],
  ["sanitizer reports, answers, allocation balance"])
p("C23", "The parser is total and reads literals exactly",
  "Parsing any byte string gives a program or a parse error, without reading outside the text, leaking or stopping the process; every literal of every type is read as exactly the value it denotes, or rejected when it cannot be represented.",
  ["inputs"], "all byte strings; all literals of all types",
  "Tests parse a small set of well-formed programs.",
  ["core/parse.c", "core/string.c", "core/util.c"], [("recursive descent parser", "core/parse.c")],
  ["sanitizer reports; the parsed value"])
p("C24", "Formatting then parsing gives the value back",
  "For every scalar, vector and string, and every list or dictionary of numbers, booleans and temporal values, that have a literal form, the complete text produced for it parses to an equal value of the same type (floating point up to the printed precision; 16- and 32-bit integers as the same number; symbols as their name; guids through the cast). A text cut to the display width is a marked beginning of the complete text, format puts the text of each argument in its place, and a table shows every cell in its row and column.",
  ["inputs"], "all values with a literal form",
  "Tests compare the text of a few values with a fixed expectation.",
  ["core/format.c", "core/parse.c", "core/timestamp.c", "core/date.c", "core/time.c"], [("obj_fmt", "core/format.c")],
  ["value of the re-read text"])
p("C25", "Tables saved to disk come back identical",
  "Reading a table written splayed (set-splayed/get-splayed, own or shared symbol file), parted (get-parted) or as one file (set/get) gives the same columns, types, rows and symbols, and a query on the disk-backed table that is accepted equals the same query on the in-memory table. Plain reads, counts, rows by index, row selection by a where clause on the partition key or on data columns of a splayed table are accepted; aggregates over partitioned columns of unsupported types may be refused with an error (partitioned strings always are), and aggregates over partitioned dates and times may be given as numbers. Writing symbol columns through an enumeration keeps every symbol. Not covered: sums of I16 (wrap in I16), first/last where the edge row is null.",
  ["inputs", "histories"], "all tables, partitions, queries",
  "Tests save a few small tables and query them in a few ways.",
  ["core/io.c", "core/items.c", "core/query.c", "core/aggr.c", "core/filter.c", "core/index.c"],
  [("splayed/parted storage", "core/io.c"), ("parted maps", "core/aggr.c, core/filter.c")],
  ["query answers on disk-backed and in-memory tables"])
p("C26", "CSV reading returns every cell of every row",
  "read-csv gives exactly one row per line in file order, every cell converted by the column's type (unparsable or empty cells null), for any file size, line length, separator, line ending and number of threads; a table written by write-csv is read back equal.",
  ["inputs", "configurations"], "all CSV texts, sizes, thread counts",
  "Tests read files of a few lines, which never reach the chunked parallel parser.",
  ["core/io.c", "core/string.c"], [("parse_csv_range / parallel chunks", "core/io.c")],
  ["full table contents"])
p("C27", "Symbol interning is a bijection",
  "Interning equal strings always gives the same symbol and different strings different ones, and a symbol's text never changes, for any set of strings, any number of them and any concurrent interning.",
  ["inputs", "schedules", "histories"], "all strings, counts beyond every resize, concurrent threads",
  "Tests intern a few names on one thread.",
  ["core/symbols.c", "core/string.c"], [("lock-free bucket chains / string pool", "core/symbols.c")],
  ["id to text and text to id maps over the whole history"])
p("C28", "IPC answers every request once, in order, to its sender",
  "A server answers each synchronous request of each connection exactly once, in the order sent, with the value of evaluating that request, however many clients there are, however the bytes are fragmented or batched, and however large the messages are; asynchronous messages are each evaluated once, in order, and get no answer.",
  ["histories", "schedules", "inputs"], "all client histories, fragmentations, message sizes",
  "Tests run one client with whole messages, if any.",
  ["core/ipc.c", "core/poll.c", "core/epoll.c", "core/sock.c", "core/serde.c"], [("selector rx/tx state machine", "core/epoll.c, core/poll.c"), ("ipc_read_header/ipc_read_msg", "core/ipc.c")],
  ["request/response log of each client"])
p("C29", "A hostile or dying peer cannot disturb the server",
  "Whatever bytes a peer sends and whenever it disconnects, the server stays up, stays memory-safe, releases the connection, and keeps serving other connections correctly.",
  ["fault_sequences", "histories", "inputs"], "all byte sequences and disconnection points",
  "Tests never misbehave on a connection.",
  ["core/ipc.c", "core/poll.c", "core/epoll.c", "core/sock.c", "core/serde.c"], [("handshake and header validation", "core/ipc.c"), ("poll_deregister", "core/epoll.c")],
  ["server liveness, sanitizer reports, descriptor and block counts, answers to a well-behaved client"])
p("C30", "Temporal values follow the calendar exactly",
  "Dates, times and timestamps convert to and from their fields, text, numbers and each other exactly as the proleptic Gregorian calendar says, over the whole supported range; arithmetic and truncation on them agree with day, millisecond and nanosecond counts.",
  ["inputs"], "all dates and times in range",
  "Tests check a handful of dates.",
  ["core/date.c", "core/time.c", "core/timestamp.c", "core/cmp.c", "core/math.c"], [("conversion functions", "core/timestamp.c, core/date.c")],
  ["text and numeric value of each conversion"])
p("C31", "Casts preserve every representable value and nulls",
  "Casting an atom or vector between types gives, element by element, the same value wherever the target type can represent it, null for null, and casting an atom equals casting the one-element vector; symbols and strings convert losslessly both ways.",
  ["inputs"], "all source and target types, values, shapes",
  "Tests cast a few values.",
  ["core/rayforce.c", "core/misc.c", "core/string.c"], [("cast_obj", "core/rayforce.c")],
  ["every element of every cast"])
p("C32", "Structural operations match their list definition",
  "concat, raze, enlist, take, reverse, at, first, last, remove, til, split, like, key, value, dict and table operations on any vectors, strings, lists and dictionaries give what the same operation on an ordinary list of the elements gives, with documented fill and out-of-range rules.",
  ["inputs"], "all collections, indices, lengths",
  "Each operation has per-type and per-shape code; tests sample a few.",
  ["core/compose.c", "core/items.c", "core/string.c", "core/rayforce.c"], [("ray_concat / ray_take / ray_at ...", "core/items.c, core/compose.c")],
  ["the full result"])
p("C33", "Failing or damaged files give errors, not corruption",
  "When a file read or write fails at any point, or a stored file is missing, truncated or altered, the operation gives an error or the data actually present; the process survives, leaks no descriptor or memory, and the interpreter keeps answering correctly.",
  ["fault_sequences", "inputs"], "every failing system call, every truncation point",
  "Tests use only healthy files.",
  ["core/io.c", "core/fs.c", "core/mmap.c", "core/serde.c", "core/dynlib.c"], [("fs_* and mmap wrappers", "core/fs.c, core/mmap.c")],
  ["answers and process state under injected faults"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
