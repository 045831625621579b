#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that the list stays reviewable and in one place."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          observe_at=observe or [], hook_needed=hook))
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Hash map agrees with a dictionary across any history and memory failure", """
After any sequence of hash map operations, including ones during which memory allocation fails, size, lookups
and iteration agree with a plain dictionary: an operation that reports an error leaves every entry as it was, one that
reports success has taken full effect, and iteration visits every entry exactly once. This holds across growth,
colliding hashes, non-power-of-two initial capacities and failed growth, which must never make a set fail or lose an
entry; an initial capacity that no memory can hold is refused. Asking whether a key exists never sets or clears the error
message. Every block of memory taken is given back exactly once by the time the map is finalised, and memory is never
used after it was given back.""",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of set/unset/get/exists/iterate/size calls, every key and value size and hash collision pattern, with any allocation in any call failing",
  "The tests run a dozen fixed sequences with a well-behaved allocator; a history that needs a failed allocation inside a rehash, or an unset between colliding entries, is never built.",
  ["src/hash_map.c", "include/rcutils/types/hash_map.h"],
  [("set allocates the whole entry before touching a bucket", "src/hash_map.c rcutils_hash_map_set"),
   ("growth builds the new table aside and swaps it in", "src/hash_map.c hash_map_check_and_grow_map"),
   ("lookup compares the full hash, then the key", "src/hash_map.c hash_map_find")],
  [("map/capacity/size", "bucket table, its power-of-two size, number of entries", "src/hash_map.c rcutils_hash_map_impl_t")],
  ["return codes", "rcutils_hash_map_get/get_size/get_next_key_and_data", "allocator calls"])

p("C02", "String map agrees with a dictionary across any history and memory failure", """
After any sequence of string map operations, including ones during which memory allocation fails, size, capacity,
lookups and key iteration agree with a dictionary of strings: an operation that reports an error leaves all pairs as they
were (a copy between maps may stop part-way but every pair it did transfer is right), and one that reports success has
taken full effect. Changing the capacity, also down to or below the number of pairs and after keys were removed, never
loses or corrupts a pair, capacity is never below size, a set grows the map only when a new key finds it full, and a set
that may not resize fails with "not enough space" exactly then. A value pointer handed out stays valid and unchanged until
its own pair is updated or removed, or the map is cleared or finalised. Looking a key up never sets or clears the error
message. No memory is leaked, returned twice or used after it was returned.""",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of init/reserve/set/set_no_resize/unset/clear/get/getn/exists/iterate/copy/fini calls with any allocation in any call failing",
  "The string map test is not even built in this setup, and it samples a few short sequences; holes left by removals combined with shrinking, and failures of the n-th allocation, are not reached.",
  ["src/string_map.c", "include/rcutils/types/string_map.h"],
  [("reserve reallocates first and assigns only on success", "src/string_map.c rcutils_string_map_reserve"),
   ("set rolls the key back when the value cannot be stored", "src/string_map.c rcutils_string_map_set_no_resize"),
   ("slots are reused, size counts the occupied ones", "src/string_map.c __get_index_of_key_if_exists, __remove_key_and_value_at_index")],
  [("key_value_pairs/capacity/size", "slot array with holes", "src/string_map.c rcutils_string_map_impl_t")],
  ["return codes", "rcutils_string_map_get/get_next_key/get_size/get_capacity", "allocator calls"])

p("C03", "Array list agrees with a vector across any history and memory failure", """
After any sequence of array list operations, including ones during which memory allocation fails, the list holds
exactly the elements, in order, that a plain vector would: an operation that reports an error (bad index, failed
allocation) leaves the list as it was, and one that reports success has taken full effect. Elements keep their bytes
across growth and removal at any position, for any element size and initial capacity; a capacity that no memory can
hold is refused. No memory is leaked, returned
twice, or touched outside the list's own storage.""",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of add/set/remove/get/get_size calls, element sizes and initial capacities, with any allocation in any call failing",
  "The tests use one element size and a short fixed sequence; growth failing in the middle of a history, and removal at every position for every size, are not covered.",
  ["src/array_list.c", "include/rcutils/types/array_list.h"],
  [("growth by reallocation, committed only on success", "src/array_list.c rcutils_array_list_increase_capacity"),
   ("removal shifts the tail down", "src/array_list.c rcutils_array_list_remove")],
  [("list/size/capacity/data_size", "element storage", "src/array_list.c rcutils_array_list_impl_t")],
  ["return codes", "rcutils_array_list_get/get_size", "allocator calls"])

p("C04", "String array resize, compare and finalise are safe under memory failure", """
Resizing a string array keeps every surviving string, releases every removed one exactly once and makes every new slot
empty; if any allocation fails, or the new size is more than any memory can hold, the call reports it and the array is
exactly as before. Finalising releases all strings
and the array itself exactly once and leaves an empty array, and two arrays compare like their sequences of strings
(lexicographic, shorter first). Sorting with the library's comparison function and its sort routine puts the strings in
order with the empty slots last.""",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of init/fill/resize/compare/sort/fini calls with any allocation, or any injected internal failure, in any call",
  "Tests resize a handful of times; shrinking while the reallocation fails after removed entries were stashed aside is one fault at one position in one kind of history.",
  ["src/string_array.c", "src/qsort.c", "include/rcutils/types/string_array.h"],
  [("removed entries are stashed in a second array and reclaimed last", "src/string_array.c rcutils_string_array_resize"),
   ("entries and array are released, then cleared", "src/string_array.c rcutils_string_array_fini")],
  [("size/data", "number of slots and their strings", "include/rcutils/types/string_array.h")],
  ["return codes", "the public fields size and data", "allocator calls"])

p("C05", "Growable text buffer holds the right text and survives any failure", """
After any sequence of copy, append, print, resize and expand calls on a char array, successful calls leave exactly the
text the equivalent C string operation would give, NUL terminated and within the recorded length and capacity, whether
the buffer is owned, borrowed from the caller, or first used at capacity zero; a borrowed buffer is never freed,
reallocated or overrun. When an allocation or the formatting step fails the call reports an error, and the char array
can afterwards always be finalised (or used again once memory is available) without a leak, a double release or a use of
released memory; growing to a requested size is never less than that size.""",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of char array calls with owned and borrowed buffers of any capacity, any allocation failing, and any formatting call failing or changing its answer",
  "Existing tests check a failing formatter and a few failing allocations from one state each and do not finalise a buffer after every possible failure.",
  ["src/char_array.c", "include/rcutils/types/char_array.h", "src/allocator.c"],
  [("resize through a reallocation that frees on failure, or a fresh copy of a borrowed buffer", "src/char_array.c rcutils_char_array_resize"),
   ("two-pass printing with a cloned argument list", "src/char_array.c rcutils_char_array_vsprintf"),
   ("growth by at least half", "src/char_array.c rcutils_char_array_expand_as_needed")],
  [("buffer/owns_buffer/buffer_length/buffer_capacity", "text and who owns it", "include/rcutils/types/char_array.h")],
  ["return codes", "the public fields", "allocator calls"])

p("C06", "Byte array keeps its bytes and survives any failure", """
After any sequence of init, resize and finalise calls on a byte array the bytes below min(old, new) capacity survive a
successful resize, capacity is exactly what was asked for and length never exceeds capacity. When an allocation fails
the call reports it, and the array is either unchanged or empty and can always be finalised (or initialised again) without a leak, a double
release or a use of released memory.""",
  ["histories", "fault_sequences"],
  "every sequence of init/write/resize/fini calls with any allocation failing",
  "Tests fail one allocation in one state; the state left behind is not used again afterwards.",
  ["src/uint8_array.c", "include/rcutils/types/uint8_array.h", "src/allocator.c"],
  [("resize through a reallocation that frees on failure and clears the fields", "src/uint8_array.c rcutils_uint8_array_resize")],
  [("buffer/buffer_length/buffer_capacity", "bytes", "include/rcutils/types/uint8_array.h")],
  ["return codes", "the public fields", "allocator calls"])

p("C07", "String-producing helpers give the right string or a clean failure", """
Every helper that returns a newly allocated string or string list (duplicate, bounded duplicate, formatted string,
replace-all, split, split at the last delimiter, path joining, native path, home expansion, executable name) returns
exactly the documented result when nothing fails. If any allocation or formatting call inside it fails, it returns the
documented failure value (an empty array in the case of the splitters), having released everything it took and having
changed none of its inputs. A result that is returned is complete, never a truncated or partial one, up to the documented length limit of the helper.
Duplicating and formatting never set or clear an error message, successful or not.""",
  ["inputs", "fault_sequences"],
  "every input text, delimiter, pattern and limit; every allocation or vsnprintf call in the helper failing",
  "Tests check typical inputs and at most the first allocation failing; consecutive or trailing delimiters combined with the n-th allocation failing are not tried.",
  ["src/strdup.c", "src/format_string.c", "src/repl_str.c", "src/split.c", "src/filesystem.c", "src/process.c"],
  [("cleanup path releases the partly filled array", "src/split.c rcutils_split, rcutils_split_last"),
   ("position cache freed on every exit", "src/repl_str.c rcutils_repl_str"),
   ("two-pass formatting", "src/format_string.c rcutils_format_string_limit")],
  None, ["returned string or array", "error state", "allocator calls"])

p("C08", "Memory goes back exactly once to the allocator it came from", """
A call that is given an allocator takes all memory for its result and its internal state from that allocator, passes
that allocator's own state to every call, and gives each block back exactly once and to the same allocator; it does not use the
default heap behind the caller's back. The freeing reallocation helper gives the old block back when, and only when, the
new block cannot be had. Zeroing allocations are zeroed, and the default allocator reports failure as NULL for every
request that cannot be met.""",
  ["histories", "fault_sequences"],
  "every history over all allocator-taking APIs with several distinct allocators in use at once and any allocation failing",
  "Tests use one allocator at a time and count at most totals; freeing with the wrong allocator or the wrong state is invisible with the default allocator.",
  ["src/allocator.c", "include/rcutils/allocator.h"],
  [("allocator copied into each object", "src/*.c allocator members"),
   ("reallocf frees on failure", "src/allocator.c rcutils_reallocf")],
  None, ["calls made on each allocator: function, state pointer, block"])

p("C09", "Error state is private to each thread and survives truncation", """
For any interleaving of threads setting, reading and resetting errors, each thread only ever sees the error it set
itself last and since its last reset: whether an error is set, the message, the file, the line and the formatted
"message, at file:line" text. Messages and file names longer than the limits are cut to the limit and stay terminated;
the formatted text always ends with the true line number of the error. An error that replaces a different one that was never reset
is announced on stderr with the full text of both; otherwise setting, reading and resetting write nothing there. When no error is
set there is no error state (a null pointer). Appending the previous
error gives "new: old" if there was one, and just "new" if not; the new text is taken as it is, percent signs included. The
macros use the values their caller passes, whatever the caller's variables are called, and a null check tests the whole value. Setting, reading, overwriting and resetting need
no memory and leave other threads' errors untouched.""",
  ["schedules", "histories", "inputs"],
  "every interleaving of any number of threads' set/get/reset calls, every message and file-name length",
  "The error handling tests are not built here and use one thread; isolation under an adversarial interleaving is not tested at all.",
  ["src/error_handling.c", "src/error_handling_helpers.h", "include/rcutils/error_handling.h"],
  [("all state is thread-local", "src/error_handling.c gtls_* variables"),
   ("bounded copies", "src/error_handling_helpers.h __rcutils_copy_string, __rcutils_format_error_string")],
  [("gtls_rcutils_error_state and companions", "current error of this thread", "src/error_handling.c")],
  ["rcutils_error_is_set, rcutils_get_error_state, rcutils_get_error_string"])

p("C10", "Fault injection fires exactly once, on exactly the chosen call", """
After the fault injection counter is set to n >= 0, then across all threads and interleavings the first n fault points
pass, exactly one fault point (the n+1st) fails, and all later ones pass until the counter is set again; with a negative
counter no fault point ever fails. The counter reads back as the value set minus the number of fault points passed, and
never wraps or goes below the disabled value.""",
  ["schedules", "histories"],
  "every interleaving of any number of threads hitting fault points, any counter value",
  "Single-threaded tests cannot tell an atomic decrement from a racy one.",
  ["src/testing/fault_injection.c", "include/rcutils/testing/fault_injection.h"],
  [("compare-and-swap decrement loop", "src/testing/fault_injection.c _rcutils_fault_injection_maybe_fail")],
  [("g_rcutils_fault_injection_count", "fault points left before the failing one", "src/testing/fault_injection.c")],
  ["return value of each fault point", "rcutils_fault_injection_get_count"])

p("C11", "A logger's level is its nearest configured ancestor's, whatever happened", """
After any history of setting logger levels and the default level, including calls in which memory allocation fails, the
effective level of a logger is the level last successfully set on it, else on its nearest dotted ancestor with one, else
the default level; a message is enabled exactly when its severity is at least that level. Setting a level takes effect
for all descendants at once, setting it to "unset" restores inheritance, and a call that reports an error changes no
logger's effective level. Previously answered queries never make later answers stale. The name of a level, in upper or
lower case, parses to that level, and anything else is reported as an error. The first use of logging, by any of these functions,
sets it up with the default configuration.""",
  ["histories", "fault_sequences", "inputs"],
  "every history of set/get/effective/enabled calls over dotted name trees, with any allocation in any call failing",
  "The logging test is not built here; the hierarchy test sets a few levels once and never interleaves queries, changes and failures, which is where a cached answer goes stale.",
  ["src/logging.c", "include/rcutils/logging.h"],
  [("severity map with explicit and derived entries told apart by the low bit", "src/logging.c rcutils_logging_get_logger_effective_level, add_key_to_hash_map"),
   ("derived entries below a changed logger are dropped", "src/logging.c rcutils_logging_set_logger_level")],
  [("g_rcutils_logging_severities_map", "name to level, explicit or derived", "src/logging.c"),
   ("g_rcutils_logging_default_logger_level", "root level", "src/logging.c")],
  ["rcutils_logging_get_logger_level, _get_logger_effective_level, _logger_is_enabled_for"])

p("C12", "Logging starts, fails to start and restarts cleanly in any environment", """
Initialising logging succeeds or fails as the documented environment variables dictate: an invalid value of the
stream, buffering or colour variables or a failing allocation makes it report an error, after which it is not left half
configured, leaks nothing, and a later initialisation in a good environment works fully. After any number of
initialise/shutdown cycles the configuration in force (output stream, requested buffering, colour, output format, default level,
logger levels, output handler) is exactly what the latest environment says, with nothing left over from earlier cycles;
initialising when already initialised, and shutting down when not, do nothing. Automatic initialisation, which has no
result, tells a failure on the error stream and leaves no error set. Shutdown returns all memory the logging system
took.""",
  ["histories", "configurations", "fault_sequences"],
  "every sequence of environments, initialise/shutdown/log calls, with environment reads, allocations and stream set-up failing",
  "Each existing test process initialises logging once or twice in one environment.",
  ["src/logging.c", "src/env.c", "include/rcutils/logging.h"],
  [("environment parsed once at initialisation", "src/logging.c rcutils_logging_initialize_with_allocator, rcutils_get_env_var_zero_or_one"),
   ("format string compiled into handlers", "src/logging.c parse_and_create_handlers_list"),
   ("shutdown frees keys and map", "src/logging.c rcutils_logging_shutdown")],
  [("g_rcutils_logging_*", "process-wide logging configuration", "src/logging.c")],
  ["return codes", "the bytes written and the stream they go to", "allocator calls"])

p("C13", "Each enabled message is written as one whole line, on the right stream", """
Each enabled message logged through the console handler appears on the configured output stream exactly once, as one
complete line rendered from the output format, regardless of message length and of what other threads log at the same
time: lines of concurrent callers never mix, and each thread's lines appear in its program order. Tokens of the format
render the message, logger name, severity, file, function, line and time stamp of that call; unknown tokens and
everything else render literally, escapes as their character, and colours wrap the line only when enabled. If memory or
the stream fails, only the affected message may be missing or cut short: nothing is leaked or freed twice, no other line
is damaged, and logging keeps working afterwards.""",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every interleaving of concurrent log calls, every format string, message length, severity and simulated clock reading; allocation, formatting, clock and stream write failures",
  "The console handler test is not built here; the remaining tests replace the handler, and none runs two logging threads.",
  ["src/logging.c", "src/time.c", "src/char_array.c"],
  [("whole line composed in a local buffer, then one stream write", "src/logging.c rcutils_logging_console_output_handler"),
   ("format compiled to token handlers", "src/logging.c parse_and_create_handlers_list, expand_*")],
  [("g_handlers, g_rcutils_logging_output_format_string, g_output_stream", "compiled format and stream", "src/logging.c")],
  ["bytes written to the (simulated) stdout and stderr"])

p("C14", "Every enabled log call reaches the installed handler exactly once, intact", """
A log call whose severity is enabled for its logger calls the output handler installed at that time exactly once, on the
calling thread, with the given location, severity, name, format and arguments and with the system time read during the call; a call
that is not enabled calls no handler and evaluates no message. Installing a handler, or none, takes effect for the next
call. A log call in which nothing fails leaves the calling thread's error message as it was. If the clock or an allocation fails the call neither crashes nor leaks nor affects other threads' calls, and later calls are delivered again.""",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of log calls from several threads, every history of handler and level changes between them, clock and allocation failures",
  "Tests log a few messages from one thread with a working clock.",
  ["src/logging.c", "include/rcutils/logging.h", "resource/logging_macros.h.em"],
  [("level test, time stamp, handler call", "src/logging.c rcutils_log, rcutils_log_internal, vrcutils_log_internal")],
  [("g_rcutils_logging_output_handler", "installed handler", "src/logging.c")],
  ["arguments the handler receives, per call and thread"])

p("C15", "Conditional log macros emit exactly the calls their condition selects", """
Over any sequence of executions, a ONCE macro logs exactly the first time its level is enabled, a SKIPFIRST macro all
but the first enabled time, EXPRESSION and FUNCTION macros exactly when their condition holds, and the plain and NAMED
macros every enabled time, under the right logger name, severity and source location. A disabled severity neither logs
nor uses up the first time, and each macro call site keeps its own state. Conditions and message arguments are
evaluated at most once per execution, and message arguments not at all when nothing is logged.""",
  ["histories", "programs"],
  "every sequence of executions of every generated macro variant interleaved with level changes and conditions",
  "Tests execute each macro a handful of times at a fixed level, for some variants only.",
  ["resource/logging_macros.h.em", "rcutils/logging.py", "include/rcutils/logging.h"],
  [("generated macros with a per-site static", "resource/logging_macros.h.em RCUTILS_LOG_CONDITION_ONCE_BEFORE, _SKIPFIRST_BEFORE, _EXPRESSION_BEFORE, _FUNCTION_BEFORE"),
   ("feature tables", "rcutils/logging.py feature_combinations")],
  None, ["calls received by the output handler", "side effects of arguments and conditions"])

p("C16", "Throttled logging keeps its interval under any clock behaviour", """
A throttled log macro logs at its first execution whose time source reading is at least one interval after zero, and after that
exactly when the time source says at least the given interval has passed since it last logged, so that with a
forward-moving clock two messages of one call site are never closer than the interval; a clock that jumps backwards
suppresses messages only until it has caught up again. If the time source fails, the failure is reported and the message
is logged rather than lost. Combined with SKIPFIRST, the first message that passes the throttle is the one dropped.""",
  ["schedules", "histories", "fault_sequences"],
  "every sequence of simulated clock readings (advance, stall, jump in either direction, failure) and intervals across executions of every throttle variant",
  "The tests sleep for real and check a few milliseconds of one clock that never fails or jumps.",
  ["resource/logging_macros.h.em", "rcutils/logging.py", "src/time_unix.c"],
  [("per-site last-logged time compared with the time source", "resource/logging_macros.h.em RCUTILS_LOG_CONDITION_THROTTLE_BEFORE")],
  [("__rcutils_logging_last_logged", "time this call site last logged", "resource/logging_macros.h.em")],
  ["calls received by the output handler against the simulated clock"])

p("C17", "Clock readings are exact, from the right clock, and failures are reported", """
The system clock call returns exactly the wall clock's seconds and nanoseconds as nanoseconds, and the steady clock call
exactly the monotonic clock's, so steady readings never go backwards and never follow wall clock jumps. If the clock
cannot be read or reads negative the call reports an error and leaves the output untouched. Any reading at or after
the epoch converts to its documented nanosecond, second and date text, zero padded; a buffer that is too small gets a
terminated beginning of that text or a reported error, and is never overrun. The unit conversion macros are exact for
every value and integer type, whatever expression they are given.""",
  ["schedules", "fault_sequences", "inputs"],
  "every sequence of simulated clock readings, jumps, skews and failures, and the conversion of every reading into buffers of any size",
  "Tests run on the real clock, which does not jump, fail or show chosen sub-second values; the time test is not built here.",
  ["src/time_unix.c", "src/time.c", "include/rcutils/time.h"],
  [("clock_gettime with error and sign check", "src/time_unix.c rcutils_system_time_now, rcutils_steady_time_now"),
   ("integer formatting", "src/time.c")],
  None, ["returned readings and strings against the simulated clock"])

p("C18", "Directory size is the true total or a reported error", """
Calculating a directory's size, with or without recursion and down to any depth limit, returns the sum of the sizes of exactly the
regular files in scope, whatever the tree's shape and the order in which the system lists it. If opening, listing or
examining any part of the tree fails, or memory runs out, the call reports an error instead of a partial total; every
directory handle and block of memory it took is released in every case. Entries that other processes add, remove or
resize during the walk may be counted or missed (a directory that vanishes may be reported as an error) but cause no crash,
leak or hang, and everything untouched is counted. Symbolic links are neither followed nor counted.""",
  ["fault_sequences", "schedules", "inputs"],
  "every directory tree and listing order, every failing opendir/readdir/stat/allocation, every interleaving with another process changing the tree",
  "The filesystem test is not built here, and it uses a fixed tree on a healthy disk that nobody else changes.",
  ["src/filesystem.c", "include/rcutils/filesystem.h"],
  [("work list of directories with depth", "src/filesystem.c rcutils_calculate_directory_size_with_recursion"),
   ("per-entry stat", "src/filesystem.c check_and_calculate_size, rcutils_get_file_size")],
  None, ["return code and size", "open directory handles", "allocator calls"])

p("C19", "Directory iteration yields every entry once and always releases its handle", """
Iterating a directory yields every entry present throughout exactly once and stops after the last, in whatever order
the system lists them, with each reported name staying valid until the iterator is advanced or ended. A start that fails
(missing or unreadable directory, failed allocation) reports an error and holds nothing; ending an iteration at any
point, also twice-nested or half-way, releases the directory handle and all memory exactly once. A listing error ends
the iteration without a crash.""",
  ["fault_sequences", "histories"],
  "every directory content and order, every failing opendir/readdir/allocation, several iterators open at once and ended at any point",
  "Tests list one fixed directory to the end on a healthy disk.",
  ["src/filesystem.c", "include/rcutils/filesystem.h"],
  [("iterator wraps the directory stream", "src/filesystem.c rcutils_dir_iter_start, _next, _end")],
  None, ["entry names", "open directory handles", "allocator calls"])

p("C20", "Path queries and mkdir tell the truth about the file system", """
The existence, is-file, is-directory, readable, writable and readable-and-writable queries, the file size query and the current
directory query answer what the file system holds at that moment and answer false, zero or failure when it cannot be examined,
never anything stale. Creating a directory succeeds exactly when afterwards a directory is there, whether it was
created now, existed already, or was created at the same moment by another process; it fails on relative or empty paths,
on a missing parent, on a non-directory in the way and on system errors, without changing anything. None of these calls modifies
anything else.""",
  ["fault_sequences", "schedules", "inputs"],
  "every file system state, path and permission, every failing stat/mkdir/getcwd, races with another process creating or removing the same path",
  "Tests run as one process on a healthy disk; the race between mkdir and another creator, and failing system calls, do not occur.",
  ["src/filesystem.c", "include/rcutils/filesystem.h"],
  [("mkdir then re-check on EEXIST", "src/filesystem.c rcutils_mkdir"),
   ("stat and mode bits", "src/filesystem.c rcutils_is_directory, rcutils_is_file, rcutils_exists, rcutils_is_readable, rcutils_is_writable")],
  None, ["answers against the simulated disk", "changes made to the simulated disk"])

p("C21", "Shared library handles are never leaked, reused or left half loaded", """
Loading a shared library either gives a usable handle that knows its path, or reports an error and leaves nothing behind:
the library is not kept open, no memory is kept and the object can be used to load again. Over any history of loads,
symbol lookups, queries and unloads, each successful load is matched by exactly one release on unload, lookups return the
address the loader gives or report failure, for symbols of the loaded library only, and a failure in one call (or an
error someone else left pending in the loader) never makes a later good lookup fail. A failed unload is reported.""",
  ["histories", "fault_sequences"],
  "every sequence of load/get/has/unload/is_loaded calls over several handles, with every dlopen/dlinfo/dlsym/dlclose and allocation failing",
  "Tests load one library successfully; failure after the library was opened cannot be provoked with a real loader.",
  ["src/shared_library.c", "include/rcutils/shared_library.h"],
  [("cleanup on failure closes the library", "src/shared_library.c rcutils_load_shared_library"),
   ("unload closes and clears", "src/shared_library.c rcutils_unload_shared_library")],
  [("lib_pointer/library_path", "open handle and its path", "include/rcutils/shared_library.h")],
  ["return codes", "loader calls and reference counts", "allocator calls"])

p("C22", "Environment helpers report exactly what the environment holds", """
Reading an environment variable gives its current value, or the empty string when it is unset, and no error; the home
directory query gives the value of the platform's variable or NULL. Setting a variable takes full effect or reports an
error and changes nothing; setting with overwrite off never changes an existing variable, and setting to NULL unsets it. Invalid names and
failing system calls are reported as failures.""",
  ["histories", "fault_sequences"],
  "every history of set/overwrite/unset/get calls with setenv/unsetenv failing at any call",
  "Tests set a few variables in a process where the system calls never fail.",
  ["src/env.c", "include/rcutils/env.h"],
  [("setenv/unsetenv wrappers", "src/env.c rcutils_set_env_overwrite, rcutils_get_env")],
  None, ["return values against the simulated environment"])

p("C23", "Threads using different objects never affect each other", """
When several threads at the same time use the library on objects of their own (maps, lists, strings and buffers, path and split helpers,
time and error text, hashes, directory iterators), every thread gets the results it would get running alone, for every
interleaving, also when some of the threads' calls fail. No function keeps hidden state shared between threads that can change another thread's result.""",
  ["schedules", "fault_sequences"],
  "every interleaving of threads running arbitrary operation sequences on disjoint objects, with allocation failures in some of them",
  "No existing test runs two threads; a hidden static buffer is invisible to any single-threaded test.",
  ["src/*.c", "include/rcutils"],
  [("no shared mutable state outside logging and fault injection", "src/*.c"),
   ("thread-local error state", "src/error_handling.c")],
  None, ["results of every call compared with a single-threaded run of the same thread"])

p("C24", "Incremental hashing does not depend on chunking or interleaving", """
For any message and any way of cutting it into update calls (empty chunks, one byte, across block boundaries), and with any interleaving of
several hashes in progress on one or more threads, each SHA-256 context ends with the standard digest of its own message. Initialising a context
again starts a fresh hash whatever happened before.""",
  ["inputs", "histories", "schedules"],
  "every message, every chunking, every interleaving of contexts",
  "Tests hash a few fixed vectors in one or two updates.",
  ["src/sha256.c", "include/rcutils/sha256.h"],
  [("64-byte block buffer carried between updates", "src/sha256.c rcutils_sha256_update, _final")],
  [("data/datalen/bitlen", "pending bytes and total", "include/rcutils/sha256.h")],
  ["digest"])

p("C25", "Failures are reported, and every API recovers once faults stop", """
Whatever allocation, formatting, clock, file-system, loader or environment call fails inside an operation on a container, string
array, text or byte buffer, string helper, directory, shared library or the logging configuration, the operation either reports
failure by its return value or has had its whole effect: it never reports success with something missing. Once nothing fails any
more, repeating the failed operation on the same objects (several failures in a row included) gives the result, and leaves the
objects in the state, that it would have had if nothing had failed before; only the contents of a text or byte buffer whose memory
could not be had may be lost, and a library whose unloading failed has to be loaded again. The process is never aborted, blocked or left
looping, and nothing leaks. String map, text buffer, byte buffer, clock and time-to-text failures, and failures of logging
initialisation, also leave an error message for the calling thread. Where missing memory is the only cause and the operation documents
RCUTILS_RET_BAD_ALLOC, that is its answer.""",
  ["fault_sequences", "histories"],
  "every fault sequence inside any operation of any history followed by fault-free retries",
  "Tests check the failing call but do not go on using the object.",
  ["src/*.c"],
  [("error state set at the failing site", "include/rcutils/error_handling.h RCUTILS_SET_ERROR_MSG"),
   ("cleanup on failure", "src/*.c")],
  None, ["return codes", "error state", "retry of the same call"])

p("C26", "Search, comparison, option lookup, sorting, printing are exact on shared inputs", """
Finding a character from either end (with and without a length), case-insensitive comparison (with and without a length), the
locale-free alphanumeric test, command line option lookup (an option exists if an argument equals it, its value is the argument after
its first occurrence, and there is none at the end of the range), sorting with any consistent comparison (which may itself use the
library), bounded printing (the full length is returned, as much as fits is stored, terminated; invalid arguments and failed formatting
are reported), the text for errno (as much as fits, terminated) and the process id (also after a fork) give the result of their
definition for every input. They read no more than what they were given, never change their inputs even temporarily, and keep no
hidden state, so that threads sharing the same inputs all get the right results in every interleaving.""",
  ["inputs", "schedules", "fault_sequences"],
  "every input, every interleaving of threads sharing inputs, every failing formatting call",
  "Tests sample a few inputs of an unbounded space, from one thread, with readable memory around them.",
  ["src/find.c", "src/strcasecmp.c", "include/rcutils/isalnum_no_locale.h", "src/cmdline_parser.c", "src/snprintf.c", "src/qsort.c", "src/strerror.c",
   "src/process.c"],
  [("no state, no writes to the inputs", "src/find.c, src/strcasecmp.c, src/cmdline_parser.c"),
   ("argument checks before qsort and vsnprintf", "src/qsort.c, src/snprintf.c")],
  None, ["return values", "output buffers", "the shared inputs after every call"])

p("C27", "Log calls below the compile-time minimum severity do nothing at all", """
In a program, or a part of a program, built with a minimum severity, every log macro below it is as if it were not there: whatever the
logger levels, clocks, threads and failures, it evaluates none of its arguments (message arguments, logger name, condition, filter
function, time source), writes nothing, calls no handler, does not initialise logging and does not disturb the statements around it
(as the only statement of an if with an else, for example). The macros at or above the minimum, and those in parts of the same program
built with another minimum, keep behaving as specified.""",
  ["programs", "configurations", "histories", "schedules"],
  "every macro variant, minimum severity and mixture of them in one program, every history of level changes and failures",
  "Tests are compiled with one setting.",
  ["resource/logging_macros.h.em"],
  [("conditional macro definitions", "resource/logging_macros.h.em RCUTILS_LOG_MIN_SEVERITY")],
  None, ["evaluations of arguments", "handler calls", "calls to the system", "whether logging is initialised"])

p("C28", "Atomic helpers are indivisible in every interleaving", """
Each load, store, exchange, compare-exchange and fetch-add of rcutils/stdatomic_helper.h, through the macros on objects of any atomic
type and through the typed functions, takes effect at one instant between its call and its return: for every interleaving of threads
the results and the final values are those of some order of the operations that respects each thread's order and real time. No addition or
exchanged value is lost or seen twice; a compare-exchange succeeds exactly when the object holds the expected value and otherwise
leaves the object alone and gives back the value it saw.""",
  ["schedules", "inputs"],
  "every interleaving of every sequence of operations of several threads on shared objects, every value of each type",
  "The test runs one thread and a handful of values.",
  ["include/rcutils/stdatomic_helper.h"],
  [("C11 atomics behind macros and typed functions", "include/rcutils/stdatomic_helper.h")],
  None, ["returned values", "expected values given back", "final value of the object"])

p("C29", "What is documented to allocate no memory allocates none and works without any", """
The operations whose documentation says "Allocates Memory: No" make no call to any allocator and do not use the default heap, in every
history: setting, removing, getting and counting in an array list; unsetting, getting, existence, walking and counting in a hash map;
finalising both; reading the clocks and turning times into text; reading and setting the default logger level and the output handler,
reading logger levels, enabled tests, and log calls whose formatted output has no more than 1023 characters, once logging is
initialised; and shutting logging down. So once memory is exhausted for good all of them still give exact results, short messages are
still written whole, and everything can still be taken down; operations that do allocate fail without harming what is stored.""",
  ["histories", "fault_sequences"],
  "every history, with memory running out for good at any point of it",
  "Tests inject single allocation failures into functions that allocate; they do not look for allocations where there must be none.",
  ["src/array_list.c", "src/hash_map.c", "src/logging.c", "src/time.c", "src/time_unix.c", "include/rcutils/types/array_list.h", "include/rcutils/types/hash_map.h",
   "include/rcutils/logging.h", "include/rcutils/time.h"],
  [("stack buffers of 1024 bytes for the message and the line", "src/logging.c rcutils_logging_console_output_handler"),
   ("removal moves elements in place", "src/array_list.c rcutils_array_list_remove, src/hash_map.c rcutils_hash_map_unset")],
  None, ["allocator calls inside each operation", "results after memory ran out"])

p("C30", "What an operation refuses it leaves exactly as it was", """
A call that the interface does not allow is answered with the refusal documented for it and has no other effect, at any point of any
history and whatever else fails around it: a missing object, key, value, path, name, format, function or place for the result; an
allocator that is missing or lacks any of its functions; a container or library that is not set up, or not any more; a hash map, string
map or logging system that already is; an element index out of range; a key that
is not there where one is needed; a size, capacity or element size of zero where one is needed; a
string map without room; a relative path for a directory to create; a logger level that does not exist. RCUTILS_RET_INVALID_ARGUMENT,
RCUTILS_RET_NOT_INITIALIZED, RCUTILS_RET_STRING_MAP_INVALID, RCUTILS_RET_STRING_MAP_ALREADY_INIT and the other documented codes, or NULL,
false, -1 or SIZE_MAX, are given accordingly, with an error message where the function sets one.
Nothing is stored through any argument, no container, logger level, library, directory listing, file, environment variable or block of
memory is created, changed or released, and every object that was usable still is.""",
  ["inputs", "histories", "fault_sequences"],
  "every refused call at every point of every history, in every state of the objects it names, with memory or the system failing or not",
  "Tests try a few refused calls on fresh objects and look at the returned code only.",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/filesystem.c",
   "src/shared_library.c", "src/logging.c", "src/time.c", "src/env.c", "src/strdup.c", "src/split.c", "src/snprintf.c", "src/qsort.c"],
  [("argument checks come before the first effect", "RCUTILS_CHECK_ARGUMENT_FOR_NULL and RCUTILS_CHECK_ALLOCATOR at the start of each function"),
   ("validity of an allocator", "src/allocator.c rcutils_allocator_is_valid")],
  None, ["returned codes", "error message", "contents of every live object", "blocks of memory", "arguments", "simulated file system, loader and environment"])

p("C31", "Functions handed to the library may use the library", """
The functions a program hands to rcutils - an allocator's functions, the hash and comparison functions of a hash map or a sort, the log
output handler, and the filter, time source, condition and arguments of a log macro - may use rcutils themselves, on objects of their
own: containers, strings, splitting, paths, directories, environment, libraries, time, hashing, sorting and, where the operation that
called them is not one on logging's own data (setting or looking up levels), log messages through the console or another output handler,
format messages, and set and read logger levels; such uses may nest. Every operation then gives the result, leaves the
contents and logs the messages (text, name, severity, time, location, line on the console) it would if the functions did not use the library,
and every use in such a function gives its own right result and leaves no memory behind. No call
keeps anything in storage that another call, started before it ends, would overwrite.""",
  ["inputs", "histories", "interleavings", "fault_sequences"],
  "every operation that calls back, every use of the library at each of its callbacks, nested, with memory failing or not",
  "Tests hand over functions that do nothing but what they are for.",
  ["src/logging.c", "src/format_string.c", "src/repl_str.c", "src/split.c", "src/hash_map.c", "src/string_map.c", "src/array_list.c", "src/char_array.c",
   "src/filesystem.c", "src/shared_library.c", "src/process.c", "src/time.c", "src/qsort.c", "src/strdup.c", "src/error_handling.c", "include/rcutils/types/hash_map.h"],
  [("buffers are local to a call", "automatic arrays in src/logging.c, src/time.c, src/format_string.c, src/char_array.c"),
   ("one output per message", "src/logging.c rcutils_logging_console_output_handler")],
  None, ["results", "contents", "messages and console lines", "blocks of memory"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
