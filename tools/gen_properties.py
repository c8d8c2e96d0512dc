#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FIO = "src/vita/system/fileio.c"; PATH = "src/vita/system/path.c"; LOG = "src/vita/util/log.c"
DBG = "src/vita/util/debug.c"; SOCK = "src/vita/network/sockets.c"; MAL = "src/vita/allocator/mallocator.c"
CORE = "src/vita/core/core.c"; VEC = "src/vita/container/vec.c"; PL = "src/vita/container/plist.c"
STR = "src/vita/container/str.c"; COM = "src/vita/container/common.c"; DT = "src/vita/time/datetime.c"
ARG = "src/vita/util/argopt.c"; MATH = "src/vita/math/math.c"

p("C01", "A file write or append reports success exactly when its bytes are stored",
  "Every whole-file write and append call that returns true has left the file holding exactly the previous content (append) or nothing (write), followed by the formatted text and the newline if one was asked for. It returns false whenever opening, writing or closing the file failed at any point, and returns true whenever the system accepted every byte.",
  ["inputs", "fault_sequences"],
  "all write/append variants, payload sizes from empty to several stdio buffers, and every placement of open, write, short-write, disk-full and close failures",
  "Unit tests write a few short strings to a healthy disk; errors that surface only in the deferred flush at close, or after the first buffer, never occur there.",
  [FIO], [("result of formatted output and of close folded into the return value", "vt_file_writefc / vt_file_writef / vt_file_writefln")],
  ["return value", "file content"])
p("C02", "Failed or interrupted writes never damage earlier or unrelated data",
  "If an append fails or the process is killed at any point during it, the file still begins with all of its earlier bytes and whatever follows is a prefix of the bytes being appended. A failed or killed overwrite leaves either the old content or a prefix of the new content, and no write, append, read or log call ever changes, creates or removes any file other than the one it was given.",
  ["crash_points", "fault_sequences", "histories"],
  "every sequence of writes, appends, reads and log calls over several files with a kill or I/O error at any system call",
  "Tests cannot kill the process between two system calls, nor fail a chosen write.",
  [FIO, LOG], [("append mode opens without truncating", "vt_file_writefc open mode"), ("log file opened in append mode", "vt_log")],
  ["content of every simulated file after each call"])
p("C03", "Reading a file returns exactly its content or nothing",
  "A whole-file read that returns a string returns exactly the bytes the file held at some moment during the call, provided the file only grows meanwhile, with the matching length and a terminator after the last byte, also for empty files and files with arbitrary bytes. A read that hits an I/O error or finds fewer bytes than expected returns nothing, and a read of an unchanging, readable file always succeeds.",
  ["inputs", "fault_sequences", "schedules"],
  "file sizes from zero to several stdio buffers, short reads, read and open errors at any point, and other tasks appending to or truncating the file while it is read",
  "Tests read small files nobody else is changing, from a disk that never fails or returns partial reads.",
  [FIO, PATH], [("size query followed by exact-length read", "vt_file_read / vt_file_readb")], ["returned string"])
p("C04", "A bounded read fills at most the given buffer with the file's first bytes",
  "Reading into a caller's buffer either returns that buffer holding the first bytes of the file, as many as both the buffer and the file have, or returns nothing. It never writes outside the buffer, never touches the rest of a buffer larger than the file, and reports failure when fewer bytes could be read than were there.",
  ["inputs", "fault_sequences", "schedules"],
  "every combination of file size and buffer length around the boundaries, with short reads, errors and concurrent size changes",
  "The overrun appears only when the file grows or the sizes hit a boundary in the middle of the call.",
  [FIO], [("minimum of buffer length and file size", "vt_file_read_to_buffer")], ["buffer bytes and guard bytes"])
p("C05", "Every call releases the files, directory handles and memory it acquired",
  "When a file, path, listing, logging or debug-output call returns, successfully or not, every file and directory handle it opened has been closed exactly once, and it has closed nothing it did not open. All memory it allocated for itself has been released, leaving only what it returned to the caller, and freeing a returned listing releases all of it however far it was iterated over.",
  ["fault_sequences", "histories"],
  "all file, path, log and debug calls, with an error injected at any system call they make",
  "Leaks on error paths need the failure of one particular system call; tests exercise only the success paths.",
  [FIO, PATH, LOG, DBG], [("close on every exit path", "error branches of vt_file_read*, vt_path_dir_list*, vt_log, vt_debug_assert")],
  ["simulator's table of open handles and live allocations"])
p("C06", "Concurrent appends and log records are each stored once, whole and in order",
  "When several tasks append records or log messages shorter than 4 KiB to the same file at the same time, and the system accepts their writes, the file ends up containing each record exactly once, as one contiguous run of bytes, with the records of each task in the order it produced them. Nothing else is in the file apart from what was there before.",
  ["schedules", "inputs"],
  "every interleaving of two or more appending or logging tasks at system-call granularity",
  "Torn or lost records need a particular interleaving inside a call; tests are single threaded.",
  [FIO, LOG, DBG], [("record assembled in one stdio buffer and flushed by one append-mode write", "vt_file_writefc, vt_log")],
  ["content of the shared file"])
p("C07", "Each log record goes exactly once to its level's current destination",
  "A log call whose condition failed writes exactly one record, made of a timestamp, the level name, the asserted expression if there is one, source file and line, and the formatted message ended by a newline. It goes to the file named in the call, else to the file its level was last redirected to, else to standard error, and also to standard error if that file cannot be opened; a call whose condition holds writes nothing.",
  ["histories", "fault_sequences"],
  "every history of redirections and log calls over all levels, with log files becoming unopenable and writable again",
  "Routing depends on the whole redirection history and on open failures, of which tests sample one.",
  [LOG, DT], [("per-level destination table", "vt_log_redirect_level_output / vt_log_redirect_all_output"), ("destination choice", "vt_log")],
  ["content of every log file and of standard error"])
p("C08", "Fatal conditions always stop the program, others never do",
  "A log call at fatal or assert level whose condition failed, and every failed enforce-style check, ends the program with the failure exit status no matter which file, write or close operation fails on the way and where output is redirected. A log call at any other level, a plain check or note, debug output, and any call whose condition holds always returns to the caller.",
  ["fault_sequences", "histories"],
  "every level and check kind, redirected or not, with any I/O call on the way failing",
  "A process that must exit cannot be observed inside a unit test, and the failure path needs an unopenable log file.",
  [LOG, DBG], [("exit after the record is written", "vt_log, vt_debug_assert")], ["exit status", "return to caller"])
p("C09", "Timestamps show the local wall-clock time at which the call was made",
  "Every current-time query and every timestamp in log and debug records equals the local time, in the configured time zone, of some instant between the start and the end of the call. This holds for any clock value from 1970 to 9999, across clock jumps in either direction, day, month and year ends and daylight-saving changes.",
  ["histories", "configurations", "fault_sequences"],
  "clock values, clock jumps between and during calls, time zones with and without daylight saving",
  "Tests run at one moment in one time zone with a clock that does not jump.",
  [DT, LOG, DBG], [("single clock read converted to local time", "vt_datetime_get_now*")], ["returned fields and text"])
p("C10", "Directory creation reports success exactly when the directory exists",
  "Creating a directory, with or without its parents, returns true only if the whole path exists as a directory when it returns, and returns true whenever no system call failed and no component is something other than a directory. It creates nothing but the named path and its parents, with permissions that let their owner use them, works when other tasks create the same directories at the same time, and after a failure or kill a retry without faults completes it.",
  ["fault_sequences", "schedules", "crash_points", "inputs"],
  "relative, absolute, repeated- and trailing-separator paths over pre-existing trees, failing calls, kills, and concurrent creators",
  "Needs a failing or racing mkdir in the middle of a path.",
  [PATH, STR], [("component-by-component creation", "vt_path_mkdir_parents"), ("existing directory counts as success", "vt_path_mkdir")],
  ["simulated directory tree"])
p("C11", "Recursive deletion removes the whole tree and nothing else",
  "Recursively deleting a directory returns true only if the directory and everything in it is gone, and it never removes or changes anything outside that directory, in particular nothing that a symbolic link inside it points to. If it returns false or is killed, repeating it without faults removes the rest.",
  ["fault_sequences", "crash_points", "inputs"],
  "random trees with files, empty and nested directories, dot entries and symbolic links to inside, outside, parents and nowhere, with any call failing or a kill at any call",
  "Tests delete one small tree; following a link out of the tree or reporting a partial deletion as complete needs unusual trees or faults.",
  [PATH], [("children listed before their directory", "vt_path_dir_list_recurse"), ("links removed, not followed", "vt_path_rmdir_recurse")],
  ["simulated directory tree inside and outside the target"])
p("C12", "A directory listing is complete and exact or fails",
  "Listing a directory returns every entry exactly once, except the self and parent entries and, if asked, names starting with a dot; the recursive listing returns every file and directory below it with its path, contents before their directory, without entering symbolic links or, if asked, dot directories. A list given by the caller is emptied first by the plain listing and extended by the recursive one. If any part cannot be read, it returns nothing rather than a partial list.",
  ["inputs", "fault_sequences"],
  "random trees and directory orders, unreadable subdirectories, and open or read errors at any point of the walk",
  "An incomplete listing needs a directory read that fails half way.",
  [PATH, PL], [("end of directory told apart from read error", "vt_path_dir_list, vt_path_dir_list_recurse")], ["returned list against the simulated tree"])
p("C13", "Path queries and single-path changes tell the truth",
  "Existence, directory, file and size queries agree with the file system whenever the system answers, and answer no (or a negative size) when it does not. Removing a file, removing an empty directory and renaming return true exactly when that change took place, by exactly one of several tasks attempting it, and change nothing else.",
  ["histories", "fault_sequences", "schedules"],
  "random histories of creations, queries, removals and renames over files, directories and links, with failing calls",
  "Tests check a handful of paths on a healthy disk.",
  [PATH], [("query and operation per call", "vt_path_exists, vt_path_is_dir, vt_path_is_file, vt_path_get_file_size, vt_path_remove, vt_path_rmdir, vt_path_rename")],
  ["return values against the simulated file system"])
p("C14", "Running out of memory stops the program cleanly",
  "When any allocation or reallocation made by the library fails, the program prints an allocation failure message to standard error and ends with the failure exit status before doing anything else. It never continues with a missing block, crashes or returns to the caller, and files written before are intact.",
  ["fault_sequences", "histories"],
  "every allocation site reached by random workloads over containers, strings, allocator, file, path, and option parsing calls, failing at any allocation",
  "Tests cannot make a chosen allocation fail.",
  [CORE, MAL, VEC, PL, STR, COM, PATH], [("checked allocation wrappers that exit", "vt_malloc, vt_calloc, vt_realloc")], ["exit status", "standard error", "no further calls"])
p("C15", "Allocator statistics always account for every byte and call",
  "After any history of allocations, reallocations and frees through the tracking allocator, its counters equal the number of allocations, reallocations and frees made, the bytes currently allocated equal the sum of the sizes of the live blocks, and current plus freed bytes equal all bytes ever obtained. Growing, shrinking and same-size reallocations, which may or may not move the block, are all accounted for, and the printed table shows these numbers.",
  ["histories", "configurations"],
  "random histories of hundreds of operations over many live blocks with a block-moving or in-place system allocator that reuses addresses",
  "Drift shows only in long mixed histories and with moved or reused addresses.",
  [MAL], [("counters updated beside the object list", "vt_mallocator_alloc, vt_mallocator_realloc, vt_mallocator_free")], ["statistics"], [{"name":"stats","meaning":"call and byte counters","where":"struct VitaBaseAllocatorType"},{"name":"obj_list","meaning":"live blocks and their sizes","where":"struct VitaBaseAllocatorType"}])
p("C16", "The tracking allocator frees every block exactly once and keeps its bytes",
  "Blocks handed out by the tracking allocator are zero-initialised, at least as large as requested and do not overlap, and their bytes survive reallocation up to the smaller size. Freeing releases exactly the given block, and destroying the allocator releases every block still live exactly once together with the allocator's own memory.",
  ["histories", "configurations"],
  "random histories of allocate, reallocate, free and destroy over many allocators with moving or in-place reallocation and address reuse",
  "Double frees and lost blocks need the bookkeeping list to be removed from and grown in particular orders.",
  [MAL, CORE], [("swap-with-last removal and doubling growth of the object list", "vt_mallocator_obj_list_*")], ["simulated heap"])
p("C17", "A container uses only the allocator it was given",
  "A vector, pointer list or string created with an allocator takes all of its memory from that allocator and returns all of it there, for every operation on it including formatted insertion, duplication onto another allocator, splitting, joining, file reads and option parsing that take an allocator. Containers created without one never touch any allocator, and destroying a container leaves nothing of it allocated.",
  ["histories", "configurations"],
  "random histories of container operations over several user-supplied allocators and the default one at the same time",
  "Mixing up allocators is invisible with the pass-through allocator that tests use.",
  [COM, VEC, PL, STR, FIO, PATH, ARG], [("allocator pointer stored in the container", "vt_array_new, vt_array_free, reserve/resize/shrink paths")], ["per-allocator block tables"])
p("C18", "Vectors and pointer lists keep exactly their elements across reallocations",
  "After any history of operations a vector or pointer list holds exactly the elements that a plain sequence would hold, in the same order, whatever reallocation does to block addresses and however dirty fresh memory is. Length never exceeds capacity, reserving leaves room for that many further elements, shrinking leaves no spare room, forward and backward sliding visit every element once in order and then stop, and appending or inserting, also an element taken from the same vector, never loses or duplicates an element.",
  ["histories", "configurations"],
  "random histories over element sizes 1 to 16 and beyond, growth boundaries, removal strategies, shrink, resize and duplication, under an allocator that moves blocks or not and fills fresh memory",
  "Stale pointers and off-by-one growth survive when the system allocator happens to grow in place and to return clean memory.",
  [VEC, PL, COM], [("grow then shift then store", "vt_vec_insert, vt_vec_push_back, vt_plist_insert"), ("slider index", "vt_array_slide_front / vt_array_slide_back")], ["elements against a reference sequence"])
p("C19", "Strings keep exactly their text and terminator across edits and reallocations",
  "After any history of setting, appending, inserting, removing, replacing, stripping, splitting and joining, also with formatted text of any length, a string holds exactly the text a plain string would hold, its length equals that text's length and a terminator follows it. This holds whatever reallocation does to block addresses and however dirty fresh memory is, also when a part of the string is appended to it, searches and comparisons answer as for the plain text, an empty pattern or nothing between two marks makes no operation hang or stop the program, and no operation reads or writes outside the string's memory.",
  ["histories", "configurations"],
  "random edit histories around capacity boundaries with an allocator that moves blocks or not and fills fresh memory",
  "Dangling pointers into a moved buffer, and missing terminators, stay hidden when blocks grow in place and fresh memory is zero.",
  [STR], [("reserve, shift, copy, terminate", "vt_str_append_n, vt_str_insert, vt_str_replace, vt_str_vfmt_append")], ["text, length and terminator against a reference string"])
p("C20", "A TCP stream delivers the sent bytes intact, in order and exactly once",
  "The bytes received over a connection are, in order, exactly the bytes reported as sent on the other side: none lost, duplicated, changed or invented, and after an orderly close all of them arrive followed by an end indication of zero. Send and receive return the number of bytes actually moved, never more than asked, or their own negative status on failure; a receive changes no byte of the buffer beyond the count it returns, and nothing outside the buffer.",
  ["schedules", "fault_sequences", "inputs"],
  "interleavings of senders and receivers in both directions with partial sends and receives, delays, interrupted calls, resets and closes at any point",
  "Over loopback, sends and receives are nearly always complete and in lock step; the repository's socket tests are not run at all.",
  [SOCK], [("one send or receive per call, result passed through", "vt_socket_send, vt_socket_receive")], ["byte streams at both ends"])
p("C21", "A received UDP datagram is one that was sent, with its true sender",
  "Every datagram received equals one that was sent to that port, whole or cut to the receiver's buffer, and the address reported with it is the sender's, so that a reply to it reaches the sender. The number of bytes returned never exceeds the buffer, empty datagrams are not errors, and failures return the matching negative status without touching the address.",
  ["schedules", "fault_sequences", "inputs"],
  "several senders and receivers with loss, duplication, reordering, delay, interrupted calls and oversized datagrams",
  "Loopback neither loses nor reorders datagrams and tests use one sender.",
  [SOCK], [("address conversion on send and receive", "vt_socket_send_to, vt_socket_receive_from")], ["datagrams and addresses"])
p("C22", "Timed receives and polls wait as long as asked and no longer",
  "A timed receive with nothing arriving returns zero once its timeout in milliseconds has passed and not before, immediately for a zero timeout, and waits without limit for the maximum timeout value. If data, an end of stream or an error is there or arrives earlier it is returned at that moment, and a failed wait returns the poll status; polling reports exactly the sockets that became ready.",
  ["schedules", "fault_sequences", "histories"],
  "arrival times before, at and after the deadline, several sockets, resets and closes while waiting, interrupted waits, in simulated time",
  "Real-time tests cannot place an arrival exactly around a deadline and cannot wait out long timeouts.",
  [SOCK], [("poll before receive", "vt_socket_receive_timed, vt_socket_receive_timed_from, vt_socket_poll")], ["return value and simulated time"])
p("C23", "Starting a server or client either yields a working socket or leaves nothing",
  "Starting a server returns a socket bound to the requested port on all interfaces, listening if it is a stream socket, and starting a client returns a socket connected to the requested address. Every failure returns the negative status of the step that failed, and then no socket created by the call stays open; closing a socket reports whether it succeeded.",
  ["fault_sequences", "histories"],
  "repeated server, client, accept and close calls with each underlying call failing in any order, ports in use and released",
  "Needs failing system calls and a look at leaked descriptors.",
  [SOCK], [("step-by-step setup with early return", "vt_socket_startup_server, vt_socket_startup_client, vt_socket_accept_client")], ["open sockets and status"])
p("C24", "A vanished peer yields an error or end of stream, never a dead process",
  "When the other side closes, resets or crashes at any moment, sends on that connection eventually return the send error status, receives return the remaining data, zero or the receive error status, and the process keeps running. No signal raised by a broken connection terminates the program.",
  ["schedules", "crash_points", "fault_sequences"],
  "peer close, reset and crash at any point relative to sends and receives of several sizes on stream sockets",
  "Needs the peer to disappear between two particular calls.",
  [SOCK], [("broken-pipe signal suppressed on send", "vt_socket_send, vt_socket_send_to")], ["process survival and status"])
p("C25", "Debug output goes where it was directed and leaves standard error usable",
  "While enabled, every debug message and failed check is written exactly once, to the redirect file if one is set and can be opened and otherwise to standard error, and while disabled nothing is written. Standard error is never closed, and opening, writing or closing failures never stop later messages or change the caller's control flow.",
  ["histories", "fault_sequences"],
  "histories of redirect, disable, enable and output calls with the redirect file failing and recovering",
  "Needs the redirect file to become unopenable in the middle of a program and later output to be checked.",
  [DBG], [("fallback to standard error", "vt_debug_assert, vt_debug_printf")], ["content of redirect file and standard error"])
p("C26", "Random numbers stay in range and are reproducible from the starting clock",
  "For every wall-clock time at the first call, the integer generator stays within 0 to 32767, the bounded and uniform float generators within their bounds, and the normal generator returns finite numbers in bounded time. The whole sequence is determined by the clock at the first call; later clock jumps do not change it, and starting seconds less than eight years apart give different sequences.",
  ["configurations", "histories"],
  "clock values at the first call including zero, far future and values that are degenerate for the recurrence, clock jumps between calls, mixed call histories",
  "A test samples one clock value per run and cannot repeat it.",
  [MATH], [("generator seeded once from the clock", "vt_math_random_u64")], ["returned values"])
p("C27", "Option parsing stores every value intact in the memory it was given",
  "Parsing a command line stores each recognised option's value, complete and terminated, in the variable of that option, growing existing C strings and strings as needed with the given allocator, and leaves the other variables alone. Repeated options keep the last value, an unknown option or an unusable option table yields the error status, and all temporary memory is returned on every outcome.",
  ["inputs", "configurations", "histories"],
  "command lines of options in both spellings and both value styles, empty values and arguments, values shorter and longer than what was stored before, with default, tracking or custom allocators that move blocks and do not clear grown memory",
  "Overruns of a reallocated value depend on both old and new lengths and on the allocator.",
  [ARG, STR], [("grow-or-reuse of string values", "vt_argopt_assign_value")], ["option variables, heap"])
p("C28", "Environment-dependent paths are correct or reported as unavailable",
  "The current directory and the executable's path are returned complete and terminated, or nothing is returned when the system cannot provide them. A leading tilde is replaced by the home directory when it is set and left alone when it is not, all other text of the path is kept, and no state of the environment makes these calls stop the program.",
  ["configurations", "fault_sequences"],
  "home directory unset, empty, short and long, changing between calls, failing directory and link queries, long paths",
  "A test runs in one environment in which every query succeeds.",
  [PATH], [("system queries turned into strings", "vt_path_get_cwd, vt_path_get_this_exe_location, vt_path_expand_tilda")], ["returned strings"])
p("C29", "Times taken from the clock survive conversion, arithmetic and storage as text",
  "In every time zone and for every local time a clock can show up to the year 9999, converting a date-time to seconds and back, or writing it in any of the three text formats and reading it back, gives the same date and time, and the seconds are the instant the clock showed, or the other of the two in an hour that summer time repeats. Week day, day of the year, month and year lengths follow the calendar, adding a delta moves the wall-clock time by it, differences in seconds, minutes, hours and days are the elapsed time rounded towards zero, the broken-down difference agrees up to single-precision rounding, and a cut-off or damaged timestamp is rejected without reading beyond its end.",
  ["configurations", "histories", "inputs"],
  "clock values around leap days, centuries, year ends and summer-time switches, nine time zones changing between calls, clock jumps, chains of conversions and additions, timestamps cut at every position",
  "A test runs in one time zone on one day; a daylight-saving error shows only during half of the year and only in some zones.",
  [DT], [("conversion through the C library with unknown summer-time state", "vt_datetime_vdt_to_tm, vt_datetime_to_secs, vt_datetime_op"), ("leap-year rule", "vt_datetime_is_leap_year"), ("timestamp validation", "vt_datetime_is_valid_fmt")], ["returned fields, seconds and text"])
p("C30", "Paths put together and taken apart still name the same entries",
  "A path built from its parts, given one by one or as a list, is those parts with one separator between them and so reaches the entry they lead to. The base name of a path is its last part, popping a path leaves the path of the directory above and stops at the root or at the last part, and correcting separators changes nothing but backslashes. This holds in a new string, in an existing one of any size and in place, the result is always terminated, and nothing is left allocated.",
  ["inputs", "configurations", "histories"],
  "entries of random trees and missing ones, absolute and relative, names with odd characters and of up to hundreds of bytes, default and tracking allocators, heaps with dirty memory and moving reallocation",
  "Tests build one path of four short parts; sizes, reuse of strings and the root directory are not covered.",
  [PATH, STR], [("join with separator", "vt_path_build, vt_path_build_n, vt_str_join"), ("search for the last separator", "vt_path_basename, vt_path_pop")], ["returned strings and what they reach in the simulated file system"])
p("C31", "Pure helpers compute the mathematical result for every argument",
  "Greatest common divisor, least common multiple, clamping and rounding, number-to-text and text-to-number conversion, comparison functions, index-to-coordinate maps, spans over existing memory, linear search, status texts and version numbers give the mathematically defined result for every argument in their domain.",
  ["inputs"],
  "all arguments in the documented domain",
  "Tests sample a handful of arguments.",
  ["src/vita/math/math.c", "src/vita/core/conv.c", "src/vita/core/core.c", "src/vita/core/version.c", "src/vita/container/span.c", "src/vita/algorithm/comparison.c", "src/vita/algorithm/search.c"], [("functions of their arguments alone", "vt_math_gcd, vt_conv_str_to_i64, vt_span_from, vt_gsearch_linear, vt_cmp_i32")], ["returned values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
