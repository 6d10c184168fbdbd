#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable in review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "A property tree saved to a prop file is loaded back unchanged",
 "Saving a property tree to a prop file and loading that file gives back an equal tree: the same labels in the same order (duplicates included), the same values and the same nesting, in the readable and in the compact layout, and also when the file replaces a longer one. "
 "This holds however the operating system splits or interrupts the reads and writes (short transfers, EINTR) and however the saves and loads of several tasks working on different files interleave. "
 "It covers every label and value of non-NUL bytes that does not begin or end with whitespace, labels starting with a letter, including operators, quotes, comment signs, control characters, backslashes and UTF-8, and nodes that have both a value and children.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every tree in that domain, every order of saves and loads over several files, every split of the I/O into short or interrupted transfers, every interleaving of the tasks at system calls",
 "prop_node_test saves one tree once, is not built on this platform, and never sees a short or interrupted transfer or a second file.",
 ["flut/prop_node_tools.cpp", "flut/prop_node.cpp", "flut/char_stream.cpp", "flut/string_tools.cpp", "flut/filesystem.cpp"],
 [("writer: quoting of labels and values, layout", "flut/prop_node_tools.cpp: write_prop_none, save_prop"),
  ("reader: tokens, comments, nesting", "flut/prop_node_tools.cpp: get_prop_token, read_prop_node, parse_prop, load_prop"),
  ("quoting and escapes", "flut/string_tools.cpp: needs_quotes, quoted, encode_char, decode_char")],
 observe=["tree returned by load_prop compared with the tree given to save_prop"])

prop("C02", "A save that reports success has stored the complete file",
 "When saving a prop file reports success, the file holds the complete tree and loads back equal; when the disk is full, a write, the final flush or the close fails, or the file cannot be created, the save reports failure. "
 "Without such a fault it reports success, and once faults stop, repeating the save succeeds and stores the complete tree.",
 ["fault_sequences", "inputs", "histories"],
 "every tree, every position of an open, write or close failure or of the disk running full, every sequence of faulty and clean saves to the same and other files",
 "No test makes a write fail; the only test ignores the result of the save.",
 ["flut/prop_node_tools.cpp", "flut/prop_node_tools.hpp"],
 [("result of the save", "flut/prop_node_tools.cpp: save_prop")],
 observe=["return value of save_prop against the bytes on the simulated disk"])

prop("C03", "Loading a file returns its whole content or reports an error",
 "Loading text, a character stream, a prop, XML or INI file either gives exactly what the complete file contains or reports an error; it never quietly returns part of it when opening, reading or allocating memory fails at any point, and it is unaffected by short and interrupted reads. "
 "A caller who passes an error object gets every failure (including malformed content of prop and XML files) through that object and no exception, except that running out of memory may also throw; a caller who passes none gets an exception. "
 "The error object describes the latest call only, so repeating the call with the same object once the fault is gone succeeds.",
 ["fault_sequences", "inputs", "histories"],
 "every file content, every loader, every position of an open, read or allocation failure, every sequence of failing and clean loads with the same error object",
 "Tests only load one file that exists and reads without error.",
 ["flut/filesystem.cpp", "flut/char_stream.cpp", "flut/prop_node_tools.cpp", "flut/system/error_code.hpp"],
 [("whole-file read and error report", "flut/filesystem.cpp: load_string"), ("error object", "flut/system/error_code.hpp: try_set_error"),
  ("error path of the loaders", "flut/prop_node_tools.cpp: load_xml, load_prop, parse_prop, load_ini"), ("stream from file", "flut/char_stream.cpp: load_char_stream")],
 observe=["result, exception and error object of each load"])

prop("C04", "A file copy that reports success is byte-identical, and a refused one harmless",
 "When copying one file to another reports success, the destination is byte-identical to the source, for any content including empty and binary; if reading or writing fails part-way it reports failure. "
 "If the source cannot be opened, or overwriting is off and the destination exists, the copy reports failure and the destination is left exactly as it was (not created, not truncated), and the source is never modified, not even by copying it onto itself. "
 "Without a fault a permitted copy succeeds, and it succeeds again once faults stop.",
 ["fault_sequences", "inputs", "histories"],
 "every pair of different files, every content, every position of an open, read, write or close failure or full disk, every history of copies",
 "No test copies a file, and filesystem.cpp is not part of the tested build.",
 ["flut/filesystem.cpp"],
 [("copy", "flut/filesystem.cpp: copy_file"), ("existence test", "flut/filesystem.cpp: exists, file_exists")],
 observe=["return value against source and destination bytes on the simulated disk"])

prop("C05", "Loading a damaged file always ends, with a tree or a reported error",
 "After a crash in the middle of a save, or damage to the stored bytes (truncation at any byte, flipped bytes, zeroed, lost or repeated blocks), loading the prop, XML or INI file (nested at most a thousand levels deep) still ends, within work and memory bounded by the file size, and either returns a tree or reports an error; it never hangs, exhausts memory or accesses memory out of bounds. "
 "A prop file cut off at any byte either is reported as an error or keeps every top-level entry that was completely stored before the cut, and an XML file cut off before the end of its root element is never accepted as if it had content.",
 ["crash_points", "fault_sequences", "inputs"],
 "every tree, every crash point of the save, every truncation point and every combination of damaged bytes",
 "Tests only load intact files.",
 ["flut/prop_node_tools.cpp", "flut/char_stream.cpp", "flut/char_stream.hpp", "flut/string_tools.cpp", "contrib/rapidxml-1.13/rapidxml.hpp"],
 [("tokenizer end-of-buffer handling", "flut/char_stream.cpp: get_token"), ("escape decoding at the end of the buffer", "flut/string_tools.cpp: decode_char"),
  ("XML parse errors", "flut/prop_node_tools.cpp: load_xml")],
 observe=["result of the load after the damage; allocation and step budget; address sanitizer"])

prop("C06", "XML and INI files are loaded back as they were saved",
 "A property tree saved as XML (one root; names valid in XML; every node a value or children) or as INI (plain entries first, then groups of entries; unique names, nothing empty, each on one line) is loaded back equal, whatever order files are saved and replaced in and however reads and writes are split or interrupted. "
 "Values keep XML markup characters, quotes and UTF-8; in INI files comment lines starting with '#' and blank lines have no effect on any entry.",
 ["inputs", "fault_sequences", "histories", "schedules"],
 "every tree in those domains, every placement of comments and blank lines, every history of saves and loads, every split of the I/O",
 "No test saves or loads XML or INI.",
 ["flut/prop_node_tools.cpp", "contrib/rapidxml-1.13/rapidxml_print.hpp"],
 [("XML", "flut/prop_node_tools.cpp: save_xml, load_xml, get_rapid_xml_node, set_rapid_xml_node"), ("INI", "flut/prop_node_tools.cpp: save_ini, load_ini")],
 observe=["tree returned by the loader compared with the tree saved"])

prop("C07", "Loading with includes expands every include, or reports an error",
 "Loading a file with includes gives the tree in which every include entry, at any depth and in any file reached, is replaced in place by the included file's root entry, or, when merging is requested, removed and its root's children appended to the including node unless a child of that name is already there; include paths are relative to the file that contains them. "
 "If an included file is missing, cannot be read or does not have exactly one root, or the includes form a cycle, the load reports an error, within a bounded number of file loads, instead of returning a partly expanded tree or running on. "
 "Once the fault is gone, loading again gives the complete expansion.",
 ["inputs", "fault_sequences", "histories", "configurations"],
 "every include graph (chains, diamonds, cycles, nested folders, merges), every position of an open or read failure or of a file appearing, changing or disappearing between loads",
 "No test uses includes.",
 ["flut/prop_node_tools.cpp", "flut/system/path.cpp"],
 [("expansion", "flut/prop_node_tools.cpp: resolve_include_files, load_file_with_include, merge_prop_nodes"), ("level limit", "flut/prop_node_tools.cpp: load_file_with_include"),
  ("relative paths", "flut/system/path.cpp: parent_path, operator/")],
 observe=["tree or error of load_file_with_include, number of files opened"])

prop("C08", "Creating directories reports success to exactly one of the callers racing",
 "Creating a directory path succeeds exactly when this call created the last directory: then it and all its parents exist, and of all callers (tasks or processes) racing to create the same path exactly one is told it succeeded. "
 "A call that reports failure created at most parent directories, and without a fault or a file in the way the whole path exists when the call returns, whichever caller created each part. "
 "Nothing that existed is removed or replaced, and once faults stop a repeated call creates what is missing.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of several callers at system calls, overlapping and nested paths, every position of a failing system call, files in the way",
 "No test creates directories; a test cannot choose the interleaving of racing callers.",
 ["flut/filesystem.cpp"],
 [("recursive creation", "flut/filesystem.cpp: create_directories"), ("existence test", "flut/filesystem.cpp: folder_exists")],
 observe=["return values against the simulated directory tree and its creation log"])

prop("C09", "A unique folder is new and belongs to one caller only",
 "A call for a unique folder returns a directory that did not exist before and that this very call created, so that callers racing for the same name never get the same folder and never one that someone else made; without interference it is the requested name if that is free and otherwise the name with the lowest free number. "
 "If no folder can be created the call reports an error after the allowed number of attempts and returns no folder.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of several callers and of outsiders creating and removing folders and files, every position of a failing system call, every attempt limit",
 "No test requests a unique folder; races need a controlled schedule.",
 ["flut/filesystem.cpp"],
 [("attempt loop with exclusive creation", "flut/filesystem.cpp: create_unique_folder"), ("exclusive creation", "flut/filesystem.cpp: create_directories")],
 observe=["returned path against the creation log of the simulated file system"])

prop("C10", "File queries and removal tell the truth about the file system",
 "At the moment of the query, if the operating system can answer it: exists is true exactly for an existing entry of any kind, folder_exists exactly for a directory (not for a socket, device or file), and file_exists exactly for an entry that is not a directory and can be opened for reading. "
 "Removing a file reports success exactly when this call removed it, so of several racing removers exactly one succeeds, and a removal that fails leaves the file in place. "
 "After changing to an existing directory the current path names that directory, and relative paths resolve in it.",
 ["schedules", "histories", "fault_sequences"],
 "every history of creations, replacements, removals and queries by several tasks, every interleaving at system calls, every kind of directory entry, failing system calls",
 "No test queries the file system or removes a file.",
 ["flut/filesystem.cpp", "flut/system_tools.cpp"],
 [("queries", "flut/filesystem.cpp: exists, file_exists, folder_exists"), ("removal", "flut/system_tools.cpp: remove"), ("current directory", "flut/filesystem.cpp: current_path")],
 observe=["results against the state of the simulated file system at the linearization point"])

prop("C11", "Every log message reaches exactly the sinks that accept its level, once",
 "At any point of any history of sinks being created, destroyed, added (also twice), removed and given new levels, a logged message is delivered exactly once, complete and in logging order, to every registered sink whose level admits it and to no other; formatted messages of up to 1000 characters included. "
 "A sink whose output fails does not keep a message from any other sink, changing the global level changes every registered sink's level, and the reported global level is the lowest level of the registered sinks (the critical level if none is lower).",
 ["histories", "fault_sequences"],
 "every history of sink and level changes and messages through every logging function, every failure of a sink's output stream or of an allocation while registering a sink",
 "The test program uses one sink at one level and never removes it.",
 ["flut/system/log.cpp", "flut/system/log.hpp", "flut/system/log_sink.hpp"],
 [("dispatch", "flut/system/log.cpp: log_string, log_vstring"), ("registration", "flut/system/log.cpp: add_sink, remove_sink; flut/system/log_sink.hpp: sink"), ("levels", "flut/system/log.cpp: get_global_log_level, set_global_log_level, test_log_level")],
 state=[("registered sinks", "who receives messages", "flut/system/log.cpp: global_sinks"), ("lowest level", "early-out for messages nobody accepts", "flut/system/log.cpp: lowest_log_level")],
 observe=["messages received by each sink, compared with a reference model"])

prop("C12", "A file log survives crashes and disk errors as a clean prefix",
 "At every instant the log file consists of the messages its sink accepted, one per line, complete and in order, except that the last one may be cut off; so a crash at any point loses nothing whose log call had returned while the sink reported itself good. "
 "When the disk is full or a write fails, the sink reports itself not good, nothing is ever appended after the damaged spot, and logging to other sinks and the program itself go on unharmed.",
 ["crash_points", "fault_sequences", "histories"],
 "every history of messages and levels, every crash point, every position of an open or write failure or full disk, every split of the writes",
 "No test logs to a file.",
 ["flut/system/log_sink.hpp", "flut/system/log.cpp"],
 [("flush after every message, stop after failure", "flut/system/log_sink.hpp: file_sink")],
 observe=["bytes of the log file after each step and at each crash point"])

prop("C13", "A timer measures true elapsed time, whatever the wall clock does",
 "Every reading of a timer is the time really elapsed since its construction or last reset: never negative, never decreasing between resets, and the same in every unit (up to that unit's resolution). "
 "Setting the system's wall clock forwards or backwards does not affect it, and timers do not affect each other.",
 ["schedules", "fault_sequences", "histories"],
 "every history of starts, resets and readings of several timers, every sequence of time advances and of wall-clock steps and skews between them",
 "timer_test only measures how long a reading takes, on a machine whose clock is not being set.",
 ["flut/timer.hpp", "flut/timer.cpp"],
 [("clock choice and unit conversion", "flut/timer.hpp: timer")],
 observe=["readings compared with the simulated elapsed time"])

prop("C14", "A stopwatch accounts for every moment exactly once",
 "The measures a stopwatch reports add up, together with its own reported overhead, to the time elapsed since its first measure was started; each measure is the time spent since the previous one, measures with the same name are summed into one entry, and entries appear in order of first use. "
 "Wall-clock changes do not affect it.",
 ["histories", "fault_sequences"],
 "every sequence of named measures and reports, every sequence of time advances (also during the bookkeeping itself) and wall-clock steps",
 "The stopwatch is only used to print timings; nothing is compared.",
 ["flut/stopwatch.cpp", "flut/stopwatch.hpp", "flut/timer.hpp"],
 [("accounting", "flut/stopwatch.cpp: add_measure, get_report")],
 state=[("epoch, measures, internal measure", "time already attributed", "flut/stopwatch.hpp")],
 observe=["values of get_report against the simulated clock"])

prop("C15", "The profiler attributes time to the section that spent it",
 "For any properly nested use of profiler sections (loops, recursion, same names under different parents), each section's total is the time between its starts and ends summed over all passes, the root's total is the time since the reset, and the report lists every section under its parent, siblings by decreasing total, with totals and percentages matching. "
 "Starting or ending a section or reporting from another thread than the profiler's own is refused and changes nothing; wall-clock changes do not affect it, and a reset starts afresh.",
 ["histories", "schedules", "fault_sequences"],
 "every properly nested history of sections, resets and reports, every sequence of time advances and wall-clock steps, every point at which another thread calls in",
 "The profiler is not enabled in any test build.",
 ["flut/system/profiler.cpp", "flut/system/profiler.hpp", "flut/system/profiler_config.hpp"],
 [("section tree and times", "flut/system/profiler.cpp: start_section, end_section, acquire_section"), ("report", "flut/system/profiler.cpp: report, report_section"), ("thread check", "flut/system/profiler.cpp")],
 state=[("sections", "tree by parent id, with total and epoch", "flut/system/profiler.hpp: section")],
 observe=["section totals and report text against the simulated clock"])

prop("C16", "Sleep lasts at least as long as asked, and date strings tell the time",
 "A sleep of n milliseconds returns after at least n milliseconds of real time, also when signals interrupt it repeatedly or the wall clock is set meanwhile, and promptly after that; zero and negative times return at once. "
 "The date-time string is the given format applied to the current local wall-clock time, in any time zone.",
 ["fault_sequences", "schedules", "inputs"],
 "every duration, every sequence of interruptions and clock steps, every date, format and time zone",
 "No test sleeps or formats a date; interruptions cannot be provoked by a test.",
 ["flut/system_tools.cpp"],
 [("sleep", "flut/system_tools.cpp: sleep"), ("date string", "flut/system_tools.cpp: get_date_time_str")],
 observe=["simulated clock before and after the call; returned string"])

prop("C17", "An interrupt request is seen by every later check and by nobody else",
 "Once an interrupt request on an object has returned, every later check of that object by any thread reports it, for good; before the first request no check reports one, and requests on one object are never seen on another. "
 "This holds for every interleaving of requesting and polling threads, so a worker that polls stops at its first check after the request.",
 ["schedules", "histories"],
 "every interleaving of several requesting and polling threads over several objects",
 "No test uses the class, and a test cannot choose the interleaving.",
 ["flut/interruptible.cpp", "flut/interruptible.hpp"],
 [("sticky per-object flag", "flut/interruptible.cpp: interrupt, test_interrupt_flag")],
 observe=["results of the checks against the request history"])

prop("C18", "A random generator's sequence depends only on its seed and its own use",
 "The values drawn from a random number generator are a function of its seed and of the calls made on it since it was seeded: equal seeds and calls give equal values, whatever other generators (including the global one) or tasks do in between, in this process or another, and reseeding starts the sequence afresh. "
 "Uniform values lie in the requested range, normal values follow the requested mean and deviation, and different seeds (1 up to 2147483646) give different sequences.",
 ["schedules", "histories", "configurations"],
 "every interleaving of draws on several generators, every sequence of seeds and calls, every range and distribution parameter",
 "No test draws random numbers.",
 ["flut/math/random.hpp", "flut/math/random.cpp"],
 [("per-object engine", "flut/math/random.hpp: random_number_generator"), ("global instance", "flut/math/random.cpp")],
 observe=["drawn values of interleaved runs against isolated runs"])

prop("C19", "A memoized function is evaluated once per argument and never caches a failure",
 "A memoized function returns, for every argument, exactly what the wrapped function computes for it, and evaluates the function only once per distinct argument however calls (also recursive ones) are ordered. "
 "If the wrapped function throws or memory runs out during a call, the call reports that and nothing wrong is remembered: later calls never return a value the function did not compute for that argument, and succeed once the fault is gone.",
 ["histories", "fault_sequences"],
 "every sequence of calls and arguments, every point at which the function throws or an allocation fails",
 "No test uses memoization.",
 ["flut/memoize.hpp"],
 [("cache", "flut/memoize.hpp: memoize::operator()")],
 observe=["returned values and evaluation counts against the wrapped function"])

prop("C20", "Channel storage keeps every value under its own frame and label",
 "A data storage is a table of frames by labelled channels: after any history of adding frames, adding, finding and relabelling channels, growing and clearing it, every value set at a frame and channel is read back there, by index and by label, newest frame and interpolation included, labels and indices stay consistent both ways, new cells hold the requested fill value, and written out as text it has one header row and one row per frame. "
 "An operation that is refused (duplicate label, wrong frame width, shrinking, frame, channel or label that does not exist in checked access) reports an error and changes nothing; one for which memory runs out (or that names a new channel while there is no frame) reports an error and may leave an extra channel, but loses or alters no value, label or dimension that was there, and the storage stays usable.",
 ["histories", "fault_sequences"],
 "every history of operations on storages and label headers, every allocation failing at any point, every refused argument",
 "buffer_test adds ten channels and checks nothing; it is not built on this platform.",
 ["flut/storage.hpp", "flut/buffer/data_header.hpp"],
 [("reorganisation on growth", "flut/storage.hpp: resize, add_channel, add_frame"), ("label index", "flut/buffer/data_header.hpp: add, set, find")],
 observe=["all cells, labels and lookups after every operation, against a reference matrix"])

prop("C21", "A labelled table keeps every cell under its row and column label",
 "After any history of adding rows and columns, growing the table and writing cells by index or by label, every cell is read back with the last value written to it, new cells hold the requested or zero value, and row and column labels find their own index and no other. "
 "An operation that is refused (duplicate label, shrinking, reading an unknown label or index) reports an error and changes nothing; one that runs out of memory reports it and may leave an extra row or column, but alters no cell, label or lookup that was there, and the table stays usable.",
 ["histories", "fault_sequences"],
 "every history of operations, every allocation failing at any point, every refused argument",
 "data_test prints a covariance table and checks nothing; it is not built on this platform.",
 ["flut/table.hpp", "flut/buffer/data_header.hpp"],
 [("growth in place", "flut/table.hpp: resize, add_row, add_column"), ("label index", "flut/buffer/data_header.hpp")],
 observe=["all cells and labels after every operation, against a reference table"])

prop("C22", "The circular deque is a correct double-ended queue, also when memory fails",
 "After any history of pushes and pops at both ends, reads, clears and capacity changes, at any fill level and wrap position, the circular deque holds exactly the elements a double-ended queue would hold, in order, as seen through size, front, back, indexing and iteration, on const and non-const access. "
 "Popping or reading the ends of an empty deque is refused, and a push that runs out of memory reports it and leaves the contents as they were.",
 ["histories", "fault_sequences"],
 "every history of operations at every capacity and wrap position, every allocation failing at any point",
 "buffer_test pushes and pops in two fixed patterns; it is not built on this platform.",
 ["flut/circular_deque.hpp"],
 [("ring indexing and growth", "flut/circular_deque.hpp: push_back, push_front, pop_back, pop_front, reserve")],
 state=[("front, size, buffer", "ring position", "flut/circular_deque.hpp")],
 observe=["contents after every operation against a reference deque"])

prop("C23", "Arrays, flat maps, sorted vectors and factories survive failing memory unchanged",
 "Fixed-size arrays, flat maps, sorted vectors and object factories behave as an array, an insertion-ordered map with unique keys, an always sorted multiset and a name-to-constructor table: copies are independent and equal, moved-from objects are empty, lookups find exactly what was stored, unknown keys, names and indices are refused in checked access. "
 "An operation during which memory runs out (or an element's or object's constructor throws) reports it and leaves the container with its previous contents, except that setting all elements of an array in place may stop part-way.",
 ["histories", "fault_sequences"],
 "every history of operations on several containers, every allocation or element copy failing at any point",
 "container_test inserts a few elements and looks three of them up; no allocation ever fails.",
 ["flut/dynarray.hpp", "flut/flat_map.hpp", "flut/sorted_vector.hpp", "flut/factory.hpp"],
 [("array copy and move", "flut/dynarray.hpp"), ("map lookup and insertion", "flut/flat_map.hpp"), ("sorted insertion and search", "flut/sorted_vector.hpp"), ("registration", "flut/factory.hpp")],
 observe=["contents after every operation against reference containers"])

prop("C24", "Edits of a property tree take full effect or none",
 "After any history of edits of property trees (setting, appending, inserting, erasing, merging, assigning and moving nodes and subtrees, also by dotted path and from a node to its own parent or child), every read (by key, index, dotted path, selection, with or without default) returns what the edits say: first match for a key, insertion order kept, copies independent. "
 "Reading a missing key or index without a default is refused, and an edit during which memory runs out reports it and leaves the tree as it was, except that nodes on the way of a dotted path may have been created and a merge may stop between two entries. "
 "A node counts as accessed once it has been read, and does not if it was not touched since it was created (copies are new nodes) or last cleared, whatever is added, erased or moved around it; the log of unaccessed nodes lists exactly those.",
 ["histories", "fault_sequences"],
 "every history of edits and reads on several trees, every allocation failing at any point",
 "prop_node_test makes a few edits of one tree without failing allocations; it is not built on this platform.",
 ["flut/prop_node.hpp", "flut/prop_node.cpp", "flut/prop_node_tools.cpp"],
 [("node assignment and insertion", "flut/prop_node.hpp"), ("merge", "flut/prop_node_tools.cpp: merge_prop_nodes"), ("comparison", "flut/prop_node.cpp: operator==")],
 observe=["complete tree after every edit against a reference tree"])

prop("C25", "Debug values are all in the debug file when the program ends",
 "Values written with the debug writer are stored, when the program ends normally, in the chosen debug file: one column per label in order of first use, and one row per round, a new row starting whenever a label is written that already has a value in the current row. "
 "If nothing was written no file is created, and if the file cannot be written the program still ends normally.",
 ["histories", "fault_sequences"],
 "every sequence of labels and values, every change of the target file, every failure of opening or writing the file, every split of the writes",
 "No test uses the debug writer.",
 ["flut/system/debug_storage.cpp", "flut/storage.hpp"],
 [("row handling and write at exit", "flut/system/debug_storage.cpp: auto_storage_writer")],
 observe=["contents of the debug file after process exit"])

prop("C26", "Test counts add up and a failed test is never lost, even if reporting it fails",
 "After any history of test results, reports and resets on a test framework, the number of performed tests is the sum of passed and failed ones, and passed and failed are exactly the results recorded since the last reset, even if memory runs out or a log sink throws or cannot write while a result is reported. "
 "The report is an error exactly if a test failed since the last reset; it is logged once, at error level in that case and info level otherwise, with the three counts. "
 "Each failed test is logged once at error level with its name and message, a passed one once at info level if show_passed is set and not at all otherwise. Recording a result returns that result, and frameworks do not affect each other.",
 ["histories", "fault_sequences"],
 "every sequence of results, reports, resets and settings on several frameworks, every allocation failing and every sink throwing at any point",
 "The framework is used by the tests, not tested; no log sink fails and no test fails in them.",
 ["flut/system/test_framework.cpp", "flut/system/test_framework.hpp", "flut/system/log.cpp"],
 [("counting and logging", "flut/system/test_framework.cpp: test"), ("result", "flut/system/test_framework.cpp: report"), ("starting over", "flut/system/test_framework.cpp: reset")],
 observe=["counts, returned values and messages received by sinks after every call against reference counts"])

# ---- properties this technique does not decide (not_applicable in MANIFEST.json)
prop("C40", "String tools split, trim, quote, match and scan consistently",
 "For every string, splitting, trimming, key/value separation, prefix and suffix tests, glob matching and quoting behave as documented, and removing the quotes from a quoted string gives back the string.",
 ["inputs"], "every string and every separator, pattern or format", "string_test samples a handful of strings.",
 ["flut/string_tools.cpp", "flut/string_tools.hpp"], [("string functions", "flut/string_tools.cpp")])
prop("C41", "Path operations are consistent with each other",
 "For every path, folder and file name rejoin to the path, replacing the extension changes nothing else, and joining two paths puts exactly one separator between them.",
 ["inputs"], "every path text with either separator", "string_test samples a handful of paths.",
 ["flut/system/path.cpp", "flut/system/path.hpp"], [("path decomposition", "flut/system/path.cpp")])
prop("C42", "Vector, quaternion, angle and scalar mathematics obey their laws",
 "For all finite inputs, wrapping and clamping end up in range, quaternion and matrix rotations preserve length and compose, conversions between degrees and radians and between rotation forms invert each other, and regression and interpolation reproduce exact data.",
 ["inputs"], "all finite floating-point inputs", "math_test samples a handful of values and is not built on this platform.",
 ["flut/math/math.hpp", "flut/math/quat.hpp", "flut/math/vec3.hpp", "flut/math/angle.hpp", "flut/math/linear_regression.hpp", "flut/buffer/interpolation.hpp"], [("closed formulas", "flut/math")])
prop("C43", "Delays and filters respond as designed to every sample sequence",
 "For every sequence of samples, a delayer outputs a signal from the configured time ago and a low-pass filter has unit gain at rest and never diverges for a valid cutoff.",
 ["inputs"], "every sample sequence and configuration", "delay_test and filter_test are commented out and check nothing.",
 ["flut/math/delayer.hpp", "flut/filter.hpp"], [("recurrences", "flut/filter.hpp, flut/math/delayer.hpp")])
prop("C44", "Values survive conversion to text and back",
 "For every value of a convertible type, converting it to text and back gives the value up to the documented precision, and stream extraction reads the same numbers as the standard library and flags failures.",
 ["inputs"], "every value and every text", "string_test scans one string.",
 ["flut/system/string_cast.hpp", "flut/char_stream.hpp"], [("conversions", "flut/system/string_cast.hpp")])
prop("C45", "Hashes and dictionaries map names consistently",
 "For every name, the compile-time and run-time hashes agree, and a dictionary maps an element to its name and that name back to the element.",
 ["inputs"], "every string and dictionary", "string_test uses three names.",
 ["flut/hash.hpp", "flut/dictionary.hpp"], [("hash and lookup", "flut/hash.hpp, flut/dictionary.hpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
