"""Per property: number of runs, build flags and the texts of the evidence file."""
STUB_TF = "thread scheduler: one task runs at a time, seeded choice at each file call and, in part of the runs, at function boundaries and allocations of flut; locks wait in the scheduler"
STUB_FS = "operating system file calls (open, read, write, close, stat, mkdir, unlink ...): in-memory file system of the simulator"
REAL_STD = "C++ standard library streams (real libstdc++ code above the intercepted calls)"
CONF = {
 "C01": dict(fine=True, quick=6000, thorough=300000,
   rule="Each run saves and loads generated trees (labels and values from six character mixes incl. operators, control characters, UTF-8; readable and compact; 1-4 tasks on their own files) with short and interrupted transfers and preemption at every file call and, in part of the runs, at function boundaries and allocations of flut.",
   states="distinct file contents written",
   real=["flut prop_node, prop_node_tools, string_tools, char_stream, filesystem", REAL_STD], stub=[STUB_FS, STUB_TF]),
 "C02": dict(fine=True, quick=8000, thorough=300000,
   rule="Each run is a history of saves of generated trees to six targets (good, missing folder, directory, write-protected) with open, write (full and partial), close (with and without a lost tail), and disk-full faults at seeded call positions, followed by clean retries; in part of the runs several tasks save at the same time.",
   states="distinct contents of the whole simulated disk",
   real=["flut prop_node, prop_node_tools, string_tools, char_stream, filesystem", REAL_STD], stub=[STUB_FS, STUB_TF]),
 "C03": dict(fine=True, quick=8000, thorough=300000,
   rule="Each run is a history of loads (load_string, load_char_stream, char_stream, load_prop, load_xml, load_ini, load_file) of intact, malformed, missing and unreadable files, with fresh and re-used error objects, open, read and allocation faults at seeded positions, short and interrupted reads, and clean repeats; in part of the runs several tasks load at the same time.",
   states="distinct (loader, file content, outcome, faults fired)",
   real=["flut prop_node_tools, filesystem, char_stream, string_tools, prop_node, contrib rapidxml", REAL_STD], stub=[STUB_FS, "operator new (real allocator behind a seeded failure point)", STUB_TF]),
 "C04": dict(fine=True, quick=10000, thorough=300000,
   rule="Each run is a history of copies between files of many sizes (empty, binary, around buffer boundaries), missing, unreadable and write-protected ones, folders and missing folders, with open, read, write, close, disk-full and allocation faults at seeded positions, and clean retries; in part of the runs several tasks copy at the same time.",
   states="distinct contents of the whole simulated disk",
   real=["flut filesystem, path", REAL_STD], stub=[STUB_FS, STUB_TF]),
 "C05": dict(fine=True, quick=30000, thorough=400000,
   rule="Each run saves generated trees as prop, XML or INI, possibly crashing at a seeded file call (torn last write), applies seeded damage to the stored bytes (cut, flip, zero, drop, repeat, insert of structural bytes) and loads the result under a memory, step and cpu budget with the address sanitizer on.",
   states="distinct damaged file contents loaded",
   real=["flut prop_node_tools, filesystem, char_stream, string_tools, prop_node, contrib rapidxml", REAL_STD], stub=[STUB_FS]),
 "C06": dict(fine=True, quick=10000, thorough=300000,
   rule="Each run saves generated trees as XML and INI (markup characters, quotes, UTF-8, names and values cut to each format's domain), inserts comment and blank lines into INI files, and loads them back, with 1-3 tasks on their own files, short and interrupted transfers and preemption at every file call. Runs with inserted lines also count as non-trivial.",
   states="distinct file contents written",
   real=["flut prop_node_tools, filesystem, char_stream, string_tools, prop_node, contrib rapidxml", REAL_STD], stub=[STUB_FS, STUB_TF]),
 "C07": dict(fine=True, quick=12000, thorough=300000,
   rule="Each run builds a seeded graph of prop and XML files over several folders whose includes (merging or not, at any depth, absolute and relative top file, three directive names) form trees, shared graphs, cycles and chains of up to 90 levels, with missing, malformed and many-rooted files, and loads it under open, read and allocation faults at seeded positions, then again without, also by two tasks at the same time. Runs that expanded an include or had to report a bad graph count as non-trivial.",
   states="distinct expanded trees",
   real=["flut prop_node_tools, filesystem, path, char_stream, string_tools, prop_node, contrib rapidxml", REAL_STD], stub=[STUB_FS, "operator new (real allocator behind a seeded failure point)", STUB_TF]),
 "C08": dict(fine=True, quick=40000, thorough=1500000,
   rule="Each run lets 1-5 tasks create overlapping directory paths (absolute, relative, with ./ and doubled separators; existing directories, files and protected folders in the way, other programs making files and directories meanwhile), preempted at every file system call, with mkdir, stat and allocation faults at seeded positions, and repeats every call once faults stop.",
   states="distinct directory trees at the end",
   real=["flut filesystem, path"], stub=[STUB_FS, "thread scheduler: one task runs at a time, seeded choice at each file call", "other programs: seeded direct changes of the simulated disk"]),
 "C09": dict(fine=True, quick=40000, thorough=1500000,
   rule="Each run lets 1-5 tasks ask for unique folders under a few names with different attempt limits while other programs create numbered entries (directories, files, sockets), preempted at every file system call, with mkdir, stat and allocation faults at seeded positions.",
   states="distinct directory trees at the end",
   real=["flut filesystem, path, string_tools (stringf)"], stub=[STUB_FS, "thread scheduler: one task runs at a time, seeded choice at each file call", "other programs: seeded direct changes of the simulated disk"]),
 "C10": dict(fine=True, quick=30000, thorough=1000000,
   rule="Each run lets 1-4 tasks query and remove entries of every type (files, directories, sockets, devices, missing, unreadable, protected; absolute and relative names) that change meanwhile, preempted at every file system call, with stat, open, unlink and allocation faults at seeded positions; runs with one task also change the current directory.",
   states="distinct directory trees at the end",
   real=["flut filesystem, path, system_tools", REAL_STD], stub=[STUB_FS, "thread scheduler: one task runs at a time, seeded choice at each file call"]),
 "C11": dict(quick=30000, thorough=1000000,
   rule="Each run is a history of up to 6 sinks (own, stream, file, failing stream) created (also with failing memory or file opening), destroyed, added twice, removed and given levels, global level changes and messages of every level through every logging function, with failing writes and short transfers below file sinks. All runs that log a message count as non-trivial.",
   states="distinct sink configurations (kind, level, registered)",
   real=["flut log, log_sink, string_tools", REAL_STD], stub=[STUB_FS, "operator new (real allocator behind a seeded failure point)", "failing stream: stream buffer of the harness"]),
 "C12": dict(quick=30000, thorough=1000000,
   rule="Each run is a history of up to 3 file sinks and messages of up to 20000 bytes with short and interrupted writes, disk-full, failing and partial writes, failing opens and closes, and crashes at seeded disk changes (torn last write); after every call, at every crash and at the end the files are compared with the accepted messages.",
   states="distinct contents of the whole simulated disk",
   real=["flut log, log_sink", REAL_STD], stub=[STUB_FS]),
 "C13": dict(quick=60000, thorough=2000000,
   rule="Each run is a history of up to 4 timers created, copied, reset and read in every unit while simulated time passes (nothing to a year at once, machine up for up to years, readings that take time) and the wall clock is set forwards and backwards between and during readings. Runs in which time passed or the wall clock was set count as non-trivial.",
   states="distinct (unit, reading)",
   real=["flut timer", "std::chrono"], stub=["system clocks (monotonic, wall, cpu): simulated"]),
 "C14": dict(quick=40000, thorough=1500000,
   rule="Each run is a history of up to 2 stopwatches with named measures and reports while simulated time passes between and (by a cost per clock reading) inside the calls and the wall clock is set. Runs in which time passed or the wall clock was set count as non-trivial.",
   states="distinct reports",
   real=["flut stopwatch, timer, prop_node"], stub=["system clocks (monotonic, wall, cpu): simulated"]),
 "C15": dict(quick=30000, thorough=1000000,
   rule="Each run is a properly nested history of profiler sections (loops, recursion, equal names under different parents, depth up to 60), reports and resets while simulated time passes between and inside the calls, the wall clock is set and foreign threads call in. Runs in which time passed or a foreign thread called count as non-trivial.",
   states="distinct reports",
   real=["flut profiler, timer, prop_node, string_tools"], stub=["system clocks (monotonic, wall, cpu): simulated"]),
 "C16": dict(quick=40000, thorough=1500000,
   rule="Each run is a history of sleeps (0 to 2^31 ms, negative) with interruptions at seeded points, late wake-ups and clock steps, and of date strings in 16 formats and 8 time zones at seeded dates from 1970 to 2100.",
   states="distinct (sleep, time taken) and date strings",
   real=["flut system_tools", "std::this_thread::sleep_for, std::put_time, C library time zone code"], stub=["system clocks and nanosleep: simulated"], assume=["the C library's localtime and strftime are right"]),
 "C17": dict(fine="all", quick=30000, thorough=1000000,
   rule="Each run lets 2-5 threads (and short-lived ones) request and check interrupts on up to 4 objects (base and derived class) that are also destroyed and replaced, in a seeded interleaving of the calls; workers poll until told to stop.",
   states="distinct (requested objects, thread)",
   real=["flut interruptible", "real threads, one running at a time"], stub=["thread scheduler: seeded choice before each call and, in part of the runs, at function and basic block boundaries inside the calls"], assume=["threads see each other's writes in the order they were made: the memory ordering of real hardware is not simulated"]),
 "C18": dict(fine=True, quick=30000, thorough=1000000,
   rule="Each run lets 1-4 tasks draw uniform and normal values from 3 generators and the global one, reseed and recreate them, while the simulated clock moves, and compares every sequence with the same seed and calls drawn alone; distributions and distinct seeds are compared as well. Runs with preemption count as non-trivial.",
   states="distinct (seed, values drawn)",
   real=["flut math/random", "std::default_random_engine and distributions"], stub=["thread scheduler: seeded choice before each call", "system clocks: simulated"]),
 "C19": dict(quick=40000, thorough=1500000,
   rule="Each run is a history of calls of four memoized functions (one recursive) with allocation failures and exceptions of the wrapped function at seeded points, copies and thousands of distinct arguments included, against an evaluation log and the plain functions.",
   states="distinct (number of known arguments, argument)",
   real=["flut memoize"], stub=["operator new (real allocator behind a seeded failure point)", "wrapped functions: of the harness"]),
 "C20": dict(quick=30000, thorough=1000000,
   rule="Each run is a history of up to 60 (thorough 120) operations on a storage and a header (channels with and without data, frames, relabelling, growing, clearing, copies, checked and unchecked access, interpolation, vectors, text) with allocation failures at seeded points and arguments that have to be refused; after every operation the complete contents are compared. All runs count as non-trivial.",
   states="distinct storage contents", tech="allocation failures at seeded points, reference table",
   real=["flut storage, data_header"], stub=["operator new (real allocator behind a seeded failure point)"]),
 "C21": dict(quick=30000, thorough=1000000,
   rule="Each run is a history of up to 60 (thorough 120) operations on a table of numbers or of texts (rows and columns with and without default value, growing, writing and reading by index and label, copies, text) with allocation failures at seeded points and arguments that have to be refused; after every operation the complete contents are compared. All runs count as non-trivial.",
   states="distinct table contents", tech="allocation failures at seeded points, reference table",
   real=["flut table, data_header"], stub=["operator new (real allocator behind a seeded failure point)"]),
 "C22": dict(quick=40000, thorough=1500000,
   rule="Each run is a history of up to 90 (thorough 200) operations on a circular deque of numbers, texts or items whose copying can fail (pushes and pops at both ends, of own elements too, reserve, clear, copies, new deques of given capacity) with allocation and copy failures at seeded points; after every operation the complete contents are compared through every access. All runs count as non-trivial.",
   states="distinct (contents, capacity)", tech="allocation and copy failures at seeded points, reference deque",
   real=["flut circular_deque"], stub=["operator new (real allocator behind a seeded failure point)"]),
 "C23": dict(quick=40000, thorough=1500000,
   rule="Each run is a history of up to 70 (thorough 140) operations on two arrays, flat maps, sorted vectors (of texts or of items whose copying can fail) and factories (construct, copy, move, assign, self-assign, insert, erase, look up, register, create) with allocation, copy and constructor failures at seeded points; after every operation all contents are compared. All runs count as non-trivial.",
   states="distinct contents of all containers", tech="allocation, copy and constructor failures at seeded points, reference containers",
   real=["flut dynarray, flat_map, sorted_vector, factory"], stub=["operator new (real allocator behind a seeded failure point)", "element and object types: of the harness"]),
 "C24": dict(quick=150000, thorough=1000000,
   rule="Each run is a history of up to 60 (thorough 120) edits and reads of three property trees (all ways of setting, pushing, inserting, erasing, merging, assigning and moving, with a node's own parent and children as source or target, dotted paths, lists) with allocation failures at seeded points; after every operation the three complete trees and the number of unaccessed nodes are compared. All runs count as non-trivial.",
   states="distinct trees", tech="allocation failures at seeded points, reference tree with access tracking",
   real=["flut prop_node, prop_node_tools (merge, log_unaccessed), container_tools, string_tools, log"], stub=["operator new (real allocator behind a seeded failure point)"]),
 "C25": dict(quick=10000, thorough=200000,
   rule="Each run is a whole process that writes a seeded sequence of labelled values, changes the target file and ends, in a forked child on the simulated disk, with short and interrupted writes, failing open, write and close and a full disk during the end of the program; the disk is examined after the last static object is gone. Runs that wrote a value count as non-trivial.",
   states="distinct contents of the whole simulated disk at the end", tech="whole-process runs, disk faults at exit, reference table",
   real=["flut debug_storage, storage, path", REAL_STD, "process exit and static destructors"], stub=[STUB_FS]),
 "C26": dict(quick=40000, thorough=1500000,
   rule="Each run is a history of up to 40 (thorough 80) test results (plain and by macro, up to thousands in a row), reports, resets and changes of show_passed on the global test framework and two others, while memory runs out, log sinks throw and log files cannot be written at seeded points; after every operation all counts are compared. Runs in which reporting failed count as non-trivial.",
   states="distinct counts of the frameworks", tech="allocation, sink and disk failures at seeded points, reference counts",
   real=["flut test_framework, log, log_sink", REAL_STD], stub=["operator new (real allocator behind a seeded failure point)", STUB_FS, "throwing log sink: of the harness"]),
}
