#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


CACHE = "tn/cache.py"
PROC = "tn/processor.py"
BUILD = ("load-or-build", "tn/processor.py: Processor.build_fst")
OBS = ["the graphs, or the exception, a constructor ends with", "the files under the cache directory"]

prop("C01", "A constructed normalizer always holds the graph pair for its own options",
     "Whenever constructing a normalizer succeeds, its classifier and its verbalizer come from one and the same complete build for exactly the options and rule sources that constructor asked for. This holds whatever other processes or threads are building, replacing or crashing at the same time, whatever I/O errors occur, and whatever earlier crashes or damage left in the cache directory. Under failure a constructor may raise, but it never yields a mixed, stale, foreign or damaged pair.",
     ("schedules", "crash_points", "fault_sequences", "histories", "configurations"),
     "every interleaving of constructors in several processes/threads, every placement of process kills, power loss, I/O errors, damaged stored bytes, and every mix of option sets",
     "Tests construct one or two normalizers against a handful of hand-made damaged directories; no test combines concurrency, crash and corruption.",
     (CACHE, PROC), [BUILD, ("checksummed bundle load", "tn/cache.py: CacheBundle._load_path"), ("atomic publication", "tn/cache.py: CacheBundle.publish"), ("content-addressed key", "tn/cache.py: CacheBundle.__init__")],
     [("bundle directory", "tagger.fst, verbalizer.fst and manifest.json of one build", "<root>/<prefix>/<config digest>/<bundle digest>/")], OBS)

prop("C02", "Damaged cache content is detected, never served, and repaired automatically",
     "If bytes stored in a published cache entry are changed, truncated, extended, zeroed, removed, or exchanged with those of another entry, a constructor never serves the damaged content. It still succeeds, without user intervention, with the right graphs, and leaves behind an entry that the next process loads without rebuilding.",
     ("fault_sequences", "inputs", "schedules"),
     "any damage to any file of any published entry, at rest or at any instant while other processes are reading it",
     "Tests damage three files in one fixed way each and never while a reader is in the middle of reading.",
     (CACHE, PROC), [("size and SHA-256 verification, manifest identity check", "tn/cache.py: CacheBundle._load_path"), ("quarantine", "tn/cache.py: CacheBundle.remove_invalid"), BUILD],
     [("manifest.json", "identity, sizes and checksums of the pair", "tn/cache.py: CacheBundle.publish")], OBS)

prop("C03", "After a crash at any point the next process recovers by itself",
     "If processes using the cache are killed, or the machine loses power, at any instant and any number of times, then a process started afterwards constructs the right normalizer without manual cleanup. It does so without waiting on anything a dead process left behind.",
     ("crash_points", "schedules", "fault_sequences"),
     "every crash instant between two file-system effects, for process kills and for power loss with un-synced data or metadata lost, repeated",
     "One test kills a process that merely holds the lock and one fabricates a single crash leftover; crash instants inside publication, replacement and recovery are not sampled.",
     (CACHE, PROC), [("residual recovery", "tn/cache.py: CacheBundle.recover_residuals"), ("advisory OS lock released on death", "tn/cache.py: CacheBundle.lock"), ("temporary directory then rename", "tn/cache.py: CacheBundle.publish")],
     [("residual directories", ".tmp-, .previous-, .corrupt- siblings of a bundle", "tn/cache.py")], OBS)

prop("C04", "Concurrent constructors of the same normalizer build it exactly once",
     "When any number of processes or threads construct the same normalizer at the same time and nothing fails, it is built exactly once if it was not cached and not at all if it was, and every constructor succeeds. Two builds for the same cache entry are never in progress at once, and when a builder dies or fails to store its result exactly one of the others takes over at a time.",
     ("schedules", "crash_points"),
     "every interleaving of N constructors (processes and threads), with builders killed or failing at any point",
     "Two tests race 2 threads and 4 processes once on whatever schedule the machine happens to pick.",
     (CACHE, PROC), [("check, lock, re-check, build", "tn/processor.py: Processor.build_fst"), ("advisory lock", "tn/cache.py: CacheBundle.lock")],
     [("lock anchor", "persistent file carrying the OS lock", "tn/cache.py: CacheBundle._open_lock_anchor")], ["number of grammar builds started", "overlap of builds"])

prop("C05", "A cache entry behaves as one atomic register under forced rebuilds",
     "While some processes force rebuilds of an entry and others construct from it, every constructor succeeds when nothing fails, and the results are linearizable: each one gets the complete pair of a single build, namely the last one stored at some instant during its own construction. A constructor that starts after a forced rebuild has returned never gets an older build.",
     ("schedules", "histories"),
     "every interleaving of lock-free readers with rebuilding writers, including readers stalled between reading any two files",
     "No test reads while another process replaces the entry; the replacement window where the name is absent is never hit.",
     (CACHE, PROC), [("rename aside, rename in", "tn/cache.py: CacheBundle.publish"), ("directory-handle-bound reads", "tn/cache.py: CacheBundle._open_directory_chain"), BUILD],
     (), ["build identity carried by each constructed pair, with invoke/return order"])

prop("C06", "A failed or interrupted forced rebuild keeps the last good entry",
     "If a forced rebuild of a cached normalizer raises, is interrupted, or is killed at any point, or writing its result fails any number of times (disk full, I/O error), then the entry stored before it, or a newer complete one, is still there. The next process, once writes work again, gets it without building.",
     ("crash_points", "fault_sequences"),
     "every failing operation or kill point of a forced rebuild, several failing rebuilds in a row",
     "One test makes three internal steps fail at once-only points; failures of rename, fsync, directory creation, the restore path and kills between the renames are not covered.",
     (CACHE, ), [("restore on failure", "tn/cache.py: CacheBundle.publish"), ("recovery of the previous bundle", "tn/cache.py: CacheBundle.recover_residuals")],
     [("previous bundle", "the replaced entry until the new one is in place", ".<digest>.previous-* directories")], OBS)

prop("C07", "A normalizer whose construction returned survives power loss in the cache",
     "On a file system that keeps metadata operations in order, once a constructor that stored its result has returned, a power failure at any later instant does not lose that entry: after restart the normalizer is loaded, not rebuilt. After a forced rebuild has returned, the restart never brings back an older build.",
     ("crash_points", "fault_sequences"),
     "every power-loss instant after a return, every choice of which un-synced data and trailing metadata reached the disk",
     "Tests never lose un-synced data; all of them would pass with every fsync removed.",
     (CACHE, ), [("fsync of each file, of the temporary directory and of the parent after the rename", "tn/cache.py: CacheBundle._write_fst, _write_manifest, _fsync_directory, publish")],
     (), ["builds needed after a simulated power loss"])

prop("C08", "Waiting for a busy cache entry ends: acquired, or a timeout when promised",
     "A process waiting for another to finish building proceeds promptly once the other finishes, fails, or dies, however it ends. If the other never finishes, the wait ends with a lock-timeout error no earlier than the configured timeout and promptly after it, regardless of jumps of the wall clock; no failure of any constructor leaves the entry locked.",
     ("schedules", "fault_sequences", "crash_points"),
     "every way the holder can end or hang, every timeout value, clock jumps and stalls while waiting, I/O errors while locking",
     "Tests use real waits with timeouts of 0 to 0.5 s, one holder and one waiter, and no clock jump.",
     (CACHE, ), [("monotonic deadline and polling", "tn/cache.py: CacheBundle.lock"), ("timeout configuration", "tn/cache.py: _configured_lock_timeout")],
     (), ["simulated time from invocation to outcome", "error type"])

prop("C09", "Work on one cache entry never disturbs or delays another entry",
     "Building, forcing, recovering, failing or crashing on the entry for one option set, language direction or source version never removes, alters or invalidates the stored or half-written entry of another, even under the same cache directory. A constructor for one entry also never waits for a builder of a different entry.",
     ("schedules", "configurations", "crash_points"),
     "every pair of distinct entries sharing a cache directory, every interleaving of their builders, recoveries and crashes",
     "Tests use several entries only one after another; cleanup of one entry while another is half written is never exercised.",
     (CACHE, ), [("per-digest names for lock, bundle and residuals", "tn/cache.py: CacheBundle.__init__, recover_residuals")],
     (), ["files of the other entry", "time the other constructor takes"])

prop("C10", "The cache never follows a link or special file out of its directory",
     "If any directory, file, lock or leftover inside the cache directory has been replaced by a symbolic link or a special file before a constructor starts, the constructor never reads content from, creates, changes or removes anything outside the cache directory, and it ends (error or right graphs) instead of hanging. Content reached through a link is never served, even if the link is swapped in at any instant while the constructor runs.",
     ("histories", "schedules", "fault_sequences"),
     "every cache-owned path component replaced by every kind of link or special file, at rest or swapped in at any instant",
     "Tests substitute five components, only at rest, and never a special file; swaps during a load are not sampled.",
     (CACHE, ), [("O_NOFOLLOW directory chain and dir_fd reads", "tn/cache.py: CacheBundle._open_directory_chain, _read_regular_at"), ("lstat checks on writers", "tn/cache.py: CacheBundle._ensure_directory, _validate_directory_chain"), ("flat cleanup by dir_fd", "tn/cache.py: _remove_flat_bundle_impl")],
     (), ["the tree outside the cache directory", "origin of the served graphs"])

prop("C11", "Crash leftovers are reclaimed by the next completed build",
     "However many constructors for an entry were killed or failed before, the next one that completes a build of that entry without failure leaves exactly the files a first-ever build would have left for it. Disk use per entry therefore stays bounded over any history of crashes.",
     ("crash_points", "histories", "fault_sequences"),
     "every history of kills, power losses and failing writes followed by one undisturbed build",
     "Tests check leftovers after three single failures, never after kills or repeated crashes during cleanup itself.",
     (CACHE, ), [("residual cleanup", "tn/cache.py: CacheBundle.recover_residuals, _remove_flat_bundle"), ("temporary removal", "tn/cache.py: CacheBundle.publish")],
     (), ["files under the cache directory after an undisturbed build"])

prop("C12", "Cleanup never deletes files the cache did not create",
     "Regular files with names the cache does not use, and sub-directories, are never deleted or altered by building, loading, replacing, recovering or cleaning up, wherever under the cache directory a user or another program put them and whatever failures occur meanwhile. At most they are moved aside together with the directory that holds them.",
     ("histories", "fault_sequences", "crash_points"),
     "every placement of foreign files and directories (inside entries, leftovers, lock directories, roots), every history of constructors with failures and kills",
     "Two tests place one foreign directory each and run one cleanup without failures.",
     (CACHE, ), [("known-name check before any unlink, no recursion", "tn/cache.py: _remove_flat_bundle_impl")],
     (), ["foreign files after every run"])

prop("C13", "Cache hits and disabled caching write nothing and wait for nobody",
     "Constructing a normalizer whose entry is stored intact performs no write, creation, deletion or lock in the cache, works on a read-only file system, and returns promptly even while another process is stuck in the middle of force-building the same entry. With caching disabled a constructor touches no cache file at all and succeeds whatever state the cache directory and disk are in.",
     ("schedules", "fault_sequences", "configurations"),
     "every point of a concurrent forced build at which the builder may hang before it starts replacing the entry; read-only, full and failing disks",
     "One test checks that a disabled cache leaves a directory empty; none runs a hit on a read-only disk or beside a stuck builder.",
     (PROC, CACHE), [("lock-free first load", "tn/processor.py: Processor.build_fst"), ("cache_dir=False branch", "tn/processor.py: Processor.build_fst")],
     (), ["file-system operations issued by the constructor", "simulated time it takes"])

prop("C14", "No descriptor or lock outlives a constructor, whatever went wrong",
     "When a constructor returns or raises, for any sequence of I/O errors, build failures, lock timeouts, interrupts arriving in a system call, damaged or hostile cache content, the process holds no open file or directory descriptor and no lock that it did not hold before. A long-running service can retry indefinitely.",
     ("fault_sequences", "histories", "schedules"),
     "every placement of failing operations in every path (hit, miss, wait, rebuild, quarantine, recovery, cleanup)",
     "No test counts descriptors; error paths between open and close are barely executed.",
     (CACHE, PROC), [("close in finally/except paths", "tn/cache.py: _open_directory_chain, _read_regular_at, lock, _remove_flat_bundle_impl")],
     [("descriptor table", "descriptors open in the process", "simulated kernel")], ["descriptor table of the process after each constructor"])

prop("C15", "Graphs are never stored under a source version they were not built from",
     "If rule data or code files are edited or upgraded at any moment while processes are starting, waiting, or building, an entry stored for a source version always contains exactly what that version builds. A constructor caught in an edit raises or returns a result consistent with one version, and never poisons the cache for later processes (edits that revert to identical content within one build excepted).",
     ("schedules", "histories"),
     "every instant of an edit relative to fingerprinting, waiting, building and publishing in any number of processes",
     "Tests never change sources during a build; the after-build check is not exercised at all.",
     (PROC, CACHE), [("fingerprint before and after the build", "tn/processor.py: Processor.build_fst"), ("content fingerprint", "tn/cache.py: production_source_fingerprint")],
     (), ["source version recorded for an entry vs. the version its graphs were built from"])

prop("C16", "The source fingerprint is complete, order-independent and fails loudly",
     "Two source trees get the same fingerprint only if they have the same production files with the same relative paths and contents; listing order, timestamps, read sizes and test files do not matter. If any part of the tree cannot be listed or read while fingerprinting, an error is raised instead of a fingerprint of the readable part.",
     ("inputs", "fault_sequences", "schedules"),
     "every directory listing order, every short-read pattern, every failing listing/stat/open/read, every pair of differing trees including content moved between files",
     "One test edits two files and checks inequality on one listing order without failures.",
     (CACHE, ), [("sorted walk with length-prefixed hashing", "tn/cache.py: production_source_fingerprint")],
     (), ["fingerprint value or exception"])

prop("W01", "The cache keeps its guarantees on Windows as well",
     "On Windows, where open files cannot be replaced or deleted, locks are mandatory byte ranges and directories cannot be held open or synced, and where another program may hold a cache file open for a moment: constructed normalizers still get only the graphs of their own options, damaged or redirected entries are never served and are rebuilt, one process builds while others wait and time out when promised, failed builds keep the last good entry, foreign files survive, and cache hits write nothing.",
     ("schedules", "fault_sequences", "crash_points", "inputs"),
     "every schedule, fault, kill and file damage of C01-C06, C08-C10 and C12-C14 on Windows, and every moment at which another program opens a cache file",
     "The tests run on POSIX; their Windows branches are entered only by replacing single functions.",
     (CACHE, PROC),
     [("locking by msvcrt byte ranges", "tn/cache.py: _try_advisory_lock"), ("reads re-checked by identity instead of held directories", "tn/cache.py: _read_open_regular"), ("reparse points refused", "tn/cache.py: _is_reparse_point")],
     (), ["graphs, errors and times of constructors; cache directory contents"])

prop("B01", "Unreadable rule data makes a build fail, never silently poorer",
     "If any rule data file cannot be opened or read while a pipeline is being built, constructing the normalizer raises, or the result is identical to that of an undisturbed build. A grammar missing part of its data is never returned and never stored for later processes.",
     ("fault_sequences", "configurations"),
     "every data-file access of every language/direction pipeline failing at open or at any read, once or persistently",
     "Tests always read intact local files.",
     ("tn/utils.py", "itn/utils.py", "tn/chinese/rules", "tn/english/rules", "tn/japanese/rules", "itn/chinese/rules", "itn/english/rules", "itn/japanese/rules", PROC),
     [("errors propagate from data loading", "tn/utils.py: load_labels; string_file calls in rules"), ("store only after a complete build", "tn/processor.py: Processor.build_fst")],
     (), ["exception, or the built graphs, of a real pipeline"])

prop("B02", "Building a pipeline gives the same grammar in every process environment",
     "The grammar a pipeline builds from the same sources and options is the same function whatever the process environment: hash randomisation seed, locale and encoding settings, time zone and clock, working directory, directory listing order, and which other pipelines were built before in the process, or failed or were interrupted while being built. A cache entry built by one process is therefore valid for every other.",
     ("configurations", "histories", "schedules"),
     "every environment in which processes sharing one cache may build",
     "All tests run under one fixed environment with PYTHONHASHSEED=0 and UTF-8.",
     (PROC, CACHE, "tn/utils.py", "itn/utils.py", "tn/chinese/rules", "tn/english/rules", "tn/japanese/rules", "itn/chinese/rules", "itn/english/rules", "itn/japanese/rules"),
     [("explicit utf-8, ordered inventories, absolute resource paths", "tn/utils.py, rules")],
     (), ["outputs of independently built graphs on probe texts"])

prop("T01", "Concurrent calls on shared normalizers answer as if each ran alone",
     "Any number of threads may call a normalizer's tag, verbalize, normalize and normalize-with-mapping operations (single or n-best) at the same time, on the same instance or on different ones. Every call returns, or raises, exactly what the same call does when it runs alone.",
     ("schedules", "inputs"),
     "every interleaving of the Python steps of the calls",
     "No test calls one instance from two threads.",
     (PROC, "tn/token_parser.py", "tn/alignment.py"), [("per-call parser and streams, read-only graphs", "tn/processor.py: token_parser, _normalization_candidates, _verbalize_tagged")],
     [("self.tagger, self.verbalizer", "graphs shared by all callers", "tn/processor.py: Processor")], ["return value or exception of each call"])

prop("T02", "A call's answer does not depend on earlier, failed or interrupted calls",
     "What a call on a normalizer returns depends only on the normalizer's options and the call's arguments: not on calls made before it, on their failures, on calls interrupted at an arbitrary point, on other normalizers created or used in the process, nor on what callers did to results they were given.",
     ("histories", "crash_points"),
     "every history of calls, errors, interruptions at any step, constructions of other pipelines and caller-side mutation of returned objects",
     "Tests issue independent calls in one fixed order and never interrupt one.",
     (PROC, "tn/token_parser.py", "tn/alignment.py"), [("no state kept between calls", "tn/processor.py, tn/token_parser.py, tn/alignment.py"), ("module-level field-order tables never mutated", "tn/token_parser.py")],
     [("TN_ORDERS, EN_TN_ORDERS, ITN_ORDERS, TOKEN_ORDERS", "module-level tables shared by all instances", "tn/token_parser.py, */normalizer.py")], ["return value or exception of each call"])

prop("L01", "The command line answers every input line, in order, however input arrives",
     "For standard input and for files, the command line writes exactly two output lines per input line, in input order: the tagged form and its verbalization. Only the line ending is removed from the input and everything else, including blank lines, spaces and other Unicode separators, is passed through; how the bytes are split into reads, where a read is delayed or interrupted, and whether the last line is terminated make no difference.",
     ("schedules", "inputs", "fault_sequences"),
     "every text, every split of its bytes into reads (inside characters and line endings), every delay",
     "Tests feed two lines from in-memory text streams that deliver everything at once.",
     ("tn/cli.py", "tn/main.py", "itn/main.py"), [("line iteration and line-ending removal", "tn/cli.py: run, _without_line_ending, _process_line")],
     (), ["output stream contents"])

prop("L02", "A command line run cut short keeps finished answers and reports failure",
     "If reading input, processing a line, or writing output fails at any point, the answers for all lines fully processed before that point have been written to the output stream in order, no line is answered wrongly or twice, and the program ends with an error rather than success. It never ends successfully with any input line unanswered.",
     ("fault_sequences", "crash_points"),
     "every failing read, undecodable byte, failing line, failing or partial write, and interrupt, at every position",
     "No test makes a stream fail.",
     ("tn/cli.py", "tn/main.py", "itn/main.py"), [("per-line processing, errors propagate or become a usage error", "tn/cli.py: run")],
     (), ["output stream contents", "exit status or exception"])

prop("L03", "The command line answers each line before waiting for the next one",
     "When input arrives slowly, each line's two output lines are handed to the output stream as soon as the line is complete, before the program waits for more input. An open-ended input stream is therefore processed incrementally in bounded memory, and is never read ahead to its end first.",
     ("schedules", ),
     "every timing of a slow, bursty or never-ending writer on the input side",
     "Tests use finite in-memory input.",
     ("tn/cli.py", ), [("streaming loop over the input", "tn/cli.py: run")],
     (), ["output written at each moment the program blocks on input"])

# ---- pure functions of their input: listed, not claimed -------------------
prop("R01", "The C++ runtime's C API answers every call as if it ran alone",
     "Any number of threads may create, use and destroy processors through the runtime's C API at the same time, sharing processors or not. Every tag, verbalize and normalize call returns exactly the answer its graphs and its pipeline's field order define, the one it returns when it runs alone. A returned string keeps its content until its caller frees it.",
     ("schedules", "inputs", "histories"),
     "every interleaving of the basic blocks of the calls of several threads, every mix of processors and pipelines",
     "The runtime's tests call one processor from one thread.",
     ("runtime/processor/wetext_processor.cc", "runtime/processor/wetext_token_parser.cc", "runtime/processor/wetext_processor_c_api.cc", "runtime/utils/wetext_string.cc"),
     [("read-only graphs, one parser per call", "runtime/processor/wetext_processor.cc: Processor::Verbalize"), ("answers copied to the caller", "runtime/processor/wetext_processor_c_api.cc: CopyToCString")],
     (), ["the strings the C API returns"])

prop("R02", "The runtime's C API reports failure as a null result and survives it",
     "If a graph file is missing, unreadable, cut short or not a graph, if its name names no pipeline, if a read or a memory allocation fails, or if text to verbalize is malformed or not UTF-8, the C API call concerned returns null or, where the failure did not matter, the right answer. No call throws, aborts or crashes the process, returns a wrong answer or leaks memory, and every existing processor keeps answering correctly afterwards.",
     ("fault_sequences", "inputs", "schedules"),
     "every allocation and read that can fail, every damaged graph file and malformed text, before and between any other calls",
     "No test makes an allocation, a read or a call of the runtime fail.",
     ("runtime/processor/wetext_processor_c_api.cc", "runtime/processor/wetext_processor.cc", "runtime/processor/wetext_token_parser.cc", "runtime/utils/wetext_string.cc"),
     [("exceptions end at the C boundary", "runtime/processor/wetext_processor_c_api.cc"), ("graphs checked after loading", "runtime/processor/wetext_processor.cc: Processor::Processor"), ("malformed tokens rejected", "runtime/processor/wetext_token_parser.cc")],
     (), ["the results of C API calls, allocations still live after the processors are destroyed"])

prop("R03", "The runtime command line answers every line in order or exits with a failure",
     "For every input file the runtime's command line writes exactly two lines per input line, the tagged and the verbalized form, in input order, each pair before it reads on, and exits with status 0. If the input cannot be opened or read to its end, a graph cannot be loaded, or the output cannot be written, the exit status is not 0, no answer is wrong, and the lines completely read before the failure have been answered as far as the output could be written.",
     ("fault_sequences", "inputs", "schedules"),
     "every input, every division of its bytes into reads, every point at which a read or a write can fail",
     "No test runs the runtime's command line.",
     ("runtime/bin/processor_main.cc", "runtime/processor/wetext_processor.cc"), [("line loop", "runtime/bin/processor_main.cc: main")],
     (), ["standard output and the exit status"])

prop("R04", "The Android binding reports failures as Java exceptions and keeps nothing",
     "After init succeeded, normalize and inverse_normalize, called from any threads with any Java strings, return what the Chinese text normalization and inverse text normalization pipelines of that model directory give, characters outside the basic plane included. If a string is null, a graph cannot be read, a JNI function or a memory allocation fails, or init has not succeeded yet, the native method leaves a Java exception pending; if init fails, the processors of the last successful init stay in force. No native method ends the process, lets a C++ exception out, calls JNI while an exception is pending, or keeps characters or memory it borrowed.",
     ("fault_sequences", "inputs", "schedules", "histories"),
     "every string, every order of initialisations and calls, every JNI call, read and allocation that can fail (init does not run beside other calls)",
     "No test builds the Android binding.",
     ("runtime/bindings/android/wetextprocessing.cc", "runtime/processor/wetext_processor.cc"),
     [("native methods", "runtime/bindings/android/wetextprocessing.cc: init, normalize, inverse_normalize")],
     (), ["the Java strings and exceptions a Java caller sees"])

prop("P01", "Normalization is total on text", "Every non-empty Unicode text a pipeline accepts has a normalization, and no input makes a call crash, hang or emit malformed tagged text.",
     ("inputs", ), "every input text", "Tests sample a few hundred sentences.", (PROC, ), [("fallback char rule", "*/rules/char.py")])
prop("P02", "Mappings locate exactly the changed spans", "Mappings are ordered, non-overlapping half-open character ranges whose input and output texts equal the corresponding slices, and text outside all mappings (with identities included) is only whitespace or separators.",
     ("inputs", ), "every input text and n-best rank", "Tests check a few sentences.", ("tn/alignment.py", PROC), [("path tracing", "tn/alignment.py")])
prop("P03", "N-best lists are exact, distinct, ordered, and prefix-consistent", "The k best outputs are distinct, in non-decreasing joint cost, the first equals the single-best result, and a smaller k gives a prefix of a larger one.",
     ("inputs", ), "every input text and k", "Tests use toy grammars and a few numbers.", (PROC, ), [("lazy joint enumeration", "tn/processor.py: _normalization_candidates")])
prop("P04", "Tagged-token text round-trips any field value", "Parsing and re-serializing tagged text preserves token names, field values and their required order for any value, including quotes and backslashes; malformed text is rejected.",
     ("inputs", ), "every token stream", "Tests use a few tokens.", ("tn/token_parser.py", ), [("escape/parse", "tn/token_parser.py")])
prop("P05", "Every command-line option reaches the pipeline it belongs to", "Each option, in switch or legacy form, sets exactly the constructor argument of the selected language and direction; options of other pipelines are rejected.",
     ("configurations", ), "every argument vector", "Tests check one vector per pipeline.", ("tn/cli.py", ), [("argument tables", "tn/cli.py")])
prop("P06", "Tagging preserves the raw input in its fields", "The tagger never rewrites content: concatenating the raw field values of the tagged text accounts for the whole input up to separators.",
     ("inputs", ), "every input text", "Tests check a few sentences.", ("docs/python-rule-architecture.md", PROC), [("tag_field", "tn/processor.py")])
prop("P07", "The C++ runtime gives the same results as Python", "For the same exported graphs the C++ runtime tags, reorders and verbalizes as the Python pipeline does.",
     ("inputs", ), "every input text", "The C++ tests need a build that downloads dependencies.", ("runtime/processor", ), [("token parser and processor", "runtime/processor")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
