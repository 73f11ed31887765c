#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
DESC = "src/description.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["Resolver::resolve", "Resolver::load_side_effects"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CACHE = [("description cache", "directory -> parsed description file", "src/cache.rs ResolverCache"),
         ("export/import tree caches", "field content -> parsed tree", "src/cache.rs ResolverCache")]
LOAD = ("description file lookup and cache validation", "src/description.rs load_pkg_file")
PARSE = ("description file reading and parsing", "src/description.rs parse_description_file")
FRESH = ("modification-time comparison", "src/fs.rs")
TS = ("tsconfig loading, on every call", "src/tsconfig.rs parse_file_to_value")

prop("C01", "Past calls never change an answer",
 "On a file tree that does not change, every resolve and side-effects call returns exactly what a brand-new resolver with the same options would return - same path, query, fragment, side-effects data, ignored outcome or error text - no matter which calls, successful or failing, were made on that resolver before.",
 ["histories", "inputs", "configurations"], "every sequence of calls on one resolver, every tree and every option set, every hash seed",
 "The tests make one or two calls on each resolver and compare with fixed paths; an answer that only goes wrong after a particular earlier call (a cache keyed or filled wrongly) is outside the handful of orders they sample.",
 ["src/cache.rs", DESC, "src/fs.rs", "src/lib.rs", "src/resolve.rs", "src/map.rs"], [LOAD, PARSE], CACHE)
prop("C02", "Concurrent callers get the serial answers",
 "Any number of threads may call one resolver at the same time: on an unchanging tree each call returns exactly the answer it would return on its own, whatever the interleaving, and no call panics or deadlocks.",
 ["schedules", "inputs"], "every interleaving of the callers' steps, down to single basic blocks and lock operations",
 "No test uses two threads on one resolver; the quantifier is over thread schedules, which a test run samples once and cannot choose.",
 ["src/cache.rs", DESC, "src/fs.rs", "src/lib.rs"], [LOAD, ("sharded concurrent maps", "src/cache.rs")], CACHE)
prop("C03", "Sharing a cache is invisible",
 "Resolvers that share one external cache answer every call exactly as they would with a cache of their own, even when their options differ (description file name included) and whatever the order or interleaving of their calls.",
 ["histories", "configurations", "schedules"], "every set of option sets sharing a cache, every order and interleaving of calls on them",
 "shared_cache_test makes three calls in one order on one thread with options that hardly differ.",
 ["src/cache.rs", DESC, "src/lib.rs", "src/options.rs"], [("external_cache option", "src/lib.rs Resolver::new"), LOAD], CACHE)
prop("C04", "Description file edits are seen by later calls",
 "Once the content of a description file has been replaced and its modification time has moved forward by a second or more, every call that starts afterwards uses the new content, in every resolver using the cache. This holds whatever calls were in flight during the edit, and also if some call saw the file half-written.",
 ["schedules", "histories", "crash_points"], "every interleaving of edits (atomic, or truncate-then-write in pieces) with calls on several threads and resolvers",
 "cache_fs edits one file twice with nothing running; it cannot place the edit between the read, the stat and the cache insertion of a call in flight, where staleness arises.",
 [DESC, "src/fs.rs", "src/cache.rs"], [LOAD, FRESH, PARSE], CACHE)
prop("C05", "Clock trouble never breaks or staleness-locks a call",
 "A description file whose modification time moves backwards, lies in the future or before 1970, or a wall clock that jumps, never makes a call fail or panic. Content that arrives with an earlier modification time than the content it replaces is used by every call that starts afterwards.",
 ["histories", "fault_sequences", "schedules"], "every sequence of modification times and clock jumps, in either direction",
 "The only edit test moves real time forward by three seconds; backward or odd timestamps (restored backups, unpacked archives, clock corrections) are never produced.",
 ["src/fs.rs", DESC], [FRESH, LOAD], CACHE)
prop("C06", "Description files may appear and disappear",
 "When a description file is created, deleted or moved, or a directory on the way to it is replaced (successive contents at one place having modification times a second or more apart), every call that starts afterwards answers according to the new situation, also for lookups from directories below it. Neither the presence nor the absence of a description file found by an earlier call is taken for granted.",
 ["histories", "schedules"], "every history of creations, deletions, renames and directory swaps interleaved with calls",
 "No test creates or deletes a description file while a resolver lives.",
 [DESC, "src/cache.rs", "src/utils.rs"], [LOAD, ("search upwards", "src/utils.rs find_up")], CACHE)
prop("C07", "tsconfig edits take effect at once",
 "An edit to the configured tsconfig file, or to a file it extends, takes effect for every call that starts after the edit, however soon after the previous edit it comes and whatever the modification times are.",
 ["histories", "schedules", "crash_points"], "every history of edits to the tsconfig chain interleaved with calls, including edits within one clock tick",
 "The tsconfig tests never edit a tsconfig; whether a result depends on an earlier version needs histories.",
 ["src/tsconfig.rs", "src/tsconfig_path.rs"], [TS])
prop("C08", "Changes to the module tree take effect at once",
 "Creating, deleting, renaming or replacing module files and directories, or retargeting symbolic links, takes effect for every call that starts after the change: whether a module exists, what kind it is and what its real path is are never remembered between calls.",
 ["histories", "schedules"], "every history of changes to files, directories and links interleaved with calls",
 "Fixture trees are static; a remembered probe or real path only shows after a change between two calls.",
 ["src/resolve.rs", "src/plugin/extensions.rs", "src/normalize.rs", "src/plugin/exports_field.rs", "src/plugin/imports_field.rs"],
 [("direct probing of the file system", "src/resolve.rs resolve_as_file, resolve_as_dir"), ("final real-path step", "src/normalize.rs normalize_path")])
prop("C09", "A failed file operation hurts only its own call",
 "When a file system operation fails, only the call that issued it may be affected: every call that suffers no failure itself - running at the same time, or later on the same resolver or shared cache - answers exactly as if no failure had ever happened.",
 ["fault_sequences", "schedules", "histories"], "every placement of failing operations (stat, open, read, real path) and every interleaving",
 "No test injects an I/O failure; the quantifier is over fault placements and what they leave in the caches.",
 [DESC, "src/fs.rs", "src/cache.rs"], [PARSE, LOAD], CACHE)
prop("C10", "Unreadable configuration is reported, not ignored",
 "If a description file or tsconfig that a call needs exists but cannot be opened, read or parsed, the call returns an error naming that file, or the answer it would give with the file intact; it never answers as if the file were absent, empty or an older version. (Where options list alternative candidates - aliases, prefer-relative, path mappings - a candidate that fails this way may be skipped in favour of the next.)",
 ["fault_sequences", "crash_points", "inputs"], "every failing open or read and every unparsable content, at each place a configuration file is needed",
 "The tests contain a few malformed package.json files and no I/O failures; silent fallback needs a failure at a specific operation.",
 [DESC, "src/fs.rs", "src/tsconfig.rs", "src/plugin/main_field.rs", "src/resolve.rs"], [PARSE, TS, ("error propagation", "src/resolve.rs resolve_as_modules, resolve_as_dir")])
prop("C11", "Interrupted calls and short reads are invisible",
 "Opens and reads that are interrupted by signals, and reads that return fewer bytes than asked for, at any point and any number of times, never change an answer.",
 ["fault_sequences"], "every placement of EINTR and every split of every read",
 "Real file systems practically never interrupt or shorten a read of a small file, so no test sees it.",
 ["src/fs.rs", "src/tsconfig.rs"], [("whole-file reads", "src/fs.rs read_to_string, src/tsconfig.rs read_to_string")])
prop("C12", "Half-written or corrupt files never crash a call",
 "Whatever bytes a description file or tsconfig holds when it is read - empty, cut short, zero-filled, overwritten in part, corrupted, or of an unexpected shape - the call returns normally with an answer or an error: it never panics, aborts, overflows the stack or loops, neither in the call nor when the resolver is dropped. Once the file is repaired, later calls answer as if the damage had never been there.",
 ["crash_points", "fault_sequences", "histories"], "every prefix of every write, every corruption, interleaved with calls",
 "The fixtures hold a handful of malformed files and none that changes; the states in the middle of a write are never present in a test.",
 [DESC, "src/tsconfig.rs", "src/map.rs"], [PARSE, TS, ("field parsing", "src/map.rs from_json, build_field_path_tree")])
prop("C13", "Every call finishes",
 "Every call returns after a bounded number of file system operations, under any interleaving, while operations fail and while files and directories vanish, reappear or change kind under it, and also where aliases, browser-map entries, imports entries, main fields, symbolic links or tsconfig extends lead back to themselves; callers never deadlock or spin on one another.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of callers, tree changes and failures, every graph of redirections",
 "Tests run on trees that stand still, where every loop exits; a loop that relies on a directory staying there needs a change at one instant.",
 [DESC, "src/cache.rs", "src/utils.rs", "src/resolve.rs"], [LOAD, ("upward walks", "src/utils.rs find_up, src/resolve.rs resolve_as_modules")], CACHE)
prop("C14", "A stalled caller holds up nobody else",
 "If one caller's file system operation hangs, for example on an unresponsive network mount, every other call on the same resolver or shared cache that does not itself touch the hung operation still completes, with its usual answer.",
 ["schedules", "fault_sequences"], "every operation of every caller as the one that hangs, every interleaving of the others",
 "No test stalls an operation; a lock held across I/O is invisible when I/O is quick.",
 [DESC, "src/cache.rs", "src/fs.rs"], [LOAD, ("map guards", "src/cache.rs")], CACHE)
prop("C15", "Answers do not depend on hash randomness",
 "The same tree, options and sequence of calls give the same answers in every process: which of several matching browser-map entries, tsconfig path patterns or conditions wins never depends on per-process randomness.",
 ["configurations", "inputs", "schedules"], "every seed of the standard library's hash maps, for every tree and option set",
 "A test process has one random seed and its fixtures keep matching entries disjoint; a flaky winner needs overlapping entries and many seeds.",
 ["src/plugin/alias_field.rs", "src/tsconfig_path.rs", "src/tsconfig.rs", DESC, "src/map.rs"],
 [("browser map lookup", "src/plugin/alias_field.rs"), ("path pattern order", "src/tsconfig_path.rs get_absolute_mapping_entries")])
prop("C16", "An unchanged description file is read once",
 "As long as a valid description file does not change, a resolver opens it once: after a call that read it has returned, no later call on that resolver opens the same file by the same path again, whatever calls happen in between and on however many threads (resolvers sharing its cache using the same description file name).",
 ["histories", "schedules"], "every sequence and interleaving of calls on an unchanging tree",
 "pkg_info_cache_test counts two cache entries after two calls; re-reading shows only in counts of file operations over longer histories.",
 [DESC, "src/cache.rs", "src/fs.rs"], [LOAD, FRESH], CACHE, ["file open operations on description files"])
prop("C17", "An answer names a file that was really there",
 "A path returned by a successful resolve named an existing regular file at some instant between the start and the end of that call, also while files are being created, deleted and replaced; with symlink resolution on it was then free of symbolic links.",
 ["schedules", "histories"], "every interleaving of calls with changes to the tree",
 "Nothing changes during a call in any test.",
 ["src/resolve.rs", "src/normalize.rs", "src/plugin/extensions.rs", "src/plugin/exports_field.rs"],
 [("existence probes", "src/resolve.rs"), ("final real-path step", "src/normalize.rs")])
prop("C18", "Calls are read-only and leave nothing behind",
 "No call creates, changes or deletes anything in the file system, opens any file other than description files and tsconfig files, or changes the environment, working directory or umask of the process; and every file descriptor a call opens is closed when it returns, whichever operation fails and however calls interleave.",
 ["fault_sequences", "schedules", "inputs"], "every call, every failing operation",
 "Tests look at answers, not at side effects or descriptors, and inject no failure.",
 ["src/fs.rs", "src/tsconfig.rs", DESC], [("scoped file handles", "src/fs.rs read_to_string, src/tsconfig.rs read_to_string")], None, ["file system operations issued by a call"])
prop("C19", "A change during a call acts at one instant",
 "A call that overlaps one change of the tree answers as a brand-new resolver would if that change happened at some instant during its own run: the caches never add an outcome that mixes the old and the new version in any other way.",
 ["schedules", "histories"], "every instant of every call as the moment of the change, every cache state and interleaving of other callers",
 "Needs a change placed between two operations of one call, with the cache warm, cold or being filled by another caller.",
 [DESC, "src/cache.rs", "src/fs.rs", "src/resolve.rs"], [LOAD, PARSE], CACHE)

prop("C20", "Tracing is invisible",
 "With a tracing subscriber installed that records every span and every field, each call gives the same answer, performs the same file operations and finishes just as without one, also with several callers at once: no deadlock, panic or stack overflow because of what is recorded.",
 ["schedules", "histories", "configurations"], "every history and interleaving of calls, with everything recorded",
 "One unit test installs a subscriber, on one thread, for five calls; the spans record the resolver with its caches and maps, so recording takes locks that only other interleavings hold, and walks structures whose depth depends on the files.",
 ["src/lib.rs", "src/resolve.rs", "src/fs.rs", DESC, "src/map.rs", "src/cache.rs"], [("instrumented functions and what they record", "#[tracing::instrument] in src/"), LOAD], CACHE)
prop("C21", "Memory does not grow with the number of calls",
 "When the same calls are made over and over - succeeding or failing, on one thread or several, while description files switch between the same contents and resolvers on a shared cache are dropped and made anew - the memory held by resolvers and caches stops growing.",
 ["histories", "schedules", "fault_sequences"], "every repeated sequence of calls, with failures and edits in it",
 "Tests make at most a few calls per resolver and look at no memory; growth per call shows only over many rounds of the same calls.",
 ["src/cache.rs", DESC, "src/lib.rs", "src/map.rs"], [LOAD, PARSE], CACHE, ["bytes allocated by calls and not freed"])
prop("C22", "Calls do not become dearer by repetition",
 "On an unchanging tree a call never performs more file operations than it does on a brand-new resolver, and neither the file operations nor the computation of a call go up as it is repeated or as other calls are made on the resolver.",
 ["histories", "configurations"], "every history of calls on a still tree, hundreds of calls long",
 "Tests measure no cost; a cache that is scanned, revalidated as a whole or filled with something that is looked through on every call gives right answers at a rising price.",
 ["src/cache.rs", DESC, "src/fs.rs", "src/resolve.rs"], [LOAD, FRESH], CACHE, ["file system operations and executed blocks of each call"])
prop("C23", "Answers depend on tree, options and request only",
 "The wall clock, the modification times and inode numbers that an unchanging tree happens to have, the device it is on, environment variables, the process id, the number of processors and (for absolute start paths) the working directory never influence an answer.",
 ["configurations", "histories", "inputs"], "every setting of the surroundings, for every sequence of calls on a still tree",
 "Tests run in one environment each time; dependence on the surroundings shows only when the same history is run again elsewhere.",
 ["src/lib.rs", DESC, "src/fs.rs", "src/cache.rs", "src/tsconfig.rs", "src/normalize.rs"], [LOAD, FRESH, TS, ("final real-path step", "src/normalize.rs")], CACHE)

def na(id, title, statement, why, files, mech):
    prop(id, title, statement, ["inputs"], "every input", why, files, mech)
na("N01", "Exports and imports follow the Node algorithm",
 "For every exports or imports field, request and condition set, the chosen target is the one the Node package entry-point rules prescribe (exact match, longest folder or wildcard match, first matching condition, null and array handling).",
 "The tables in src/map.rs sample it; the quantifier is over all fields and requests.", ["src/map.rs", "src/plugin/exports_field.rs", "src/plugin/imports_field.rs"], [("field matching", "src/map.rs Field")])
na("N02", "A request splits losslessly into target, query, fragment",
 "Every request string splits into target, query and fragment whose concatenation is the request, and query and fragment are carried unchanged into the answer.",
 "parse_identifier_test samples fifteen strings.", ["src/parse.rs"], [("parse_identifier", "src/parse.rs")])
na("N03", "Requests are classified as documented",
 "Every request is classified as relative, absolute (POSIX or Windows), internal or bare exactly as its leading characters say, for any text including non-ASCII.",
 "test_resolver samples a dozen strings.", ["src/kind.rs"], [("get_target_kind", "src/kind.rs")])
na("N04", "Candidates are tried in the documented order",
 "Extensions, main fields and main files are tried in the order given, exact file first unless an extension is enforced, and files before directories.",
 "Fixtures sample a few orders.", ["src/resolve.rs", "src/plugin/extensions.rs", "src/plugin/main_field.rs", "src/plugin/main_file.rs"], [("resolve_as_file, resolve_as_dir", "src/resolve.rs")])
na("N05", "Aliases and browser maps rewrite as documented",
 "An alias or browser-map entry rewrites exactly the requests it matches, in order, and a false entry ignores them.",
 "Fixtures sample it.", ["src/plugin/alias.rs", "src/plugin/alias_field.rs"], [("AliasPlugin, AliasFieldPlugin", "src/plugin")])
na("N07", "tsconfig paths select the most specific pattern",
 "Among the path patterns matching a request, an exact pattern wins over a starred one and a longer prefix over a shorter one.",
 "Fixtures keep patterns disjoint.", ["src/tsconfig_path.rs"], [("match_star, get_absolute_mapping_entries", "src/tsconfig_path.rs")])
na("N08", "Bare requests climb node_modules as Node does",
 "A bare request is looked up in each node_modules directory from the start directory to the root, scoped names taking two segments, and self-references go through the package's own exports.",
 "Fixtures sample a few trees.", ["src/resolve.rs"], [("resolve_as_modules", "src/resolve.rs")])
na("N09", "No request text makes a call panic",
 "No request string or start path, including empty, non-ASCII and malformed scoped names, makes a call panic on a valid tree.",
 "The tests use well-formed ASCII requests.", ["src/resolve.rs", "src/plugin/exports_field.rs", "src/tsconfig_path.rs", "src/parse.rs"], [("string slicing", "src/resolve.rs, src/tsconfig_path.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
