#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl: C.. are claimed, N.. are not applicable."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = "deterministic simulation with fault injection: seeded search over simulated runs of the real library"
NOTE = {
 "C01": "Seeded search over histories of calls on a still tree; every answer is compared with a brand-new resolver's on the same tree.",
 "C02": "Seeded search over interleavings of 2-4 threads at basic-block granularity; answers are compared with a lone call's; panics and deadlocks are violations.",
 "C03": "Seeded search over option sets sharing one cache, orders and interleavings; compared with resolvers that have caches of their own.",
 "C04": "Seeded search over edits (atomic, truncate and write in pieces) placed between any two steps of calls in flight; later answers compared with a brand-new resolver's.",
 "C05": "Seeded search over modification times forward, backward, future, before 1970, and wall clock jumps; staleness and failures are violations.",
 "C06": "Seeded search over creations, deletions, renames and directory swaps around description files.",
 "C07": "Seeded search over edits of the tsconfig chain, also within one clock tick and with times that do not move.",
 "C08": "Seeded search over changes to modules, directories and links between and during calls.",
 "C09": "Seeded search over failing stat, open, read, realpath placed anywhere; calls without a failure of their own are compared with a run-free oracle on the same tree.",
 "C10": "Seeded search over failing opens and reads and unparsable contents; the answer must be an error naming a configuration file or the intact answer.",
 "C11": "Seeded search over placements of EINTR and splits of reads; the answer must be that of a run without them.",
 "C12": "Seeded search over prefixes, zero-fills, overwrites, corruption and odd shapes of configuration files, at every moment; the simulated process must survive and recover.",
 "C13": "Bounded steps and file operations per call, deadlock detection by the scheduler, under failures, vanishing directories and redirections that lead back to themselves.",
 "C14": "One caller's chosen file operation never returns; every other call must still complete, with a brand-new resolver's answer.",
 "C15": "Each run is repeated with other seeds for the standard library's hash maps; all answers must be the same.",
 "C16": "Opens of valid description files are counted over histories and interleavings on a still tree.",
 "C17": "Every version of the tree during a call is recorded; the returned path must have been a regular file in one of them.",
 "C18": "Every file operation of the process goes through the simulator, which sees all writes and all opens and counts descriptors at the return of each call; changes of the environment, working directory and umask are caught as well.",
 "C20": "The histories and interleavings of the other properties run with a subscriber that formats every recorded field; answers, file operations and file opens are compared with runs and brand-new resolvers without one; deadlocks, panics and stack overflows are violations.",
 "C21": "Forty rounds of the same calls, edits and failures; the bytes allocated by the callers and not freed are compared round by round.",
 "C22": "Forty rounds of the same calls on a still tree, optionally with crowds of other calls in between; file operations are compared with a brand-new resolver's, executed blocks round by round.",
 "C23": "Each run is repeated with another wall clock, time stamps, inode numbers, device, environment, process id, processor count and working directory; all answers must be the same.",
 "C19": "The answer must be that of a brand-new resolver with the change placed at some instant of that resolver's own run (every instant is tried).",
}
TAIL = " The real library and its maps run; file system, clock, scheduling, hash seeds are simulated. Assumes sequentially consistent memory and atomic file operations (DESIGN.md); a quiet run covers the seeds it tried, nothing beyond them."
PURE = {
 "N01": "A pure function of field, request and conditions: no schedule, clock, I/O history or fault takes part, so simulation adds nothing to a table test.",
 "N02": "Splitting a request is a pure function of one string; nothing to schedule or to fail.",
 "N03": "Classifying a request is a pure function of one string; nothing to schedule or to fail.",
 "N04": "On a still tree the order of candidates is a pure function of options and tree; no interleaving, history or fault changes it (what histories may change is C01-C09).",
 "N05": "Rewriting is a pure function of the map and the request (what hash seeds and histories may change is C15 and C01).",
 "N07": "A pure function of pattern set and request (its independence of hash seeds is C15, of histories C07).",
 "N08": "On a still tree a pure function of tree and request (what changes of the tree do is C08, C17, C19).",
 "N09": "A pure function of the request on a still tree; the workloads of C02 and C12 include non-ASCII and malformed requests, but the quantifier over all strings is not one of schedules, faults or histories.",
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are the system calls (interposed in the simulator's process) and compiler-inserted edge callbacks. ./replay.sh FILE reruns a violation exactly."}
for p in props:
    i = p["id"]
    if i in PURE:
        m["not_applicable"].append({"property": i, "reason": PURE[i]})
    else:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                            "technique": T, "level": "exploration", "level_note": NOTE[i] + TAIL})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
