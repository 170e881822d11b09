#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
PENDING = set(os.environ.get("PENDING", "").split())
SIM = "deterministic simulation of the whole daemon with seeded schedules and fault injection; "
T = {
 "C01": "accepted-job ledger against queue and histories over kills, restarts and I/O errors",
 "C02": "serial reference model in acceptance order, checked at every quiescent point",
 "C03": "hand-out and execution counts of every job under seeded worker interleavings",
 "C04": "status history against the ledger of executed jobs",
 "C05": "conservation check of references, entries and pool files after every settled phase",
 "C06": "continuous invariant on published indexes and files at every file operation",
 "C07": "index compared with one computed by a reference model",
 "C08": "continuous invariant on index files at every file operation, with kills and disk errors",
 "C09": "refinement against an executable reference model of the repositories",
 "C10": "refinement against an executable reference model of the repositories",
 "C11": "frame conditions of the reference model on repositories that are not targets",
 "C12": "refinement against a reference model of uploads, incoming directory included",
 "C13": "kill at seeded file operations, restart, consistency and before/after comparison",
 "C14": "kill at seeded file operations, restart, comparison with the uninterrupted outcome",
 "C15": "seeded EIO, ENOSPC, short writes and tool failures, then recovery against the model",
 "C16": "generated malformed input with liveness and containment checks",
 "C17": "bounded simulated-time liveness after the last disturbance, deadlock detection",
 "C18": "signals at seeded points, bounded exit, restart and comparison with the model",
 "C19": "several simulated daemons with overlapping starts, stops and kills on one directory",
 "C20": "model of bucket contents against the database under concurrency, kills and I/O errors",
 "C22": "requests on the simulated wire and output compared with the arguments and answers, under directory read errors, dead, slow and refusing daemons and kills",
 "C23": "the real Cloudflare client against a simulated service that errs, refuses, stalls and loses answers; requests compared with the list and with the moment the index files changed",
 "C24": "mode of the socket checked at every accepted connection, under seeded umasks, failing chmod, restarts and inherited sockets",
 "C21": "delta contents and listings recomputed from the packages under kills and I/O errors",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]}); continue
    if i in PENDING:
        na.append({"property": i, "reason": "its scenarios are being built"}); continue
    checks.append({"property": i, "quick_cmd": "./check.sh %s -tier quick" % i, "thorough_cmd": "./check.sh %s -tier thorough" % i,
      "evidence_file": "evidence/%s.json" % i, "technique": SIM + T[i], "level": "exploration",
      "level_note": "Seeded search, not exhaustive: nothing was violated in the scenarios, schedules and fault sequences counted in the evidence. The daemon's own code and its database library are compiled from /repo and run unmodified apart from redirected imports; the operating system, HTTP transport and compressors are stand-ins. A kill loses no completed file operation (process crash, not power loss)."})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: build.sh copies the packages of the working tree into the ignored .build/tree and redirects their imports and concurrency statements to the simulator there. Exit 2 means the check could not decide (does not build, harness trouble)."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
