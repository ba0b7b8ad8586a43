#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a monitor."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C01": "runtime monitor: standard-library Ed25519/SHA-512 oracle over the bytes the harness wrote, for every kind of readable path",
 "C02": "runtime monitor: match and verify verdicts against reference key identifiers, altered and neighbouring identifiers",
 "C03": "runtime monitor: written versus read-back objects, cross-read by a reference implementation",
 "C04": "runtime refusal monitor: near-miss passphrases and altered secrets, salts and parameters; file-mode and raw-secret scanners",
 "C05": "runtime monitor: every key that loads from mutated files is exercised (sign, encrypt, decrypt) against a reference",
 "C06": "differential runtime monitor against ssh-keygen, x/crypto/ssh and a reference container, with field-wise damage",
 "C07": "runtime monitor: generated authorized-keys files of known meaning, cross-checked with x/crypto/ssh and ssh-keygen",
 "C08": "runtime round-trip monitor over length x block size x recipients x API pairings, reference implementation on either side",
 "C09": "runtime membership monitor: every listed key opens, every other key is refused and sees no byte",
 "C10": "fault injection on real files with prefix-only release monitor",
 "C11": "runtime verdict monitor against insider forgeries from a reference implementation",
 "C12": "history monitor: call sequences (exhaustive when short) checked against a state model",
 "C13": "fault injection at every I/O operation with instrumented readers/writers",
 "C14": "hostile-input stress in memory-limited processes with crash, allocation and progress monitors",
 "C15": "differential runtime monitor against an independent reference implementation and a golden corpus",
 "C16": "uniqueness, provenance and bit-statistics monitors over recorded values, injected entropy faults",
 "C17": "secret scanner over every output of the running program and library",
 "C18": "directory snapshot monitor around real commands, successful and failing, with injected system-call errors",
 "C19": "exit-status monitor with injected system-call faults (strace), full devices and limits",
 "C20": "crash injection (strace SIGKILL at each system call) and concurrent reader monitor",
 "C21": "Go race detector plus outcome monitor under concurrent stress with injected yields",
 "C22": "resource leak monitors (descriptors, mappings, goroutines, files) over repeated operations",
 "C23": "lag and memory monitors on instrumented streams and memory-limited commands",
 "C24": "runtime monitor: all keys of a case are tried on the output, exactly the named ones may open it",
 "C25": "runtime monitor: snapshots, modes and reference reading of generated pairs under options, umasks and faults",
 "C26": "differential runtime monitor against an independent big-integer conversion, with searched boundary values",
 "C27": "contract monitors on instrumented streams (ownership, order, close count)",
 "C28": "end-to-end runtime monitor: random command mixes (pty and pipes included) judged by a reference implementation",
}
LEVEL = {"C10": "fault_enumeration", "C13": "fault_enumeration", "C19": "fault_enumeration", "C20": "fault_enumeration"}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(f"{V}/harness/p_{i.lower()}.go"):
        na.append({"property": i, "reason": "monitor not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick ./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "technique": TECH[i],
        "level": LEVEL.get(i, "exploration"),
        "level_note": "Held on the executions observed (counts in the evidence file); see DESIGN.md for oracle, workload and bounds. Trusts the Go toolchain, the standard library and the reference implementation in harness/ref.go.",
    })
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "Black-box monitors: no hooks in /repo. Every check rebuilds harness and program from /repo's current tree (go build -overlay)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
