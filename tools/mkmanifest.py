#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of decided properties below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
DECIDED = {
 "C01": ("seeded histories on simulated storage with crashes, compared with a from-scratch Patricia-Merkle root", ""),
 "C02": ("seeded histories on simulated storage, compared operation by operation with a map", ""),
 "C03": ("crash/restart simulation on a serialising disk with commit groups, lost commits and failing accesses", "Assumes the backend applies commit groups atomically."),
 "C04": ("overlay stacks with flush, discard, crash and storage failure against a layered model", "Assumes a store is not written behind an overlay tree that has pending changes."),
 "C05": ("seeded block histories with storage failures and crashes inside pushes, compared with a reference ledger before and after", "Assumes the backend applies commit groups atomically."),
 "C06": ("seeded block histories; the sum of all stored balances is recomputed after every block and compared with the emission schedule", ""),
 "C07": ("seeded block histories compared verdict by verdict and account by account with an independent reference ledger", ""),
 "C08": ("contract histories under a simulated chain clock that jumps to and around deadlines, against a reference ledger", ""),
 "C09": ("contract histories under a simulated chain clock that jumps to and around deadlines, against a reference ledger", ""),
 "C11": ("discrete-event simulation of a producer and replicas over a faulty network with partitions, crashes and storage failures, against a reference ledger at every height", "Assumes the backend applies commit groups atomically and replicas check the root in the header."),
 "C12": ("generated messages of every type carried over a simulated byte stream with fragmentation and loss, compared field by field and byte by byte with a reference encoder", ""),
 "C13": ("corrupted, truncated, spliced and random bytes delivered to every decoder, judged against a reference grammar", ""),
 "C14": ("failing element codecs injected at every position of generated shapes, with short buffers and oversized lengths", ""),
 "C15": ("seeded interleavings of concurrent supply queries under preemption inside the instrumented code, against an independently computed emission schedule", ""),
 "C16": ("seeded interleavings of concurrent library calls under preemption inside the instrumented code, compared with the serial outcome", "Preemption points are at statement granularity."),
 "C17": ("generated profiles on a simulated disk with damaged files and failing reads, against independent parsers and a reference ledger", ""),
 "C18": ("the import command run inside the simulator on archives, profiles and disks with injected damage and read faults, against an independent archive reader and reference ledger", ""),
 "C19": ("address texts carried through a lossy channel (substitution, transposition, case, spacing, truncation), against an independent IBAN reference", ""),
 "C20": ("signed transactions and proofs damaged field by field in transit, against independent Ed25519 and hash references", ""),
 "C24": ("a simulated hostile sender blows up, truncates and invents announced lengths at every offset; allocation and executed statements are held against the bytes given", "Bounds: 64 KiB + 1024 bytes allocated and 4000 + 200 statements per byte given."),
 "C10": ("histories that empty contracts and declare exact and damaged prune lists, against a reference ledger", ""),
 "C25": ("the export script talks to a simulated node that reorders, loses, doubles, damages and fails answers, and writes to an output that runs full; its archive is compared with the node and imported by the simulated import command", "Assumes that the node gives the right bytes for a number where it gives any."),
 "C26": ("histories on trees of hundreds of entries with crashes, failing accesses, flushes and discards; storage accesses and executed statements are counted under the simulator and held against the longest path", "Bounds per entry touched: 58 accesses plus 10 and 3000 statements per branch on the longest path, three to five times what the code takes."),
}
NA = {
 "C21": "Pure function of one integer: no schedule, clock, fault, history or interleaving can influence it, so there is nothing to simulate.",
 "C22": "Revert is an unimplemented stub that always panics; there is no behaviour to decide.",
 "C23": "No signature or pre-image verification stage exists in the repository (state transitions only compare the named signer address, which C08/C09 decide); there is no behaviour to decide.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DECIDED:
        tech, note = DECIDED[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T + ": " + tech,
            "level": "exploration",
            "level_note": ("Seeded sampling of schedules, histories and faults; a clean batch is evidence, not proof. " + note).strip(),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "go build -overlay (no hook is committed in /repo)",
  "enable": "check.sh instruments a copy of the current /repo source at build time (sim/instr): preemption points, simulated locks, map iteration order, file access and exit; the copy is linked through an overlay file and /repo is not changed.",
  "source_commits": [],
 },
 "checks": checks,
 "not_applicable": na,
 "notes": "See DESIGN.md. Replay a violation with ./check.sh <ID> replay <file>.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
