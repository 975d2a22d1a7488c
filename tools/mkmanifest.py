#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run in /verif)."""
import json, sys
sys.path.insert(0, ".")
from vlib.registry import CHECKS
ADS = "TLA+ specification (ADS) model-checked with TLC; TLC-computed behaviours replayed on the real database"
T = {
 "C01": (ADS, "TLC: ADS against a sequential map for all small block histories; real code compared with TLC's expectation after every block of generated histories (every edge of the 3-key block graph, large random histories)."),
 "C02": (ADS, "TLC: chain, serial-number and deactivation invariants; real chain walk, scans, counts and activity flags compared after every block."),
 "C03": (ADS + "; roots recomputed from TLC's record log by an independent hasher", "Every root of every replayed history is compared, across file sizes, buffer sizes, worker counts, prepare orders, restarts."),
 "C04": (ADS + "; symbolic Merkle specification", "Proofs of live keys checked against independently computed roots, every field altered; absent keys."),
 "C05": ("TLA+ crash specification (Crash) model-checked; crash images enumerated from system-call traces of the real code, recovered and compared with ADS expectations", "Crash images at system-call boundaries of block and prune steps, reordered data-file flushes, repeated crashes."),
 "C06": (ADS, "TLC: recovery from the log equals the state before; replays with restarts at many boundaries, stored metadata compared."),
 "C07": (ADS, "TLC: compaction keeps every invariant; replays reaching many compactions; nothing observable changes; stored oldest-twig positions compared."),
 "C08": (ADS, "TLC: pruning never touches what is live or recovered; replays with many prunings, restarts, released files, history queries below the prune height."),
 "C09": (ADS, "TLC: every past version is in the log; replays query many heights, including after forced key-value-store compactions and restarts."),
 "C10": ("TLA+ specification (Rabbit) model-checked with TLC; every transition replayed on the real rabbit store", "Every small map operation graph with forced slot collisions, plus long behaviours."),
 "C11": ("TLA+ specification (Stores) model-checked with TLC; behaviours replayed on the real stores", "Nested transactions, discards, write-backs, cache rules and sizes, restarts; captured contents replayed on a replica."),
 "C12": ("TLA+ specification (Readers) model-checked with TLC; recorded concurrent histories validated by TLC", "Concurrent readers and writer traces of the real store checked against the specification; concurrent prepares."),
 "C13": ("TLA+ specification (Index) model-checked with TLC; behaviours replayed on the real index", "All range queries over small key sets with special bit patterns; rebuild from persistent records."),
 "C14": ("TLA+ specification (HPFile) model-checked with TLC; behaviours replayed on the real record files", "Record sizes around buffer/file boundaries, marker bytes at every alignment; truncate, prune, reopen, scan."),
 "C15": ("TLA+ specification (DataTree) model-checked with TLC; behaviours replayed on the real data tree", "Trees recovered and loaded at block boundaries compared with the one in memory and with the specification."),
 "C17": ("TLA+ specification (Damage) model-checked with TLC; the outcome it gives to each alteration replayed on the real files", "Every alteration of every file cell of small databases in TLC; hundreds of byte changes and cuts of real databases and checkpoints in every area."),
 "C16": ("TLA+ specification (Rabbit, RabbitPar) model-checked with TLC; behaviours replayed on the real rabbit store", "All pairs of short transactions on every state of colliding keys; rounds of concurrent transactions on the real store, slot scans and paths compared."),
}
PENDING = "the check of this property is still being built"
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: tuning constants are turned into variables by a build overlay generated from the working tree (harness/cmd/mkoverlay); /repo holds only fix: commits.", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in sorted(T):
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=${VERIF_TIER:-quick} python3 check.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                            "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": PENDING})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
