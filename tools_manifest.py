#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
EX = "Seeded exploration: a clean batch is evidence, not proof. "
notes = {
 "C01": "Exact no-false-negative, monotonicity and growth oracle after every step of every simulated run.",
 "C02": "Exact set-of-alias-classes oracle under simulator-chosen eviction sequences; aliases are learned from single-item filters of the code under test.",
 "C03": "Exact set oracle for wide fingerprints, no-loss oracle otherwise; entropy failures at stage growth.",
 "C04": "Exact set-of-alias-classes oracle on small tables that wrap around and fill up; slots wider than 64 bits are a listed known finding.",
 "C05": "Bounds that hold for every choice sequence after every insert; occupancy and forgetting against three independent reference models with a calibrated tolerance.",
 "C06": "Gossip over a faulty simulated network against a fresh sketch of the union; statistical accuracy bounds (7 sigma single, 1.5 sigma rms) for well-mixed hashers.",
 "C07": "Equality with a fresh sketch fed the net weights, for every item, plus the strategy order.",
 "C08": "Two lanes with equal random choices, one of which restarts from snapshots; every accessor and answer is compared.",
 "C09": "Faults at seeded bytes of every transfer and sweeps over prefixes; bit rot is out of scope.",
 "C10": "Two lanes, one with injected panics in the item's Hash; only the item's Hash panics.",
 "C11": "Replica agreement after simulated delivery with faults, and against in-order delivery.",
 "C12": "Entropy behind a seam; processes are fresh threads; per-bit variation is statistical with negligible false-alarm probability.",
 "C13": "Reader threads interleaved by the plan at every callback into caller code and, through compiler instrumentation, at memory accesses of the code under test; sequentially consistent interleavings only; Send and Sync asserted by the compiler.",
 "C14": "Signatures and reports compared between simulated nodes and with in-order delivery; hash-map seeds behind a seam.",
 "C15": "Every instance's history is replayed alone and compared; a second variant drives the instances from threads interleaved at memory accesses (sequentially consistent interleavings only).",
 "C50": "Measured over fleets of 300 simulated processes with their own entropy; an alarm needs the mean rate to exceed 1.1-1.2 configured rates by 6.5 standard errors, so smaller excesses pass.",
 "C52": "Measured over fleets of 250 simulated processes under equally heavy items; an alarm needs delta to be exceeded by 6.5 standard errors.",
 "C53": "Bias and root-mean-square error measured over fleets of 200 simulated processes; SimHash distance against simulated ideal hashes.",
 "C56": "Formula and monotonicity are exact after every step; agreement with the measured rate is statistical (factor 0.85-1.25, less where cuckoo buckets coincide).",
 "C16": "Hash evaluations and random draws of every call are metered against fixed bounds; a watchdog catches endless loops.",
}
na = {
 "C51": "A pure function of the constructor arguments; nothing nondeterministic to simulate (sizes are only compared for equality inside C08, C11 and C15).",
 "C54": "A pure iterator over its argument: no nondeterminism, fault or history.",
 "C55": "Private pure data structures; their effect on observable behaviour is covered through C01, C02, C04 and C08.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p} quick",
   "thorough_cmd": f"./check.sh {p} thorough",
   "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences, reference-model oracle)",
   "level": "exploration",
   "level_note": EX + n,
 } for p, n in notes.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "No hooks in /repo: entropy and the random-choice stream are controlled by patching the getrandom and rand_xorshift crates in the harness's own build (/verif/seams), hash-map seeds by the harness's getrandom symbol, everything else by types the crate takes as parameters. Replay a violation with ./check.sh replay FILE.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
