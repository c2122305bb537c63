#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

NA = {
    "N01": "A pure function of its arguments: no time, I/O, randomness, scheduling or shared state for a simulator to control; sampling points would be plain input fuzzing, not this technique.",
    "N02": "Pure arithmetic on two or more points; nothing to schedule, delay, fail or crash.",
    "N03": "Pure arithmetic on immutable boxes; nothing to schedule, delay, fail or crash.",
    "N04": "Pure functions of strings, and no time, I/O or concurrency behind them.",
    "N05": "A pure function of stops and position.",
}
NOTE = ("Seeded search, not exhaustive: every listed fault kind and pre-emption is placed at sampled points of sampled scenarios; the property is checked against an independent "
        "model during and after each run. Trusted: the simulated disk, clock and process layer in dst/, CPython's io buffering. ")


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in ids:
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
            continue
        if not os.path.exists(os.path.join(ROOT, "dst", "props", p.lower() + ".py")):
            na.append({"property": p, "reason": "check not built yet"})
            continue
        m = importlib.import_module("dst.props." + p.lower())
        checks.append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick ./check " + p,
            "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection (seeded search over histories, schedules and faults)",
            "level": "exploration",
            "level_note": NOTE + "Assumes: " + "; ".join(m.ASSUME) + ".",
        })
    out = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 12)\" && ./check digests C01 0 1 > /dev/null",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam (files, directories, temporary names, processes, clocks, line-level pre-emption) is taken through Python itself. "
                 "Replays: ./check replay replays/<file>. DST_WORKERS, DST_SEEDS and DST_REPO override workers, seeds and the tree under test.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
