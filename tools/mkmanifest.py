#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties whose harness package exists."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import run
TECH = {
    "C01": "model-based property testing: generated command histories against a reference map (rapid)",
    "C02": "model-based property testing of counters against exact arithmetic (rapid)",
    "C03": "model-based property testing under a controlled clock (rapid + synctest)",
    "C04": "model-based property testing of hash histories against a map of maps (rapid)",
    "C05": "model-based property testing with a full state comparison after every command (rapid)",
    "C06": "generated concurrent histories with schedule perturbation, linearizability checking (porcupine) and the race detector",
    "C07": "model-based property testing with the sweep running under a controlled clock (rapid + synctest)",
    "C08": "round-trip and differential property testing with generated stream fragmentation (rapid)",
    "C09": "structured fuzzing: generated, truncated and corrupted streams against a reference decoder",
    "C10": "differential model-based testing of client calls against a reference server, and generated replies",
    "C11": "generated concurrent call schedules with injected connection faults against an instrumented server, race detector",
    "C12": "generated handshake configurations, server behaviours and faults against an instrumented server",
    "C13": "round-trip property testing with an independent encoder, exhaustive truncation per case",
    "C14": "round-trip property testing with independent encoders of the compact encodings",
    "C15": "round-trip and differential property testing with an independent decoder and token encoder, under the address sanitizer",
    "C16": "generated snapshots from an independent writer, loaded and compared with the generated dataset",
    "C17": "fault injection: truncations and corruptions of generated snapshots",
    "C18": "generated master scripts, fragmentation and disconnects against a scripted master",
    "C19": "model-based end-to-end testing against a scripted master and reference server",
    "C20": "model-based property testing and fuzzing of replicated messages",
}
NOTE = ("Counts and classes of generated cases are in the evidence file. Bounded by the generators' sizes and the case budget; "
        "exploration never establishes absence.")
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    pkg = run.PROPS[p][0]
    src = os.path.join(R, "harness", pkg)
    have = os.path.isdir(src) and any("func Test%s(" % p in open(os.path.join(src, f)).read() for f in os.listdir(src))
    if not have:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p,
                   "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                   "technique": TECH[p], "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
