#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import props

STEP = "runtime monitor: random hostile histories on the real code, every step judged online against a list model"
SET = "runtime monitor: random histories on the real code, every step judged online against a BTreeSet model"
NOTE = "Sampled histories; the oracle judges what was executed, with no claim about histories not reached."
TECH = {
    "C01": STEP, "C02": STEP, "C03": STEP, "C04": STEP, "C05": STEP, "C06": STEP,
    "C07": "sanitizers: AddressSanitizer, MemorySanitizer, Miri (both overflow modes) and native crash attribution over hostile histories with injected panics",
    "C08": "runtime monitor: instrumented element type records every discriminant it is asked to decode, with injected panics",
    "C09": "runtime monitor: counting global allocator against the packed size; conservation of bytes after injected panics",
    "C10": "runtime monitor: counting global allocator against tracked capacity promises",
    "C11": "runtime monitor: out-of-range calls in random histories, state compared before and after",
    "C12": "runtime monitor with fault injection: panics and lying size hints at every point of user code",
    "C13": "runtime monitor: lockstep execution of six storage variants, results compared online",
    "C14": "runtime monitor: width sweep of histories against a list model",
    "C15": "runtime monitor over generated programs: conversions judged against an independent count of values",
    "C16": "runtime monitor over generated type definitions: conversions judged against an independent list of values",
    "C17": "runtime monitor over generated type definitions: numbering judged against independent arithmetic",
    "C18": "runtime monitor: random scripts of iterator calls judged against an integer range",
    "C19": "runtime monitor: exhaustive and sampled packing judged against the discriminants",
    "C20": "observed build and run verdicts of twin programs around each limit",
    "C21": SET, "C22": SET, "C23": SET,
    "C24": "race detection (ThreadSanitizer, Miri) and result comparison of concurrent readers; observed Send/Sync",
    "C25": "runtime monitor: independent bit-level decoder of storage() after every step",
    "C26": "runtime monitor: instruction counts (callgrind) and allocation counts compared across lengths",
    "C27": "observed build and run verdicts of twin programs around 2^64 values and around what the derive accepts",
}
NOT_YET = {}

ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
