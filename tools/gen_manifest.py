#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
EX = "bounded exhaustive exploration of the real decoder against an independent SCALE reference model"
TG = "bounded exhaustive exploration of real target decodes against a reference model of each target type"
SL = "stateless model checking of the real code: all choice sequences within a deviation bound"
T = {
 "C01": (EX, "every (type, bytes) within the bounds is decoded by the real code in 5 ways of reading containers and compared node by node with a reference decoder written from the SCALE rules"),
 "C02": (EX, "consumption compared with the reference end offset for every explored value, with every tail, every truncation and all short streams of values; visitors, ignoring visitor and all target types"),
 "C03": (SL, "a visitor whose every callback chooses between decoding all, some, none, iterating, skipping, failing and swallowing; all choice sequences within the bound on the real code"),
 "C04": ("bounded exhaustive exploration of hostile bytes and types under crash, panic and hang monitors", "every small-alphabet byte string, invalid and huge-length encoding, failing resolver position and nesting depth within the bounds, in forked workers with overflow checks on"),
 "C05": ("bounded exhaustive exploration with an allocation monitor", "peak and total allocation of every explored decode compared with a bound linear in the input length"),
 "C06": (SL, "all operation sequences up to a depth on every container handle, compared step by step with a cursor model"),
 "C07": (SL, "all orders, repetitions and clones of decoding iterated items compared with in-place decoding"),
 "C08": (SL, "a visitor failing at every callback position, before or after reading, on well-formed and malformed bytes"),
 "C09": (TG, "all 8 and 16 bit values and all boundary values of wider integers, for all sources and targets, against exact arithmetic"),
 "C10": ("bounded exhaustive relational exploration: compact against plain encodings of the same values", "every explored compact encoded value also decoded in plain form by the real code"),
 "C11": ("bounded exhaustive differential exploration against the static codec", "both decoders run on all explored encodings, truncations and arbitrary bytes"),
 "C12": ("bounded exhaustive relational exploration: wrapped against bare sources", "all wrapper combinations up to a depth around every source shape"),
 "C13": (TG, "all lengths up to a bound and all source shapes for every collection, array, tuple and range target"),
 "C14": (TG, "all field lists up to a length over own, skipped, foreign and no names for every derived struct, and maps"),
 "C15": (TG, "all field lists up to a length for every variant of derived enums, options and results, at several indices"),
 "C16": ("bounded exhaustive relational exploration: field lists against type IDs", "every field-wise target decoded both ways on all explored field lists and bytes"),
 "C17": ("bounded exhaustive relational exploration over resolvers", "same types described by three resolvers; failing or unknown type at every position"),
 "C18": (SL, "all placements of the bail-out hook's answers, and every adapter and helper against the bare visitor"),
 "C19": ("bounded exhaustive exploration of bit sequences against a reference model", "all 8 formats, all lengths to a bound, all orders of questions asked of the handle"),
 "C20": (TG, "locations of every explored failure compared with those the model derives; all sequences of adding context"),
 "C21": ("bounded exhaustive exploration with allocation and address monitors", "every explored visit checked for zero allocations and for views into the caller's input"),
 "C23": (SL, "visitors implementing every choice of kinds at every value, with all answers of the catch-all, against a model of the calls; and all targets on all kinds of value"),
 "C22": ("exhaustive exploration of histories, nestings and two-thread schedules under a controlled scheduler", "each decode's outcome compared with its outcome in isolation"),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{here}/mc/src/bin/{i.lower()}.rs"):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
