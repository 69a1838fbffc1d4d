#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties which have a check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P01": "property-based testing: generated and exhaustive short octet strings against a reference DER delimiter",
    "P02": "property-based testing: generated nested BER against a recursive reference delimiter",
    "P03": "property-based testing: generated read schedules, reader against slice (differential)",
    "P04": "fuzzing with fault injection under a checking, bounding allocator: every truncation and failure point",
    "P05": "stateful property-based testing of identifiers against a reference encoder",
    "P06": "property-based testing of length octets against a reference encoder, boundaries enumerated",
    "P07": "property-based testing of integers and booleans against a reference two's-complement coder",
    "P08": "property-based testing: every construction and conversion route against id, length, contents laid out by the model",
    "P09": "stateful model-based testing: generated edit histories against (id, contents) rebuilt from scratch",
    "P10": "stateful property-based testing of usage histories under a checking allocator, and in part interpreted with every memory access checked",
    "P11": "property-based testing: pairs of values against comparison of their octets in every representation",
    "P12": "property-based testing: generated context stacks and defects injected at generated depth",
    "P13": "property-based testing: generated typed values against a reference DER encoder",
    "P14": "property-based round-trip testing over generated typed values and streams",
    "P15": "metamorphic property-based testing: generated indefinite-length re-encodings decode alike",
    "P16": "differential fuzzing of the decoders against a reference decoder over mutated encodings",
    "P17": "metamorphic property-based testing: equal collections by different histories and hash seeds",
    "P18": "fault injection over generated write schedules and every failure point",
    "P19": "generated programs: random derived types and values against an encoder computed from the definition",
    "P20": "generated programs: random attribute combinations and values against an encoder computed from the definition",
    "P21": "generated programs: random derived types fed mutated octets against a decoder computed from the definition",
    "P22": "generated programs: definitions with generated attribute misuse, each has to draw a compile error of its own",
    "P23": "the generated cases of P01 to P18, P24 and P25 against the same oracles, interpreted for big-endian and 32-bit machines",
    "P24": "property-based testing: a defect injected at a generated place of a typed value, its way computed from the type",
    "P25": "stateful property-based testing of generated multi-threaded programs against a sequential model, in part interpreted with seeded schedules and a data race detector",
}
NOTE = "Search over generated inputs with a fixed number of cases per tier; deterministic in VERIF_SEED. No proof beyond what was generated."
have = []
for p in TECH:
    if p in ("P19", "P20", "P21"):
        ok = os.path.exists(os.path.join(HERE, "derive.py"))
    elif p == "P22":
        ok = os.path.exists(os.path.join(HERE, "misuse.py"))
    elif p == "P23":
        ok = os.path.exists(os.path.join(HERE, "platforms.py"))
    else:
        ok = os.path.exists(os.path.join(HERE, "harness/src/bin", p.lower() + ".rs"))
    if ok:
        have.append(p)
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/run.py setup",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 /verif/run.py check {p} quick",
        "thorough_cmd": f"python3 /verif/run.py check {p} thorough",
        "evidence_file": f"/verif/evidence/{p}.json",
        "technique": TECH[p],
        "level": "fault_enumeration" if p in ("P04", "P18") else "exploration",
        "level_note": NOTE,
    } for p in have],
    "not_applicable": [],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
