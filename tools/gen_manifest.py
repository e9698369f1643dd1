#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from /verif/properties.jsonl"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
STATEFUL = {"C02", "C16", "C07", "C08"}
META = {"C03", "C04", "C17", "C18", "C20"}
ENUM = {"C12", "C13", "C14", "C15", "C19", "C21"}


def technique(i):
    if i == "C22":
        return "property-based testing: generated operation histories run under AddressSanitizer, Miri and the standard library's precondition checks; shrinking to a replay file"
    if i == "C23":
        return "property-based testing against the reference model, with the generated cases executed by Miri as interpreter of a big-endian (s390x) and a 32-bit (i686) platform as well as natively; shrinking to a replay file"
    if i == "C24":
        return "property-based testing: generated cases and shared reads run by several threads at once, after one another and in fresh processes, against the same calls made alone and the reference model, also under ThreadSanitizer and under Miri with random schedules; shrinking to a replay file"
    if i == "C25":
        return "property-based testing: generated indices and arguments, every operation metered by a counting allocator against bounds computed from the levels involved; shrinking to a replay file"
    if i == "C26":
        return "property-based testing: generated cases of the other properties over integer and storage types that the crate does not know (strict user-defined implementations), against the list-of-cells model, with shrinking"
    if i == "C27":
        return "stateful property-based testing: generated histories on user-defined dimensions of 1 to 8 axes over the crate's layouts and default methods, against a list-of-cells model, with shrinking"
    if i == "C28":
        return "stateful model-based property testing: generated histories on an ordered map and a hash map keyed by indices, against a map keyed by lists of cells, with shrinking"
    if i in STATEFUL:
        return "stateful model-based property testing (generated operation histories against a list-of-cells model) with shrinking"
    if i in META:
        return "property-based testing against a list-of-cells model plus metamorphic relations between routes, with shrinking"
    if i in ENUM:
        return "property-based testing against a bit-by-bit reference, with exhaustive enumeration of a small scope and shrinking"
    return "property-based testing against a list-of-cells / bit-by-bit reference model, with bounded-exhaustive small scope and shrinking"


NOTE = ("Generated-input search against an explicit oracle (harness/src/model.rs), in a build with and a build without overflow checks; "
        "no violation among the cases counted in the evidence file, no proof beyond them. Trusts the reference model, the choice-sequence "
        "engine and rustc. Deterministic for a given VERIF_SEED.")
NOTE22 = ("Generated-input search; the oracle is AddressSanitizer (heap bounds, use after free), Miri (undefined behaviour, a few hundred cases), "
          "std's unsafe-precondition checks, and an explicit check that out-of-range requests are refused. No violation among the cases run, no proof beyond them.")
NOTE23 = ("Generated-input search; the oracles are those of C01 to C21, C26 and C27. A thousand cases per foreign platform (interpreted, so indices of at most "
          "about 260 levels) and millions natively. No violation among the cases run, no proof beyond them; 16-bit and 32-bit big-endian platforms are not run.")
NOTE24 = ("Generated-input search over inputs, histories and schedules; schedules are those the operating system, ThreadSanitizer's delays and Miri's random "
          "scheduler happen to produce, so a race that needs a rarer one can be missed (the race detectors need only the accesses, not the bad outcome). "
          "No violation among the cases run, no proof beyond them.")
NOTES = {"C22": NOTE22, "C23": NOTE23, "C24": NOTE24}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": technique(i),
        "level": "exploration",
        "level_note": NOTES.get(i, NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is reached through the crate's public interface. Every check builds the harness (path dependency on /repo) itself, so it also works without setup_cmd. VERIF_SEED selects the random cases.",
}
with open(R + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
