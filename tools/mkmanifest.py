#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
REF = "generated configuration spaces, differential against an independent reference decoder"
T = {
 "P01": ("structured fuzzing of whole configuration spaces, crash oracle", "Samples images; every nested list, helper and conversion of what is decoded is exercised with overflow and bounds checks on. Not exhaustive."),
 "P02": ("generated lists (looping, dangling, unaligned), invariants over the item sequence", "Samples list topologies over all aligned positions; hang watchdog."),
 "P03": ("generated linked lists, differential against a reference list walk", "Samples list topologies, truncations and body kinds."),
 "P04": ("generated linked lists, differential against a reference list walk", "Samples list topologies, truncations and body kinds."),
 "P05": ("exhaustive ids plus generated lists against the id table", "All 65536 extended and 256 conventional ids are enumerated; bodies and positions are sampled."),
 "P09": ("exhaustive enumeration of class codes against the assignment table", "All 2^24 class codes are enumerated."),
 "P16": ("metamorphic testing: same capability at two positions and in two surroundings", "Samples capabilities, positions and surroundings."),
 "P17": ("metamorphic testing: full against cut region, plus reference decoder on the cut one", "Samples capabilities and cut points around every capability's end."),
 "P25": ("round-trip testing against the original register bits", "Samples register values, with single-bit walks."),
 "P26": ("generated registers, differential against closed formulas", "Samples register values; small encodings are covered many times over."),
 "P27": ("generated truncations and malformed bodies, expected error value and text", "Samples lengths and malformations for each kind."),
 "P28": ("stateful testing: random operation scripts on enumerations and their copies against a model list", "Samples lists and histories of up to 24 operations."),
 "P29": ("metamorphic testing: copy, edited copy and list stages compared by == and by observable rendering", "Samples images, edits and stages; small lists are built directly with few distinct values."),
 "P30": ("differential testing: public constructor against enumeration, with cuts, other bytes behind and other alignment", "Samples kinds, contents, cuts and up to 65 KB of bytes behind a structure."),
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    t, n = T.get(i, (REF, "Samples register contents (random, single-bit walks, dictionary values, tuned size/type fields), positions and truncations; every field compared."))
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique="property-based testing: " + t, level="exploration", level_note=n))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks use the public API only", source_commits=[]),
    checks=checks, not_applicable=[],
    notes="No instrumentation in /repo. Defects found and repaired are listed in known-findings.txt. Replay a saved input with harness/target/release/pbt replay FILE.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
