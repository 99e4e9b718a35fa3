#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = ("explicit TLA+ specification (%s) checked with TLC; %s")
FORMATS = ("spec/Formats, Reader, Writer, Gen, Eval",
           "every instance within the bounds, with its predicted outcome, is replayed on the real decoder")
FONT = ("spec/Font, FontTrace",
        "generated files and operation walks are replayed on the real code, and recorded random sessions "
        "with real and damaged fonts are validated against the specification")
TECHNIQUES = {
    **{id: FONT for id in ("C01", "C02", "C03", "C04")},
    "C05": ("spec/Stream, Gen, Font", "delivery schedules of the adversary and failures at every "
            "operation are replayed on the real decoders, against predicted outcomes"),
    "C06": ("spec/Gen, Eval, Font", "mutants, random and damaged data with the outcome that the "
            "specification predicts are replayed on builds with overflow checks"),
    "C07": ("spec/Gen: Truncation", "all prefixes of generated and real data are replayed on the real "
            "decoders, against predicted outcomes"),
    "C08": ("spec/Gen: Relocation", "generated and real data are replayed at many places of a stream"),
    "C23": ("spec/Registry", "all registered tags, all near them and all four-byte tags are replayed"),
    "C24": ("spec/Registry", "all registered tags, all near them and all four-byte tags are replayed"),
    "C25": ("spec/Gen: Discrimination", "all undefined values at every discriminating field are replayed"),
    "C26": ("spec/Gen: Isolation, Font, Registry", "the same data are replayed on all sixteen builds"),
}
NOTES = {
    "C01": "exhaustive over all four-byte signatures; directories within the deviations of spec/Font.tla",
    "C23": "exhaustive over all four-byte tags; names against the registry in spec/Registered.tla",
    "C24": "exhaustive over all four-byte tags; names and codes against the registry in spec/Registered.tla",
    "C06": "sampled: no finite exploration covers all byte strings; every outcome is predicted",
}

checks = []
with open(os.path.join(ROOT, "properties.jsonl")) as file:
    for line in file:
        id = json.loads(line)["id"]
        checks.append({
            "property": id,
            "quick_cmd": "VERIF_TIER=quick ./check.sh %s" % id,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % id,
            "technique": TECHNIQUE % TECHNIQUES.get(id, FORMATS),
            "level": "model_checking",
            "level_note": NOTES.get(
                id, "bounded: every instance within the numbers of deviations, alternatives and counts "
                    "that DESIGN.md gives; beyond them, seeded mutations and real fonts"),
        })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as file:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "Everything that is checked is public API, so there are no hooks in /repo. Checks build "
                 "the harness in harness/ against /repo themselves; setup_cmd only warms that up.",
    }, file, indent=1)
    file.write("\n")
