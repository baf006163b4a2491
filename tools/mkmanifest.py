#!/usr/bin/env python3
"""Writes MANIFEST.json out of properties.jsonl and of the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
SLICE = {
    "C10": ("random model-vs-reference search on the regression, then on whole classifiers", ""),
    "C32": ("generated and mutated documents against a schema", ""),
    "C33": ("generated errors and chains against the documented messages", ""),
}
try:
    from claims import CLAIMS
except ImportError:
    CLAIMS = {}
CLAIMS = dict(SLICE, **CLAIMS)
STANDINS = (
    "Explores generated inputs only. The packages that are missing here (parsers of builtin and "
    "gazetteer entities, crfsuite, tokenizer...) are replaced by the stand-ins of standins/, so what "
    "is judged is the code of this repository given those."
)
PLAIN = "Explores generated inputs only; the files of the repository are compiled as they are."
checks, rest = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        technique, note = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
            "technique": "property-based testing: " + technique,
            "level": "exploration",
            "level_note": ((PLAIN if i in ("C32", "C33") else STANDINS) + " " + note).strip(),
        })
    else:
        rest.append({"property": i, "reason": "the check is not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": rest,
    "notes": "No hooks in /repo. Every check builds what it needs from /repo's working tree.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
