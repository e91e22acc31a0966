"""Writes MANIFEST.json from properties.jsonl and the registry. Run from /verif: python3 tools/manifest.py"""
import json
import sys

sys.path.insert(0, "harness")
import registry

NOTE = {
    "default": "TLC judges records of the real code against the specification; exhaustive for the enumerated universe of "
               "the tier, sampled (seeded) beyond it. Trusts the extraction of the generated text (ast) and the "
               "construction of values.",
}
TECH = {"default": "TLA+ specification checked with TLC; TLC-enumerated and random cases replayed on the real code and "
                   "judged by a TLC trace specification"}
props = [json.loads(line) for line in open("properties.jsonl")]
manifest = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
         "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
         "technique": getattr(registry, "TECHNIQUE", {}).get(p["id"], TECH["default"]), "level": "model_checking",
         "level_note": getattr(registry, "NOTE", {}).get(p["id"], NOTE["default"])}
        for p in props if p["id"] in registry.CHECKS],
    "not_applicable": getattr(registry, "NOT_APPLICABLE", []),
}
json.dump(manifest, open("MANIFEST.json", "w"), indent=1)
