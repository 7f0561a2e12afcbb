#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
import check

TRUST = ("Within the explored inputs and histories the verdict is exact; beyond them nothing is proved. Trusts TLC, the "
         "harness's translation of values, and that coordinates scaled by powers of two make the specification's integer "
         "arithmetic exact.")


def note(p):
    ms = check.MODELS.get(p, [])
    parts = []
    if ms:
        parts.append("TLC explores " + ", ".join(f"{m[0]} ({m[1]})" for m in ms) +
                     " exhaustively within the bounds of its .cfg and every behaviour is run on the real library"
                     " (replay of predicted outcomes, or recording validated by TLC).")
    parts.append("Random and adversarial sessions of the real library (f32 and f64 embeddings) are recorded and each call "
                 "validated by TLC against the specification.")
    parts.append(TRUST)
    return " ".join(parts)


checks = []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    for l in f:
        p = json.loads(l)["id"]
        checks.append({"property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"./check.py {p} --tier thorough",
                       "technique": "TLA+ specification checked with TLC, bound to the code by trace validation and replay of "
                                    "predicted behaviours",
                       "level": "model_checking", "level_note": note(p)})
old = json.load(open(os.path.join(HERE, "MANIFEST.json")))
old["checks"] = checks
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(old, f, indent=1)
    f.write("\n")
