#!/usr/bin/env python3
"""Writes MANIFEST.json from families.py: python3 -m vlib.manifest (in /verif)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib.families import FAMILIES

NOTE = ("TLC explores the specification modules exhaustively within the small constants given in DESIGN.md, and validates every "
        "execution recorded from the real code (exhaustive over offsets and fault points of small archives, seeded random beyond) "
        "against the specification. Complete for the executions explored, not a proof for all inputs. Trusts TLC, the driver's "
        "recording of calls and results, and the scripted data sources.")


def technique(f):
    models = f.get("models", [])
    t = "TLA+ specification model checked with TLC, with planted flaws that it has to reject"
    if any("cinit" in m for m in models):
        t += "; an inductive invariant over unbounded integers checked with Apalache"
    if any(m.get("simulate") or m.get("emit") for m in models):
        t += "; behaviours that TLC generates are replayed into the real code"
    return t + "; TLC validates traces recorded from the real code against the specification"


props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in FAMILIES:
        f = FAMILIES[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": technique(f),
                       "level": "model_checking", "level_note": f.get("note", "") + NOTE})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "cfg zippity_verif (exports the trait EntryReader, for C19; everything else uses the public API)",
                                                            "enable": "C19's driver is built with RUSTFLAGS='--cfg zippity_verif' (check.py, setup.sh)", "source_commits": ["4528d5e"]},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "the check for this property is not finished yet"} for p in props if p not in FAMILIES],
     "notes": "TLA+ with TLC (and Apalache for one module). See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
