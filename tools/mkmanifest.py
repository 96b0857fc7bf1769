#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
T = {}
def claim(pid, technique, note): T[pid] = (technique, note)

COMMON = (" Trusted: TLC, the Go toolchain, the JSON record of the driver, and the transcription of the published "
          "layouts/algorithms into the specification. Bounded by the generated cases (sizes in evidence).")
claim("C06", "TLA+ box layouts and decoder; TLC generates values and judges every recorded decode call",
      "Every registered box type, version, context; TLC computes the expected fields, count and error class of each payload." + COMMON)
claim("C07", "TLA+ encoder; TLC generates values, proves Decode(Encode(v))=v per case and judges every recorded Marshal call",
      "Every registered box type in canonical, over-wide and list/counter-mismatch modes; bytes and counts compared exactly." + COMMON)
claim("C08", "TLA+ decoder as oracle over payloads only; TLC judges decodes of mutated payloads in different surroundings",
      "Each mutated payload is decoded between different bytes; outcome must be a function of the payload; allocation measured." + COMMON)
exec(open(os.path.join(HERE, "tools", "claims.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "claims.py")) else None

checks = [{"property": p, "quick_cmd": "python3 check.py " + p,
           "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
           "evidence_file": "evidence/%s.json" % p,
           "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in ids if p in T]
na = [{"property": p, "reason": "check not built yet"} for p in ids if p not in T]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC. No hooks in /repo: the driver is laid over /repo with go build -overlay."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
