"""Writes MANIFEST.json from props.py: python3 -m vp.manifest"""

import json
import os

from .props import NOT_APPLICABLE, PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = ("Verus discharges the contracts of the functions extracted from /repo on every run; "
         "a search on the real crates looks for a failing input")
BOUNDED = "bounded search on the real crates (no contract of this property is discharged yet)"


def main():
    checks = []
    for pid, d in sorted(PROPS.items()):
        proof = bool(d["units"])
        note = d.get("note", "")
        if not proof:
            note = ("Bounded, not proved: seeded random cases run on the real code for 15 s (quick) or 300 s "
                    "(thorough). " + note).strip()
        checks.append({
            "property": pid,
            "quick_cmd": "python3 -m vp.check " + pid,
            "thorough_cmd": "python3 -m vp.check " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": PROOF if proof else BOUNDED,
            "level": "proof" if proof else "other",
            "level_note": note or "Contracts on the real functions, discharged by Verus; trusted declarations are listed in the evidence.",
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 -m vp.setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
        "notes": "See DESIGN.md. Replay a reported case with: python3 -m vp.replay evidence/replay-<id>.json",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
