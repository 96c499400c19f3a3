"""Writes MANIFEST.json."""
import json
import os

import core
import plans

NOTE = ("TLC validates every recorded run of the real binary against the specification (full functional oracle over the "
        "text of the files); histories are generated from a seed and from exhaustive grids, so inputs beyond the generated "
        "ones are not covered. Trusted: TLC, the output parsers, the LD_PRELOAD clock/terminal/fault shim.")


def main():
    checks = []
    for p, plan in sorted(plans.PLANS.items()):
        ms = plan.get("models", [])
        note = plan.get("note", "")
        checks.append({
            "property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "TLA+ specification; TLC validates recorded histories of the real binary"
                         + (" (with every file-system call failing in turn)" if plan.get("level") == "fault_enumeration" else "")
                         + ("; TLC model checking of %s and replay of its behaviours" % ", ".join(ms) if ms else ""),
            "level": plan.get("level", "model_checking"), "level_note": (note + " " if note else "") + NOTE})
    with open(os.path.join(core.VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: the real binary is observed from outside."}, f, indent=1)
        f.write("\n")


main()
