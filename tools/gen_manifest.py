"""Writes MANIFEST.json. Checks that exist are listed in dst.registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C20": "A pure function of a number: no schedule, clock, fault, I/O or second party, so nothing to simulate; exhaustive or property-based input testing would decide it, which is another technique.",
    "C21": "A pure function over 16-bit values: no schedule, clock, fault, I/O or second party for a simulation to control.",
    "C22": "A pure function of a datapoint: no schedule, clock, fault, I/O or second party for a simulation to control.",
}
try:
    from dst.registry import CHECKS
except ImportError:
    CHECKS = {}
m = {
    "version": 1,
    "setup_cmd": "/verif/setup",
    "hooks": {"guard": "none", "enable": "No hook was needed in /repo: every seam is the asyncio loop, the libc symbols of the daemon and sys.settrace."},
    "checks": [dict(property=p, quick_cmd="/verif/check %s" % p, thorough_cmd="/verif/check %s --tier thorough" % p,
                    evidence_file="evidence/%s.json" % p, technique=c["technique"], level="exploration",
                    level_note=c["note"]) for p, c in sorted(CHECKS.items())],
    "not_applicable": [dict(property=p, reason=r) for p, r in sorted(NA.items())],
    "notes": "Defects repaired in /repo and recorded findings: KNOWN_FINDINGS.txt. Design, limits and planted bugs: DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
