#!/usr/bin/env python3
"""Writes MANIFEST.json. The list of claimed properties is CLAIMED below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("Kani hooks")]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(kani)", "enable": "cargo kani sets cfg(kani) itself when it compiles /repo's crates for the harness crate in /verif/kani",
              "source_commits": hooks},
    "checks": [
        {"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
         "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
         "technique": "contract-based deductive verification: Kani/CBMC discharges pre/postconditions on the real functions",
         "level": "proof", "level_note": n}
        for p, n in sorted(NOTE.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "See DESIGN.md. known-findings.txt lists repaired and open findings.",
}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks")

d = open(os.path.join(V, "DESIGN.md")).read()
rows = ["| id | decided by, bounded parts |", "|----|-----------|"]
for p in ["C%02d" % i for i in range(1, 23)]:
    rows.append("| %s | %s |" % (p, NOTE[p].replace(TRUST, "") if p in NOTE else "not claimed: " + NA[p]))
b, e = "<!-- table -->\n", "<!-- /table -->"
if b in d:
    d = d[:d.index(b) + len(b)] + "\n".join(rows) + "\n" + d[d.index(e):]
    open(os.path.join(V, "DESIGN.md"), "w").write(d)
