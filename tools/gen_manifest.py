"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/driver")
sys.dont_write_bytecode = True
import checks  # noqa: E402

REF = "runtime monitor: forked workload with an exact-arithmetic oracle over every build configuration"
ACC = "runtime monitor: forked workload with a quad-precision interval oracle over every build configuration"
TECH = {p: REF for p in checks.REF}
TECH.update({p: ACC for p in ("C16", "C17", "C18")})
TECH.update(checks.TECH)
NOTE = ("Held on every observed execution; inputs outside the explored set are not covered. Trusts the monitor's own integer "
        "reference arithmetic, glibc's quad-precision functions where accuracy is bounded, and the host CPU.")
out = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' when the harness crates are built",
              "source_commits": checks.HOOK_COMMITS},
    "checks": [],
    "not_applicable": [],
}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in checks.CHECKS:
        out["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"env VERIF_TIER=thorough python3 run.py {p}",
                              "technique": TECH[p], "level": checks.LEVEL.get(p, "exploration"), "level_note": checks.NOTES.get(p, NOTE)})
    else:
        out["not_applicable"].append({"property": p, "reason": checks.NA.get(p, "no check yet")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
