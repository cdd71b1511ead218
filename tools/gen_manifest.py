#!/usr/bin/env python3
# writes MANIFEST.json from the table below
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["e5932a8", "a535e2d"]
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in HOOKS]
W = "explicit-state exploration of the real nodes under a controlled network, scheduler and randomness"
E = "exhaustive enumeration of a bounded input and tampering space on the real code"
checks = json.load(open(os.path.join(here, "tools", "checks.json")))
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif (tools/build.sh)", "source_commits": full},
     "checks": [], "not_applicable": []}
for c in checks:
    if "reason" in c:
        m["not_applicable"].append({"property": c["property"], "reason": c["reason"]})
        continue
    m["checks"].append({"property": c["property"], "quick_cmd": "./check.sh %s quick" % c["property"],
        "thorough_cmd": "./check.sh %s thorough" % c["property"], "evidence_file": "evidence/%s.json" % c["property"],
        "technique": c["technique"].replace("$W", W).replace("$E", E), "level": c["level"], "level_note": c["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
