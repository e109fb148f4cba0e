"""Append to known_findings.json every "fix:" commit of a repository that is not listed yet: fixed.py REPO PROPERTY [RANGE]."""
import json, subprocess, sys
repo, prop = sys.argv[1:3]
rng = sys.argv[3] if len(sys.argv) > 3 else "156c804..HEAD"
k = json.load(open("/verif/known_findings.json"))
have = " ".join(k["fixed"])
log = subprocess.check_output(["git", "-C", repo, "log", "--reverse", "--format=%h %s", rng], text=True).splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if h not in have and s.startswith("fix: "):
        k["fixed"].append(f"fixed: property={prop} {h} {s[5:]}")
        print(k["fixed"][-1])
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
