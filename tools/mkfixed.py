"""Record a fix: tools/mkfixed.py PROP COMMIT  (text taken from the commit subject)"""
import json, subprocess, sys
p = "/verif/known_findings.json"; d = json.load(open(p))
for prop, c in zip(sys.argv[1::2], sys.argv[2::2]):
    sub = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip()
    h, s = sub.split(" ", 1); s = s.replace("fix: ", "", 1)
    if any(f["commit"] == h for f in d["fixed"]): continue
    d["fixed"].append(dict(property=prop, commit=h, what=s, line=f"fixed: property={prop} {h} {s}"))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
