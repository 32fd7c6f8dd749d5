import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes and os.path.exists(f"{V}/checks/{i}.py"):
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i}", thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i} thorough",
                           technique=notes[i]["technique"], level="model_checking", level_note=notes[i]["note"]))
    else:
        na.append(dict(property=i, reason=notes.get("na", {}).get(i, "specification module and conformance driver not finished yet")))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
               notes="TLA+ specification in spec/, checked with TLC; conformance drivers in checks/; see DESIGN.md"), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
