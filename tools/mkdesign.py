#!/usr/bin/env python3
"""DESIGN.md = design/1-method.md + design/2-properties.md + planted bugs (seeded/*/meta.json) + repaired defects (known_findings.json) + design/3-limits.md"""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); rd = lambda f: open(os.path.join(R, f)).read().rstrip() + "\n\n"
out = rd("design/1-method.md") + rd("design/2-properties.md")
out += "## 3. Planted bugs (`seeded/`)\n\nEach passes the repository's tests and is caught by the check of its property (quick tier).\n\n| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); out += f"| {os.path.basename(d)} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |\n"
c = os.path.join(R, "design/campaign.md")
if os.path.exists(c): out += "\n" + open(c).read().rstrip() + "\n"
k = json.load(open(os.path.join(R, "known_findings.json")))
out += f"\n## 4. Genuine defects\n\n{len(k['fixed'])} found and repaired (`fix:` commits in /repo), {len(k['findings'])} recorded as known findings.\n\n"
for f in k["fixed"]: out += f"* {f['property']} `{f['commit']}` {f['what']}\n"
for f in k["findings"]: out += f"* KNOWN {f}\n"
open(os.path.join(R, "DESIGN.md"), "w").write(out + "\n" + rd("design/3-limits.md").rstrip() + "\n")
