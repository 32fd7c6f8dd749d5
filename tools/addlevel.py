import json, sys
p = "/verif/tools/levels.json"; d = json.load(open(p)); d[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(d, open(p, "w"), indent=1)
