#!/bin/bash
# tools/mkseed.sh ID PROP "needs" "breaks": take the diff of the scratch copy /tmp/w/repo as a planted bug, demo.py from stdin
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/w/repo diff > $D/patch.diff
cat > $D/demo.py
cat > $D/demo.sh <<'E'
#!/bin/bash
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
E
python3 - "$2" "$3" "$4" > $D/meta.json <<'P'
import json,sys; print(json.dumps(dict(property=sys.argv[1], needs=sys.argv[2], what_it_breaks=sys.argv[3]), indent=1))
P
git -C /tmp/w/repo checkout -q -- .
wc -l $D/patch.diff
