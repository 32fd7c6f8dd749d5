#!/bin/bash
# tools/seed.sh ID [notest] [nocheck]: confirm a planted bug in private copies of /repo and /verif (mount namespace).
ID=$1; shift
W=$(mktemp -d /tmp/seed_XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo; mkdir $W/verif; (cd /verif; tar cf - --exclude=.git --exclude=seeded .) | tar xf - -C $W/verif
cp -r /verif/seeded/$ID $W/demo
PROP=$(python3 -c "import json;print(json.load(open('$W/demo/meta.json'))['property'])")
export W ID PROP OPTS="$*"
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; d0=$?
git apply $W/demo/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; d1=$?
t=-
case " $OPTS " in *notest*) ;; *) bash /opt/vp/build.sh >$W/b 2>&1 || t=BUILDFAIL; bash /opt/vp/test.sh $W/t.json >$W/tl 2>&1
t=$(python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("$W/t.json"))
pl=r.get("passed") or [k for k,v in r.items() if v=="passed"]
miss=b-set(pl); print("tests-ok" if not miss else "TESTS-FAIL %s"%sorted(miss)[:3])
P
);; esac
c=-
case " $OPTS " in *nocheck*) ;; *) cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $PROP >$W/c 2>&1; c=$?; grep -q "VIOLATION property=$PROP" $W/c && c="$c+VIOL";; esac
echo "$ID [$PROP] demo clean=$d0 patched=$d1 $t check=$c"
[ $d0 = 0 ] || tail -5 $W/d0; [ $d1 != 0 ] || tail -5 $W/d1
grep "failed \[" $W/c 2>/dev/null | head -3 | cut -c1-300
'
