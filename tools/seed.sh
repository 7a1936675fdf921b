#!/bin/bash
# tools/seed.sh ID [check ...]: validates seeded/ID in a scratch copy of /repo (patch applies, builds, stable tests pass,
# demo passes before / fails after; NOVAL=1 skips this) and, unless NOCHECK=1, runs the checks on the patched scratch copy (VERIF_REPO).
S=/verif/seeded/$1; ID=$1; shift
W=$(mktemp -d /tmp/seedXXXX); trap "rm -rf $W" EXIT
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a /repo $W/repo; cd $W/repo
build() { if grep -q 'pyx' $S/patch.diff; then /opt/venv/bin/python setup.py -q build_ext --inplace --force >/dev/null 2>&1 || echo "BUILD FAILED"; fi; }
if [ -z "$NOVAL" ]; then
( bash $S/demo.sh >$W/d0 2>&1 ); r0=$?
fi
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
build
if [ -z "$NOVAL" ]; then
export PYTHONPATH=$W/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
( bash $S/demo.sh >$W/d1 2>&1 ); r1=$?
/opt/venv/bin/python -m pytest -q -rA -p no:cacheprovider tests >$W/t 2>&1
python3 - $W/t <<'P' > $W/tt
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok={l.split(' ')[1].strip().replace('/','.').replace('.py::','::') for l in open(sys.argv[1]) if l.startswith('PASSED')}
print('stable tests ok' if b<=ok else 'BROKEN TESTS '+str(sorted(b-ok)))
P
echo "$ID $PROP demo clean=$r0 patched=$r1; $(cat $W/tt)"
[ $r0 = 0 ] || { echo "--- demo on clean:"; tail -5 $W/d0; }
[ $r1 != 0 ] || { echo "--- demo on patched:"; tail -5 $W/d1; }
fi
[ -n "$NOCHECK" ] && exit
cd /verif; for c in ${*:-$PROP}; do VERIF_REPO=$W/repo timeout 900 python3-vt check.py $c 2>&1 | cut -c1-${CUT:-300} | tail -${TAIL:-4}; done
