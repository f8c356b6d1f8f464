#!/bin/bash
# usage: try_bug.sh ID...   For each planted bug: in scratch copies (never in /repo), apply it, build, run the
# stable tests and its demo with and without it, then run its property's quick check (or $PROPS) against it.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
S=/tmp/bugscratch
. /opt/vp/env.sh
mkdir -p $S
rsync -a --delete --exclude target --exclude .git /repo/ $S/repo/ 2>/dev/null || { rm -rf /tmp/bugscratch/repo; cp -a /repo $S/repo; }
[ -d $S/repo/.git ] || cp -a /repo/.git $S/repo/.git
[ -d $S/repo/target ] || cp -a /repo/target $S/repo/target
sed "s#cd /repo#cd $S/repo#" /opt/vp/test.sh > $S/test.sh
mkdir -p $S/verif/harness; rsync -a --delete --exclude target $V/harness/ $S/verif/harness/ 
sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" $S/verif/harness/Cargo.toml
cp $V/known_findings.txt $S/verif/ 2>/dev/null
for id in "$@"; do
  D=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  (cd $S/repo && rsync -a --delete --exclude target --exclude .git /repo/ $S/repo/)
  clean=skip
  if [ -z "${SKIPDEMO:-}" ]; then (cd $S/repo && bash $D/demo.sh >$S/demo0.log 2>&1); clean=$?; fi
  (cd $S/repo && git apply --whitespace=nowarn $D/patch.diff) || { echo "$id: patch does not apply"; continue; }
  tests=skip; bad=skip
  if [ -z "${SKIPTEST:-}" ]; then
    bash $S/test.sh $S/o.json >$S/t.log 2>&1
    tests=$(python3 - <<Q
import json
try:
  o=json.load(open('$S/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
  print(len([x for x in b['stable'] if x not in o['passed']]))
except Exception as e: print('ERR',e)
Q
)
  fi
  if [ -z "${SKIPDEMO:-}" ]; then (cd $S/repo && bash $D/demo.sh >$S/demo1.log 2>&1); bad=$?; fi
  echo "$id [$prop]: missing tests=$tests demo clean=$clean patched=$bad"
  if [ -z "${NOCHECK:-}" ]; then
    cargo build --release --offline --manifest-path $S/verif/harness/Cargo.toml >$S/b.log 2>&1 || { tail -20 $S/b.log; continue; }
    for p in ${PROPS:-$prop}; do
      HTPCHECK_ROOT=$S/verif HTPCHECK_TIER=quick VERIF_SEED=${VERIF_SEED:-1} timeout 900 $S/verif/harness/target/release/htpcheck check $p >$S/c.log 2>&1
      echo "    $p -> exit $? $(grep -c VIOLATION $S/c.log) $(grep -v '^VIOL' $S/c.log | tail -1 | cut -c1-200)"
    done
  fi
done
rsync -a --delete --exclude target --exclude .git /repo/ $S/repo/
