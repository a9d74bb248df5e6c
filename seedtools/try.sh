#!/bin/bash
# try.sh ID...: for each planted bug, in a private copy of /repo (bind-mounted over /repo in a namespace of its own):
# apply, build, run the tests, its demo and its property's check (ALSO="ids": further checks; SEED)
if [ -z "$TRY_IN" ]; then
  R=$(mktemp -d /tmp/try.XXXXXX)
  cp -a /repo $R/repo && git -C $R/repo checkout -q -- . && mkdir $R/vp && cp -a /opt/vp/. $R/vp
  export TRY_IN=$R
  unshare -Urm bash -c 'mount --bind $TRY_IN/repo /repo && mount --bind $TRY_IN/vp /opt/vp && exec bash "$0" "$@"' "$0" "$@"
  /bin/rm -rf "$R"
  exit
fi
W=$TRY_IN
cd /repo || exit 2
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cp -r $D $W/demo
  bash $W/demo/demo.sh >$W/clean 2>&1; c0=$?
  git apply $D/patch.diff || { echo "$id: does not apply"; /bin/rm -rf $W/demo; continue; }
  if bash /opt/vp/build.sh >$W/build 2>&1; then
    bash /opt/vp/test.sh $W/try.json >/dev/null 2>&1
    t=$(python3 -c "
import json
o=json.load(open('$W/try.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])))")
    bash $W/demo/demo.sh >$W/bug 2>&1; c1=$?
    res=""
    for p in $P ${ALSO:-}; do
      VERIF_OUT=$W/out VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 /verif/tools/check.py $p > $W/check 2>&1; r=$?
      res="$res $p=$r"
      cp $W/check /tmp/try.$id.$p.log
    done
    cp $W/clean /tmp/try.$id.clean; cp $W/bug /tmp/try.$id.bug
    echo "$id: stable tests failing=$t demo clean=$c0 bug=$c1 checks:$res"
  else
    echo "$id: does not build"; tail -5 $W/build
  fi
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  /bin/rm -rf $W/demo
done
