#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy (/tmp/sc): demo passes before, patch builds, stable tests pass, demo fails after.
# Then runs the check of the property against /repo with the patch applied (and undoes it).
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
SC=/tmp/sc
[ -d $SC ] || cp -a /repo $SC
git -C $SC fetch -q /repo HEAD && git -C $SC reset -q --hard FETCH_HEAD
cd $SC || exit 1
for id in "$@"; do
  S=/verif/seeded/$id
  git -C $SC checkout -q -- .
  if [ -z "$SKIPPRE" ]; then bash $S/demo.sh >/tmp/demo.$id.0 2>&1 || { echo "$id: demo FAILS on unchanged tree"; tail -5 /tmp/demo.$id.0; continue; }; fi
  git -C $SC apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPTEST" ]; then
    export CARGO_TARGET_DIR=$SC/target
    timeout 600 cargo nextest run --workspace --all-features --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp >/tmp/t.$id.log 2>&1
    cargo test --workspace --all-features --offline --no-fail-fast --doc -- --test-threads 8 >/tmp/d.$id.log 2>&1
    python3 /opt/vp/results.py /tmp/r.$id.json junit:$SC/target/nextest/vp/junit.xml cargo:/tmp/d.$id.log >/dev/null
    python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/r.%s.json'%sys.argv[1]))
bl=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b
ps=set(r.get('passed',[])); miss=[x for x in bl if x not in ps]
print(sys.argv[1],'stable tests missing:',len(miss),miss[:3])
P
    unset CARGO_TARGET_DIR
  fi
  timeout 300 bash $S/demo.sh >/tmp/demo.$id.1 2>&1; rc=$?
  [ $rc = 0 ] && echo "$id: demo PASSES with the patch (bad)" || echo "$id: demo fails with the patch (rc $rc, good): $(grep -E 'panicked|assert|left|right|error' /tmp/demo.$id.1 | head -2 | tr '\n' ' ' | cut -c1-150)"
  git -C $SC checkout -q -- .
  if [ -z "$SKIPCHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    git -C /repo apply $S/patch.diff && (cd /verif && timeout 900 python3 fx/check.py $p >/tmp/c.$id.log 2>&1; echo "$id: check $p rc=$? $(grep -v VIOLATION /tmp/c.$id.log | head -1 | cut -c1-220)"); git -C /repo checkout -q -- .
  fi
done
