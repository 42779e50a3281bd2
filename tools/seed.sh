#!/bin/bash
# seed.sh ID FILE OLD NEW : plant a bug in a scratch copy, confirm it, keep it
# as /verif/seeded/ID/patch.diff (demo.sh and meta.json must already be there).
id=$1; W=/tmp/seedrepo
. /opt/vp/env.sh
[ -d $W ] || cp -a /repo $W
cd $W && git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
shift
while [ $# -ge 3 ]; do
OLD="$2" NEW="$3" python3 - "$1" <<'PY' || exit 9
import os,sys
s=open(sys.argv[1]).read(); o=os.environ['OLD']; n=os.environ['NEW']
if s.count(o)<1: print("OLD not found"); sys.exit(1)
open(sys.argv[1],'w').write(s.replace(o,n,1))
PY
shift 3
done
git diff > /tmp/seed.patch
cargo test --workspace --features "$FEATURES" --no-run --offline >/tmp/seed.build 2>&1 || { echo BUILD FAILS; tail -20 /tmp/seed.build; exit 1; }
bash /verif/seeded/$id/demo.sh >/tmp/seed.demo 2>&1; r=$?
echo "demo patched: $r"; tail -5 /tmp/seed.demo
cargo test --workspace --features "$FEATURES" --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1
python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.json'))
print("tests lost:",sorted(set(b['stable'])-set(o['passed']))[:5])
P
git checkout -q -- .
touch $(git diff --name-only HEAD; grep '^+++ b/' /tmp/seed.patch | cut -c7-)
cargo test --workspace --features "$FEATURES" --no-run --offline >/tmp/seed.build 2>&1
bash /verif/seeded/$id/demo.sh >/tmp/seed.demo 2>&1; echo "demo clean: $?"; tail -3 /tmp/seed.demo
cp /tmp/seed.patch /verif/seeded/$id/patch.diff
