#!/bin/bash
# tools/trybug.sh ID CHECK...: applies seeded/ID to /repo, runs the stable tests,
# the demonstration and the named checks, and undoes the change.
B=/verif/seeded/$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
if [ -z "$NODEMO" ]; then
  timeout 300 bash "$B/demo.sh" >/tmp/demo0.log 2>&1; echo "demo clean rc=$? (want 0)"
fi
git apply "$B/patch.diff" || exit 2
if [ -z "$NOTEST" ]; then
  (bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/o.json) >/dev/null 2>&1; bash /tmp/cmp.sh
fi
if [ -z "$NODEMO" ]; then
  timeout 300 bash "$B/demo.sh" >/tmp/demo1.log 2>&1; echo "demo bug rc=$? (want nonzero)"; tail -2 /tmp/demo1.log
fi
cd /verif
for c in "$@"; do
  s=$(date +%s); ./check $c quick >/tmp/chk.log 2>&1; rc=$?; echo "check $c rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 VIOLATION /tmp/chk.log)"
done
