#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: validates a planted bug in a scratch copy of /repo and runs the named checks against it.
id=$1; shift; S=/verif/seeded/$id; W=$(mktemp -d /tmp/seed-XXXX); cp -a /repo $W/repo; cd $W/repo
bash $S/demo.sh >$W/clean.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 $W/clean.log; }
git apply $S/patch.diff || echo "PATCH DOES NOT APPLY"
bash $S/demo.sh >$W/bug.log 2>&1 && echo "demo with bug: PASSES (bad)" || { echo "demo with bug: fails, good:"; tail -2 $W/bug.log | cut -c1-200; }
for p in "$@"; do VERIF_REPO=$W/repo timeout 900 python3 /verif/run.py $p > $W/$p.log 2>&1; echo "check $p: exit $?"; grep -A1 "^---" $W/$p.log | head -2 | cut -c1-240; grep -h "BUILD-ERR\|TOOL-ERR" -A3 $W/$p.log | head -5; done
rm -rf "$W"
