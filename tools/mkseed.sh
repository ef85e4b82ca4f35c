#!/bin/bash
# mkseed.sh ID : confirm the seeded change in /verif/seeded/ID (patch.diff, demo.sh, meta.json) against /repo
S=/verif/seeded/$1
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
D=$(mktemp -d); cp -r $S/. $D; rm -f $D/patch.diff $D/meta.json
trap "git -C /repo checkout -q -- .; rm -rf $D" EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh > /tmp/demo.clean 2>&1; C=$?
git apply $S/patch.diff || { echo "does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/demo.build 2>&1 || { echo "build failed"; exit 1; }
timeout 300 bash $D/demo.sh > /tmp/demo.patched 2>&1; P=$?
R=$(bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1)
echo "$1: clean=$C patched=$P tests: $R"; [ $C = 0 ] || tail -5 /tmp/demo.clean; tail -2 /tmp/demo.patched
