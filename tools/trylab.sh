#!/bin/bash
# trylab.sh ID...: apply the seeds together to a scratch copy bound over /repo, build, run the stable tests, run every demo.
S=/tmp/lab; [ -d $S ] || cp -a /repo $S
git -C $S checkout -q -- . && git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
for i in "$@"; do git -C $S apply /verif/seeded/$i/patch.diff || echo "APPLY FAIL $i"; done
for i in "$@"; do (cd /repo && bash /verif/seeded/$i/demo.sh >/dev/null 2>&1; echo "$i clean demo rc=$?"; cd $S && bash /verif/seeded/$i/demo.sh 2>&1 | tail -1; echo "$i patched demo rc=${PIPESTATUS[0]}"); done
cat > /tmp/lab.sh <<'X'
mount --bind /tmp/lab /repo; cd /repo; export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*'
bash /opt/vp/build.sh > /tmp/lab.build 2>&1 || { echo BUILD FAIL; grep -m5 error: /tmp/lab.build; }
bash /opt/vp/test.sh /tmp/lab.json > /tmp/lab.test 2>&1; tail -1 /tmp/lab.test; grep -E "\*\*\*|Failed" /tmp/lab.test | head -60
X
unshare -Urm bash /tmp/lab.sh
