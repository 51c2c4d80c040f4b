#!/bin/bash
# seed.sh <id> [check...]: confirms a planted bug in a scratch copy of /repo (builds, stable tests pass,
# demo quiet without / loud with it), then runs the named checks against it in /repo.
set -u
S=/verif/seeded/$1; shift
W=/tmp/seedrepo
. /opt/vp/env.sh
if [ ! -d $W ]; then mkdir -p $W && git -C /repo archive HEAD | tar x -C $W && cp /repo/Cargo.lock $W/; (cd $W && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x); fi
export CARGO_TARGET_DIR=/tmp/seedtarget
cd $W && git checkout -q -- . && git clean -fdq -e Cargo.lock
if [ -z "${SKIP:-}" ]; then
  (unset CARGO_TARGET_DIR; cd $W && bash $S/demo.sh >/tmp/seed.demo0 2>&1); d0=$?
  git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed.test 2>&1
  python3 - <<'P'
import json,re
base=json.load(open('/opt/vp/BASELINE.json')); n=len(base.get('passed',base))
t=open('/tmp/seed.test').read()
ok=len(re.findall(r'^test .* \.\.\. ok',t,re.M)); bad=re.findall(r'^test (.*) \.\.\. FAILED',t,re.M)
print('tests ok',ok,'of',n,'failed',bad, 'COMPILE ERROR' if 'error: could not compile' in t else '')
P
  cargo check -q --offline --no-default-features --features all-but-fido,fido-support --lib --examples --tests 2>&1 | grep -E "^error" 
  cargo check -q --offline --no-default-features --features encrypted-keys,rsa-signing,x509-support --lib --examples --tests 2>&1 | grep -E "^error"
  (unset CARGO_TARGET_DIR; cd $W && bash $S/demo.sh >/tmp/seed.demo1 2>&1); d1=$?
  echo "demo: clean=$d0 patched=$d1"; [ $d0 = 0 ] || tail -5 /tmp/seed.demo0; [ $d1 = 0 ] && tail -3 /tmp/seed.demo1
  tail -2 /tmp/seed.demo1
  git checkout -q -- .
fi
[ $# = 0 ] && exit
unset CARGO_TARGET_DIR
git -C /repo apply $S/patch.diff || exit 1
for c in "$@"; do (cd /verif; bash check.sh $c quick >/tmp/seed.check 2>&1; echo "check $c rc=$?"; tail -4 /tmp/seed.check | cut -c1-300); done
git -C /repo checkout -- .
