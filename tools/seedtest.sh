#!/bin/bash
# seedtest.sh <id>...: builds, tests and runs the demo of planted bugs in a scratch copy; then runs the check (unless NOCHECK=1)
[ -d /tmp/sw/repo ] || { mkdir -p /tmp/sw; cp -a /repo /tmp/sw/repo; }
rm -rf /tmp/sw/src; 
cd /tmp/sw/repo || exit 1
sync() { rsync -a --delete --exclude target --exclude .git /repo/ /tmp/sw/repo/ 2>/dev/null || { git -C /repo ls-files -z | (cd /repo; xargs -0 cp --parents -t /tmp/sw/repo); }; }
for id in "$@"; do
  s=/verif/seeded/$id; sync
  bad=
  cargo build --offline -q 2>/tmp/sw/log || bad=base-build
  bash $s/demo.sh >/tmp/sw/demo0 2>&1 || bad="$bad demo-fails-on-clean($(tail -1 /tmp/sw/demo0))"
  patch -p1 -s < $s/patch.diff || bad="$bad patch"
  cargo build --offline -q 2>/tmp/sw/log || bad="$bad build"
  timeout 300 bash $s/demo.sh >/tmp/sw/demo1 2>&1 && bad="$bad demo-passes-with-bug"
  if grep -q '^+++ b/src' $s/patch.diff; then cargo test --offline -q >/tmp/sw/tlog 2>&1; f=$(grep -c '^test .*FAILED' /tmp/sw/tlog); grep '^    ' /tmp/sw/tlog | grep -v test_ | head -0; grep -E '^test result|FAILED|failed' /tmp/sw/tlog | head -5 >/tmp/sw/tsum; grep -qE 'FAILED' /tmp/sw/tsum && echo "  tests: $(grep -E '^    [a-z_:]+$' /tmp/sw/tlog | tr -d '\n' | cut -c1-300)"; fi
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  r=
  [ -z "$NOCHECK" ] && r=$(/verif/tools/try.sh $s/patch.diff $p 2>&1 | grep -E ' at |VIOL|clean|quiet' | cut -c1-180 | tail -2 | tr '\n' ' ')
  echo "$id $p ${bad:-ok} | $(tail -1 /tmp/sw/demo1 | cut -c1-100) | $r"
done
