#!/bin/bash
# mut.sh <file in repo> <python expression on s> Cxx...: runs checks on a copy of /repo with one file edited (s -> new text).
set -e
f=$1; ex=$2; shift 2
d=$(mktemp -d /tmp/mut.XXXXXX)
cp /repo/$f $d/a
python3 - "$d/a" "$d/b" "$ex" <<'P'
import sys,re
s=open(sys.argv[1]).read(); t=eval(sys.argv[3])
assert t!=s,'no change'
open(sys.argv[2],'w').write(t)
P
(cd $d; diff -u --label a/$f --label b/$f a b > p.diff) || true
/verif/tools/try.sh $d/p.diff "$@"
rm -rf /tmp/mut.${d#/tmp/mut.}
