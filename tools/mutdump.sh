#!/bin/bash
# mutdump.sh <file> <python expr on s> <out.json>: facts of an edited copy.
f=$1; ex=$2; o=$3
D=$(mktemp -d /tmp/mut.XXXXXX)
tar -C /repo --exclude=./target -cf - . | tar -C "$D" -xf -
python3 - "$D/$f" "$ex" <<'P'
import sys
s=open(sys.argv[1]).read(); t=eval(sys.argv[2]); assert s!=t
open(sys.argv[1],'w').write(t)
P
WIMBD_REPO="$D" bash /verif/facts.sh bin $o 2>&1 | tail -3
case "$D" in /tmp/mut.*) find "$D" -mindepth 1 -delete; rmdir "$D";; esac
