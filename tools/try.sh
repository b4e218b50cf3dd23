#!/bin/bash
# try.sh <patch|-> <property>...: runs checks against a patched copy of /repo.
P="$1"; shift
D=$(mktemp -d /tmp/mut.XXXXXX)
tar -C /repo --exclude=./target -cf - . | tar -C "$D" -xf -
if [ "$P" != - ]; then git -C "$D" apply "$P" || { echo "patch does not apply"; exit 9; }; fi
for c in "$@"; do echo "== $c"; WIMBD_REPO="$D" bash "$(dirname "$0")/../run.sh" "$c" 2>&1 | cut -c1-300 | tail -${TAIL:-6}; done
case "$D" in /tmp/mut.*) find "$D" -mindepth 1 -delete; rmdir "$D";; esac
