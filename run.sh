#!/bin/bash
# run.sh <property>: decides one property on the current tree of /repo
cd "$(dirname "$0")" || exit 2
exec python3 analysis/check.py "$1"
