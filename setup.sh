#!/bin/bash
# Builds the driver, the library models and the dependency metadata the checks reuse.
cd "$(dirname "$0")" || exit 1
mkdir -p target evidence
for k in bin lib; do ./facts.sh $k target/setup.$k.json || exit 1; rm -f target/setup.$k.json; done
