#!/bin/bash
# Nothing to build: checks that the tools are there and that the specification parses.
set -e
cd "$(dirname "$0")/../spec"
test -x /opt/venv/bin/python
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
for m in Gen Trace; do
  java -Djava.io.tmpdir="$W" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > "$W/sany.out" 2>&1 || { cat "$W/sany.out"; exit 1; }
  if grep -qE "Fatal errors|Could not|\*\*\* Errors" "$W/sany.out"; then cat "$W/sany.out"; exit 1; fi
done
echo setup ok
