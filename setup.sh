#!/bin/sh
# Nothing has to be installed: this only makes sure that the tools work, that
# the specification parses, and that the standard library of the targets of P32
# and P33 is ready.  Every check builds what it needs itself.
set -e
cd "$(dirname "$0")/spec"
for m in MC_*.tla; do
  tla-sany "$m" > /dev/null || { echo "cannot parse $m"; exit 1; }
done
cd ..
python3 targets.py || echo "the targets are not ready yet"
echo ready
