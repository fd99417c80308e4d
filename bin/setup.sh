#!/bin/bash
# Nothing to install: checks that the tools the checks need are there and that
# every specification module parses.
set -e
cd "$(dirname "$0")/../spec"
for t in clang++ java python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
for m in *.tla; do
  out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" 2>&1) || { echo "$out"; exit 1; }
done
echo setup ok
