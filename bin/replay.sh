#!/bin/bash
# Re-runs a recorded violation: rebuilds the program from /repo, executes the
# script and lets TLC judge the trace again.  usage: replay.sh DIR
set -e
D=$(cd "$1" && pwd); V=$(cd "$(dirname "$0")/.." && pwd); T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
FLAGS=; [ -f "$D/flags.txt" ] && FLAGS=$(cat "$D/flags.txt")
clang++ -std=c++17 -O0 -g -fno-strict-aliasing -w -include cstdint -include stdexcept -I/repo/include -I/repo/common -I"$V/harness" $FLAGS "$D/program.cpp" -o "$T/p"
{ read -r OPTS; read -r MOD; } < "$D/options"* || true
if [ -f "$D/args.txt" ]; then "$T/p" "$T/t.ndjson" $(cat "$D/args.txt"); else
"$T/p" "$D/script.txt" "$T/t.ndjson" $OPTS; fi
cd "$V/spec"
TRACE="$T/t.ndjson" tlc -noTE -config "$D/spec.cfg" -metadir "$T/m" -workers 1 "$MOD.tla" | grep -E "REJECT|Error|No error" || true
