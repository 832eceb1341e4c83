#!/bin/bash
# Compares the stand-in for <regex> with the real one on 20000 patterns and texts. Exit 0: same results.
D=$(cd "$(dirname "$0")/.." && pwd); W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w "$D/tools/regex_selftest.cc" -o "$W/real" && g++ -std=c++17 -O1 -w -I "$D/harness/fakeinc" "$D/tools/regex_selftest.cc" -o "$W/fake" || exit 2
"$W/real" > "$W/a"; "$W/fake" > "$W/b"
wc -l < "$W/a"; diff "$W/a" "$W/b" | head -20; cmp -s "$W/a" "$W/b"
