#!/bin/bash
# Lists the harnesses in props/all.go.
cd "$(dirname "$0")/../harness/props" || exit 2
{
echo "// Code generated by tools/gen_all.sh; DO NOT EDIT."
echo
echo "package props"
echo
echo "func init() {"
grep -ho '^func C[0-9][0-9]_[A-Za-z0-9_]*()' *.go | sed 's/^func //; s/()$//' | LC_ALL=C sort | while read n; do echo "	All[\"$n\"] = $n"; done
echo "}"
} > all.go.tmp
cmp -s all.go.tmp all.go || cp all.go.tmp all.go
rm -f "$PWD/all.go.tmp"
