#!/bin/bash
# Development: run checks and show how many cases were non-trivial, and of which classes.
cd "$(dirname "$0")"
for i in "$@"; do
  ./check $i $OPT || exit 1
  python3 - $i <<'P'
import json,sys
d=json.load(open(f"evidence/{sys.argv[1]}.json"))["coverage"]
print("  ",d["evaluations"],"nontrivial",d["distinct_nontrivial"],d["per_check"]); print("  ",d["classes"])
P
done
