#!/bin/bash
# all checks, four at a time: tools/all.sh [tier]
cd "$(dirname "$0")/.."
ls spec | sed 's/.py$//' | grep '^[A-Z][0-9][0-9]$' | xargs -P 4 -I{} sh -c 'python3 run_check.py {} --tier '${1:-quick}' > /tmp/all.{}.log 2>&1; echo "{} rc=$? $(grep -E "^{}:|VIOL|FAILED|LOST" /tmp/all.{}.log | tr "\n" " ")"'
