#!/bin/bash
# runs every registered check (8 at a time), prints what they say about REPO (default /repo)
cd "$(dirname "$0")/.." || exit 2
python3 -c "import json; [print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]" |
  xargs -P 8 -I{} sh -c "python3 check.py {} ${1:-} 2>&1 | grep -E '^(VIOLATION|UNDECIDED|ANALYSIS|Traceback)' | sed 's/^/{}: /'" | sort
