#!/bin/bash
# all checks, quick tier, one after another
cd "$(dirname "$0")/.."
for p in $(python3 check.py --list); do python3 check.py $p 2>&1 | grep -E "^(OK|VIOLATION|ERROR|KNOWN|--|  )" | cut -c1-${W:-250}; done
