#!/bin/bash
# Builds the libraries and the harness for all feature sets, so that checks only rebuild what changed.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'harness')
import l1, l2
for lib in ('std', 'alloc', 'none'):
    l2.support(lib)
    l1.expander(lib)
print('ready')
P
