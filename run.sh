#!/bin/bash
# Development: runs checks, with a compiler cache.
cd "$(dirname "$0")"
for p in "$@"; do echo "== $p"; VERIF_CCACHE=1 timeout 900 python3 check.py $p ${TIER:-quick} 2>&1 | grep -v "^\[" | grep -E "error|VIOL|cases|required from .*verif|fail|case|KNOWN|descr|crash" | cut -c1-1200| head -${N:-30}; done
