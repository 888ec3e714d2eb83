#!/bin/bash
# development aid: run checks, short output (D=1: details of the violations)
cd "$(dirname "$0")/.."
for i in "$@"; do VFA_EVID=/tmp/ev python3-vt check.py $i --tier ${TIER:-quick} 2>&1 | { if [ -n "$D" ]; then cat; else grep -v '^   '; fi; } | cut -c1-${W:-240} | tail -${N:-20}; done
