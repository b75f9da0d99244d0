#!/bin/bash
cd /verif
for c in "$@"; do echo "-- $c"; timeout 1500 python3-vt dev/multi.py dev/cases/$c.py | grep "<<<" | cut -c1-${CUT:-260}; done
