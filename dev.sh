#!/bin/bash
# dev helper: run checks verbosely: dev.sh C01 C02 ...
for c in "$@"; do PBT_VERBOSE=1 /usr/bin/time -f "%e s wall" python3-vt /verif/run_check.py $c 2>&1 | tail -${TAILN:-40}; done
