#!/bin/bash
# quiet.sh N SEED...: every profile on the unchanged tree, several seeds; prints anything reported
n=$1; shift
for s in "$@"; do for p in $(seq -f 'C%02g' 1 24); do python3 "$(dirname "$0")/try.py" $p $n $s 2>&1 | grep -v '^{' ; done; done
