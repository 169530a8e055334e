#!/bin/bash
# mt.sh PROP FILE OLD NEW : runs the check of PROP against a scratch copy of /repo with one textual change
P=$1; F=$2; OLD=$3; NEW=$4; shift 4
R=/tmp/w/repo
git -C $R fetch -q ${MT_SRC:-/repo} HEAD; git -C $R reset -q --hard FETCH_HEAD
python3 - "$R/$F" "$OLD" "$NEW" <<'PY' || exit 9
import sys
p,o,n=sys.argv[1:]
s=open(p).read()
if s.count(o)<1: print('OLD not found'); sys.exit(1)
open(p,'w').write(s.replace(o,n,1))
PY
VP_REPO=$R VP_BUILD=/tmp/w/build timeout 900 python3 /verif/run.py $P "$@" 2>&1 | grep -E "^violation|: exit|BUILD|error:" | head -${MT_LINES:-6} | cut -c1-300
git -C $R checkout -q -- .
