#!/bin/bash
# Author's tool: applies each planted change to a scratch copy of /repo and runs the check of its property on the copy.
# usage: matrix.sh [tier] id...   (PROP=Cxx overrides the property; SEEDED=dir the folder of changes)
T=quick; case "$1" in quick|thorough) T=$1; shift;; esac
S=${SEEDED:-/verif/seeded}
cd "$(dirname "$0")/.."
for b in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$S/$b/meta.json'))['property'])")}
  r=/tmp/matrix.$$; rm -rf "$r"; mkdir "$r"; cp -a /repo "$r/repo"; chmod 755 "$r"
  git -C $r/repo apply $S/$b/patch.diff || { echo "$b APPLY-FAILED"; rm -rf "$r"; continue; }
  s=$(date +%s)
  VERIF_REPO=$r/repo VERIF_SEED=${VERIF_SEED:-1} ./check $p $T >$r/out 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$p " $r/out)
  echo "$b $p rc=$rc viol=$v t=$(( $(date +%s)-s )) $(grep -v '^VIOLATION' $r/out | head -2 | cut -c1-160 | tr '\n' ' ')"
  rm -rf "$r"
done
