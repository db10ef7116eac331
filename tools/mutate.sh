#!/bin/bash
# mutate.sh PATCH CHECK... : run checks against a scratch copy of /repo (or SRC) with a patch applied,
# by the machinery of /verif (or RUN)
set -e
p=$(readlink -f "$1"); shift
d=/tmp/mut.$$
mkdir -p $d/repo
(cd ${SRC:-/repo} && git ls-files -z | xargs -0 cp --parents -t $d/repo 2>/dev/null) || true
(cd $d/repo && patch -p1 -s < "$p")
rc=0
for c in "$@"; do
    MSAT_REPO=$d/repo MSAT_BUILD=/tmp/mutbuild python3 ${RUN:-/verif}/run.py $c | cut -c1-250 | head -${LINES_MAX:-4}
done
rm -rf "$d"
