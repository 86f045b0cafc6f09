#!/bin/bash
# mut.sh PATCH PROP... : runs quick checks against a scratch copy of /repo with PATCH applied
d=$(mktemp -d /tmp/mut.XXXXXX); patch=$(realpath "$1"); shift
cp -a /repo/. "$d"/ && cd "$d" && git apply "$patch" || { echo "patch does not apply"; rm -rf "$d"; exit 3; }
for p in "$@"; do
  VERIF_REPO=$d VERIF_EVIDENCE=$d/.ev timeout 900 python3 /verif/driver/check.py $p ${TIER:-quick} 2>&1 | cut -c1-400 | tail -${LINES_:-4}
done
rm -rf "$d"
