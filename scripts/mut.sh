#!/bin/bash
# usage: mut.sh PATCH ID...   run checks on a scratch copy of /repo with PATCH applied ("-R COMMIT" as PATCH reverts a commit)
d=$(mktemp -d /tmp/mut_XXXX); git -C /repo archive HEAD | tar x -C "$d"
if [ "$1" = -R ]; then git -C /repo show "$2" | (cd "$d" && patch -R -p1 -s --no-backup-if-mismatch -F3) || { echo "no apply"; rm -rf "$d"; exit 3; }; shift 2
else (cd "$d" && patch -p1 -s --no-backup-if-mismatch < "$1") || { echo "no apply"; rm -rf "$d"; exit 3; }; shift; fi
for i in "$@"; do VP_REPO="$d" timeout 900 python3 /verif/scripts/vp.py $i 2>&1 | cut -c1-400 | head -${LINES_MAX:-8}; echo "$i exit ${PIPESTATUS[0]}"; done
rm -rf "$d"
