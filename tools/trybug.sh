#!/bin/bash
# trybug.sh PATCH CHECK...   run checks on a scratch copy of /repo with PATCH applied (bind-mounted in a private namespace)
p=$(readlink -f "$1"); shift
s=$(mktemp -d /tmp/tb_XXXX)
cp -a /repo "$s/repo"
git -C "$s/repo" apply "$p" || exit 9
for c in "$@"; do
unshare -m bash -c "mount --bind $s/repo /repo && mount --bind $s /verif/evidence && cd /verif && VERIF_TIER=quick timeout 900 python3-vt check.py $c > $s/out 2>&1; echo \"$c rc \$?\"; grep -E 'VIOLATION|undecided|failed' $s/out | head -8"
done
rm -rf "$s"
