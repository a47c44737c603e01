#!/bin/bash
# ns.sh COMMAND...: runs the command with private throw-away copies of /repo, /opt/vp, /opt/venv and /verif (overlay mounts in a mount namespace).
# Development aid only: lets planted changes be built and checked without touching the real trees.
D=$(mktemp -d /tmp/nsXXXXXX)
export NSD=$D
unshare -m bash -c '
mount -t tmpfs none "$NSD"
for m in repo opt/vp opt/venv verif; do
  k=${m//\//_}; mkdir -p "$NSD/$k.u" "$NSD/$k.w"
  mount -t overlay overlay -o lowerdir=/$m,upperdir="$NSD/$k.u",workdir="$NSD/$k.w" /$m || exit 99
done
"$@"' _ "$@"
r=$?
rmdir "$D" 2>/dev/null
exit $r
