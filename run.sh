#!/bin/bash
# usage: run.sh PROPERTY quick|thorough
# Rebuilds the harness from the current working tree of /repo and decides one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no verdict.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}
work=$(mktemp -d /tmp/verif-$id-XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 3' INT TERM HUP
mode=plain; bin=harness
case $id in C11) mode=race; bin=harness-race ;; C22) mode=log ;; esac
if ! bash "$here/mc/build.sh" "$work/build" $mode >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "the harness does not build for this tree" >&2
  exit 3
fi
server=
if [ "$id" = C21 ]; then
  bash "$here/mc/build.sh" "$work/build" server >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 3; }
  server=$work/build/server
fi
budget=6m; [ "$tier" = thorough ] && budget=${VERIF_BUDGET:-60m}
mkdir -p "$work/scratch" "$here/evidence"
rm -f "$here/evidence/$id.json" "$here/evidence/$id.replay.json"
cd "$work/scratch" || exit 3
"$work/build/$bin" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -scratch "$work/scratch" -budget "$budget" \
  -evidence "$here/evidence/$id.json" -replay "$here/evidence/$id.replay.json" -known "$here/known-findings.json" -server "$server"
exit $?
