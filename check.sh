#!/bin/bash
# ./check.sh <PROPERTY>            decide a property on /repo's current working tree
# ./check.sh --replay FILE [-v]    re-execute a replay file (exit 1: the violation shows again)
# Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
mkdir -p "$here/build" "$here/evidence"
work=$(mktemp -d "$here/build/w.XXXXXX") || exit 3
trap 'rm -rf -- "${work:?}"' EXIT
if ! bash "$here/build.sh" "$work/sim" "$work" >"$work/build.log" 2>&1; then
  tail -40 "$work/build.log"
  echo "CHECK ERROR: the simulator could not be built from /repo's working tree"
  exit 3
fi
if [ "$1" = --replay ]; then
  shift
  TZ=UTC GOMAXPROCS=1 "$work/sim" replay "$@"
else
  "$work/sim" check "$1"
fi
