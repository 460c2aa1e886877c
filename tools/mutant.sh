#!/bin/bash
# tools/mutant.sh PATCH CHECK [check args]: run a check against a scratch copy of /repo with the patch applied
set -e
d=$(mktemp -d /tmp/ftmut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
case "$1" in
  -R*) git -C "$d/repo" revert -n "${1#-R}" >/dev/null ;;
  *) git -C "$d/repo" apply "$(realpath "$1")" ;;
esac
shift
cd /verif
FTSIM_REPO="$d/repo" /opt/venv/bin/python -m sim.check "$@" --no-evidence
