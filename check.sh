#!/bin/bash
# check.sh <property> [quick|thorough]: run one check against the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${MC_REPO:-/repo}"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cache="$(mktemp -d)"
trap 'rm -rf "$cache"' EXIT
cd "$here" || exit 1
env PYTHONPATH="$repo" PYTHONPYCACHEPREFIX="$cache" PYTHONHASHSEED=0 MC_REPO="$repo" MC_CACHE="$cache" \
    "$py" "$here/mc/run.py" "$1" ${2:-${VERIF_TIER:-quick}}
exit $?
