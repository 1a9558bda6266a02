#!/bin/bash
# usage: mut.sh PATCH PROP...   run checks against a scratch copy of /repo with PATCH applied
set -e
d=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$d"' EXIT
cp -a /repo/. "$d/"
git -C "$d" apply "$1"; shift
for p in "$@"; do VERIF_OUT=$d/out VERIF_KASA=$d /verif/bin/check $p | grep -v "^\[" | cut -c1-400 | head -${N:-8}; echo "$p rc=${PIPESTATUS[0]}"; done
