#!/bin/bash
# mut.sh PATCH PROP...   runs checks of /verif against a scratch copy of /repo with PATCH applied
P=$(realpath "$1"); shift
D=$(mktemp -d /tmp/mut.XXXX)
cp -a /repo/. $D/
if ! git -C $D apply "$P"; then echo "patch does not apply"; fi
for p in "$@"; do VERIF_REPO=$D timeout 900 python3 /verif/check.py $p | cut -c1-400; echo "   exit ${PIPESTATUS[0]}"; done
/bin/rm -rf "$D"
