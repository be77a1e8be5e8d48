#!/bin/bash
# check.sh ID: decides one property from the source in /repo
cd "$(dirname "$0")" || exit 2
. ./env.sh
./setup.sh || exit 2
exec ./bin/chk -property "$1" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"
