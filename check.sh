#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH="$HOME/.cargo/bin:$PATH"
[ -n "$2" ] && export VERIF_TIER=$2
exec python3 tools/check.py "$1"
