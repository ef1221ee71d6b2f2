#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3 tools/check.py "$1"
