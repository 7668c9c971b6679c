#!/bin/bash
# check.sh ID [quick|thorough] : runs one property's monitor against /repo's working tree
cd "$(dirname "$0")" || exit 3
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 \
    /opt/pypyvenv/bin/python -B -m rv "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
