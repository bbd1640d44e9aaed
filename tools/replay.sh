#!/bin/bash
# replay.sh PROPERTY SCENARIO [TIER]: run one scenario again and judge it
VH_ONLY="=$2" exec python3 "$(dirname "$0")/check.py" "$1" "${3:-quick}"
