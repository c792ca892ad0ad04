#!/bin/bash
# tools/huge.sh PID [COUNT] [SEED]: random histories with large contents only, no model
cd "$(dirname "$0")/.." && VERIF_HUGE=1 VERIF_SEED=${3:-1} VERIF_ONLY_RANDOM=${2:-200} python3 check.py $1 quick
