#!/bin/bash
# run.sh <property id> : entry point of every registered check
cd "$(dirname "$0")/.." || exit 3
[ -x build/irx ] && [ -e build/astq.so ] || bash tools/setup.sh || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt "checks/$(echo "$1" | tr 'P' 'p').py"
