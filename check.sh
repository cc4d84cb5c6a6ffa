#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--kind k] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= ATEN_CPU_CAPABILITY=default
export SDL_VIDEODRIVER=dummy
if [ "$1" = C06 ]; then
  FP=$(mktemp -d /tmp/verif-fp-XXXXXX) || exit 2
  gcc -O1 -shared -fPIC -w -o "$FP/faultpoint.so" native/faultpoint.c -ldl || exit 2
  LD_PRELOAD="$FP/faultpoint.so" /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from vlib import core; core.main()' "$@"
  rc=$?
  rm -rf "$FP"
  exit $rc
fi
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from vlib import core; core.main()' "$@"
