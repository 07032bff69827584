#!/bin/bash
# run.sh <property id> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu \
  CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 NO_GCE_CHECK=true \
  OMP_NUM_THREADS=4 ABSL_MIN_LOG_LEVEL=3 GRPC_VERBOSITY=NONE
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
PRE=
if grep -q '^CRASHFS' "checks/${1,,}.py"; then
  PRE=$PWD/build/crashfs.so
  if [ ! -f "$PRE" ] || [ mc/crashfs.c -nt "$PRE" ]; then bash setup.sh || exit 2; fi
fi
LD_PRELOAD=$PRE exec /opt/venv/bin/python -m mc.main "$@" 2> >(grep -v -e cuda -e absl::Init -e computation_placer -e 'E0000' -e 'W0000' -e I0000 -e absl::Init >&2)
