#!/bin/bash
# check.sh <property> quick|thorough      run one property's monitors against /repo's working tree
# check.sh <property> replay <file.json>  re-run one recorded violating case
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
exec /opt/venv/bin/python "$(dirname "$0")/check.py" "$@"
