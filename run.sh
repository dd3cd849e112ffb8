#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 \
  OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 AWS_EC2_METADATA_DISABLED=true PYTHONWARNINGS=ignore TZ=UTC \
  PYTHONPATH="/repo:$PWD"
exec /opt/venv/bin/python -m symex.runner "$@"
