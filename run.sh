#!/bin/bash
# ./run.sh C01 [quick|thorough]        run the check of a property
# ./run.sh C01 --replay FILE           run one recorded case again, without the explorer
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
