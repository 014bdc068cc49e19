#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 PATH=/opt/venv/bin:$PATH
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYSPARK_PYTHON=/opt/venv/bin/python PYSPARK_DRIVER_PYTHON=/opt/venv/bin/python
export SPARK_LOCAL_IP=127.0.0.1 SPARK_LOCAL_HOSTNAME=localhost
exec /opt/venv/bin/python -B -m mc.run "$@"
