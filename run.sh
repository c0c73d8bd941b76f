#!/bin/bash
# run.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 PYTHONHASHSEED=0
exec /opt/venv/bin/python run.py "$@" 2> >(grep -v -E 'WARNING|I0000|E0000|W0000|^Instructions|non-resource' >&2)
