#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough]
cd "$(dirname "$0")" || exit 3
if [ -f /opt/vp/support/env.sh ]; then . /opt/vp/support/env.sh; fi
export TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m dv.run "$@" 2> >(grep -v -E 'oneDNN|cuda|TF-TRT|rebuild TensorFlow|computation_placer|cpu_feature|WARNING|absl' >&2)
