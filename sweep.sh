#!/bin/bash
# sweep.sh ID N: run the quick tier of a check with N other seeds
for i in $(seq 1 ${2:-3}); do VERIF_SEED=$((1000*i+7)) python3 "$(dirname "$0")/run.py" check $1 | tail -3 || exit 1; done
