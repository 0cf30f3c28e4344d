#!/bin/bash
# soak.sh CHECK N SEED... : run a check over several seeds with the binary in VP_CBINDGEN
c=$1; n=$2; shift 2
for s in "$@"; do VERIF_SEED=$s python3-vt /verif/run.py $c --n $n 2>&1 | tail -${TAIL:-3}; done
