#!/bin/bash
# seeds.sh ID FROM TO - run one check with several seeds (development helper)
for s in $(seq $2 $3); do VERIF_SEED=$s bash "$(dirname "$0")/../run.sh" $1 || { echo "seed $s failed"; exit 1; }; done
