#!/bin/bash
# tools/sweep.sh "C01 C02" "1 2 3" [scale]: runs checks at several seeds, one line each
for p in $1; do for s in $2; do VERIF_SEED=$s ./check $p --scale ${3:-1} 2>&1 | grep -v polytope | grep -v scipy.optimize | cut -c1-${COLS:-1500}; done; done
