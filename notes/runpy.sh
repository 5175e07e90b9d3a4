#!/bin/bash
# runpy.sh FILE PROP CASES [SEED]
export VERIF_BUILD=${VERIF_BUILD:-/verif/build} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
T=$(mktemp -d); cd $T; time python3 /verif/harness/$1 --prop $2 --cases $3 --seed ${4:-1} --tmp $T --out $T/out.json --replay-out /tmp/$2.rep
python3 -c "
import json; d=json.load(open('$T/out.json')); print({k:d[k] for k in ('evaluations','discarded','distinct_nontrivial','violated','worker_failures','classes','choices','shrunk_choices')}); print(d['message'][:3000])"; rm -rf $T
