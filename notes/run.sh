#!/bin/bash
# notes/run.sh BIN PROP CASES [SEED]: ad-hoc run
export ASAN_OPTIONS=detect_leaks=0:exitcode=77
export UBSAN_OPTIONS=print_stacktrace=1:exitcode=77
T=/tmp/pbt.$$; mkdir -p $T
${VERIF_BUILD:-/verif/build}/$1 --prop $2 --cases ${3:-4000} --seed ${4:-1} --tmp $T --out $T/o.json --replay-out /tmp/$2.rep
echo "$2 rc $?"
python3 - $T/o.json <<'PY'
import json,sys
d=json.load(open(sys.argv[1]))
print({k:d[k] for k in ('evaluations','nontrivial','distinct_nontrivial','discarded','wall_s','violated','worker_failures','choices','shrunk_choices','classes')})
print(d['message'][:3500])
PY
rm -rf $T
