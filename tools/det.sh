#!/bin/bash
# det.sh VARIANT WL N: the same seeds run in differently arranged processes, and replayed from their logs, give the same event hashes
v=$1; w=$2; n=$3; X=${MLIO_SIM_BUILD:-/verif/build}/$v/sim; T=$(mktemp -d)
for k in 0 1 2; do $X batch --prop $w --workload $w --seed 1 --from $k --stride 3 --max-runs $((n/3)) --budget 600 --out $T/a$k --dump $T/d$k --stop 100000 --max-violations 100000 >/dev/null 2>&1 & done
for k in 0 1; do PADDING_ENV=xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx$k $X batch --prop $w --workload $w --seed 1 --from $k --stride 2 --max-runs $((n/2)) --budget 600 --out $T/b$k --dump $T/e$k --twice 1 --stop 100000 --max-violations 100000 >/dev/null 2>$T/err$k & done
wait
echo "$v $w: $(sort $T/d? | wc -l) runs, $(diff <(sort $T/d?) <(sort $T/e?) | grep -c '^[<>]') lines differ, $(cat $T/err? | grep -c DIFFERS) log replays differ"
diff <(sort $T/d?) <(sort $T/e?) | head -${4:-4}; cat $T/err? | grep DIFFERS | head -3
rm -rf -- "$T"
