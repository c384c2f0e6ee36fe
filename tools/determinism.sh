#!/bin/bash
# tools/determinism.sh [RUNS] [CHECK...]: the same seeds must give the same executions, whatever the number of
# workers, the order in which runs are handed out and Python's hash seed. Compares the digest of every run.
cd "$(dirname "$0")/.." || exit 2
n=${1:-400}; shift
checks=${*:-$(seq -f 'C%02g' 1 17)}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
bad=0
for c in $checks; do
    SIM_HASHSEED=0 ./check $c --runs $n --workers 8 --noshrink --digests $t/a >/dev/null 2>&1
    SIM_HASHSEED=0 ./check $c --runs $n --workers 3 --noshrink --digests $t/b >/dev/null 2>&1
    SIM_HASHSEED=77 ./check $c --runs $n --workers 8 --noshrink --digests $t/c >/dev/null 2>&1
    sort $t/a >$t/as; sort $t/b >$t/bs; sort $t/c >$t/cs
    d1=$(diff $t/as $t/bs | grep -c '^<'); d2=$(diff $t/as $t/cs | grep -c '^<')
    echo "$c: $(wc -l <$t/as) runs, differing with other workers: $d1, with another hash seed: $d2"
    [ "$d1" = 0 ] && [ "$d2" = 0 ] || bad=1
done
exit $bad
