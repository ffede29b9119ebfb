#!/bin/bash
# One seed, one execution: the digest over every event of N runs per property has to be the same
# for any number of workers and in every process.
cd "$(dirname "$0")/../sim" || exit 3
N=${1:-200000}
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C18 C19; do
  a=$(./target/release/midi2-sim digest $p --runs "$N" --workers 1)
  b=$(./target/release/midi2-sim digest $p --runs "$N" --workers 8)
  c=$(./target/release/midi2-sim digest $p --runs "$N" --workers 3)
  if [ "$a" = "$b" ] && [ "$b" = "$c" ]; then echo "$p same $a"; else echo "$p DIFFERS: $a / $b / $c"; bad=1; fi
done
exit $bad
