#!/bin/bash
# prof.sh HARNESS [--thorough]: time of every scenario (eight shards)
b=$(ls -t /verif/build/*/$1 /verif/build/$1 2>/dev/null | head -1); shift
for s in $($b --list); do
  t=$(date +%s.%N)
  for i in 0 1 2 3 4 5 6 7; do timeout 100 $b --scenario $s --shard $i/8 --out /tmp/prof.$i "$@" >/dev/null 2>&1 & done; wait
  printf "%s %.1f s %s\n" $s $(echo "$(date +%s.%N)-$t" | bc) "$(cat /tmp/prof.[0-7] | grep -o '"executions":[0-9]*' | cut -d: -f2 | paste -sd+ | bc)"
done
