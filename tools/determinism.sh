#!/bin/bash
# Same seed, different worker counts and hash seeds: the event logs must be identical.
cd "$(dirname "$0")/.." || exit 2
bad=0
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C19}; do
  a=$(PYTHONHASHSEED=1 bin/check $p --runs 1200 --workers 8 --digest | grep ^digest)
  b=$(PYTHONHASHSEED=77 bin/check $p --runs 1200 --workers 5 --digest | grep ^digest)
  if [ "$a" = "$b" ]; then echo "$p same $a"; else echo "$p DIFFERENT $a $b"; bad=1; fi
done
exit $bad
