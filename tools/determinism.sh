#!/bin/bash
# Same seeds, different worker counts and hash seeds: the event logs of all runs must be identical.
cd "$(dirname "$0")/.."
N=${1:-80}
rc=0
for c in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18; do
  a=$(PYTHONHASHSEED=0 /opt/venv/bin/python check.py $c --runs $N --workers 8 --digest --all | grep '^digest')
  b=$(PYTHONHASHSEED=77 /opt/venv/bin/python check.py $c --runs $N --workers 3 --digest --all | grep '^digest')
  if [ "$a" = "$b" ] && [ -n "$a" ]; then echo "$c identical: $a"; else echo "$c DIFFERENT: $a / $b"; rc=1; fi
done
rm -f /tmp/digests-*.json
exit $rc
