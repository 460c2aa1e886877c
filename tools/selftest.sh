#!/bin/bash
# tools/selftest.sh [RUNS] [PXX ...]: every run has to be the same execution each time, however many lanes there are.
cd "$(dirname "$0")/.." || exit 2
N=${1:-16}; shift
T=$(mktemp -d /tmp/ftself.XXXXXX)
rc=0
for p in ${@:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18}; do
  PYTHONPATH=. /opt/venv/bin/python -m sim.check "$p" --keep-going --no-minimise --no-evidence --runs "$N" --seed 5 --digests "$T/a" --lanes 2 >/dev/null 2>&1
  PYTHONPATH=. /opt/venv/bin/python -m sim.check "$p" --keep-going --no-minimise --no-evidence --runs "$N" --seed 5 --digests "$T/b" --lanes 7 >/dev/null 2>&1
  if cmp -s "$T/a" "$T/b" && [ "$(grep -o '"[0-9]*":' "$T/a" | wc -l)" = "$N" ]; then echo "$p: $N runs identical"; else echo "$p: DIFFERENT"; diff <(tr , "\n" < "$T/a") <(tr , "\n" < "$T/b") | head -4; rc=1; fi
  rm -f "$T/a" "$T/b"
done
rmdir "$T"
exit $rc
