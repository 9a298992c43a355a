#!/bin/bash
# run all checks (or the given ones) and show a line per check
cd "$(dirname "$0")/.."
for id in ${@:-K01 K02 K03 K04 K05 K06 K07 K08 K09 K10 K11 K12 P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12}; do
  s=$(date +%s); o=$(python3-vt -m kv.run $id --tier ${TIER:-quick} 2>&1); rc=$?
  echo "$id rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | tail -1 | cut -c1-200)"
  echo "$o" | grep -E "VIOLATION|undecided:|KNOWN" | cut -c1-250 | head -5
done
