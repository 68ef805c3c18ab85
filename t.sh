#!/bin/bash
# t.sh HARNESS [tier]: run one harness (development)
B=$(python3 /verif/check.py --build $1) || { echo "$B"; exit 2; }
rm -rf /tmp/mcout.$1; time LHF_EXE=$(python3 /verif/check.py --exe) $B --tier ${2:-quick} --jobs 8 --out /tmp/mcout.$1 --limit 800 ; cat /tmp/mcout.$1/summary.json; echo; cat /tmp/mcout.$1/viol.* 2>/dev/null | head -${3:-12} | cut -c1-600; rm -rf /tmp/mcout.$1
