#!/bin/bash
# run the given checks (default: all claimed) on /repo, short output
cd /verif; ids=${@:-$(python3 -c "import sys; sys.path.insert(0,'tools'); from plan import PLAN; print(*PLAN)")}
for i in $ids; do s=$(date +%s); o=$(python3 tools/check.py $i ${TIER:-quick} 2>&1); rc=$?; echo "$i rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -c VIOLATION) $(echo "$o" | grep -v "^KNOWN" | tail -1 | cut -c1-150)"; [ $rc != 0 ] && echo "$o" | head -${N:-12} | cut -c1-300; done
