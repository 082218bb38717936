#!/bin/bash
# development aid: analyse roots, short output
for r in "$@"; do echo "#### $r"; timeout ${T:-600} bash /verif/tools/dev_run.sh $r 2>&1 | grep -v "^ *|\|warning\|-->\|  loop\|repository" | cut -c1-${W:-400} | head -${N:-30}; done
