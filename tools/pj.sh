#!/bin/sh
# pj.sh CHECK [JOBREGEX]: run jobs of a Python check, short output
cd /verif && VP_ONLY="$2" timeout ${3:-600} python3 -B checks/$1.py 2>&1 | cut -c1-${W:-420} | grep -v '^INCONCL' | head -${N:-30}
