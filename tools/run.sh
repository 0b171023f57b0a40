#!/bin/sh
# tools/run.sh C02 [args]: run a check verbosely, short summary
cd /verif; id=$1; shift
timeout 900 /opt/venv/bin/python -m symx.runner $id --tier ${TIER:-quick} -v "$@" > /tmp/$id.txt 2>&1
grep "instances,\|Error\|inputs={" /tmp/$id.txt | grep -v '"name"' | tail -${N:-12} | cut -c1-${W:-230}
grep "inconclusive:\|spurious:\|diverged:" /tmp/$id.txt | cut -c1-${W:-260} | head -${M:-4}
grep -o '"engine_error.*' /tmp/$id.txt | head -3
[ -n "$WALLS" ] && python3 tools/walls.py /tmp/$id.txt 4 | cut -c1-180
exit 0
