#!/bin/bash
# dev helper: run a check, grouped output
[ -z "$XPY_REPO" ] && [ -d /tmp/wr ] && export XPY_REPO=/tmp/wr
SYMX_DUMP=/tmp/dump.json python3-vt /verif/check.py "$@" > /tmp/chk.log 2>&1; rc=$?
grep -q "violations$" /tmp/chk.log && python3-vt /verif/symx/brief.py /tmp/dump.json | cut -c1-400 | head -${HEADN:-60}
grep "^ERROR" /tmp/chk.log | cut -c1-${EW:-600} | head -8; grep "^KNOWN" /tmp/chk.log | wc -l; tail -1 /tmp/chk.log; echo rc=$rc
