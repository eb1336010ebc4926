#!/bin/bash
# race.sh N SEED  : run N runs of C16 on 8 workers
export GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0"
for k in 0 1 2 3 4 5 6 7; do
 /verif/build/simworker-race -check C16 -seed ${2:-1} -from $((k<<32)) -to $(((k<<32)+$1)) -selfcheck 97 -out /tmp/race$k.json 2>/tmp/race$k.err &
done
wait
python3 - <<'P'
import json
runs=0;div=0
for k in range(8):
    try: o=json.load(open('/tmp/race%d.json'%k))
    except Exception as e: print(k,e, open('/tmp/race%d.err'%k).read()[-500:]); continue
    runs+=o['runs'];div+=len(o['diverged'] or [])
    for v in o['viol'] or []: print(v['index'],json.dumps(v['v'])[:700])
print(runs,'diverged',div)
P
