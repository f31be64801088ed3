#!/bin/bash
# Debug aid: one run, log on stdout.  one.sh BIN PROFILE SEED [lines]
GORACE='halt_on_error=0 exitcode=0' GOMAXPROCS=1 GOGC=off GODEBUG=asyncpreemptoff=1 TZ=UTC timeout ${T:-60} "$1" -log -profile "$2" -seed "$3" 2>/tmp/one.err >/tmp/one.out
python3 - "${4:-60}" <<'P'
import json,sys
r=json.loads(open('/tmp/one.out').read().strip().split('\n')[-1])
log=r.pop('log','') ; plan=r.pop('plan',None)
print(json.dumps(plan)); print('\n'.join(log.split('\n')[-int(sys.argv[1]):])); print(json.dumps(r)[:1500])
P
head -c 2000 /tmp/one.err
