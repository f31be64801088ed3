#!/usr/bin/env python3
# Debug aid: run many seeds of a profile and summarise.
# usage: batch.py BIN PROFILE FIRST COUNT [show]
import sys,os,json,subprocess,collections,concurrent.futures as cf
b,prof,first,count=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
env=dict(os.environ,GORACE='halt_on_error=0 exitcode=0',GOMAXPROCS='1',GOGC='off',GODEBUG='asyncpreemptoff=1',TZ='UTC')
def run(s):
    try:
        p=subprocess.run([b,'-profile',prof,'-seed',str(s)],env=env,capture_output=True,timeout=60)
    except subprocess.TimeoutExpired:
        return s,None,'timeout'
    try: return s,json.loads(p.stdout.decode().strip().split('\n')[-1]),p.stderr.decode(errors='replace')
    except Exception: return s,None,p.stderr.decode(errors='replace')+p.stdout.decode(errors='replace')[-300:]
viol=collections.OrderedDict(); probes=collections.Counter(); faults=collections.Counter(); n=0; reasons=collections.Counter(); steps=0; sim=0
hs=set()
with cf.ThreadPoolExecutor(8) as ex:
    for s,r,err in ex.map(run,range(first,first+count)):
        if r is None:
            print('SEED',s,'FAILED',err[-1500:]); continue
        n+=1; reasons[r['reason']]+=1; steps+=r['steps']; sim+=r['simsec']; hs.add(r['hash'])
        if r['steps']>2000000: print('big',s,r['steps'])
        probes.update(r['probes']); faults.update(r['faults'])
        for v in r.get('viol') or []:
            viol.setdefault((','.join(v['Props']),v['Class']),[]).append((s,v['Msg']))
if True: print('runs',n,dict(reasons),'steps/run',steps//max(1,n),'sim/run',sim/max(1,n),'distinct',len(hs))
print('probes',dict(probes)); print('faults',dict(faults))
for k,l in viol.items():
    print('VIOL',k,len(l),'seeds',[x[0] for x in l[:6]]); print('    ',l[0][1][:500])
