"""Developer aid: run a check's cases and group the violations.  dbg.py C01 [n] (run inside the check env)"""
import sys,collections,json,importlib,os
from vlib import harness
m=importlib.import_module('checks.'+sys.argv[1].lower())
cases=m.plan(os.environ.get('VERIF_TIER','quick'),int(os.environ.get('VERIF_SEED','1')))
if len(sys.argv)>2: cases=cases[:int(sys.argv[2])]
if hasattr(m,'setup'): m.setup('quick',1)
r,e,c,h=harness.run_parallel(m,cases,600)
g=collections.defaultdict(list)
for i,mon in r.items():
    for msg,d in mon.violations: g[msg.split(':')[0][:60]+'|'+msg[-80:]+'|'+str(d.get('traceback','')).strip().split('File')[-1][-160:]].append((i,msg,d))
    for k,msg,d in mon.findings: g['FINDING '+k].append((i,msg,d))
for k,v in sorted(g.items(),key=lambda x:-len(x[1])):
    print('=====',len(v),k)
    for i,msg,d in v[:int(os.environ.get('N','4'))]:
        d=dict(d); tb=d.pop('traceback','')
        print('   case',json.dumps(cases[i]),msg[:300],d)
print('errors',len(e),e[:1] and e[0][1][-1500:],'crashes',c,'hangs',h)
