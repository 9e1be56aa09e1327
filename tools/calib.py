#!/usr/bin/env python3
"""calib.py [--tier T] [-s S1,S2..] ID...  run checks of /repo for several seeds; print alarms, worst error/tolerance ratios and time."""
import json,os,subprocess,sys
a=sys.argv[1:]; seeds=[1]; tier='quick'
while a and a[0].startswith('-'):
    if a[0]=='-s': seeds=[int(x) for x in a[1].split(',')]
    if a[0]=='--tier': tier=a[1]
    a=a[2:]
for i in a:
    for s in seeds:
        r=subprocess.run(['python3','/verif/run.py','check',i,'--tier',tier],env=dict(os.environ,VERIF_SEED=str(s)),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        d=json.load(open(f'/verif/evidence/{i}.json')); c=d['coverage']
        rat=sorted(((v if isinstance(v,float) else 9e9,k) for k,v in c['worst_error_over_tolerance'].items()),reverse=True)[:4]
        print(i,'seed',s,'rc',r.returncode,'%ss'%d['wall_s'],'n',c['evaluations'],'skip',c['outside_domain'],[(k,round(v,3)) for v,k in rat],flush=True)
        if r.returncode: print(r.stdout[-3000:],flush=True)
