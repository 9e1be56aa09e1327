#!/usr/bin/env python3
"""sweep.py [-j N] [-s SEED] ID[:CHECK]...  Run quick checks against planted bugs in scratch copies of /repo (not used by any check)."""
import json,os,shutil,subprocess,sys,time
from concurrent.futures import ThreadPoolExecutor
V='/verif'; a=sys.argv[1:]; j=2; seed='1'
while a and a[0].startswith('-'):
    if a[0]=='-j': j=int(a[1])
    if a[0]=='-s': seed=a[1]
    a=a[2:]
ids=a or sorted(os.listdir(V+'/seeded'))
def one(x):
    i,_,c=x.partition(':'); d=f'{V}/seeded/{i}'
    c=c or json.load(open(d+'/meta.json'))['property']
    w=f'/tmp/sweep/{i}-{c}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {w} --one-top-level=repo && cd {w}/repo && git init -q . && git apply {d}/patch.diff',shell=True,check=True)
    t0=time.time()
    r=subprocess.run(['python3','run.py','check',c],cwd=V,env=dict(os.environ,VERIF_REPO=w+'/repo',VERIF_BUILD=w+'/build',VERIF_SEED=seed,VERIF_TIER='quick'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    vi=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(f"{i:36s} {c} rc={r.returncode} {'CAUGHT' if r.returncode==1 and vi else 'MISSED'} {time.time()-t0:.0f}s {(vi or r.stdout.splitlines()[-1:])[:1]}",flush=True)
    if r.returncode not in (0,1): print(r.stdout[-1500:])
    shutil.rmtree(w,ignore_errors=True)
with ThreadPoolExecutor(j) as ex: list(ex.map(one,ids))
