#!/usr/bin/env python3
"""Evaluate planted bugs of /verif/seeded against /repo (apply, build, test, demo, check, undo).
   plant.py ID... [--no-check] [--all-checks]       Not used by any registered check."""
import json,os,subprocess,sys,time
V='/verif'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
base=set(json.load(open('/opt/vp/BASELINE.json')).get('tests',[])) if os.path.exists('/opt/vp/BASELINE.json') else set()
def main():
    a=[x for x in sys.argv[1:] if not x.startswith('--')]; nocheck='--no-check' in sys.argv
    ids=a or sorted(os.listdir(V+'/seeded'))
    for i in ids:
        d=f'{V}/seeded/{i}'; meta=json.load(open(d+'/meta.json'))
        assert sh(f'git -C {R} status --porcelain').stdout.strip()=='', 'repo dirty'
        out={'id':i,'property':meta['property']}
        r=sh(f'git -C {R} apply {d}/patch.diff')
        if r.returncode: print(i,'DOES NOT APPLY',r.stdout); continue
        try:
            r=sh('bash /opt/vp/build.sh'); out['build']=r.returncode
            if r.returncode: print(r.stdout[-1500:])
            r=sh('bash /opt/vp/test.sh /tmp/plant_t.json'); t=json.load(open('/tmp/plant_t.json'))
            out['tests']=str({k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()}) if isinstance(t,dict) else len(t)
            r=sh(f'cd {R} && bash {d}/demo.sh'); out['demo_patched']=r.returncode; 
            if r.returncode==0 or '-v' in sys.argv: print(r.stdout[-600:])
            else: out['msg']=r.stdout.strip()[-160:]
            if not nocheck:
                t0=time.time(); r=sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 run.py check {meta["property"]}')
                out['check']=r.returncode; out['viol']=[l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1]; out['sec']=round(time.time()-t0)
                if r.returncode not in (0,1): print(r.stdout[-1500:])
        finally:
            sh(f'git -C {R} checkout -- .')
        print(json.dumps(out),flush=True)
    sh('bash /opt/vp/build.sh')
    for i in ids:
        d=f'{V}/seeded/{i}'; r=sh(f'cd {R} && bash {d}/demo.sh')
        if r.returncode: print('DEMO FAILS ON CLEAN TREE',i,r.stdout[-800:])
main()
