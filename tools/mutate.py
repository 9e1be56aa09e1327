#!/usr/bin/env python3
"""mutate.py [-j N] [-n COUNT] [-s SEED] [-f SUBSTR] [-o OUT] [--list]
   Random small edits of the sources (operators, constants, deleted statements), each run against the checks anchored to
   the file until one reports a violation; survivors are printed for review.  Scratch in /tmp/mut; not used by any check."""
import json,os,random,re,shutil,subprocess,sys,threading,time,queue,glob
V='/verif'; R='/repo'
a=sys.argv[1:]; opt={'-j':'3','-n':'100','-s':'1','-f':'','-o':'/tmp/mut.log'}; lst='--list' in a
a=[x for x in a if x!='--list']
for k,v in zip(a[::2],a[1::2]): opt[k]=v
MAP={'src/geometry/SO3.cpp':'C01 C02 C03','src/geometry/SE3.cpp':'C01 C02 C03','src/geometry/SE3cov.cpp':'C04',
 'src/common/optimizer.cpp':'C16','src/FGraph/factor_graph.cpp':'C14 C10 C07','src/FGraph/factor_graph_solve.cpp':'C08 C09 C07 C14 C10',
 'src/FGraph/factor_graph_solve_dense.cpp':'C15','src/FGraph/factor.cpp':'C13 C14','src/FGraph/node.cpp':'C12 C14 C05',
 'src/PCRegistration/arun.cpp':'C17','src/PCRegistration/gicp.cpp':'C18','src/PCRegistration/weight_point.cpp':'C18','src/PCRegistration/estimate_plane.cpp':'C19',
 'src/PCRegistration/plane.cpp':'C20 C21','src/PCRegistration/plane_registration.cpp':'C21','src/PCRegistration/create_points.cpp':'C22',
 'src/PCRegistration/factors/factor1PosePoint2Plane.cpp':'C05 C06'}
for f in sorted(glob.glob(R+'/src/FGraph/factors/*.cpp')): MAP[f[len(R)+1:]]='C12' if '/node' in f else 'C05 C06'
for f in sorted(glob.glob(R+'/mrobpy/*Py.cpp')+glob.glob(R+'/mrobpy/SE3py.cpp')+glob.glob(R+'/mrobpy/mrobPy.cpp')): MAP[f[len(R)+1:]]='C25'
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' < ',' > '),(r' > ',' < '),(r' == ',' != '),(r' != ',' == '),
 (r' \+ ',' - '),(r' - ',' + '),(r'\*',' / '),(r' / ',' * '),(r'\+=','-='),(r'\+=','='),(r'-=','+='),(r'\*=','/='),
 (r'\b0\.5\b','0.55'),(r'\b1\.0\b','1.1'),(r'\b2\.0\b','2.1'),(r'\b0\.25\b','0.3'),(r'\b0\.0\b','0.01'),(r'1e-(\d+)\b',lambda m:'1e-%d'%max(1,int(m.group(1))-3)),
 (r'\((\d)\)',lambda m:'(%d)'%((int(m.group(1))+1)%3)),(r'\((\d), ?(\d)\)',r'(\2,\1)'),(r'&&','||'),(r'\|\|','&&'),(r'if \(!','if ('),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\.transpose\(\)',''),(r'\.inverse\(\)',''),(r'\bsin\b','cos'),(r'\bcos\b','sin'),(r'continue;','break;'),(r'break;','continue;'),
 (r'\.col\(0\)','.col(1)'),(r'\(-','(+'),(r'= -','= '),(r', -',', '),(r'\bhat3\(','-hat3('),(r'\.normalize\(\)',''),(r'\bi\b','(i+1)'),(r' 0;',' 1;'),(r' = 0 ',' = 1 '),(r'\+\+;',';'),(r'return ([^;]*);',r'return -(\1);')]
def strip(s):  # blank comments, strings
    s=re.sub(r'/\*.*?\*/',lambda m:re.sub(r'[^\n]',' ',m.group()),s,flags=re.S)
    s=re.sub(r'//[^\n]*',lambda m:' '*len(m.group()),s)
    return re.sub(r'"(\\.|[^"\\\n])*"',lambda m:'"'+' '*(len(m.group())-2)+'"',s)
def mutants():
    out=[]
    for f,c in MAP.items():
        s=subprocess.run(['git','-C',R,'show','HEAD:'+f],capture_output=True,text=True).stdout; t=strip(s); L=t.split('\n'); pos=0; inprint=False
        for n,l in enumerate(L):
            full=s.split('\n')[n]
            if re.search(r'::print|print\(',l) and not l.rstrip().endswith(';'): inprint=True
            elif re.match(r'^[A-Za-z}]',l) and not re.match(r'^}',l) and not re.search('print',l): inprint=False
            skip=inprint or re.search(r'cout|cerr|<<\s*$|^\s*#|assert|py::arg|m\.def|^\s*"|\bnamespace\b|profil',l)
            if not skip:
                for p,r in OPS:
                    for m in re.finditer(p,l):
                        new=l[:m.start()]+m.expand(r) +l[m.end():] if isinstance(r,str) else l[:m.start()]+r(m)+l[m.end():]
                        out.append((f,c,n,full,full[:m.start()]+(m.expand(r) if isinstance(r,str) else r(m))+full[m.end():]))
                if re.match(r'^\s+[^;{}]*;\s*$',l) and not re.match(r'^\s*(return|break|continue|using|typedef|[\w:<>, ]+[&*]? \w+( =[^=].*|\(.*\))?;)',l) and l.count('(')==l.count(')'):
                    out.append((f,c,n,full,'    ;'))
            if re.search(r'\.def\(|py::',l) and 'mrobpy' in f and l.count('(')==l.count(')') and re.match(r'^\s*\.def',l): out.append((f,c,n,full,''))
    return out
M=[m for m in mutants() if opt['-f'] in m[0]]
if lst:
    import collections; k=collections.Counter(m[0] for m in M); print(k,len(M)); sys.exit()
rng=random.Random(int(opt['-s']))
# balanced over files
by={}
for m in M: by.setdefault(m[0],[]).append(m)
for v in by.values(): rng.shuffle(v)
sel=[]; w={f:max(1,len(v))**0.8 for f,v in by.items()}
while len(sel)<int(opt['-n']) and by:
    f=rng.choices(list(by),[w[x] for x in by])[0]; sel.append(by[f].pop())
    if not by[f]: del by[f]
q=queue.Queue(); [q.put((i,m)) for i,m in enumerate(sel)]
lock=threading.Lock(); res={'killed':0,'survived':0,'nobuild':0,'other':0}; log=open(opt['-o'],'w')
def say(*x):
    with lock: print(*x,flush=True); print(*x,file=log,flush=True)
def worker(k):
    w=f'/tmp/mut/{k}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.run(f'git -C {R} archive HEAD | tar x -C {w} --one-top-level=repo; git -C {V} archive HEAD --prefix=v/ -- run.py checks.py cmake harness known_findings.jsonl | tar x -C {w}',shell=True,check=True)
    while True:
        try: i,(f,c,n,old,new)=q.get_nowait()
        except queue.Empty: break
        p=f'{w}/repo/{f}'; L=open(p).read().split('\n'); assert L[n]==old; orig='\n'.join(L); L[n]=new; open(p,'w').write('\n'.join(L))
        st='survived'; by=''; t0=time.time()
        for ch in c.split():
            try: r=subprocess.run(['python3','run.py','check',ch],cwd=w+'/v',env=dict(os.environ,VERIF_REPO=w+'/repo',VERIF_BUILD=w+'/build',VERIF_SEED=opt['-s'],VERIF_TIER='quick'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900); rc=r.returncode; o=r.stdout
            except subprocess.TimeoutExpired: rc=-1; o='timeout'
            if rc==1: st='killed'; by=ch; break
            if rc!=0: st='nobuild' if 'build failed' in o else 'other'; by=ch+' '+o[-200:].replace('\n',' '); break
        res[st]+=1
        say(f'{st.upper():9s} {f}:{n+1} {by} {time.time()-t0:.0f}s')
        if st in('survived','other'): say(f'    - {old.strip()}\n    + {new.strip()}')
        open(p,'w').write(orig)
T=[threading.Thread(target=worker,args=(k,)) for k in range(int(opt['-j']))]
[t.start() for t in T]; [t.join() for t in T]
say(res); shutil.rmtree('/tmp/mut',ignore_errors=True)
