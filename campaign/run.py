#!/usr/bin/env python3
"""run.py SCRATCH [filter...]: apply each mutant in SCRATCH/repo, run the expected properties' checks in SCRATCH/verif."""
import sys,subprocess,os,time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import importlib
M=importlib.import_module(os.environ.get("MUT","mutants")).M
S=sys.argv[1]; flt=sys.argv[2:]
def apply(S,f,old,new):
    for f,old,new in (f if isinstance(f,list) else [(f,old,new)]):
        p=S+'/repo'+(f if f.startswith('/') else '/programs/presale/src/'+f)
        s=open(p).read()
        if old not in s: return False
        open(p,'w').write(s.replace(old,new,1))
    return True
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for id,f,old,new,props,n in M:
    if flt and not any(x in id for x in flt): continue
    if not props and not flt: continue
    sh(f'git -C {S}/repo checkout -- .')
    if not apply(S,f,old,new): print(f'{id:22} NOT-APPLICABLE',flush=True); continue
    b=sh(f'cd {S}/verif && bash build.sh')
    if b.returncode: print(f'{id:22} BUILD-FAIL {b.stderr[-600:]}',flush=True); continue
    out=[]
    for q in os.environ.get('PROPS','').split() or props or ['C22']:
        t=time.time()
        r=sh(f'cd {S}/verif && bash check.sh {q} quick')
        out.append(f"{q}:{'hit' if r.returncode==1 else 'MISS' if r.returncode==0 else 'rc%d'%r.returncode}({time.time()-t:.0f}s)")
    print(f'{id:22} {" ".join(out)}',flush=True)
sh(f'git -C {S}/repo checkout -- .')
