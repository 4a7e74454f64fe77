#!/usr/bin/env python3
"""matrix.py SCRATCH BATCH...: which properties notice each breakage (survey over all workloads)."""
import sys,subprocess,os,importlib
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
S=sys.argv[1]
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
for b in sys.argv[2:]:
    for id,f,old,new,props,n in importlib.import_module(b).M:
        sh(f'git -C {S}/repo checkout -- .')
        p=S+'/repo'+(f if f.startswith('/') else '/programs/presale/src/'+f)
        s=open(p).read()
        if old not in s: print(f'{id:22} NOT-APPLICABLE',flush=True); continue
        open(p,'w').write(s.replace(old,new,1))
        r=sh(f'cd {S}/verif && bash build.sh')
        if r.returncode: print(f'{id:22} BUILD-FAIL',flush=True); continue
        r=sh(f'cd {S}/verif && timeout 120 harness/target/release/presale-monitor survey 12000 5')
        print(f'{id:22} want {",".join(props)}: {r.stdout.strip()[-420:]}',flush=True)
sh(f'git -C {S}/repo checkout -- .')
