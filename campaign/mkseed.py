#!/usr/bin/env python3
"""mkseed.py SCRATCH [filter..]: (re)create /verif/seeded/<id> from seeds.py and verify each in SCRATCH/repo
(a cp -a of /repo): patch applies, demo passes before and fails after, stable tests pass with the patch."""
import sys,os,subprocess,json,shutil
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from seeds import S
scr=sys.argv[1]; flt=sys.argv[2:]; R=scr+'/repo'
V=os.path.dirname(HERE); H=V+'/harness'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)

for s in S:
    if flt and not any(x in s['id'] for x in flt): continue
    D=f"{V}/seeded/{s['id']}"
    shutil.rmtree(D,ignore_errors=True); os.makedirs(D+'/crate/src'); os.makedirs(D+'/crate/elf')
    shutil.copy(HERE+'/demo/demo.sh',D); shutil.copy(HERE+'/demo/Cargo.toml',D+'/crate/')
    lock=open(H+'/Cargo.lock').read().replace('name = "presale-monitor"','name = "demo"'); open(D+'/crate/Cargo.lock','w').write(lock)
    shutil.copytree(H+'/stubs',D+'/crate/stubs')
    for f in os.listdir(H+'/elf'): shutil.copy(H+'/elf/'+f,D+'/crate/elf/')
    for f in 'abi bank merkle rng world'.split(): shutil.copy(f'{H}/src/{f}.rs',D+'/crate/src/')
    for f in 'main play'.split(): shutil.copy(f'{HERE}/demo/src/{f}.rs',D+'/crate/src/')
    open(D+'/crate/src/demo.rs','w').write('#[allow(unused_imports)]\nuse crate::{abi::*, bank::Env, play::*};\npub fn demo(env: &Env) {'+s['demo'].replace("\\'","'")+'}\n')
    json.dump(dict(property=s['property'],needs=s['needs'].replace("\\'","'"),what_it_breaks=s['breaks'].replace("\\'","'")),open(D+'/meta.json','w'),indent=1)
    sh(f'git -C {R} checkout -q -- .')
    a=sh(f'bash {D}/demo.sh',cwd=R)
    for f,o,n in s['edits']:
        p=R+(f if f.startswith('/') else '/programs/presale/src/'+f); t=open(p).read(); assert o in t,(s['id'],f)
        open(p,'w').write(t.replace(o,n,1))
    open(D+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
    b=sh(f'bash {D}/demo.sh',cwd=R)
    # tests in the scratch tree
    t=sh(f'. /opt/vp/env.sh; cd {R} && cargo test --workspace --lib --bins --test test_misc --locked --offline 2>&1 | grep -E "^test result|FAILED|error"')
    print(s['id'],'before',a.returncode,'after',b.returncode,'|',' '.join(l for l in t.stdout.splitlines())[:400],flush=True)
    if a.returncode: print(a.stdout[-1500:],a.stderr[-1500:])
    print('    ',b.stdout[-300:].strip())
    sh(f'git -C {R} checkout -q -- .')
