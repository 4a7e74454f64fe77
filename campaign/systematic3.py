#!/usr/bin/env python3
"""systematic3.py SCRATCH i n [list]: adjacent statements exchanged, adjacent arguments of a call exchanged, and
single statements repeated."""
import sys,re,glob,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from systematic import sh,body
def statements(s,n):
    """(start,end) of the simple statements (ending in ;) per block"""
    out=[]; stack=[]; i=0; cur=None
    while i<n:
        c=s[i]
        if s.startswith('//',i): i=s.find('\n',i); i=n if i<0 else i; continue
        if c=='"':
            i+=1
            while s[i]!='"': i+=2 if s[i]=='\\' else 1
        elif c in '{([':
            stack.append((c,i+1,[]))
        elif c in '})]':
            if stack:
                b=stack.pop()
                if b[0]=='{': out.append(b[2])
            if c=='}' and stack and stack[-1][0]=='{':
                # end of a nested block: a new statement begins unless the expression goes on
                m=re.match(r'\s*([.?;,)]|else)',s[i+1:i+40])
                if not m:
                    stack[-1]=(stack[-1][0],i+1,stack[-1][2]); stack[-1][2].append(None)
        elif c==';' and stack and stack[-1][0]=='{':
            b=stack[-1]; st=b[1]
            while s[st] in ' \n\t' or s.startswith('//',st):
                st = s.find('\n',st) if s.startswith('//',st) else st+1
            b[2].append((st,i+1)); stack[-1]=(b[0],i+1,b[2])
        i+=1
    return out
def mutants(root):
    out=[]
    for p in sorted(glob.glob(root+'/programs/presale/src/**/*.rs',recursive=True)):
        r=os.path.relpath(p,root)[len('programs/presale/src/'):]
        if r.endswith(('errors.rs','safe_math.rs','lib.rs','macros.rs','const_pda.rs','events.rs','constants.rs','mod.rs')) and 'handler' not in r and 'initialize' not in r: continue
        s,n=body(p)
        ln=lambda i: s.count('\n',0,i)+1
        for blk in statements(s,n):
            for a,b in zip(blk,blk[1:]):
                if not a or not b: continue
                A,B=s[a[0]:a[1]],s[b[0]:b[1]]
                if A.startswith('use ') or B.startswith('use '): continue
                pure=lambda z: z.startswith(('let ','require','static')) and '_mut' not in z
                if pure(A) and pure(B): continue
                out.append((f'swap@{r}:{ln(a[0])}',p,a[0],b[1],B+s[a[1]:b[0]]+A))
            for a in blk:
                if not a: continue
                A=s[a[0]:a[1]]
                if A.startswith(('use ','let ','emit','require','return')): continue
                out.append((f'twice@{r}:{ln(a[0])}',p,a[0],a[1],A+A))
        for m in re.finditer(r'[\w!]\(((?:[^(){};]|\([^(){};]*\))*,(?:[^(){};]|\([^(){};]*\))*)\)',s):
            if m.start()>=n: continue
            args=re.findall(r'\s*((?:[^(),]|\([^()]*\))+)(?:,|$)',m.group(1))
            pos=[]; o=m.start(1)
            for x in re.finditer(r'\s*((?:[^(),]|\([^()]*\))+)',m.group(1)):
                if x.group(1).strip(): pos.append((o+x.start(1),o+x.end(1)))
            if s[m.start()-6:m.start()].find('fn ')>=0 or re.search(r'fn \w*$',s[max(0,m.start()-60):m.start()+1]): continue
            for a,b in zip(pos,pos[1:]):
                A,B=s[a[0]:a[1]].rstrip(),s[b[0]:b[1]].rstrip()
                if A==B or '"' in A+B or ' = ' in A+B or '//' in A+B or 'Error' in A+B or s[s.rfind('\n',0,m.start())+1:m.start()].strip().startswith('#'): continue
                out.append((f'args@{r}:{ln(a[0])}',p,a[0],b[0]+len(B),B+s[a[0]+len(A):b[0]]+A))
    return out
if __name__=='__main__':
    S=sys.argv[1]; k=int(sys.argv[2]); n=int(sys.argv[3])
    M=mutants(S+'/repo')
    if len(sys.argv)>4:
        print(len(M))
        for m in M: print(m[0],repr(m[4][:150]))
        sys.exit()
    for x,(id,p,i,j,new) in enumerate(M):
        if x%n!=k: continue
        sh(f'git -C {S}/repo checkout -- .')
        s=open(p).read(); open(p,'w').write(s[:i]+new+s[j:])
        b=sh(f'cd {S}/verif && bash build.sh presale-monitor')
        if b.returncode: print(f'{x:4} {id:70} NOBUILD',flush=True); continue
        r=sh(f'cd {S}/verif && ./harness/target/release/presale-monitor survey 12000 7')
        print(f'{x:4} {id:70} {"SURVIVED" if r.stdout.startswith("0 div") else r.stdout.strip()[:150] or r.stderr[-300:]}',flush=True)
    sh(f'git -C {S}/repo checkout -- .')
