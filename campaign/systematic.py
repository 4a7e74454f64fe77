#!/usr/bin/env python3
"""systematic.py SCRATCH i n: every n-th classic mutation (starting at i) of the program's sources in SCRATCH/repo;
which properties does a survey of all workloads attribute it to? Lists the survivors."""
import sys,subprocess,os,re,glob
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def body(p):
    s=open(p).read()
    i=s.find('#[cfg(test)]'); 
    return s, (len(s) if i<0 else i)
def balanced(s,i,o='(',c=')'):
    d=0
    for j in range(i,len(s)):
        if s[j]==o: d+=1
        elif s[j]==c:
            d-=1
            if d==0: return j
def mutants(root):
    out=[]
    files=sorted(glob.glob(root+'/programs/presale/src/**/*.rs',recursive=True))
    for p in files:
        r=os.path.relpath(p,root)
        if r.endswith(('errors.rs','safe_math.rs','events.rs','lib.rs','macros.rs','const_pda.rs','mod.rs')) and 'presale_mode_handler' not in r: continue
        s,n=body(p)
        def add(op,i,j,new):
            if s[i:j]!=new and i<n:
                line=s.count('\n',0,i)+1
                # not in comments or asserts
                l=s[s.rfind('\n',0,i)+1:i]
                if '//' in l or 'static_assertions' in l: return
                out.append((f'{op}@{r[len("programs/presale/src/"):]}:{line}',p,i,j,new))
        for m in re.finditer(r'^\s*has_one = [^\n]*,\n',s,re.M): add('has_one '+m.group(0).strip(),m.start(),m.end(),'')
        for m in re.finditer(r'^\s*(constraint|address) = [^\n]*,?\n',s,re.M): add('constraint '+m.group(0).strip(),m.start(),m.end(),'')
        for m in re.finditer(r'require!\(',s):
            j=balanced(s,m.end()-1); add('require '+s[m.end():j].strip().split('\n')[0].strip(),m.start(),j+2,'')
        for m in re.finditer(r' (<=|>=|==|!=|<|>) ',s):
            o=m.group(1); l=s[s.rfind('\n',0,m.start())+1:s.find('\n',m.end())]
            if l.strip().startswith('pub fn') or 'has_one' in l or '=>' in l and o in '<>': continue
            for nw in {'<=':['<'],'>=':['>'],'==':['!='],'!=':['=='],'<':['<='],'>':['>=']}[o]:
                add(f'{o}->{nw}',m.start(1),m.end(1),nw)
        for m in re.finditer(r'&&',s): add('&&->||',m.start(),m.end(),'||')
        for m in re.finditer(r' \|\| ',s): add('||->&&',m.start()+1,m.end()-1,'&&')
        for a,b in (('safe_add','safe_sub'),('safe_sub','safe_add'),('.min(','.max('),('Rounding::Up','Rounding::Down'),('safe_mul','safe_div'),('div_ceil(','safe_div(')):
            for m in re.finditer(re.escape(a),s):
                add(f'{a}->{b}',m.start(),m.end(),b)
        for m in re.finditer(r'div_ceil\(SCALE_MULTIPLIER\)',s): add('ceil->floor',m.start(),m.end(),'safe_div(SCALE_MULTIPLIER)?')
        # statements dropped
        for m in re.finditer(r'^        ?(    )*((self|presale|escrow|presale_registry|handler|presale_handler|[a-z_]+_registry)\.[a-z_]+(\.[a-z_]+)*)( =|\()',s,re.M):
            i=m.start(2); d=0; j=i
            while j<len(s):
                if s[j] in '([{': d+=1
                elif s[j] in ')]}': 
                    d-=1
                    if d<0: break
                elif s[j]==';' and d==0: break
                j+=1
            if j<len(s) and s[j]==';': add('drop '+m.group(2),i,j+1,'')
        for m in re.finditer(r'emit_cpi!\(',s):
            j=balanced(s,m.end()-1); add('drop emit',m.start(),j+2,'')
        for m in re.finditer(r'^    pub (\w+): Signer<\'info>',s,re.M):
            add('unsigned '+m.group(1),m.start(),m.end(),f"    /// CHECK: mutant\n    pub {m.group(1)}: UncheckedAccount<'info>")
    return out
if __name__=='__main__':
    S=sys.argv[1]; k=int(sys.argv[2]); n=int(sys.argv[3])
    M=mutants(S+'/repo')
    if len(sys.argv)>4: print(len(M)); [print(m[0]) for m in M]; sys.exit()
    for x,(id,p,i,j,new) in enumerate(M):
        if x%n!=k: continue
        sh(f'git -C {S}/repo checkout -- .')
        s=open(p).read(); open(p,'w').write(s[:i]+new+s[j:])
        b=sh(f'cd {S}/verif && bash build.sh presale-monitor')
        if b.returncode: print(f'{x:4} {id:70} NOBUILD',flush=True); continue
        r=sh(f'cd {S}/verif && ./harness/target/release/presale-monitor survey 12000 7')
        print(f'{x:4} {id:70} {"SURVIVED" if r.stdout.startswith("0 div") else r.stdout.strip() or r.stderr[-300:]}',flush=True)
    sh(f'git -C {S}/repo checkout -- .')
