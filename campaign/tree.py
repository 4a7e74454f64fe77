#!/usr/bin/env python3
"""tree.py SCRATCH: classic mutations of the whitelist library, judged by C16's quick check."""
import sys,os,re,glob,subprocess
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
S=sys.argv[1]; out=[]
for p in sorted(glob.glob(S+'/repo/merkle-tree/src/*.rs')):
    s=open(p).read(); n=s.find('#[cfg(test)]'); n=len(s) if n<0 else n
    def add(op,i,j,new):
        l=s[s.rfind('\n',0,i)+1:i]
        if i<n and '//' not in l: out.append((f'{op}@{os.path.basename(p)}:{s.count(chr(10),0,i)+1}',p,i,j,new))
    for m in re.finditer(r' (<=|>=|==|!=|<|>) ',s):
        add(m.group(0),m.start(1),m.end(1),{'<=':'<','>=':'>','==':'!=','!=':'==','<':'<=','>':'>='}[m.group(1)])
    for m in re.finditer(r'(?<![\w&])(\+ 1|- 1|2 \* |/ 2|\+= level_len|/= 2|% 2)',s):
        add(m.group(0),m.start(),m.end(),{'+ 1':'+ 2','- 1':'- 0','2 * ':'1 * ','/ 2':'/ 3','+= level_len':'+= 1','/= 2':'/= 3','% 2':'% 3'}[m.group(1)])
    for m in re.finditer(r'LEAF_PREFIX, |INTERMEDIATE_PREFIX, ',s): add('prefix',m.start(),m.end(),'')
    for m in re.finditer(r'&\[0\]|&\[1\]',s): add('const',m.start(),m.end(),'&[2]')
    for m in re.finditer(r'&self\.(registry_index|deposit_cap)\.to_le_bytes\(\),\n',s): add('hash drop',m.start(),m.end(),'')
    for m in re.finditer(r'to_le_bytes',s): add('be',m.start(),m.end(),'to_be_bytes')
    for m in re.finditer(r'lsib, rsib\)',s): add('swap',m.start(),m.end(),'rsib, lsib)')
    for m in re.finditer(r'tree\.validate\(\)\?;|tree_node\.proof = [^\n]*',s): add('drop',m.start(),m.end(),'')
    for m in re.finditer(r', true\)',s): add('unsorted',m.start(),m.end(),', false)')
print(len(out))
for id,p,i,j,new in out:
    sh(f'git -C {S}/repo checkout -- .')
    s=open(p).read(); open(p,'w').write(s[:i]+new+s[j:])
    b=sh(f'cd {S}/verif && bash build.sh tree-monitor')
    if b.returncode: print(f'{id:50} NOBUILD',flush=True); continue
    r=sh(f'cd {S}/verif && timeout 300 bash check.sh C16 quick')
    print(f'{id:50} rc{r.returncode} {"SURVIVED" if r.returncode==0 else (r.stdout.strip() or r.stderr)[:100]}',flush=True)
sh(f'git -C {S}/repo checkout -- .')
