#!/usr/bin/env python3
"""systematic2.py SCRATCH i n: as systematic.py, but every identifier is replaced by a plausible neighbour."""
import sys,re,glob,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from systematic import sh,body
PAIRS=[('total_deposit','total_deposit_fee'),('presale_maximum_cap','presale_minimum_cap'),('buyer_maximum_deposit_cap','buyer_minimum_deposit_cap'),
('vesting_start_time','vesting_end_time'),('lock_duration','vest_duration'),('pending_claim_token','total_claimed_token'),('presale_start_time','presale_end_time'),
('total_refunded_quote_token','total_claimed_token'),('refund_amount','refund_fee'),('refund_deposit_amount','refund_fee_amount'),('presale_supply','total_deposit'),
('immediate_release_timestamp','vesting_start_time'),('vesting_end_time','presale_end_time'),('created_at','last_refreshed_at'),('deposit_max_cap','total_deposit'),
('total_escrow','total_presale_registry_count'),('base_mint','quote_mint'),('base_token_vault','quote_token_vault'),('owner','payer'),('owner','creator'),
('TransferHookBase','TransferHookQuote'),('Completed','Failed'),('Ongoing','NotStarted'),('Ongoing','Completed'),('Burn','Refund'),('Prorata','Fcfs'),('FixedPrice','Fcfs'),
('included_fee_deposit_amount','suggested_deposit_amount'),('max_capped_deposit_amount','max_amount'),('include_transfer_fee_deposit_amount','included_fee_deposit_amount'),
('exclude_fee_amount','amount'),('excluded_fee_claim_amount','pending_claim_token'),('immediate_released_amount','vested_amount'),('user_deposit','total_deposit'),
('PermissionWithMerkleProof','PermissionWithAuthority'),('MINIMUM_PRESALE_DURATION','MAXIMUM_PRESALE_DURATION'),('is_remaining_quote_withdrawn','is_empty'),
('has_creator_withdrawn','deposit_fee_collected'),('is_unsold_token_action_performed','has_creator_withdrawn'),('base_token_program','quote_token_program'),
('safe_add','saturating_sub'),('presale_remaining_quote','presale_total_deposit'),('registry_remaining_quote','presale_remaining_quote'),('cumulative_escrow_claimable_token','claimable_bought_token'),
('global_remaining_quota','personal_remaining_quota'),('registry_remaining_deposit_quota','global_remaining_quota'),('minimum_base_token_bought','maximum_base_token_bought')]
RECV=[('presale_registry.','presale.'),('presale_registry.','escrow.'),('escrow.','presale_registry.'),('presale.','presale_registry.'),('self.','escrow.'),('registry.','presale.'),('presale.total_deposit','escrow.total_deposit')]
def mutants(root):
    out=[]
    for p in sorted(glob.glob(root+'/programs/presale/src/**/*.rs',recursive=True)):
        r=os.path.relpath(p,root)[len('programs/presale/src/'):]
        if r.endswith(('errors.rs','safe_math.rs','lib.rs','macros.rs','const_pda.rs','events.rs')) : continue
        s,n=body(p)
        def add(op,i,j,new):
            l=s[s.rfind('\n',0,i)+1:s.find('\n',i)]
            if i>=n or '//' in s[s.rfind('\n',0,i)+1:i] or 'static_assertions' in l: return
            if re.match(r'\s*(pub )?\w+: ',l) and not re.search(r'[.(]',l): return   # declarations
            if re.match(r'\s*(pub fn|fn|use|pub struct|mod)\b',l): return
            out.append((f'{op}@{r}:{s.count(chr(10),0,i)+1}',p,i,j,new))
        for a,b in PAIRS:
            for x,y in ((a,b),(b,a)):
                for m in re.finditer(r'(?<![\w])'+x+r'(?![\w])',s): add(f'{x}->{y}',m.start(),m.end(),y)
        for a,b in RECV:
            for m in re.finditer(r'(?<![\w.])'+re.escape(a),s): add(f'{a}->{b}',m.start(),m.end(),b)
        for m in re.finditer(r'(?<![\w.\[])([01])(?![\w.])',s): add(f'{m.group(1)}->{1-int(m.group(1))}',m.start(),m.end(),str(1-int(m.group(1))))
    return out
if __name__=='__main__':
    S=sys.argv[1]; k=int(sys.argv[2]); n=int(sys.argv[3])
    M=mutants(S+'/repo')
    if len(sys.argv)>4: print(len(M)); [print(m[0]) for m in M]; sys.exit()
    for x,(id,p,i,j,new) in enumerate(M):
        if x%n!=k: continue
        sh(f'git -C {S}/repo checkout -- .')
        s=open(p).read(); open(p,'w').write(s[:i]+new+s[j:])
        b=sh(f'cd {S}/verif && bash build.sh presale-monitor')
        if b.returncode: print(f'{x:4} {id:70} NOBUILD',flush=True); continue
        r=sh(f'cd {S}/verif && ./harness/target/release/presale-monitor survey 12000 7')
        print(f'{x:4} {id:70} {"SURVIVED" if r.stdout.startswith("0 div") else r.stdout.strip() or r.stderr[-300:]}',flush=True)
    sh(f'git -C {S}/repo checkout -- .')
