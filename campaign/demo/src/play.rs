//! Straight-line scripting of the presale program: each method sends one real instruction and says
//! whether it was accepted. No expectations live here.
#![allow(dead_code)]
use crate::abi::*;
use crate::bank::{meta, Env, TxOut};
use crate::rng::Rng;
use crate::world::*;
use solana_program::{instruction::AccountMeta, pubkey::Pubkey};

pub const FIXED: u8 = 0;
pub const PRORATA: u8 = 1;
pub const FCFS: u8 = 2;
pub const OPEN: u8 = 0;
pub const MERKLE: u8 = 1;
pub const AUTHORITY: u8 = 2;
pub const T0: u64 = 1_700_000_000;

fn ro(k: Pubkey) -> AccountMeta { meta(k, false, false) }
fn wr(k: Pubkey) -> AccountMeta { meta(k, false, true) }
fn sg(k: Pubkey) -> AccountMeta { meta(k, true, false) }
fn sw(k: Pubkey) -> AccountMeta { meta(k, true, true) }

pub fn plain_mint(key: Pubkey) -> MintInfo { MintInfo { key, prog: TOKEN, decimals: 6, fee: None, hook: false, hook_empty: false, pointer: false, metadata: false, bad_ext: None, native: false } }
pub fn args(mode: u8, max: u64, min: u64, regs: Vec<RegArgs>) -> InitArgs {
    InitArgs { max_cap: max, min_cap: min, start: T0, end: T0 + 1000, whitelist: OPEN, mode, unsold: 0, disable_early: 1,
        lock_bps: 0, lock: 0, vest: 0, imm_ts: 0, regs }
}
pub fn reg(min: u64, max: u64, supply: u64, fee_bps: u16) -> RegArgs { RegArgs { min, max, supply, fee_bps } }

#[derive(Clone, Copy)]
pub struct Sale { pub key: Pubkey, pub bm: usize, pub qm: usize, pub creator: Pubkey, pub base: Pubkey }

pub struct Play { pub w: World, pub rng: Rng, pub last: Option<TxOut> }

impl Play {
    /// Users 0..n are rich in both mints; mints 0 = base, 1 = quote.
    pub fn new(env: &Env, n: usize) -> Play {
        let mut rng = Rng::new(7);
        let w = World::new(env, &mut rng, n);
        let mut p = Play { w, rng, last: None };
        let (a, b) = (p.rng.key(), p.rng.key());
        p.w.add_mint(plain_mint(a));
        p.w.add_mint(plain_mint(b));
        for m in 0..2 { p.wallets(m, 1u64 << 61); }
        p.at(T0);
        p
    }
    pub fn wallets(&mut self, m: usize, amount: u64) {
        let mut all = self.w.users.clone();
        all.extend(self.w.creators.clone());
        all.push(self.w.payer);
        all.push(self.w.stranger);
        for u in all { self.w.give(&u, m, amount, false); }
    }
    pub fn at(&mut self, t: u64) { let e = self.w.epoch(); self.w.bank.set_clock(t as i64, e); }
    pub fn send(&mut self, name: &str, accts: Vec<AccountMeta>, rem: Vec<AccountMeta>, data: Vec<u8>) -> bool {
        let o = self.w.bank.exec(&ix(name, &data, accts, rem));
        let ok = o.ok;
        eprintln!("[{}] {name} -> {}", self.w.now(), if ok { "accepted".to_string() } else { format!("refused {:?} {:?}", o.err, o.panic) });
        self.last = Some(o);
        ok
    }
    pub fn events(&self) -> Vec<Vec<u8>> {
        self.last.as_ref().unwrap().trace.iter().filter(|t| t.height == 2 && t.program == PROGRAM && t.data.len() >= 16 && t.data[..8] == EVENT_TAG).map(|t| t.data[8..].to_vec()).collect()
    }
    pub fn presale(&self, s: &Sale) -> PresaleS { decode_presale(self.w.bank.data(&s.key).unwrap()).unwrap() }
    pub fn escrow(&self, k: &Pubkey) -> EscrowS { decode_escrow(self.w.bank.data(k).unwrap()).unwrap() }
    pub fn bal(&self, owner: &Pubkey, m: usize) -> u64 { self.w.balance(&self.w.ata(owner, m)) }
    pub fn hooks(&self, m: usize, ty: u8) -> (Vec<u8>, Vec<AccountMeta>) {
        if self.w.mints[m].hook { let a = self.w.hook_metas(m); (rai(&[(ty, a.len() as u8)]), a) } else { (rai(&[]), vec![]) }
    }
    /// `q` = fixed price in Q64 and the withdrawal lock.
    pub fn create(&mut self, a: &InitArgs, bm: usize, qm: usize, q: Option<(u128, u8)>) -> (Sale, bool) {
        let base = self.rng.key();
        let creator = self.w.creators[0];
        let (bk, qk) = (self.w.mints[bm].key, self.w.mints[qm].key);
        let key = presale_pda(&base, &bk, &qk);
        let s = Sale { key, bm, qm, creator, base };
        let payer = self.w.payer;
        let mut rem = vec![];
        if let Some((q, dw)) = q {
            let fa = fixed_args_pda(&key);
            self.send("initialize_fixed_price_presale_args", vec![wr(fa), ro(creator), sw(payer), ro(SYSTEM)], vec![], W::new().key(&key).u8(dw).u128(q).zeros(64).0);
            rem.push(ro(fa));
        }
        let (sl, h) = self.hooks(bm, 0);
        rem.extend(h);
        let mut d = a.encode();
        d.extend(sl);
        let src = self.w.ata(&payer, bm);
        let acc = vec![ro(bk), wr(key), ro(presale_authority()), ro(qk), wr(base_vault(&key)), wr(quote_vault(&key)), wr(src), ro(creator), sg(base), sw(payer), ro(self.w.mints[bm].prog), ro(self.w.mints[qm].prog), ro(SYSTEM)];
        let ok = self.send("initialize_presale", acc, rem, d);
        (s, ok)
    }
    pub fn open(&mut self, s: &Sale, owner: Pubkey) -> (Pubkey, bool) {
        let k = escrow_pda(&s.key, &owner, 0);
        let payer = self.w.payer;
        let ok = self.send("create_permissionless_escrow", vec![wr(s.key), wr(k), ro(owner), sw(payer), ro(SYSTEM)], vec![], vec![]);
        (k, ok)
    }
    pub fn operator(&mut self, creator: Pubkey, op: Pubkey) -> bool {
        let k = operator_pda(&creator, &op);
        self.send("create_operator", vec![wr(k), ro(op), sw(creator), ro(SYSTEM)], vec![], vec![])
    }
    pub fn revoke(&mut self, creator: Pubkey, op: Pubkey) -> bool {
        let k = operator_pda(&creator, &op);
        self.send("revoke_operator", vec![wr(k), sw(creator)], vec![], vec![])
    }
    pub fn open_op(&mut self, s: &Sale, owner: Pubkey, idx: u8, cap: u64, opacc: Pubkey, op: Pubkey) -> (Pubkey, bool) {
        let k = escrow_pda(&s.key, &owner, idx);
        let payer = self.w.payer;
        let ok = self.send("create_permissioned_escrow_with_creator", vec![wr(s.key), wr(k), ro(owner), ro(opacc), sg(op), sw(payer), ro(SYSTEM)], vec![], W::new().u8(idx).u64(cap).zeros(32).0);
        (k, ok)
    }
    pub fn root(&mut self, s: &Sale, version: u64, root: [u8; 32], creator: Pubkey) -> (Pubkey, bool) {
        let k = merkle_pda(&s.key, version);
        let ok = self.send("create_merkle_root_config", vec![ro(s.key), wr(k), sw(creator), ro(SYSTEM)], vec![], W::new().raw(&root).u64(version).0);
        (k, ok)
    }
    pub fn close_root(&mut self, s: &Sale, version: u64, creator: Pubkey, recv: Pubkey) -> bool {
        let k = merkle_pda(&s.key, version);
        self.send("close_merkle_root_config", vec![ro(s.key), wr(k), wr(recv), sg(creator)], vec![], vec![])
    }
    pub fn open_proof(&mut self, s: &Sale, owner: Pubkey, idx: u8, cap: u64, config: Pubkey, proof: &[[u8; 32]]) -> (Pubkey, bool) {
        let k = escrow_pda(&s.key, &owner, idx);
        let payer = self.w.payer;
        let mut w = W::new().u32(proof.len() as u32);
        for p in proof { w = w.raw(p); }
        let ok = self.send("create_permissioned_escrow_with_merkle_proof", vec![wr(s.key), wr(k), ro(owner), ro(config), sw(payer), ro(SYSTEM)], vec![], w.u8(idx).u64(cap).zeros(32).0);
        (k, ok)
    }
    pub fn deposit(&mut self, s: &Sale, ek: Pubkey, payer: Pubkey, max: u64) -> bool {
        let (sl, rem) = self.hooks(s.qm, 1);
        let mut d = W::new().u64(max).0;
        d.extend(sl);
        let m = self.w.mints[s.qm].clone();
        let src = self.w.ata(&payer, s.qm);
        self.send("deposit", vec![wr(s.key), wr(quote_vault(&s.key)), ro(m.key), wr(ek), wr(src), sg(payer), ro(m.prog)], rem, d)
    }
    fn payout(&mut self, name: &str, s: &Sale, base: bool, ek: Pubkey, owner: Pubkey, lead: Vec<u8>) -> bool {
        let (mi, ty, v) = if base { (s.bm, 0, base_vault(&s.key)) } else { (s.qm, 1, quote_vault(&s.key)) };
        let (sl, rem) = self.hooks(mi, ty);
        let mut d = lead;
        d.extend(sl);
        let m = self.w.mints[mi].clone();
        let dest = self.w.ata(&owner, mi);
        self.send(name, vec![wr(s.key), wr(v), ro(m.key), ro(presale_authority()), wr(ek), wr(dest), sg(owner), ro(m.prog), ro(MEMO)], rem, d)
    }
    pub fn withdraw(&mut self, s: &Sale, ek: Pubkey, owner: Pubkey, amount: u64) -> bool { self.payout("withdraw", s, false, ek, owner, W::new().u64(amount).0) }
    pub fn claim(&mut self, s: &Sale, ek: Pubkey, owner: Pubkey) -> bool { self.payout("claim", s, true, ek, owner, vec![]) }
    pub fn refund(&mut self, s: &Sale, ek: Pubkey, owner: Pubkey) -> bool { self.payout("withdraw_remaining_quote", s, false, ek, owner, vec![]) }
    pub fn refresh(&mut self, s: &Sale, ek: Pubkey) -> bool { self.send("refresh_escrow", vec![ro(s.key), wr(ek)], vec![], vec![]) }
    pub fn unsold(&mut self, s: &Sale) -> bool {
        let (sl, rem) = self.hooks(s.bm, 0);
        let m = self.w.mints[s.bm].clone();
        let dest = self.w.ata(&s.creator, s.bm);
        self.send("perform_unsold_base_token_action", vec![wr(s.key), wr(base_vault(&s.key)), wr(m.key), ro(presale_authority()), wr(dest), ro(m.prog), ro(MEMO)], rem, sl)
    }
    pub fn close_escrow(&mut self, s: &Sale, ek: Pubkey, owner: Pubkey, recv: Pubkey) -> bool {
        self.send("close_escrow", vec![wr(s.key), wr(ek), sg(owner), wr(recv)], vec![], vec![])
    }
    pub fn creator_withdraw(&mut self, s: &Sale, base: bool, signer: Pubkey) -> bool {
        let (mi, ty, v) = if base { (s.bm, 0, base_vault(&s.key)) } else { (s.qm, 1, quote_vault(&s.key)) };
        let (sl, h) = self.hooks(mi, ty);
        let m = self.w.mints[mi].clone();
        let dest = self.w.ata(&signer, mi);
        let mut rem = vec![wr(v), ro(m.key)];
        rem.extend(h);
        self.send("creator_withdraw", vec![wr(s.key), ro(presale_authority()), wr(dest), sg(signer), ro(m.prog), ro(MEMO)], rem, sl)
    }
    pub fn collect_fee(&mut self, s: &Sale, signer: Pubkey) -> bool {
        let (sl, rem) = self.hooks(s.qm, 1);
        let m = self.w.mints[s.qm].clone();
        let dest = self.w.ata(&signer, s.qm);
        self.send("creator_collect_fee", vec![wr(s.key), ro(presale_authority()), wr(quote_vault(&s.key)), ro(m.key), wr(dest), sg(signer), ro(m.prog), ro(MEMO)], rem, sl)
    }
}
