//! Mints, wallets and token accounts of a scenario (raw account images, real token programs).

use crate::abi::*;
use crate::bank::{meta, Bank, Env};
use crate::rng::Rng;
use solana_account::Account;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct TFee {
    pub old: (u64, u64, u16), // epoch, max, bps
    pub new: (u64, u64, u16),
}
impl TFee {
    pub fn at(&self, epoch: u64) -> (u64, u16) {
        let s = if epoch >= self.new.0 { self.new } else { self.old };
        (s.1, s.2)
    }
}

#[derive(Clone, Debug)]
pub struct MintInfo {
    pub key: Pubkey,
    pub prog: Pubkey,
    pub decimals: u8,
    pub fee: Option<TFee>,
    pub hook: bool,
    /// hook extension present but pointing nowhere
    pub hook_empty: bool,
    pub pointer: bool,
    pub metadata: bool,
    /// extension that must not be accepted (type, len)
    pub bad_ext: Option<(u16, u16)>,
    pub native: bool,
}
impl MintInfo {
    pub fn fee_on(&self, epoch: u64, amount: u64) -> u64 {
        match &self.fee {
            None => 0,
            Some(f) => {
                let (max, bps) = f.at(epoch);
                if bps == 0 || amount == 0 {
                    return 0;
                }
                let raw = ((amount as u128) * bps as u128).div_ceil(10_000);
                (raw.min(max as u128)) as u64
            }
        }
    }
    /// Amount to send so that exactly `net` arrives.
    pub fn gross_for(&self, epoch: u64, net: u64) -> Option<u64> {
        if net == 0 {
            return Some(0);
        }
        let Some(f) = &self.fee else { return Some(net) };
        let (max, bps) = f.at(epoch);
        if bps == 0 {
            return Some(net);
        }
        if bps == 10_000 {
            return net.checked_add(max);
        }
        let raw = ((net as u128) * 10_000).div_ceil(10_000 - bps as u128);
        let pre = if raw - net as u128 >= max as u128 { net as u128 + max as u128 } else { raw };
        u64::try_from(pre).ok()
    }
}

pub fn copt(k: Option<&Pubkey>, w: W) -> W {
    match k {
        Some(k) => w.u32(1).key(k),
        None => w.u32(0).zeros(32),
    }
}

pub fn mint_image(m: &MintInfo, auth: &Pubkey, supply: u64) -> Vec<u8> {
    let mut w = copt(Some(auth), W::new()).u64(supply).u8(m.decimals).u8(1);
    w = copt(None, w);
    let mut tlv: Vec<(u16, Vec<u8>)> = Vec::new();
    if let Some(f) = &m.fee {
        let x = W::new()
            .key(auth)
            .key(auth)
            .u64(0)
            .u64(f.old.0)
            .u64(f.old.1)
            .u16(f.old.2)
            .u64(f.new.0)
            .u64(f.new.1)
            .u16(f.new.2);
        tlv.push((1, x.0));
    }
    if m.hook || m.hook_empty {
        let p = if m.hook { HOOK } else { Pubkey::default() };
        tlv.push((14, W::new().key(auth).key(&p).0));
    }
    if m.pointer {
        tlv.push((18, W::new().key(auth).key(&m.key).0));
    }
    if m.metadata {
        let x = W::new().key(auth).key(&m.key).str("Token").str("TKN").str("").u32(0);
        tlv.push((19, x.0));
    }
    if let Some((t, l)) = m.bad_ext {
        let mut d = vec![0; l as usize];
        if t == 6 {
            // default account state: initialized
            d[0] = 1;
        }
        tlv.push((t, d));
    }
    if !tlv.is_empty() {
        w = w.zeros(165 - 82).u8(1);
        for (t, d) in tlv {
            w = w.u16(t).u16(d.len() as u16).raw(&d);
        }
    }
    w.0
}

pub fn token_image(m: &MintInfo, owner: &Pubkey, amount: u64, memo: bool) -> Vec<u8> {
    let mut w = W::new().key(&m.key).key(owner).u64(amount);
    w = copt(None, w).u8(1);
    w = if m.native { w.u32(1).u64(NATIVE_RESERVE) } else { w.u32(0).u64(0) };
    w = w.u64(0);
    w = copt(None, w);
    let mut tlv: Vec<(u16, Vec<u8>)> = Vec::new();
    if m.fee.is_some() {
        tlv.push((2, vec![0; 8]));
    }
    if m.hook || m.hook_empty {
        tlv.push((15, vec![0]));
    }
    if m.prog == TOKEN22 {
        // Fixed owner as in associated accounts; memo demand on, switched off again, or never set.
        let o = owner.to_bytes();
        if o[0] & 1 == 0 {
            tlv.push((7, vec![]));
        }
        if memo || o[1] & 3 == 0 {
            tlv.push((8, vec![memo as u8]));
        }
        if o[2] & 1 == 0 {
            tlv.reverse();
        }
    }
    if !tlv.is_empty() {
        w = w.u8(2);
        for (t, d) in tlv {
            w = w.u16(t).u16(d.len() as u16).raw(&d);
        }
    }
    w.0
}
pub const NATIVE_RESERVE: u64 = 2_039_280;

pub struct World {
    pub bank: Bank,
    pub mints: Vec<MintInfo>,
    pub users: Vec<Pubkey>,
    pub creators: Vec<Pubkey>,
    pub ops: Vec<Pubkey>,
    pub payer: Pubkey,
    pub stranger: Pubkey,
    pub mint_auth: Pubkey,
    /// token accounts that demand a memo
    pub memo: HashMap<Pubkey, bool>,
}

impl World {
    pub fn new(env: &Env, rng: &mut Rng, n_users: usize) -> World {
        let mut w = World {
            bank: env.bank(),
            mints: Vec::new(),
            users: (0..n_users).map(|_| rng.key()).collect(),
            creators: (0..2).map(|_| rng.key()).collect(),
            ops: (0..2).map(|_| rng.key()).collect(),
            payer: rng.key(),
            stranger: rng.key(),
            mint_auth: rng.key(),
            memo: HashMap::new(),
        };
        // People wear several hats: the creator or an operator buys, the creator operates or pays.
        if n_users > 0 && rng.chance(1, 5) {
            match rng.below(6) {
                0 | 1 => w.users[0] = w.creators[0],
                2 => w.users[0] = w.ops[0],
                3 => w.users[0] = w.payer,
                4 => w.ops[0] = w.creators[0],
                _ => w.payer = w.creators[0],
            }
            if rng.chance(1, 4) {
                w.ops[1] = w.users[n_users - 1];
            }
        }
        let mut all = w.users.clone();
        all.extend(w.creators.iter());
        all.extend(w.ops.iter());
        all.push(w.payer);
        all.push(w.stranger);
        for k in all {
            w.bank.fund(k, 1_000_000_000_000);
        }
        w
    }

    pub fn add_mint(&mut self, m: MintInfo) -> usize {
        if self.bank.get(&m.key).is_none() {
            let data = mint_image(&m, &self.mint_auth, if m.native { 0 } else { u64::MAX });
            let lam = self.bank.rent.minimum_balance(data.len());
            self.bank.set(
                m.key,
                Account { lamports: lam, data, owner: m.prog, executable: false, rent_epoch: u64::MAX },
            );
            if m.hook {
                let ix = Instruction {
                    program_id: HOOK,
                    accounts: vec![
                        meta(self.payer, true, true),
                        meta(hook_metas_pda(&m.key), false, true),
                        meta(m.key, false, false),
                        meta(hook_counter_pda(&m.key), false, true),
                        meta(m.prog, false, false),
                        meta(ATA, false, false),
                        meta(SYSTEM, false, false),
                    ],
                    data: vec![92, 197, 174, 197, 41, 124, 19, 3],
                };
                let o = self.bank.exec(&ix);
                assert!(o.ok, "hook init failed {:?}", o.err);
            }
        }
        self.mints.push(m);
        self.mints.len() - 1
    }

    pub fn ata(&self, owner: &Pubkey, m: usize) -> Pubkey {
        ata(owner, &self.mints[m].key, &self.mints[m].prog)
    }

    /// Create (or overwrite) the wallet's token account.
    pub fn give(&mut self, owner: &Pubkey, m: usize, amount: u64, memo: bool) -> Pubkey {
        let k = self.ata(owner, m);
        self.give_at(k, owner, m, amount, memo);
        k
    }
    pub fn give_at(&mut self, k: Pubkey, owner: &Pubkey, m: usize, amount: u64, memo: bool) {
        let mi = self.mints[m].clone();
        let data = token_image(&mi, owner, amount, memo);
        let mut lam = self.bank.rent.minimum_balance(data.len());
        if mi.native {
            lam = NATIVE_RESERVE.saturating_add(amount);
        }
        if memo && mi.prog == TOKEN22 {
            self.memo.insert(k, true);
        }
        self.bank.set(
            k,
            Account { lamports: lam, data, owner: mi.prog, executable: false, rent_epoch: u64::MAX },
        );
    }

    pub fn balance(&self, k: &Pubkey) -> u64 {
        self.bank.data(k).map(tok_amount).unwrap_or(0)
    }
    pub fn now(&self) -> u64 {
        self.bank.clock.unix_timestamp as u64
    }
    pub fn epoch(&self) -> u64 {
        self.bank.clock.epoch
    }
    pub fn mint_by_key(&self, k: &Pubkey) -> Option<usize> {
        self.mints.iter().position(|m| m.key == *k)
    }
    pub fn hook_metas(&self, m: usize) -> Vec<solana_program::instruction::AccountMeta> {
        let k = self.mints[m].key;
        vec![
            meta(hook_metas_pda(&k), false, false),
            meta(hook_counter_pda(&k), false, true),
            meta(HOOK, false, false),
        ]
    }
}
