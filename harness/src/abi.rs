//! The wire interface of the presale program as an outside client sees it: instruction encodings,
//! account layouts (by byte offset), PDA seeds, events. Written down independently of the Rust types
//! in /repo so that internal renames or refactorings do not matter here.

use crate::bank::meta;
use solana_program::{hash::hash, instruction::AccountMeta, instruction::Instruction, pubkey, pubkey::Pubkey};
use std::cell::RefCell;
use std::collections::HashMap;

pub const TOKEN: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const TOKEN22: Pubkey = pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const MEMO: Pubkey = pubkey!("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr");
pub const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const SYSTEM: Pubkey = pubkey!("11111111111111111111111111111111");
pub const NATIVE_MINT: Pubkey = pubkey!("So11111111111111111111111111111111111111112");
pub const NATIVE_MINT_22: Pubkey = pubkey!("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");
pub const HOOK: Pubkey = pubkey!("abcSyangMHdGzUGKhBhKoQzSFdJKUdkPGf5cbXVHpEw");
pub const PROGRAM: Pubkey = pubkey!("presSVxnf9UU8jMxhgSMqaRwNiT36qeBdNeTRKjTdbj");

pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    thread_local!(static C: RefCell<HashMap<String, [u8; 8]>> = RefCell::new(HashMap::new()));
    let k = format!("{ns}:{name}");
    C.with(|c| {
        *c.borrow_mut().entry(k.clone()).or_insert_with(|| {
            let h = hash(k.as_bytes());
            h.to_bytes()[..8].try_into().unwrap()
        })
    })
}

pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    thread_local!(static C: RefCell<HashMap<(Vec<u8>, Pubkey), Pubkey>> = RefCell::new(HashMap::new()));
    let mut k = Vec::new();
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 20_000 {
            c.clear();
        }
        *c.entry((k, *program)).or_insert_with(|| Pubkey::find_program_address(seeds, program).0)
    })
}

pub fn presale_authority() -> Pubkey {
    pda(&[b"presale_authority"], &PROGRAM)
}
pub fn event_authority() -> Pubkey {
    pda(&[b"__event_authority"], &PROGRAM)
}
pub fn presale_pda(base: &Pubkey, bm: &Pubkey, qm: &Pubkey) -> Pubkey {
    pda(&[b"presale", base.as_ref(), bm.as_ref(), qm.as_ref()], &PROGRAM)
}
pub fn base_vault(p: &Pubkey) -> Pubkey {
    pda(&[b"base_vault", p.as_ref()], &PROGRAM)
}
pub fn quote_vault(p: &Pubkey) -> Pubkey {
    pda(&[b"quote_vault", p.as_ref()], &PROGRAM)
}
pub fn fixed_args_pda(p: &Pubkey) -> Pubkey {
    pda(&[b"fixed_price_param", p.as_ref()], &PROGRAM)
}
pub fn escrow_pda(p: &Pubkey, owner: &Pubkey, idx: u8) -> Pubkey {
    pda(&[b"escrow", p.as_ref(), owner.as_ref(), &[idx]], &PROGRAM)
}
pub fn merkle_pda(p: &Pubkey, version: u64) -> Pubkey {
    pda(&[b"merkle_root", p.as_ref(), &version.to_le_bytes()], &PROGRAM)
}
pub fn operator_pda(creator: &Pubkey, op: &Pubkey) -> Pubkey {
    pda(&[b"operator", creator.as_ref(), op.as_ref()], &PROGRAM)
}
pub fn metadata_pda(p: &Pubkey) -> Pubkey {
    pda(&[b"server_metadata", p.as_ref()], &PROGRAM)
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, prog: &Pubkey) -> Pubkey {
    pda(&[owner.as_ref(), prog.as_ref(), mint.as_ref()], &ATA)
}
pub fn hook_metas_pda(mint: &Pubkey) -> Pubkey {
    pda(&[b"extra-account-metas", mint.as_ref()], &HOOK)
}
pub fn hook_counter_pda(mint: &Pubkey) -> Pubkey {
    pda(&[b"counter", mint.as_ref()], &HOOK)
}

/// Little borsh writer.
#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> Self {
        W(Vec::new())
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn key(mut self, k: &Pubkey) -> Self {
        self.0.extend_from_slice(k.as_ref());
        self
    }
    pub fn raw(mut self, b: &[u8]) -> Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn zeros(mut self, n: usize) -> Self {
        self.0.resize(self.0.len() + n, 0);
        self
    }
    pub fn str(self, s: &str) -> Self {
        self.u32(s.len() as u32).raw(s.as_bytes())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RegArgs {
    pub min: u64,
    pub max: u64,
    pub supply: u64,
    pub fee_bps: u16,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct InitArgs {
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub whitelist: u8,
    pub mode: u8,
    pub unsold: u8,
    pub disable_early: u8,
    pub lock_bps: u16,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub regs: Vec<RegArgs>,
}
impl InitArgs {
    pub fn has_lock(&self) -> bool {
        self.lock_bps != 0 || self.lock != 0 || self.vest != 0 || self.imm_ts != 0
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::new()
            .u64(self.max_cap)
            .u64(self.min_cap)
            .u64(self.start)
            .u64(self.end)
            .u8(self.whitelist)
            .u8(self.mode)
            .u8(self.unsold)
            .u8(self.disable_early)
            .zeros(30)
            .u16(self.lock_bps)
            .u64(self.lock)
            .u64(self.vest)
            .u64(self.imm_ts)
            .zeros(24)
            .zeros(32)
            .u32(self.regs.len() as u32);
        for r in &self.regs {
            w = w.u64(r.min).u64(r.max).u64(r.supply).u16(r.fee_bps).zeros(32);
        }
        w.0
    }
}

/// Remaining-account slices: (type, length).
pub fn rai(s: &[(u8, u8)]) -> Vec<u8> {
    let mut w = W::new().u32(s.len() as u32);
    for (t, l) in s {
        w = w.u8(*t).u8(*l);
    }
    w.0
}

pub fn ix(name: &str, args: &[u8], mut accts: Vec<AccountMeta>, remaining: Vec<AccountMeta>) -> Instruction {
    accts.push(meta(event_authority(), false, false));
    accts.push(meta(PROGRAM, false, false));
    accts.extend(remaining);
    let mut data = disc("global", name).to_vec();
    data.extend_from_slice(args);
    Instruction { program_id: PROGRAM, accounts: accts, data }
}

pub const EVENT_TAG: [u8; 8] = 0x1d9a_cb51_2ea5_45e4u64.to_le_bytes();

pub fn u64at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u16at(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
fn keyat(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RegS {
    pub supply: u64,
    pub dep: u64,
    pub escrows: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub min: u64,
    pub max: u64,
    pub fee: u64,
    pub fee_bps: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PresaleS {
    pub owner: Pubkey,
    pub quote_mint: Pubkey,
    pub base_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base: Pubkey,
    pub mode: u8,
    pub whitelist: u8,
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub supply: u64,
    pub dep: u64,
    pub escrows: u64,
    pub created: u64,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub vest_start: u64,
    pub vest_end: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub fee: u64,
    pub fee_collected: u8,
    pub creator_withdrawn: u8,
    pub base_flag: u8,
    pub quote_flag: u8,
    pub reg_count: u8,
    pub unsold_action: u8,
    pub unsold_done: u8,
    pub imm_bps: u16,
    pub q_price: u128,
    pub disable_withdraw: u8,
    pub disable_early: u8,
    pub regs: Vec<RegS>,
}

pub const PRESALE_LEN: usize = 8 + 1264;
pub const ESCROW_LEN: usize = 8 + 192;

pub fn decode_presale(data: &[u8]) -> Option<PresaleS> {
    if data.len() != PRESALE_LEN || data[..8] != disc("account", "Presale") {
        return None;
    }
    let d = &data[8..];
    let mode = d[193];
    let (q, dw, de) = match mode {
        0 => (u128::from_le_bytes(d[352..368].try_into().unwrap()), d[368], d[369]),
        2 => (0, 0, d[352]),
        _ => (0, 0, 0),
    };
    let mut regs = Vec::new();
    for i in 0..5 {
        let o = 464 + i * 160;
        regs.push(RegS {
            supply: u64at(d, o),
            dep: u64at(d, o + 8),
            escrows: u64at(d, o + 16),
            claimed: u64at(d, o + 24),
            refunded: u64at(d, o + 32),
            min: u64at(d, o + 40),
            max: u64at(d, o + 48),
            fee: u64at(d, o + 56),
            fee_bps: u16at(d, o + 64),
        });
    }
    Some(PresaleS {
        owner: keyat(d, 0),
        quote_mint: keyat(d, 32),
        base_mint: keyat(d, 64),
        base_vault: keyat(d, 96),
        quote_vault: keyat(d, 128),
        base: keyat(d, 160),
        mode,
        whitelist: d[194],
        max_cap: u64at(d, 200),
        min_cap: u64at(d, 208),
        start: u64at(d, 216),
        end: u64at(d, 224),
        supply: u64at(d, 232),
        dep: u64at(d, 240),
        escrows: u64at(d, 248),
        created: u64at(d, 256),
        lock: u64at(d, 264),
        vest: u64at(d, 272),
        imm_ts: u64at(d, 280),
        vest_start: u64at(d, 296),
        vest_end: u64at(d, 304),
        claimed: u64at(d, 312),
        refunded: u64at(d, 320),
        fee: u64at(d, 328),
        fee_collected: d[336],
        creator_withdrawn: d[344],
        base_flag: d[345],
        quote_flag: d[346],
        reg_count: d[347],
        unsold_action: d[348],
        unsold_done: d[349],
        imm_bps: u16at(d, 350),
        q_price: q,
        disable_withdraw: dw,
        disable_early: de,
        regs,
    })
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct EscrowS {
    pub presale: Pubkey,
    pub owner: Pubkey,
    pub dep: u64,
    pub claimed: u64,
    pub refunded: u8,
    pub idx: u8,
    pub pending: u64,
    pub cap: u64,
    pub created: u64,
    pub fee: u64,
    pub refreshed: u64,
}

pub fn decode_escrow(data: &[u8]) -> Option<EscrowS> {
    if data.len() != ESCROW_LEN || data[..8] != disc("account", "Escrow") {
        return None;
    }
    let d = &data[8..];
    Some(EscrowS {
        presale: keyat(d, 0),
        owner: keyat(d, 32),
        dep: u64at(d, 64),
        claimed: u64at(d, 72),
        refunded: d[80],
        idx: d[81],
        pending: u64at(d, 88),
        cap: u64at(d, 96),
        created: u64at(d, 104),
        fee: u64at(d, 112),
        refreshed: u64at(d, 120),
    })
}

/// The images the published layout gives these records (reserved bytes zero), cut where one kind of record ends.
pub fn presale_image(p: &PresaleS) -> Vec<Vec<u8>> {
    let mut d = vec![0u8; PRESALE_LEN - 8];
    let put = |d: &mut Vec<u8>, o: usize, b: &[u8]| d[o..o + b.len()].copy_from_slice(b);
    for (i, k) in [p.owner, p.quote_mint, p.base_mint, p.base_vault, p.quote_vault, p.base].iter().enumerate() {
        put(&mut d, 32 * i, k.as_ref());
    }
    d[193] = p.mode;
    d[194] = p.whitelist;
    for (i, v) in [p.max_cap, p.min_cap, p.start, p.end, p.supply, p.dep, p.escrows, p.created, p.lock, p.vest, p.imm_ts].iter().enumerate() {
        put(&mut d, 200 + 8 * i, &v.to_le_bytes());
    }
    for (i, v) in [p.vest_start, p.vest_end, p.claimed, p.refunded, p.fee].iter().enumerate() {
        put(&mut d, 296 + 8 * i, &v.to_le_bytes());
    }
    d[336] = p.fee_collected;
    put(&mut d, 344, &[p.creator_withdrawn, p.base_flag, p.quote_flag, p.reg_count, p.unsold_action, p.unsold_done]);
    put(&mut d, 350, &p.imm_bps.to_le_bytes());
    match p.mode {
        0 => {
            put(&mut d, 352, &p.q_price.to_le_bytes());
            d[368] = p.disable_withdraw;
            d[369] = p.disable_early;
        }
        2 => d[352] = p.disable_early,
        _ => {}
    }
    let mut v = vec![d[..464].to_vec()];
    for r in &p.regs {
        let mut x = W::new();
        for f in [r.supply, r.dep, r.escrows, r.claimed, r.refunded, r.min, r.max, r.fee] {
            x = x.u64(f);
        }
        v.push(x.u16(r.fee_bps).zeros(160 - 66).0);
    }
    v
}
pub fn escrow_image(e: &EscrowS) -> Vec<Vec<u8>> {
    let w = W::new().key(&e.presale).key(&e.owner).u64(e.dep).u64(e.claimed).u8(e.refunded).u8(e.idx).zeros(6);
    let w = w.u64(e.pending).u64(e.cap).u64(e.created).u64(e.fee).u64(e.refreshed);
    let n = ESCROW_LEN - 8 - w.0.len();
    vec![w.zeros(n).0]
}
/// The record holds the right values, but not where the published layout has them: large numbers and
/// addresses moved as a whole, or bytes moved within the words `small` that hold only flags and codes.
pub fn displaced(data: &[u8], want: &[Vec<u8>], small: &[usize]) -> bool {
    let mut o = 0;
    let mut any = false;
    for (n, w) in want.iter().enumerate() {
        let Some(d) = data.get(o..o + w.len()) else { return false };
        o += w.len();
        if d == &w[..] {
            continue;
        }
        let (mut fa, mut fb, mut wa, mut wb) = (vec![], vec![], vec![], vec![]);
        for (i, (x, y)) in d.chunks(8).zip(w.chunks(8)).enumerate() {
            if n == 0 && small.contains(&(8 * i)) {
                fa.extend_from_slice(x);
                fb.extend_from_slice(y);
            } else if x != y {
                wa.push(x.to_vec());
                wb.push(y.to_vec());
            }
        }
        any |= fa != fb || wb.iter().any(|x| x.iter().skip(2).any(|b| *b != 0));
        for v in [&mut wa, &mut wb] {
            v.sort();
        }
        fa.sort();
        fb.sort();
        if fa != fb || wa != wb {
            return false;
        }
    }
    any
}
pub const PRESALE_FLAGS: [usize; 9] = [192, 336, 344, 352, 360, 368, 376, 384, 392];
pub const ESCROW_FLAGS: [usize; 1] = [80];

// Exact images of the small accounts.
pub fn fixed_args_image(disable_withdraw: u8, q_price: u128, owner: &Pubkey, presale: &Pubkey) -> Vec<u8> {
    W::new()
        .raw(&disc("account", "FixedPricePresaleExtraArgs"))
        .zeros(15)
        .u8(disable_withdraw)
        .u128(q_price)
        .key(owner)
        .key(presale)
        .zeros(64)
        .0
}
pub fn merkle_image(root: &[u8; 32], presale: &Pubkey, version: u64) -> Vec<u8> {
    W::new()
        .raw(&disc("account", "MerkleRootConfig"))
        .raw(root)
        .zeros(8)
        .key(presale)
        .u64(version)
        .zeros(64)
        .0
}
pub fn operator_image(owner: &Pubkey, creator: &Pubkey) -> Vec<u8> {
    W::new().raw(&disc("account", "Operator")).key(owner).key(creator).zeros(64).0
}
pub fn metadata_image(presale: &Pubkey, url: &str) -> Vec<u8> {
    W::new()
        .raw(&disc("account", "PermissionedServerMetadata"))
        .key(presale)
        .zeros(128)
        .str(url)
        .0
}

pub fn tok_amount(data: &[u8]) -> u64 {
    if data.len() >= 72 {
        u64at(data, 64)
    } else {
        0
    }
}
pub fn mint_supply(data: &[u8]) -> u64 {
    u64at(data, 36)
}

/// Fees withheld in a Token-2022 account (extension 2), 0 without the extension.
pub fn withheld_of(data: &[u8]) -> u64 {
    let mut i = 166;
    while i + 4 <= data.len() {
        let t = u16::from_le_bytes([data[i], data[i + 1]]);
        let l = u16::from_le_bytes([data[i + 2], data[i + 3]]) as usize;
        if t == 0 {
            break;
        }
        if t == 2 && i + 12 <= data.len() {
            return u64::from_le_bytes(data[i + 4..i + 12].try_into().unwrap());
        }
        i += 4 + l;
    }
    0
}
