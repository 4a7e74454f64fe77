//! The monitored execution: every step builds a real instruction, lets the reference model predict
//! the outcome from its own (never re-read) state, runs the real program and compares everything that
//! is observable: accept/reject, account contents, token balances, lamports, events, plus global
//! audits (sums, solvency).

use crate::abi::*;
use crate::bank::{meta, TxOut};
use crate::merkle::Tree;
use crate::model::{self, *};
use crate::rng::Rng;
use crate::world::*;
use solana_account::{ReadableAccount, WritableAccount};
use solana_instruction::error::InstructionError;
use solana_program::{instruction::AccountMeta, instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type Props = Vec<&'static str>;

#[derive(Clone, Debug)]
pub struct Div {
    pub props: Props,
    pub msg: String,
    pub step: usize,
    /// stable identification of what failed (for the known-findings file)
    pub class: String,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub hostile: u64,
    pub evals: BTreeMap<&'static str, u64>,
    pub sigs: BTreeMap<&'static str, HashSet<u64>>,
    pub kinds: BTreeMap<String, u64>,
    pub samples: BTreeMap<&'static str, Vec<String>>,
    pub events: u64,
    pub cpis: u64,
    pub scenarios: u64,
    pub audits: u64,
}

/// A presale under observation.
#[derive(Clone)]
pub struct PW {
    pub key: Pubkey,
    pub bm: usize,
    pub qm: usize,
    pub creator: Pubkey,
    pub trees: Vec<(u64, Tree)>,
}

#[derive(Default, Clone)]
pub struct ClosedSums {
    pub dep: [u64; 5],
    pub fee: [u64; 5],
    pub claimed: [u64; 5],
    pub refunded: [u64; 5],
}

/// An instruction with named slots (so that account substitution can be targeted).
#[derive(Clone)]
pub struct Call {
    pub kind: &'static str,
    pub slots: Vec<(&'static str, AccountMeta)>,
    pub rem: Vec<AccountMeta>,
    pub args: Vec<u8>,
}
impl Call {
    pub fn build(&self) -> Instruction {
        let mut i = Instruction { program_id: PROGRAM, accounts: vec![], data: disc("global", self.kind).to_vec() };
        i.data.extend_from_slice(&self.args);
        i.accounts = self.slots.iter().map(|s| s.1.clone()).collect();
        i.accounts.extend(self.rem.iter().cloned());
        i
    }
    pub fn get(&self, name: &str) -> Option<Pubkey> {
        self.slots.iter().find(|s| s.0 == name).map(|s| s.1.pubkey)
    }
}

pub fn call(kind: &'static str, mut slots: Vec<(&'static str, AccountMeta)>, rem: Vec<AccountMeta>, args: Vec<u8>) -> Call {
    slots.push(("event_authority", meta(event_authority(), false, false)));
    slots.push(("program", meta(PROGRAM, false, false)));
    Call { kind, slots, rem, args }
}

#[derive(Clone, Debug)]
pub enum Mv {
    Xfer { m: usize, from: Pubkey, to: Pubkey, amount: u64 },
    Burn { m: usize, from: Pubkey, amount: u64 },
}

#[derive(Default, Clone)]
pub struct Eff {
    pub presale: Option<(Pubkey, PresaleS)>,
    pub escrow: Option<(Pubkey, Option<EscrowS>)>,
    pub small: Option<(Pubkey, Option<Vec<u8>>)>,
    pub moves: Vec<Mv>,
    pub events: Vec<Vec<u8>>,
    pub created: Vec<Pubkey>,
    pub payer: Option<Pubkey>,
    pub closed: Option<(Pubkey, Pubkey)>,
    /// extra classification for the coverage signature
    pub note: u64,
    /// properties this particular effect exercises beyond the kind's own
    pub extra: Props,
}

pub type Pred = Result<Eff, Rej>;

pub struct Sim {
    pub w: World,
    pub rng: Rng,
    pub presales: Vec<PW>,
    pub gp: BTreeMap<Pubkey, PresaleS>,
    pub ge: BTreeMap<Pubkey, EscrowS>,
    pub gs: BTreeMap<Pubkey, Vec<u8>>,
    pub closed: BTreeMap<Pubkey, ClosedSums>,
    /// expected token balances
    pub gt: HashMap<Pubkey, u64>,
    pub divs: Vec<Div>,
    pub log: Vec<String>,
    pub stats: Stats,
    pub stop: bool,
    pub hostile: (u64, u64),
    pub fuzz: (u64, u64),
    pub last_panic: Option<String>,
    /// presales whose end moved because the maximum was reached
    pub ended_early: BTreeSet<Pubkey>,
    pub last_config: Option<(InitArgs, u128, u8)>,
    /// the running instruction addresses such a presale
    pub early_now: bool,
    /// escrows ever opened, per presale
    pub opened: BTreeMap<Pubkey, u64>,
    /// tokens in a vault that nobody deposited through the program
    pub gifts: BTreeMap<Pubkey, u64>,
    /// quote units seen leaving the vault in refunds, per escrow
    pub refunds: BTreeMap<Pubkey, u64>,
    /// per presale, the escrows closed after success: registry, deposit, fee, tokens received, refund
    pub outcomes: BTreeMap<Pubkey, Vec<(u8, u64, u64, u64, u64)>>,
    /// settlement schedules are being compared: calls run without the reference model and only what
    /// leaves the vaults of this presale is recorded
    pub ledger: Option<Ledger>,
    /// everyday values only: no limit of any kind is near
    pub ordinary: bool,
    /// open escrows of wallets that only hold an empty escrow and never act, per presale and registry
    pub idle: BTreeMap<Pubkey, [u64; 5]>,
}

/// What left the vaults of one presale, per beneficiary (escrow, or the name of the creator's operation).
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Ledger {
    pub vaults: [Pubkey; 2],
    pub out: BTreeMap<(String, usize), u64>,
    pub accepted: u64,
}

/// Everything a settlement schedule can change.
pub struct Fork {
    accounts: HashMap<Pubkey, solana_account::AccountSharedData>,
    clock: (i64, u64),
    gt: HashMap<Pubkey, u64>,
}

pub fn ev(name: &str, body: W) -> Vec<u8> {
    let mut v = disc("event", name).to_vec();
    v.extend_from_slice(&body.0);
    v
}

fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
    }
    h
}
fn strhash(s: &str) -> u64 {
    hash64(&s.bytes().map(|b| b as u64).collect::<Vec<_>>())
}
fn bucket(x: u64) -> u64 {
    64 - x.leading_zeros() as u64
}

/// Refusals by which the framework says that it does not recognise the call or an account of it.
fn interface_error(o: &TxOut) -> bool {
    (o.err == Some(InstructionError::InvalidAccountData) && o.trace.len() <= 1)
        || matches!(o.err, Some(InstructionError::Custom(100..=103 | 2000..=2100 | 3000..=3099)))
}

/// The instructions by which value leaves a presale.
const EXITS: [&str; 7] = [
    "claim", "withdraw", "withdraw_remaining_quote", "perform_unsold_base_token_action", "close_escrow", "creator_withdraw", "creator_collect_fee",
];

/// The properties an instruction kind is about.
pub fn kind_props(kind: &str, mode: u8) -> Props {
    let mut v: Props = match kind {
        "initialize_presale" => vec!["C17", "C02"],
        "initialize_fixed_price_presale_args" | "close_fixed_price_presale_args" => vec!["C21"],
        "create_merkle_root_config" | "close_merkle_root_config" => vec!["C21", "C15"],
        "create_operator" | "revoke_operator" => vec!["C21", "C15"],
        "create_permissioned_server_metadata" | "close_permissioned_server_metadata" => vec!["C21"],
        "create_permissionless_escrow"
        | "create_permissioned_escrow_with_creator"
        | "create_permissioned_escrow_with_merkle_proof" => vec!["C15"],
        "deposit" => vec!["C05", "C01"],
        "withdraw" => vec!["C23", "C01"],
        "claim" => vec!["C09", "C02"],
        "refresh_escrow" => vec!["C09"],
        "withdraw_remaining_quote" => vec!["C11", "C01"],
        "perform_unsold_base_token_action" => vec!["C13", "C02"],
        "close_escrow" => vec!["C18"],
        "creator_withdraw" => vec!["C12"],
        "creator_collect_fee" => vec!["C12", "C01"],
        _ => vec![],
    };
    if matches!(kind, "claim" | "refresh_escrow") {
        v.push(if mode == FIXED { "C07" } else { "C08" });
    }
    if matches!(kind, "deposit" | "withdraw" | "perform_unsold_base_token_action") && mode == FIXED {
        v.push("C07");
    }
    if kind == "perform_unsold_base_token_action" && mode != FIXED {
        v.push("C08");
    }
    v
}

fn field_props(kind: &str, field: &str, mode: u8) -> Props {
    let init = kind == "initialize_presale";
    let mut v: Props = match field {
        "dep" => vec!["C03", "C01"],
        "fee" => vec!["C03", "C06", "C01"],
        "escrows" => vec!["C03"],
        "claimed" => vec!["C03", "C09", "C02"],
        "pending" => vec!["C09", "C02"],
        "refreshed" => vec!["C09"],
        "refunded" => vec!["C03", "C11", "C01"],
        "end" | "vest_start" | "vest_end" | "imm_ts" => vec!["C10", "C09", "C04"],
        "start" => vec!["C04"],
        "fee_collected" | "creator_withdrawn" => vec!["C12", "C01"],
        "unsold_done" => vec!["C13", "C02"],
        "cap" | "idx" => vec!["C15", "C05"],
        "whitelist" => vec!["C15"],
        "q_price" => vec!["C07"],
        "disable_withdraw" => vec!["C23"],
        "disable_early" => vec!["C10"],
        "unsold_action" => vec!["C13"],
        "reg_cfg" | "supply" | "max_cap" | "min_cap" => vec!["C05"],
        _ => vec![],
    };
    for k in kind_props(kind, mode) {
        v.push(k);
    }
    if matches!(field, "claimed" | "pending") {
        v.push("C25");
    }
    if init {
        v.push("C17");
    } else if v.is_empty() || matches!(field, "other" | "reg_cfg" | "supply" | "max_cap" | "min_cap" | "start" | "whitelist") {
        v.push("C03");
    }
    v.sort();
    v.dedup();
    v
}

impl Sim {
    pub fn new(w: World, rng: Rng) -> Sim {
        Sim {
            w,
            rng,
            presales: vec![],
            gp: BTreeMap::new(),
            ge: BTreeMap::new(),
            gs: BTreeMap::new(),
            closed: BTreeMap::new(),
            gt: HashMap::new(),
            divs: vec![],
            log: vec![],
            stats: Stats::default(),
            stop: false,
            hostile: (0, 1),
            fuzz: (0, 1),
            last_panic: None,
            ended_early: BTreeSet::new(),
            last_config: None,
            early_now: false,
            opened: BTreeMap::new(),
            gifts: BTreeMap::new(),
            refunds: BTreeMap::new(),
            outcomes: BTreeMap::new(),
            ledger: None,
            ordinary: false,
            idle: Default::default(),
        }
    }

    pub fn div(&mut self, props: &[&'static str], class: &str, msg: String) {
        let mut p = props.to_vec();
        // what a buyer gets and when, in a sale that ended at its maximum
        if self.early_now && p.contains(&"C09") {
            p.push("C10");
        }
        p.sort();
        p.dedup();
        self.divs.push(Div { props: p, msg, step: self.log.len(), class: class.to_string() });
        if self.divs.len() > 40 {
            self.stop = true;
        }
    }

    pub fn bal(&mut self, k: &Pubkey) -> u64 {
        if let Some(v) = self.gt.get(k) {
            return *v;
        }
        let v = self.w.balance(k);
        self.gt.insert(*k, v);
        v
    }

    fn observe(&mut self, props: &[&'static str], sig: u64, sample: &str) {
        for p in props {
            *self.stats.evals.entry(p).or_default() += 1;
            let s = self.stats.sigs.entry(p).or_default();
            if s.insert(sig) {
                let v = self.stats.samples.entry(p).or_default();
                if v.len() < 6 {
                    v.push(sample.to_string());
                }
            }
        }
    }

    pub fn t(&mut self, ts: u64) {
        let e = self.w.epoch();
        self.w.bank.set_clock(ts as i64, e);
        self.log.push(format!("clock {ts}"));
    }
    pub fn epoch(&mut self, e: u64) {
        let ts = self.w.now();
        self.w.bank.set_clock(ts as i64, e);
        self.log.push(format!("epoch {e}"));
    }

    /// The sale has reached its maximum: whether it is over depends on its early-end setting.
    fn at_maximum(&self, c: &Call) -> bool {
        self.presale_of(c).and_then(|k| self.gp.get(&k)).map(|p| p.dep >= p.max_cap).unwrap_or(false)
    }

    fn presale_of(&self, c: &Call) -> Option<Pubkey> {
        c.get("presale")
    }

    /// Check that a token transfer is possible in the expected balances.
    pub fn can_xfer(&mut self, m: usize, from: &Pubkey, to: &Pubkey, amount: u64) -> Result<(), Rej> {
        if self.w.bank.get(from).is_none() {
            return Err("funds");
        }
        let fee = self.w.mints[m].fee_on(self.w.epoch(), amount);
        if self.bal(from) < amount {
            return Err("funds");
        }
        // (Balances and withheld fees beyond the u64 range only arise from the generous wallets of a
        // scenario, which together hold more than a mint could ever issue.)
        if self.bal(to).checked_add(amount - fee).is_none() {
            return Err("funds");
        }
        let withheld = self.w.bank.data(to).map(withheld_of).unwrap_or(0);
        if withheld.checked_add(fee).is_none() {
            return Err("funds");
        }
        Ok(())
    }
    pub fn net(&self, m: usize, amount: u64) -> u64 {
        amount - self.w.mints[m].fee_on(self.w.epoch(), amount)
    }

    /// Run one call under the monitor. Returns whether the program accepted it.
    pub fn run(&mut self, c: Call, desc: String, pred: Pred) -> bool {
        if self.stop {
            return false;
        }
        if self.ledger.is_some() {
            return self.run_ledger(c);
        }
        self.early_now = self.presale_of(&c).map(|k| self.ended_early.contains(&k)).unwrap_or(false);
        let accept = pred.is_ok();
        let moves = pred.as_ref().map(|e| !e.moves.is_empty()).unwrap_or(false);
        // Anybody may have sent lamports to an address where an account is about to be created.
        if c.kind != "initialize_presale" {
            if let Some(k) = pred.as_ref().ok().and_then(|e| e.created.first()).copied() {
                if self.rng.chance(1, 20) {
                    self.prefund(k);
                }
            }
        }
        // Hostile variants first: they must leave no trace.
        if accept && self.hostile.0 > 0 && self.rng.chance(self.hostile.0, self.hostile.1) {
            let n = 1 + self.rng.idx(3);
            for _ in 0..n {
                self.hostile_variant(&c, &desc, moves);
                if self.stop {
                    return false;
                }
            }
        }
        if self.fuzz.0 > 0 && self.rng.chance(self.fuzz.0, self.fuzz.1) {
            self.fuzz_variant(&c, &desc);
        }
        let ix = c.build();
        let pre: Vec<(Pubkey, Option<solana_account::AccountSharedData>)> = {
            let mut seen = BTreeSet::new();
            ix.accounts
                .iter()
                .filter(|m| m.is_writable && seen.insert(m.pubkey))
                .map(|m| (m.pubkey, self.w.bank.get(&m.pubkey).cloned()))
                .collect()
        };
        let out = self.w.bank.exec(&ix);
        self.stats.steps += 1;
        let mode = self
            .presale_of(&c)
            .and_then(|k| self.gp.get(&k))
            .map(|p| p.mode)
            .or_else(|| pred.as_ref().ok().and_then(|e| e.presale.as_ref()).map(|p| p.1.mode))
            .unwrap_or(9);
        let oc = match (&pred, out.ok) {
            (Ok(_), true) => "ok".to_string(),
            (Err(r), false) => format!("refused:{r}"),
            (Ok(_), false) => "UNEXPECTED-REJECT".into(),
            (Err(r), true) => format!("UNEXPECTED-ACCEPT:{r}"),
        };
        *self.stats.kinds.entry(format!("{}/{}", c.kind, oc)).or_default() += 1;
        self.log.push(format!("[{}] {} {} -> {}{}", self.w.now(), c.kind, desc, oc,
            if out.ok { String::new() } else { format!(" ({:?})", out.err) }));
        if out.ok {
            self.stats.accepted += 1;
        } else {
            self.stats.rejected += 1;
        }
        self.stats.cpis += out.trace.len().saturating_sub(1) as u64;
        if let Some(p) = &out.panic {
            self.last_panic = Some(p.clone());
            let mut pr = kind_props(c.kind, mode);
            pr.push("C22");
            // An abort is a broken C22; it is a failure of the instruction's own property only if the
            // operation was due (handled below as unexpected reject).
            self.div(&["C22"], "panic", format!("{} {} aborted: {}", c.kind, desc, p.replace('\n', " ")));
        }
        self.coverage(&c, &pred, &out, mode, &desc);
        match (pred, out.ok) {
            (Err(_), false) => {}
            (Ok(e), true) => self.compare(&c, &desc, e, &pre, &out, mode),
            (Ok(e), false) => {
                let mut pr = kind_props(c.kind, mode);
                pr.push("C22");
                pr.extend(e.extra.iter());
                if self.presale_of(&c).map(|k| self.ended_early.contains(&k)).unwrap_or(false) {
                    pr.push("C10");
                }
                if self.at_maximum(&c) && !matches!(c.kind, "initialize_presale") {
                    pr.push("C10");
                }
                if !matches!(c.kind, "initialize_presale" | "initialize_fixed_price_presale_args" | "create_operator" | "revoke_operator" | "close_fixed_price_presale_args") {
                    pr.push("C04");
                }
                if c.kind == "creator_withdraw" {
                    pr.push(if e.moves.iter().any(|m| matches!(m, Mv::Xfer{m,..} if Some(*m)==self.presales.iter().find(|p| Some(p.key)==c.get("presale")).map(|p| p.bm))) { "C02" } else { "C01" });
                }
                if EXITS.contains(&c.kind) {
                    pr.push("C24");
                }
                if self.is_t22_moves(&e.moves) {
                    pr.push("C19");
                }
                if e.moves.iter().any(|m| matches!(m, Mv::Xfer { .. } | Mv::Burn { .. })) && c.kind == "deposit" {
                    pr.push("C06");
                }
                if interface_error(&out) || self.plain(c.kind) {
                    pr.push("C27");
                }
                self.div(&pr, "unexpected-reject", format!("{} {} must succeed but failed: {:?} {:?}", c.kind, desc, out.err, out.panic));
            }
            (Err(r), true) => {
                let mut pr = kind_props(c.kind, mode);
                match r {
                    "phase" => {
                        pr.push("C04");
                        // a sale that was ended by reaching its maximum must stay ended
                        if self.presale_of(&c).map(|k| self.ended_early.contains(&k)).unwrap_or(false) { pr.push("C10") }
                    }
                    "cap" => {
                        pr.push("C05");
                        if c.kind == "withdraw" { pr.push("C23") }
                    }
                    "once" => { pr.push("C01"); pr.push("C04") }
                    "auth" => pr.push("C14"),
                    "whitelist" => pr.push("C15"),
                    "whitelist-auth" => { pr.push("C15"); pr.push("C14") }
                    "config" => pr.push("C17"),
                    // limits whose purpose is that later arithmetic works out
                    "config-size" => { pr.push("C17"); pr.push("C22") }
                    "config-price" => { pr.push("C17"); pr.push("C07"); pr.push("C22") }
                    "config-fee" => { pr.push("C17"); pr.push("C06"); pr.push("C22") }
                    "config-cap" => { pr.push("C17"); pr.push("C05") }
                    "config-vest" => { pr.push("C17"); pr.push("C09") }
                    "funds" => { pr.push("C01"); pr.push("C02") }
                    "t22" => pr.push("C19"),
                    "close" => { pr.push("C18"); pr.push("C01"); pr.push("C02") }
                    "mode" => { pr.push("C04"); pr.push("C01") }
                    "math" => pr.push("C22"),
                    "exists" => pr.push("C03"),
                    _ => {}
                }
                if self.at_maximum(&c) {
                    pr.push("C10");
                }
                // what it actually did
                for (k, a) in &pre {
                    let was = a.as_ref().map(|a| if a.data().len() >= 72 { tok_amount(a.data()) } else { 0 }).unwrap_or(0);
                    match self.role(k) {
                        "quote-vault" if self.w.balance(k) < was => pr.push("C01"),
                        "base-vault" if self.w.balance(k) < was => pr.push("C02"),
                        _ => {}
                    }
                }
                if let Some((k, o)) = self.presale_of(&c).and_then(|k| Some((k, self.w.bank.data(&k).and_then(decode_presale)?))) {
                    if let Some(g) = self.gp.get(&k) {
                        if (o.end, o.vest_start, o.vest_end, o.imm_ts) != (g.end, g.vest_start, g.vest_end, g.imm_ts) {
                            pr.push("C10");
                        }
                        if o.fee != g.fee {
                            pr.push("C06");
                        }
                    }
                }
                self.div(&pr, "unexpected-accept", format!("{} {} must be refused ({r}) but was accepted", c.kind, desc));
                self.stop = true;
            }
        }
        out.ok
    }

    fn is_t22_moves(&self, mv: &[Mv]) -> bool {
        mv.iter().any(|m| match m {
            Mv::Xfer { m, .. } | Mv::Burn { m, .. } => self.w.mints[*m].prog == TOKEN22,
        })
    }

    fn coverage(&mut self, c: &Call, pred: &Pred, out: &TxOut, mode: u8, desc: &str) {
        let mut props = kind_props(c.kind, mode);
        props.push("C22");
        let (note, extra, t22, nev, mvb) = match pred {
            Ok(e) => (
                e.note,
                e.extra.clone(),
                self.is_t22_moves(&e.moves) as u64,
                e.events.len() as u64,
                e.moves.iter().map(|m| match m { Mv::Xfer{amount,..}|Mv::Burn{amount,..} => bucket(*amount) }).sum::<u64>(),
            ),
            Err(_) => (0, vec![], 0, 0, 0),
        };
        props.extend(extra);
        if t22 == 1 {
            props.push("C19");
        }
        if out.ok {
            props.push("C27");
            props.push("C03");
            if nev > 0 {
                props.push("C20");
            }
        }
        let why = match pred {
            Ok(_) => "ok",
            Err(r) => r,
        };
        match why {
            "cap" => props.push("C05"),
            "auth" => props.push("C14"),
            "whitelist" => props.push("C15"),
            "whitelist-auth" => { props.push("C15"); props.push("C14") }
            "t22" => props.push("C19"),
            _ => {}
        }
        let (ph, wl, nreg, idx) = match c.get("presale").and_then(|k| self.gp.get(&k)) {
            Some(p) => {
                let idx = c.get("escrow").and_then(|k| self.ge.get(&k)).map(|e| e.idx as u64).unwrap_or(9);
                let now = self.w.now();
                let edge = [p.start, p.end, p.imm_ts, p.vest_start, p.vest_end]
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| now + 1 >= **t && now <= **t + 1)
                    .map(|(i, t)| 10u64.pow(i as u32) * (1 + now + 1 - *t))
                    .sum::<u64>();
                if edge > 0 || matches!(why, "phase" | "mode") {
                    props.push("C04");
                }
                (progress(p, now) as u64 + 16 * edge, p.whitelist as u64, p.reg_count as u64, idx)
            }
            None => (0, 9, 0, 9),
        };
        props.sort();
        props.dedup();
        let sig = hash64(&[
            strhash(c.kind), strhash(why), mode as u64, ph, wl, nreg, idx, note, t22, mvb,
        ]);
        let s = format!("{} {} => {}", c.kind, desc, why);
        self.observe(&props, sig, &s);
    }

    fn compare(
        &mut self,
        c: &Call,
        desc: &str,
        e: Eff,
        pre: &[(Pubkey, Option<solana_account::AccountSharedData>)],
        out: &TxOut,
        mode: u8,
    ) {
        let kp = kind_props(c.kind, mode);
        let mut known: BTreeSet<Pubkey> = BTreeSet::new();
        // --- program state -------------------------------------------------------------------
        if let Some((k, p)) = e.presale.clone() {
            known.insert(k);
            if self.gp.get(&k).map(|o| o.end != p.end).unwrap_or(false) {
                self.ended_early.insert(k);
            }
            self.gp.insert(k, p);
            self.cmp_presale(c.kind, &k, desc);
        }
        if let Some((k, es)) = e.escrow.clone() {
            known.insert(k);
            if c.kind == "withdraw_remaining_quote" {
                let paid: u64 = pre
                    .iter()
                    .filter(|(v, _)| self.role(v) == "quote-vault")
                    .map(|(v, a)| a.as_ref().map(|a| tok_amount(a.data())).unwrap_or(0).saturating_sub(self.w.balance(v)))
                    .sum();
                *self.refunds.entry(k).or_default() += paid;
            }
            if c.kind == "close_escrow" {
                self.record_outcome(&k, pre);
            }
            match es {
                Some(es) => {
                    if e.created.contains(&k) {
                        *self.opened.entry(es.presale).or_default() += 1;
                    }
                    self.ge.insert(k, es);
                    self.cmp_escrow(c.kind, &k, desc, mode);
                }
                None => {
                    if let Some(old) = self.ge.remove(&k) {
                        let cs = self.closed.entry(old.presale).or_default();
                        let i = old.idx as usize;
                        cs.dep[i] += old.dep;
                        cs.fee[i] += old.fee;
                        cs.claimed[i] += old.claimed;
                        // refunded amounts are not kept per escrow
                    }
                    if self.w.bank.get(&k).is_some() {
                        self.div(&["C18"], "not-closed", format!("{} {}: escrow still exists", c.kind, desc));
                    }
                }
            }
        }
        if let Some((k, im)) = e.small.clone() {
            known.insert(k);
            let got = self.w.bank.get(&k).map(|a| (a.data().to_vec(), *a.owner()));
            match im {
                Some(im) => {
                    if got.as_ref().map(|g| &g.0) != Some(&im) || got.as_ref().map(|g| g.1) != Some(PROGRAM) {
                        let mut pr: Props = vec!["C21", "C15"];
                        if let Some((d, o)) = &got {
                            if d.len() != im.len() || d[..8] != im[..8] || *o != PROGRAM || self.plain(c.kind) || displaced(&d[8..], &[im[8..].to_vec()], &[0, 8]) {
                                pr.push("C27");
                            }
                        } else {
                            pr.push("C27");
                        }
                        self.div(&pr, "image", format!("{} {}: stored account differs from what was requested", c.kind, desc));
                    }
                    self.gs.insert(k, im);
                }
                None => {
                    self.gs.remove(&k);
                    if got.is_some() {
                        self.div(&["C21"], "not-closed", format!("{} {}: account still exists", c.kind, desc));
                    }
                }
            }
        }
        // --- token balances ------------------------------------------------------------------
        let epoch = self.w.epoch();
        let mut touched: BTreeSet<Pubkey> = BTreeSet::new();
        let mut supply_delta: BTreeMap<Pubkey, u64> = BTreeMap::new();
        let t22 = self.is_t22_moves(&e.moves);
        for m in &e.moves {
            match m {
                Mv::Xfer { m, from, to, amount } => {
                    let fee = self.w.mints[*m].fee_on(epoch, *amount);
                    let a = self.bal(from).wrapping_sub(*amount);
                    self.gt.insert(*from, a);
                    let b = self.bal(to).wrapping_add(amount - fee);
                    self.gt.insert(*to, b);
                    touched.insert(*from);
                    touched.insert(*to);
                }
                Mv::Burn { m, from, amount } => {
                    let a = self.bal(from).wrapping_sub(*amount);
                    self.gt.insert(*from, a);
                    touched.insert(*from);
                    *supply_delta.entry(self.w.mints[*m].key).or_default() += amount;
                }
            }
        }
        let keys: Vec<Pubkey> = pre.iter().map(|p| p.0).collect();
        for k in keys.iter() {
            let Some(a) = self.w.bank.get(k) else { continue };
            if (*a.owner() == TOKEN || *a.owner() == TOKEN22) && a.data().len() >= 165 && self.w.mint_by_key(k).is_none() {
                let got = tok_amount(a.data());
                let newly = !self.gt.contains_key(k) && pre.iter().any(|p| p.0 == *k && p.1.is_none());
                let want = if newly { 0 } else {
                    match self.gt.get(k) { Some(v) => *v, None => pre.iter().find(|p| p.0 == *k).and_then(|p| p.1.as_ref()).map(|a| tok_amount(a.data())).unwrap_or(0) }
                };
                known.insert(*k);
                if got != want {
                    let mut pr = kp.clone();
                    let role = self.role(k);
                    match role {
                        "quote-vault" => pr.push("C01"),
                        "base-vault" => pr.push("C02"),
                        _ => pr.push(if e.moves.iter().any(|m| matches!(m, Mv::Xfer{m,..} if self.presales.iter().any(|p| p.bm==*m && p.qm!=*m))) { "C02" } else { "C01" }),
                    }
                    if c.kind == "deposit" { pr.push("C06"); pr.push("C05") }
                    if c.kind == "withdraw" { pr.push("C06") }
                    if t22 { pr.push("C19") }
                    // the vault keeps more, or somebody gets less, than it should
                    if matches!(c.kind, "claim" | "withdraw_remaining_quote") { pr.push("C25") }
                    if EXITS.contains(&c.kind) && (got > want) == (role != "wallet") { pr.push("C24") }
                    self.div(&pr, "balance", format!("{} {}: {} {} holds {} but must hold {}", c.kind, desc, role, k, got, want));
                }
                self.gt.insert(*k, got);
            }
        }
        // --- mints ---------------------------------------------------------------------------
        for (k, a) in pre {
            if self.w.mint_by_key(k).is_some() {
                known.insert(*k);
                let was = a.as_ref().map(|a| mint_supply(a.data())).unwrap_or(0);
                let is = self.w.bank.data(k).map(mint_supply).unwrap_or(0);
                let want = was.wrapping_sub(*supply_delta.get(k).unwrap_or(&0));
                if is != want {
                    let mut pr = kp.clone();
                    pr.push("C13");
                    self.div(&pr, "supply", format!("{} {}: mint supply {} must be {}", c.kind, desc, is, want));
                }
            }
        }
        // --- lamports and frame --------------------------------------------------------------
        let mut payer_cost = 0u64;
        for k in &e.created {
            let was = pre.iter().find(|p| p.0 == *k).and_then(|p| p.1.as_ref()).map(|a| a.lamports()).unwrap_or(0);
            let is = self.w.bank.lamports(k);
            let len = self.w.bank.data(k).map(|d| d.len()).unwrap_or(0);
            if is < self.w.bank.rent.minimum_balance(len) {
                self.div(&["C21"], "rent", format!("{} {}: created account is not rent exempt", c.kind, desc));
            }
            payer_cost += is.saturating_sub(was);
        }
        for (k, a) in pre {
            let was = a.as_ref().map(|a| a.lamports()).unwrap_or(0);
            let is = self.w.bank.lamports(k);
            let native = self.w.bank.get(k).map(|a| *a.owner() == TOKEN && a.data().len() == 165 && a.data()[109] == 1).unwrap_or(false);
            if native {
                continue;
            }
            let mut want = was;
            if e.created.contains(k) {
                want = is;
            }
            if Some(*k) == e.payer {
                want -= payer_cost;
            }
            if let Some((acct, recv)) = &e.closed {
                let lam = pre.iter().find(|p| p.0 == *acct).and_then(|p| p.1.as_ref()).map(|a| a.lamports()).unwrap_or(0);
                if k == acct {
                    want = 0;
                } else if k == recv {
                    want += lam;
                }
            }
            if is != want {
                let mut pr = kp.clone();
                pr.push(if c.kind == "close_escrow" { "C18" } else { "C21" });
                self.div(&pr, "lamports", format!("{} {}: lamports of {} are {} but must be {}", c.kind, desc, k, is, want));
            }
            if !known.contains(k) && !e.created.contains(k) && e.closed.map(|x| x.0) != Some(*k) {
                let same = match (a, self.w.bank.get(k)) {
                    (Some(a), Some(b)) => a.data() == b.data() && a.owner() == b.owner(),
                    (None, None) => true,
                    (None, Some(b)) => b.data().is_empty(),
                    (Some(a), None) => a.data().is_empty(),
                };
                let hookish = a.as_ref().map(|a| *a.owner() == HOOK).unwrap_or(false);
                if !same && !hookish {
                    let mut pr = kp.clone();
                    pr.push("C03");
                    pr.push("C14");
                    self.div(&pr, "frame", format!("{} {}: account {} changed although nothing allows it", c.kind, desc, k));
                }
            }
        }
        // --- events --------------------------------------------------------------------------
        let mut got: Vec<Vec<u8>> = Vec::new();
        for t in &out.trace {
            if t.height == 2 && t.program == PROGRAM && t.data.len() >= 16 && t.data[..8] == EVENT_TAG {
                got.push(t.data[8..].to_vec());
            }
        }
        self.stats.events += got.len() as u64;
        if got != e.events {
            let name = |v: &Vec<Vec<u8>>| v.iter().map(|x| hexs(&x[..8.min(x.len())]) + ":" + &hexs(&x[8.min(x.len())..])).collect::<Vec<_>>();
            let cls = if got.len() != e.events.len() { "event-count" } else { "event-content" };
            let mut pr: Props = vec!["C20"];
            if got.len() == e.events.len() && got.iter().zip(&e.events).any(|(g, w)| g[..8] != w[..8] || g.len() != w.len() || displaced(&g[8..], &[w[8..].to_vec()], &[])) {
                pr.push("C27");
            }
            self.div(&pr, cls, format!("{} {}: events differ: got {:?} want {:?}", c.kind, desc, name(&got), name(&e.events)));
        }
        // --- audits --------------------------------------------------------------------------
        if let Some(k) = c.get("presale") {
            self.audit(&k, c.kind, desc);
            // other presales must be untouched
            let others: Vec<Pubkey> = self.gp.keys().filter(|x| **x != k).copied().collect();
            for o in others {
                self.audit(&o, c.kind, desc);
            }
        }
    }

    fn role(&self, k: &Pubkey) -> &'static str {
        for p in &self.presales {
            if base_vault(&p.key) == *k {
                return "base-vault";
            }
            if quote_vault(&p.key) == *k {
                return "quote-vault";
            }
        }
        for p in self.gp.values() {
            if p.base_vault == *k {
                return "base-vault";
            }
            if p.quote_vault == *k {
                return "quote-vault";
            }
        }
        "wallet"
    }

    /// A creation with everyday values: if that goes wrong, the call is not understood as published.
    fn plain(&self, kind: &str) -> bool {
        self.ordinary && (kind.starts_with("create_") || kind.starts_with("initialize_")) && self.first()
    }

    /// Nothing has gone wrong before this step.
    fn first(&self) -> bool {
        self.divs.iter().all(|d| d.step == self.log.len())
    }

    fn cmp_presale(&mut self, kind: &str, k: &Pubkey, desc: &str) {
        let g = self.gp.get(k).unwrap().clone();
        let o = self.w.bank.data(k).and_then(decode_presale);
        let Some(o) = o else {
            self.div(&["C17", "C03", "C27"], "presale-missing", format!("{kind} {desc}: presale account missing or malformed"));
            return;
        };
        if o == g {
            return;
        }
        // a schedule moved by a deposit may look like an exchange of its dates
        let dated = kind != "initialize_presale" && PresaleS { start: g.start, end: g.end, imm_ts: g.imm_ts, vest_start: g.vest_start, vest_end: g.vest_end, ..o.clone() } == g;
        if self.plain(kind) || (self.first() && !dated && displaced(&self.w.bank.data(k).unwrap()[8..], &presale_image(&g), &PRESALE_FLAGS)) {
            self.div(&["C27"], "layout", format!("{kind} {desc}: presale record holds its values at other places than published"));
        }
        let mut bad: Vec<(&str, String)> = vec![];
        macro_rules! f {
            ($($n:literal : $($f:ident),+);+ $(;)?) => { $($( if o.$f != g.$f { bad.push(($n, format!("{} is {:?} must be {:?}", stringify!($f), o.$f, g.$f))); } )+)+ };
        }
        f!("other": owner, quote_mint, base_mint, base_vault, quote_vault, base, mode, created, base_flag, quote_flag, reg_count, imm_bps, lock, vest;
           "whitelist": whitelist; "max_cap": max_cap; "min_cap": min_cap; "start": start; "end": end; "supply": supply;
           "dep": dep; "escrows": escrows; "imm_ts": imm_ts; "vest_start": vest_start; "vest_end": vest_end;
           "claimed": claimed; "refunded": refunded; "fee": fee; "fee_collected": fee_collected; "creator_withdrawn": creator_withdrawn;
           "unsold_action": unsold_action; "unsold_done": unsold_done; "q_price": q_price; "disable_withdraw": disable_withdraw; "disable_early": disable_early;);
        for i in 0..5 {
            let (a, b) = (&o.regs[i], &g.regs[i]);
            let mut r = |n: &'static str, x: u64, y: u64, w: &str| {
                if x != y {
                    bad.push((n, format!("registry {i} {w} is {x} must be {y}")));
                }
            };
            r("reg_cfg", a.supply, b.supply, "supply");
            r("reg_cfg", a.min, b.min, "min");
            r("reg_cfg", a.max, b.max, "max");
            r("reg_cfg", a.fee_bps as u64, b.fee_bps as u64, "fee_bps");
            r("dep", a.dep, b.dep, "deposit");
            r("fee", a.fee, b.fee, "fee");
            r("escrows", a.escrows, b.escrows, "escrows");
            r("claimed", a.claimed, b.claimed, "claimed");
            r("refunded", a.refunded, b.refunded, "refunded");
        }
        for (n, m) in bad {
            let pr = field_props(kind, n, g.mode);
            self.div(&pr, n, format!("{kind} {desc}: presale {m}"));
        }
    }

    fn cmp_escrow(&mut self, kind: &str, k: &Pubkey, desc: &str, mode: u8) {
        let g = self.ge.get(k).unwrap().clone();
        let Some(o) = self.w.bank.data(k).and_then(decode_escrow) else {
            self.div(&["C18", "C03", "C27"], "escrow-missing", format!("{kind} {desc}: escrow missing or malformed"));
            return;
        };
        if o == g {
            return;
        }
        if self.plain(kind) || (self.first() && displaced(&self.w.bank.data(k).unwrap()[8..], &escrow_image(&g), &ESCROW_FLAGS)) {
            self.div(&["C27"], "layout", format!("{kind} {desc}: escrow record holds its values at other places than published"));
        }
        let mut bad: Vec<(&str, String)> = vec![];
        macro_rules! f {
            ($($n:literal : $f:ident),+) => { $( if o.$f != g.$f { bad.push(($n, format!("{} is {:?} must be {:?}", stringify!($f), o.$f, g.$f))); } )+ };
        }
        f!("other": presale, "other": owner, "dep": dep, "claimed": claimed, "refunded": refunded, "idx": idx, "pending": pending, "cap": cap, "other": created, "fee": fee, "refreshed": refreshed);
        for (n, m) in bad {
            let pr = field_props(kind, n, mode);
            self.div(&pr, n, format!("{kind} {desc}: escrow {m}"));
        }
    }

    /// Global invariants over the observed accounts.
    /// The presale as an earlier version of the program stored it: without a time of immediate release,
    /// which then is the end of the sale.
    pub fn legacy(&mut self, k: &Pubkey) {
        let Some(mut a) = self.w.bank.get(k).cloned() else { return };
        a.data_as_mut_slice()[8 + 280..8 + 288].fill(0);
        self.w.bank.set(*k, a.into());
        self.gp.get_mut(k).unwrap().imm_ts = 0;
        *self.stats.kinds.entry("earlier version/no immediate release time".into()).or_default() += 1;
        self.log.push(format!("[{}] record of an earlier version", self.w.now()));
    }

    /// The presale as it is after `n` further wallets opened an empty escrow each. Creating them one by one
    /// is out of reach for the counts of interest; opening changes nothing but the two counters.
    pub fn idle_crowd(&mut self, k: &Pubkey, reg: usize, n: u64) {
        let Some(mut a) = self.w.bank.get(k).cloned() else { return };
        let d = a.data_as_mut_slice();
        for o in [8 + 248, 8 + 464 + reg * 160 + 16] {
            let x = u64at(d, o) + n;
            d[o..o + 8].copy_from_slice(&x.to_le_bytes());
        }
        self.w.bank.set(*k, a.into());
        let g = self.gp.get_mut(k).unwrap();
        g.escrows += n;
        g.regs[reg].escrows += n;
        self.idle.entry(*k).or_default()[reg] += n;
        *self.stats.kinds.entry(format!("idle crowd/2^{}", bucket(n))).or_default() += 1;
        self.log.push(format!("[{}] {n} idle escrows in registry {reg}", self.w.now()));
    }

    pub fn audit(&mut self, k: &Pubkey, kind: &str, desc: &str) {
        self.stats.audits += 1;
        let Some(o) = self.w.bank.data(k).and_then(decode_presale) else { return };
        let Some(g) = self.gp.get(k).cloned() else { return };
        let cs = self.closed.get(k).cloned().unwrap_or_default();
        let mut dep = cs.dep;
        let mut fee = cs.fee;
        let mut claimed = cs.claimed;
        let mut cnt = [0u64; 5];
        let ekeys: Vec<Pubkey> = self.ge.iter().filter(|(_, e)| e.presale == *k).map(|(k, _)| *k).collect();
        let mut obs_e: Vec<EscrowS> = Vec::new();
        for ek in &ekeys {
            let Some(e) = self.w.bank.data(ek).and_then(decode_escrow) else {
                self.div(&["C03", "C18"], "escrow-missing", format!("{kind} {desc}: an open escrow disappeared"));
                continue;
            };
            if e != self.ge[ek] {
                // An escrow not addressed by this call changed (or a previous divergence).
                self.div(&["C03"], "escrow-isolation", format!("{kind} {desc}: escrow {ek} is {:?} must be {:?}", e, self.ge[ek]));
            }
            let i = (e.idx as usize).min(4);
            dep[i] = dep[i].saturating_add(e.dep);
            fee[i] = fee[i].saturating_add(e.fee);
            claimed[i] = claimed[i].saturating_add(e.claimed);
            cnt[i] += 1;
            obs_e.push(e);
        }
        let mut bad = vec![];
        let idle = self.idle.get(k).copied().unwrap_or_default();
        for i in 0..5 {
            let r = &o.regs[i];
            if r.dep != dep[i] { bad.push((vec!["C03", "C01"], format!("registry {i} deposit {} but escrows hold {}", r.dep, dep[i]))); }
            if r.fee != fee[i] { bad.push((vec!["C03", "C06"], format!("registry {i} fee {} but escrows paid {}", r.fee, fee[i]))); }
            if r.claimed != claimed[i] { bad.push((vec!["C03", "C02"], format!("registry {i} claimed {} but escrows claimed {}", r.claimed, claimed[i]))); }
            let cnt = cnt[i] + idle[i];
            if r.escrows != cnt { bad.push((vec!["C03"], format!("registry {i} counts {} escrows but {} exist", r.escrows, cnt))); }
        }
        let s = |f: fn(&RegS) -> u64| o.regs.iter().map(|r| f(r) as u128).sum::<u128>();
        for (n, tot, sum) in [
            ("deposit", o.dep, s(|r| r.dep)),
            ("fee", o.fee, s(|r| r.fee)),
            ("escrows", o.escrows, s(|r| r.escrows)),
            ("claimed", o.claimed, s(|r| r.claimed)),
            ("refunded", o.refunded, s(|r| r.refunded)),
        ] {
            if tot as u128 != sum {
                bad.push((vec!["C03"], format!("presale {n} {tot} but registries sum to {sum}")));
            }
        }
        // Solvency.
        let now = self.w.now();
        let ph = progress(&g, now);
        let qv = self.w.balance(&g.quote_vault) as u128;
        let bv = self.w.balance(&g.base_vault) as u128;
        let es: Vec<EscrowS> = ekeys.iter().map(|e| self.ge[e].clone()).collect();
        let (mut qo, mut bo) = (0u128, 0u128);
        match ph {
            NOT_STARTED | ONGOING => {
                qo = g.dep as u128 + g.fee as u128;
                bo = g.supply as u128;
            }
            FAILED => {
                for e in &es {
                    if e.refunded == 0 {
                        qo += e.dep as u128 + e.fee as u128;
                    }
                }
                if g.creator_withdrawn == 0 {
                    bo = g.supply as u128;
                }
            }
            _ => {
                if g.creator_withdrawn == 0 {
                    qo += creator_proceeds(&g) as u128;
                }
                if g.fee_collected == 0 {
                    qo += collectable_fee(&g) as u128;
                }
                for e in &es {
                    if e.refunded == 0 {
                        qo += refund_due(&g, e, now).unwrap_or(0) as u128;
                    }
                    bo += (full_entitlement(&g, e).saturating_sub(e.claimed)) as u128;
                }
                if g.unsold_done == 0 {
                    bo += unsold(&g) as u128;
                }
            }
        }
        if qv < qo {
            bad.push((vec!["C01"], format!("quote vault holds {qv} but owes {qo}")));
        }
        if bv < bo {
            bad.push((vec!["C02"], format!("base vault holds {bv} but owes {bo}")));
        }
        for (p, m) in bad {
            self.div(&p, "audit", format!("{kind} {desc}: {m}"));
        }
        let sig = hash64(&[ph as u64, g.mode as u64, bucket(g.dep), bucket(g.fee), cnt.iter().sum::<u64>(), g.reg_count as u64, bucket(qo as u64), bucket(bo as u64)]);
        let smp = format!("audit after {kind}: phase {ph} mode {} escrows {:?} vault quote {qv} owes {qo}, base {bv} owes {bo}", g.mode, cnt);
        self.observe(&["C01", "C02", "C03"], sig, &smp);
    }

    /// An escrow leaves after success: remember (from the observed account) what its owner got out of it, and
    /// compare with those who left before. Within a registry nobody with at least the deposit and fee of
    /// another may end up with less.
    fn record_outcome(&mut self, k: &Pubkey, pre: &[(Pubkey, Option<solana_account::AccountSharedData>)]) {
        let Some(e) = pre.iter().find(|p| p.0 == *k).and_then(|p| p.1.as_ref()).and_then(|a| decode_escrow(a.data())) else { return };
        let Some(g) = self.gp.get(&e.presale).cloned() else { return };
        let now = self.w.now();
        let paid = self.refunds.remove(k).unwrap_or(0);
        if progress(&g, now) != COMPLETED || now < g.vest_start + g.vest || now < g.imm_ts {
            return;
        }
        let me = (e.idx, e.dep, e.fee, e.claimed, paid);
        let old = self.outcomes.entry(e.presale).or_default().clone();
        for o in old.iter().filter(|o| o.0 == me.0) {
            let (lo, hi) = if (o.1, o.2) <= (me.1, me.2) { (o, &me) } else { (&me, o) };
            if lo.3 > hi.3 || (lo.2 <= hi.2 && lo.4 > hi.4) {
                self.div(&["C25"], "unequal", format!(
                    "registry {}: a deposit of {} (fee {}) got {} tokens and {} back, a deposit of {} (fee {}) got {} tokens and {} back",
                    lo.0, lo.1, lo.2, lo.3, lo.4, hi.1, hi.2, hi.3, hi.4));
            }
            let sig = hash64(&[g.mode as u64, g.reg_count as u64, e.idx as u64, bucket(lo.1), bucket(hi.1), (lo.1 == hi.1) as u64, (lo.4 > 0) as u64, (g.vest > 0) as u64, (e.fee > 0) as u64]);
            let smp = format!("registry {}: deposits {} and {} got {} and {} tokens, {} and {} quote back", lo.0, lo.1, hi.1, lo.3, hi.3, lo.4, hi.4);
            self.observe(&["C25"], sig, &smp);
        }
        self.outcomes.get_mut(&e.presale).unwrap().push(me);
    }

    pub fn fork(&self) -> Fork {
        Fork {
            accounts: self.w.bank.accounts.clone(),
            clock: (self.w.bank.clock.unix_timestamp, self.w.epoch()),
            gt: self.gt.clone(),
        }
    }
    pub fn rewind(&mut self, f: &Fork) {
        self.w.bank.accounts = f.accounts.clone();
        self.w.bank.set_clock(f.clock.0, f.clock.1);
        self.gt = f.gt.clone();
        self.ledger = None;
    }

    /// Everybody spends what they hold elsewhere, so that any account can take all the vaults hold. (Scenario
    /// wallets together hold more than a mint could issue; without this a payout could outgrow 64 bits.)
    pub fn empty_pockets(&mut self) {
        let authority = presale_authority().to_bytes();
        for a in self.w.bank.accounts.values_mut() {
            let d = a.data();
            if (*a.owner() != TOKEN && *a.owner() != TOKEN22)
                || d.len() < 165
                || (d.len() > 165 && d[165] != 2)
                || d[32..64] == authority
            {
                continue;
            }
            let mut d = d.to_vec();
            if d[109..113] != [0u8; 4] {
                a.set_lamports(a.lamports() - tok_amount(&d));
            }
            d[64..72].fill(0);
            let mut i = 166;
            while i + 12 <= d.len() {
                let t = u16::from_le_bytes([d[i], d[i + 1]]);
                let l = u16::from_le_bytes([d[i + 2], d[i + 3]]) as usize;
                if t == 0 {
                    break;
                }
                if t == 2 {
                    d[i + 4..i + 12].fill(0);
                }
                i += 4 + l;
            }
            a.set_data_from_slice(&d);
        }
    }

    fn run_ledger(&mut self, c: Call) -> bool {
        let l = self.ledger.as_ref().unwrap();
        let v = l.vaults;
        let before = [self.w.balance(&v[0]), self.w.balance(&v[1])];
        let ix = c.build();
        let ok = self.w.bank.exec(&ix).ok;
        let after = [self.w.balance(&v[0]), self.w.balance(&v[1])];
        self.stats.steps += 1;
        *self.stats.kinds.entry(format!("{}/schedule {}", c.kind, if ok { "accepted" } else { "refused" })).or_default() += 1;
        if ok {
            self.stats.accepted += 1;
        } else {
            self.stats.rejected += 1;
        }
        let who = match c.kind {
            "claim" | "withdraw_remaining_quote" => c.get("escrow").map(|k| format!("escrow {k}")).unwrap_or_default(),
            k => k.to_string(),
        };
        let l = self.ledger.as_mut().unwrap();
        l.accepted += ok as u64;
        for i in 0..2 {
            if after[i] != before[i] {
                *l.out.entry((who.clone(), i)).or_default() += before[i].wrapping_sub(after[i]);
            }
        }
        ok
    }

    /// Two settlements of the same sale, both taken to the end: nobody's total may differ.
    pub fn same_settlement(&mut self, pk: &Pubkey, a: &(u64, Ledger, Vec<Pubkey>), b: &(u64, Ledger, Vec<Pubkey>)) {
        let g = self.gp[pk].clone();
        let ph = progress(&g, self.w.now());
        let mut keys: BTreeSet<(String, usize)> = a.1.out.keys().cloned().collect();
        keys.extend(b.1.out.keys().cloned());
        for k in keys {
            let (x, y) = (a.1.out.get(&k).copied().unwrap_or(0), b.1.out.get(&k).copied().unwrap_or(0));
            if x != y {
                self.div(&["C26"], "order", format!(
                    "{}: {} {} units under schedule {}, {} under schedule {} (mode {}, phase {ph})",
                    k.0, x, if k.1 == 0 { "quote" } else { "base" }, a.0, y, b.0, g.mode));
            }
        }
        if a.2 != b.2 {
            self.div(&["C26"], "order", format!("escrows still open: {:?} under schedule {}, {:?} under schedule {}", a.2, a.0, b.2, b.0));
        }
        let n = self.ge.values().filter(|e| e.presale == *pk).count() as u64;
        let sig = hash64(&[ph as u64, g.mode as u64, a.0, b.0, n, (g.fee > 0) as u64, (g.dep > g.max_cap) as u64, (g.vest > 0) as u64, g.reg_count as u64, (unsold(&g) > 0) as u64, bucket(g.dep)]);
        let smp = format!("mode {} phase {ph}, {n} escrows, deposits {}: schedules {} and {} ({} and {} accepted steps) paid the same {} totals", g.mode, g.dep, a.0, b.0, a.1.accepted, b.1.accepted, a.1.out.len());
        self.observe(&["C26"], sig, &smp);
    }

    /// Everybody is gone: what is left in the vaults can only be rounding dust (judged on the observed
    /// vaults; the bound follows from one rounding down per payout).
    pub fn farewell(&mut self, k: &Pubkey) {
        let Some(g) = self.gp.get(k).cloned() else { return };
        let now = self.w.now();
        let ph = progress(&g, now);
        let done = !self.ge.values().any(|e| e.presale == *k)
            && g.creator_withdrawn != 0
            && (ph == FAILED || (ph == COMPLETED && (g.fee_collected != 0 || collectable_fee(&g) == 0) && (g.unsold_done != 0 || unsold(&g) == 0)));
        if !done {
            return;
        }
        let n = self.opened.get(k).copied().unwrap_or(0);
        let (qmax, bmax) = match ph {
            FAILED => (0, 0),
            _ if g.mode == PRORATA => (g.reg_count as u64 + 2 * n, 2 * n),
            _ => (0, 2 * n),
        };
        let q = self.w.balance(&g.quote_vault) - self.gifts.get(&g.quote_vault).copied().unwrap_or(0).min(self.w.balance(&g.quote_vault));
        let b = self.w.balance(&g.base_vault) - self.gifts.get(&g.base_vault).copied().unwrap_or(0).min(self.w.balance(&g.base_vault));
        if q > qmax || b > bmax {
            self.div(&["C24"], "stranded", format!("everybody left ({n} escrows, phase {ph}, mode {}) but {q} quote and {b} base units remain, at most {qmax} and {bmax} can be rounding", g.mode));
        }
        let sig = hash64(&[ph as u64, g.mode as u64, n, q.min(9), b.min(9), g.reg_count as u64, (g.fee > 0) as u64, bucket(g.dep), (g.dep > g.max_cap) as u64]);
        let smp = format!("all {n} escrows left, phase {ph} mode {} deposits {}: {q} quote (max {qmax}) and {b} base (max {bmax}) units remain", g.mode, g.dep);
        self.observe(&["C24"], sig, &smp);
    }

    // ------------------------------------------------------------------------------------------
    // hostile variants

    fn others_of_type(&self, len: usize) -> Vec<Pubkey> {
        let mut v: Vec<Pubkey> = self
            .gp
            .keys()
            .chain(self.ge.keys())
            .chain(self.gs.keys())
            .filter(|k| self.w.bank.data(k).map(|d| d.len() != len).unwrap_or(false))
            .copied()
            .collect();
        v.sort();
        v
    }

    fn hostile_variant(&mut self, c: &Call, desc: &str, moves: bool) {
        let i = self.rng.idx(c.slots.len());
        let (name, m) = (c.slots[i].0, c.slots[i].1.clone());
        let mut v = c.clone();
        let mut cleanup: Vec<Pubkey> = vec![];
        let what: String;
        let forged = |s: &mut Sim, k: &Pubkey, cleanup: &mut Vec<Pubkey>| -> Option<Pubkey> {
            let a = s.w.bank.get(k)?.clone();
            let nk = s.rng.key();
            let owner = *s.rng.pick(&[SYSTEM, TOKEN, HOOK]);
            s.w.bank.set(nk, solana_account::Account { lamports: a.lamports().max(10_000_000), data: a.data().to_vec(), owner, executable: false, rent_epoch: u64::MAX });
            cleanup.push(nk);
            Some(nk)
        };
        let replace = |v: &mut Call, k: Pubkey, signer: bool| {
            v.slots[i].1.pubkey = k;
            v.slots[i].1.is_signer = signer;
        };
        let mut name = name;
        let sister = if c.kind != "initialize_presale" && self.rng.chance(1, 4) { self.sister_swap(&mut v) } else { None };
        let extra = if sister.is_none() && self.rng.chance(1, 4) { self.rem_swap(&mut v, &mut cleanup) } else { None };
        if let Some((n, w)) = sister.or(extra) {
            name = n;
            what = w;
        }
        // 1. take a required signature away
        else if m.is_signer && self.rng.chance(1, 2) {
            for s in v.slots.iter_mut().chain(std::iter::empty()) {
                if s.1.pubkey == m.pubkey {
                    s.1.is_signer = false;
                }
            }
            what = format!("{name} unsigned");
        } else {
            match name {
                "presale" => {
                    if c.kind == "initialize_presale" {
                        let k = self.rng.key();
                        replace(&mut v, k, false);
                        what = "presale at another address".into();
                    } else {
                        let others: Vec<Pubkey> = self.gp.keys().filter(|k| **k != m.pubkey).copied().collect();
                        let ty = self.others_of_type(PRESALE_LEN);
                        match self.rng.below(3) {
                            0 if !others.is_empty() => {
                                let k = *self.rng.pick(&others);
                                replace(&mut v, k, false);
                                what = "foreign presale".into();
                            }
                            1 if !ty.is_empty() => {
                                let k = *self.rng.pick(&ty);
                                replace(&mut v, k, false);
                                what = "account of another type as presale".into();
                            }
                            _ => {
                                let Some(k) = forged(self, &m.pubkey, &mut cleanup) else { return };
                                replace(&mut v, k, false);
                                what = "forged presale".into();
                            }
                        }
                    }
                }
                "escrow" => {
                    if c.kind.starts_with("create_") {
                        let k = self.rng.key();
                        replace(&mut v, k, false);
                        what = "escrow at another address".into();
                    } else {
                        let me = self.ge.get(&m.pubkey).cloned().unwrap_or_default();
                        let bind_owner = matches!(c.kind, "withdraw" | "claim" | "withdraw_remaining_quote" | "close_escrow");
                        let others: Vec<Pubkey> = self
                            .ge
                            .iter()
                            .filter(|(k, e)| **k != m.pubkey && (e.presale != me.presale || (bind_owner && e.owner != me.owner)))
                            .map(|(k, _)| *k)
                            .collect();
                        let ty = self.others_of_type(ESCROW_LEN);
                        match self.rng.below(4) {
                            0 if !ty.is_empty() => {
                                let k = *self.rng.pick(&ty);
                                replace(&mut v, k, false);
                                what = "account of another type as escrow".into();
                            }
                            1 | 2 if !others.is_empty() => {
                                let k = *self.rng.pick(&others);
                                replace(&mut v, k, false);
                                what = "foreign escrow".into();
                            }
                            _ => {
                                let Some(k) = forged(self, &m.pubkey, &mut cleanup) else { return };
                                replace(&mut v, k, false);
                                what = "forged escrow".into();
                            }
                        }
                    }
                }
                "quote_vault" | "base_vault" => {
                    if c.kind == "initialize_presale" {
                        let k = self.rng.key();
                        replace(&mut v, k, false);
                        what = "vault at another address".into();
                    } else {
                        let mut cand: Vec<Pubkey> = self.gp.values().flat_map(|p| [p.base_vault, p.quote_vault]).collect();
                        // wallets of everybody for the same mint
                        let mint = self.w.bank.data(&m.pubkey).map(|d| d[..32].to_vec()).unwrap_or_default();
                        let wallets: Vec<Pubkey> = self.gt.keys().filter(|k| self.w.bank.data(k).map(|d| d.len() >= 32 && d[..32] == mint[..]).unwrap_or(false)).copied().collect();
                        let mut wallets = wallets;
                        wallets.sort();
                        cand.extend(wallets);
                        cand.retain(|k| *k != m.pubkey);
                        if cand.is_empty() {
                            return;
                        }
                        let k = *self.rng.pick(&cand);
                        replace(&mut v, k, false);
                        what = format!("{name} := {}", self.role(&k));
                    }
                }
                "quote_mint" | "base_mint" => {
                    let cand: Vec<Pubkey> = self.w.mints.iter().map(|x| x.key).filter(|k| *k != m.pubkey).collect();
                    if cand.is_empty() {
                        return;
                    }
                    let k = *self.rng.pick(&cand);
                    replace(&mut v, k, false);
                    what = format!("{name} := other mint");
                }
                "presale_authority" | "event_authority" => {
                    let k = self.w.stranger;
                    replace(&mut v, k, false);
                    what = format!("{name} := stranger");
                }
                "memo" | "system" => {
                    replace(&mut v, TOKEN, false);
                    what = format!("{name} := another program");
                }
                // with nothing to transfer neither the token program nor the destination matters
                "token_program" | "dest" if !moves => return,
                "token_program" | "base_token_program" | "quote_token_program" => {
                    let k = match self.rng.below(3) {
                        0 => self.w.stranger,
                        1 => MEMO,
                        _ => if m.pubkey == TOKEN { TOKEN22 } else { TOKEN },
                    };
                    replace(&mut v, k, false);
                    what = format!("{name} := wrong program");
                }
                "dest" => {
                    // account of another mint (or: a wallet that is not the creator's for unsold tokens)
                    let mint = self.w.bank.data(&m.pubkey).map(|d| d[..32].to_vec()).unwrap_or_default();
                    let unsold = c.kind == "perform_unsold_base_token_action";
                    let mut cand: Vec<Pubkey> = self.gt.keys().filter(|k| **k != m.pubkey && self.w.bank.data(k).map(|d| d.len() >= 32 && (unsold || d[..32] != mint[..])).unwrap_or(false)).copied().collect();
                    cand.sort();
                    if cand.is_empty() {
                        return;
                    }
                    let k = *self.rng.pick(&cand);
                    replace(&mut v, k, false);
                    what = "wrong destination".into();
                }
                "source" => {
                    let auth = self.w.bank.data(&m.pubkey).map(|d| d[32..64].to_vec()).unwrap_or_default();
                    let mut cand: Vec<Pubkey> = self.gt.keys().filter(|k| self.w.bank.data(k).map(|d| d.len() >= 64 && d[32..64] != auth[..]).unwrap_or(false)).copied().collect();
                    cand.sort();
                    if cand.is_empty() {
                        return;
                    }
                    let k = *self.rng.pick(&cand);
                    replace(&mut v, k, false);
                    what = "somebody else's source wallet".into();
                }
                "owner" | "creator" | "operator_owner" | "base" => {
                    // In these calls the key is bound to stored state or a derived address.
                    if !m.is_signer && (c.kind == "initialize_presale" || c.kind == "initialize_fixed_price_presale_args") {
                        return; // free choice of the caller
                    }
                    if c.kind == "create_operator" && name == "creator" {
                        let k = if m.pubkey == self.w.stranger { self.w.payer } else { self.w.stranger };
                        replace(&mut v, k, true);
                        what = "operator address of another creator".into();
                    } else {
                        let mut cand = self.w.users.clone();
                        cand.push(self.w.stranger);
                        cand.extend(self.w.creators.iter());
                        cand.extend(self.w.ops.iter());
                        // keys the presale record names or that took part in its creation
                        cand.push(self.w.payer);
                        if let Some(p) = c.get("presale").and_then(|k| self.gp.get(&k)) {
                            cand.extend([p.base, p.base_mint, p.quote_mint]);
                        }
                        cand.retain(|k| *k != m.pubkey);
                        let k = *self.rng.pick(&cand);
                        replace(&mut v, k, m.is_signer);
                        what = format!("{name} := somebody else");
                    }
                }
                "payer" => {
                    if c.kind != "deposit" && c.kind != "initialize_presale" {
                        return;
                    }
                    let k = self.w.stranger;
                    if k == m.pubkey {
                        return;
                    }
                    replace(&mut v, k, true);
                    what = "payer := stranger".into();
                }
                "operator" | "merkle" | "metadata" | "args" => {
                    let mut cand: Vec<Pubkey> = self.gs.keys().filter(|k| **k != m.pubkey).copied().collect();
                    if c.kind == "revoke_operator" {
                        // a creator may revoke every operator of their own
                        let mine = self.gs.get(&m.pubkey).map(|x| x[40..72].to_vec()).unwrap_or_default();
                        cand.retain(|k| { let x = &self.gs[k]; x.len() != 136 || x[40..72] != mine[..] });
                    } else if name == "operator" {
                        cand = self.gs.iter().filter(|(k, im)| **k != m.pubkey && im.len() == 136 && im[8..40] != self.gs.get(&m.pubkey).map(|x| x[8..40].to_vec()).unwrap_or_default()[..]).map(|(k, _)| *k).collect();
                        // only operators of another wallet: an operator of the same wallet for another creator is tried too
                        let creator = c.get("presale").and_then(|p| self.gp.get(&p)).map(|p| p.owner);
                        if let (Some(cr), Some(oo)) = (creator, c.get("operator_owner")) {
                            for o in self.w.creators.iter().filter(|x| **x != cr) {
                                let k = operator_pda(o, &oo);
                                if self.gs.contains_key(&k) {
                                    cand.push(k);
                                }
                            }
                        }
                    } else if c.kind.starts_with("close_") && name == "args" {
                        // another args account owned by the same wallet would be legitimate
                        let mine = self.gs.get(&m.pubkey).map(|x| x[40..72].to_vec()).unwrap_or_default();
                        cand.retain(|k| { let x = &self.gs[k]; x.len() != 168 || x[40..72] != mine[..] });
                    } else if name == "merkle" && !c.kind.starts_with("create_merkle") {
                        // other versions of the same presale are legitimate for closing; for proofs they differ
                        let mine = self.gs.get(&m.pubkey).map(|x| x[48..80].to_vec()).unwrap_or_default();
                        cand.retain(|k| { let x = &self.gs[k]; x.len() != 152 || x[48..80] != mine[..] });
                    }
                    if cand.is_empty() || self.rng.chance(1, 3) {
                        let creating = self.w.bank.get(&m.pubkey).is_none();
                        if creating {
                            let k = self.rng.key();
                            replace(&mut v, k, false);
                        } else {
                            let Some(k) = forged(self, &m.pubkey, &mut cleanup) else { return };
                            replace(&mut v, k, false);
                        }
                        what = format!("forged {name}");
                    } else {
                        let k = *self.rng.pick(&cand);
                        replace(&mut v, k, false);
                        what = format!("foreign {name}");
                    }
                }
                _ => return,
            }
        }
        // Without the need to pay for the new account, a missing signature must still be noticed.
        if (c.kind.starts_with("create_") || c.kind.starts_with("initialize_")) && self.rng.chance(1, 3) {
            for (_, a) in v.slots.iter() {
                if a.is_writable && self.w.bank.get(&a.pubkey).is_none() {
                    self.w.bank.fund(a.pubkey, 20_000_000);
                    cleanup.push(a.pubkey);
                }
            }
        }
        let out = self.w.bank.simulate(&v.build());
        for k in cleanup {
            self.w.bank.accounts.remove(&k);
        }
        self.stats.hostile += 1;
        *self.stats.kinds.entry(format!("hostile/{}/{}", c.kind, what)).or_default() += 1;
        let sig = hash64(&[strhash(c.kind), strhash(&what), strhash(name)]);
        let smp = format!("{} with {} => {}", c.kind, what, if out.ok { "ACCEPTED" } else { "refused" });
        let mut pr: Props = vec!["C14"];
        if c.kind.contains("escrow_with") && matches!(name, "operator" | "operator_owner" | "merkle" | "owner") {
            pr.push("C15");
        }
        self.observe(&pr, sig, &smp);
        if out.ok {
            let mut pr2 = pr.clone();
            let mode = self.presale_of(c).and_then(|k| self.gp.get(&k)).map(|p| p.mode).unwrap_or(9);
            // whoever the operation is for, it now happens without their consent or at the wrong place
            pr2.extend(kind_props(c.kind, mode));
            if matches!(name, "presale" | "escrow" | "quote_vault" | "base_vault") { pr2.push("C03") }
            match name {
                "quote_vault" | "quote_mint" | "source" => pr2.push("C01"),
                "base_vault" | "base_mint" => pr2.push("C02"),
                "token_program" | "base_token_program" | "quote_token_program" | "memo" => pr2.push("C19"),
                _ => {}
            }
            if matches!(name, "operator" | "merkle" | "metadata" | "args") { pr2.push("C21") }
            if name == "dest" && c.kind == "perform_unsold_base_token_action" { pr2.push("C13") }
            if c.kind.starts_with("create_") || c.kind.starts_with("initialize_") {
                if c.get(name).map(|k| self.w.bank.get(&k).is_none()).unwrap_or(false) { pr2.push("C27") }
            }
            self.log.push(format!("HOSTILE {} {} with {} accepted", c.kind, desc, what));
            self.div(&pr2, "hostile-accept", format!("{} {} was accepted with {}", c.kind, desc, what));
        }
        if let Some(p) = out.panic {
            self.div(&["C22"], "panic", format!("{} with {}: aborted {}", c.kind, what, p.replace('\n', " ")));
        }
    }

    /// Replace a proper part of the accounts that belong together (presale, vault, escrow, whitelist
    /// root) by the corresponding accounts of another presale.
    fn sister_swap(&mut self, v: &mut Call) -> Option<(&'static str, String)> {
        let pk = v.get("presale")?;
        let others: Vec<Pubkey> = self.gp.keys().filter(|k| **k != pk).copied().collect();
        if others.is_empty() {
            return None;
        }
        let ok = *self.rng.pick(&others);
        let o = self.gp[&ok].clone();
        let me = v.get("escrow").and_then(|k| self.ge.get(&k).cloned());
        let mut parts: Vec<(&'static str, Vec<(&'static str, Pubkey)>)> = vec![("presale", vec![("presale", ok)])];
        if v.get("quote_vault").is_some() {
            parts.push(("quote_vault", vec![("quote_vault", o.quote_vault), ("quote_mint", o.quote_mint)]));
        }
        if v.get("base_vault").is_some() {
            parts.push(("base_vault", vec![("base_vault", o.base_vault), ("base_mint", o.base_mint)]));
        }
        if let Some(me) = &me {
            let mut es: Vec<Pubkey> = self.ge.iter().filter(|(_, e)| e.presale == ok && e.owner == me.owner).map(|(k, _)| *k).collect();
            if es.is_empty() {
                es = self.ge.iter().filter(|(_, e)| e.presale == ok).map(|(k, _)| *k).collect();
            }
            if !es.is_empty() {
                let k = *self.rng.pick(&es);
                parts.push(("escrow", vec![("escrow", k)]));
            } else if parts.len() == 2 {
                // swapping everything but a missing escrow is still a proper part
            }
        }
        // Parts present in the call: the presale, a vault, an escrow. At least two are needed to mix.
        let total = 1
            + (v.get("quote_vault").is_some() || v.get("base_vault").is_some()) as usize
            + me.is_some() as usize;
        if total < 2 {
            return None;
        }
        let mask = 1 + self.rng.below((1u64 << parts.len()) - 1);
        if mask.count_ones() as usize >= total {
            return None;
        }
        let mut names = vec![];
        for (i, (n, subs)) in parts.iter().enumerate() {
            if mask >> i & 1 == 1 {
                names.push(*n);
                for (slot, k) in subs {
                    // the mint only follows when the caller has to present it
                    if let Some(s) = v.slots.iter_mut().find(|s| s.0 == *slot) {
                        s.1.pubkey = *k;
                    }
                }
            }
        }
        Some((names[0], format!("{} of another presale", names.join("+"))))
    }

    /// Accounts passed beyond the named ones: the vault and mint of a creator withdrawal, the argument
    /// account of a fixed-price sale.
    fn rem_swap(&mut self, v: &mut Call, cleanup: &mut Vec<Pubkey>) -> Option<(&'static str, String)> {
        if v.kind == "creator_withdraw" {
            let (vault, mint) = (v.rem[0].pubkey, v.rem[1].pubkey);
            let is_base = self.gp.values().any(|p| p.base_vault == vault);
            if self.rng.chance(1, 4) {
                let cand: Vec<Pubkey> = self.w.mints.iter().map(|x| x.key).filter(|k| *k != mint).collect();
                if cand.is_empty() {
                    return None;
                }
                v.rem[1].pubkey = *self.rng.pick(&cand);
                return Some((if is_base { "base_mint" } else { "quote_mint" }, "remaining mint := other mint".into()));
            }
            let mut cand: Vec<Pubkey> = self.gp.values().flat_map(|p| [p.base_vault, p.quote_vault]).filter(|k| *k != vault).collect();
            let wallets: Vec<Pubkey> = self.gt.keys().filter(|k| **k != vault && self.w.bank.data(k).map(|d| d.len() >= 32 && d[..32] == mint.to_bytes()).unwrap_or(false)).copied().collect();
            if self.rng.chance(1, 4) {
                cand.extend(wallets);
            }
            cand.sort();
            cand.dedup();
            if cand.is_empty() {
                return None;
            }
            let k = *self.rng.pick(&cand);
            v.rem[0].pubkey = k;
            // present the matching mint half of the time
            if self.rng.chance(1, 2) {
                if let Some(d) = self.w.bank.data(&k) {
                    v.rem[1].pubkey = Pubkey::new_from_array(d[..32].try_into().unwrap());
                }
            }
            let r = self.role(&k);
            return Some((if is_base { "base_vault" } else { "quote_vault" }, format!("remaining vault := {r}")));
        }
        if v.kind == "initialize_presale" && v.rem.first().map(|m| self.gs.contains_key(&m.pubkey)).unwrap_or(false) {
            let real = v.rem[0].pubkey;
            let cand: Vec<Pubkey> = self.gs.keys().chain(self.gp.keys()).filter(|k| **k != real).copied().collect();
            let what;
            if cand.is_empty() || self.rng.chance(1, 3) {
                let a = self.w.bank.get(&real)?.clone();
                let nk = self.rng.key();
                let owner = *self.rng.pick(&[SYSTEM, TOKEN, HOOK]);
                self.w.bank.set(nk, solana_account::Account { lamports: a.lamports(), data: a.data().to_vec(), owner, executable: false, rent_epoch: u64::MAX });
                cleanup.push(nk);
                v.rem[0].pubkey = nk;
                what = "forged price arguments";
            } else {
                v.rem[0].pubkey = *self.rng.pick(&cand);
                what = "foreign account as price arguments";
            }
            return Some(("args", what.into()));
        }
        None
    }

    /// Malformed input: only the absence of an abort is judged.
    fn fuzz_variant(&mut self, c: &Call, desc: &str) {
        let mut ix = c.build();
        match self.rng.below(5) {
            0 => {
                let n = self.rng.idx(ix.data.len() + 1);
                ix.data.truncate(n);
            }
            1 => {
                let i = self.rng.idx(ix.data.len());
                ix.data[i] ^= 1 << self.rng.below(8);
            }
            2 => {
                let n = ix.accounts.len();
                let (a, b) = (self.rng.idx(n), self.rng.idx(n));
                ix.accounts.swap(a, b);
            }
            3 => {
                let n = ix.accounts.len();
                let (a, b) = (self.rng.idx(n), self.rng.idx(n));
                ix.accounts[a] = ix.accounts[b].clone();
            }
            _ => {
                let n = self.rng.idx(ix.accounts.len());
                ix.accounts.truncate(n);
            }
        }
        let out = self.w.bank.simulate(&ix);
        let sig = hash64(&[strhash(c.kind), 77, out.ok as u64, out.err.as_ref().map(|e| strhash(&format!("{e:?}"))).unwrap_or(0)]);
        self.observe(&["C22"], sig, &format!("malformed {} => {:?}", c.kind, out.err));
        if let Some(p) = out.panic {
            self.log.push(format!("FUZZ {} {} -> {p}", c.kind, desc));
            self.div(&["C22"], "panic", format!("malformed {} {}: aborted {}", c.kind, desc, p.replace('\n', " ")));
        }
    }
}

pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[allow(unused)]
pub fn now_progress(p: &PresaleS, now: u64) -> u8 {
    model::progress(p, now)
}
