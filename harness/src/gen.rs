//! Workload generation: random and directed scenarios. Everything is a function of the seed.

use crate::abi::*;
use crate::bank::Env;
use crate::merkle::Tree;
use crate::model::*;
use crate::ops::Rem;
use crate::rng::Rng;
use crate::sim::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

/// Usual wall clock of a scenario; some are set where time stamps outgrow 31 or 32 bits, or long ago.
pub const T0: u64 = 1_700_000_000;

/// Biases of a scenario family.
#[derive(Clone, Debug)]
pub struct Focus {
    pub modes: Vec<u8>,
    pub whitelists: Vec<u8>,
    /// percent
    pub t22: u64,
    pub hostile: (u64, u64),
    pub fuzz: (u64, u64),
    pub second_presale: u64,
    pub bad_config: u64,
    pub config_storm: u64,
    pub fill: u64,
    pub ancillary: u64,
    pub vesting: u64,
    pub steps: u64,
    pub fee: u64,
    pub multi_reg: u64,
    pub huge: u64,
    pub fail: u64,
    /// how often settlements of one sale under different schedules are compared
    pub forks: u64,
    /// percent of scenarios that begin with everyday sales
    pub ordinary: u64,
}
impl Default for Focus {
    fn default() -> Self {
        Focus {
            modes: vec![0, 1, 2],
            whitelists: vec![0, 0, 1, 2],
            t22: 30,
            hostile: (1, 12),
            fuzz: (1, 60),
            second_presale: 25,
            bad_config: 8,
            config_storm: 0,
            fill: 35,
            ancillary: 6,
            vesting: 65,
            steps: 45,
            fee: 60,
            multi_reg: 60,
            huge: 12,
            fail: 20,
            forks: 0,
            ordinary: 0,
        }
    }
}

pub fn focus_for(prop: &str) -> Focus {
    let d = Focus::default();
    match prop {
        "C01" => Focus { fee: 80, modes: vec![0, 1, 1, 2], second_presale: 40, ..d },
        "C02" => Focus { vesting: 80, second_presale: 40, ..d },
        "C03" => Focus { second_presale: 60, multi_reg: 80, whitelists: vec![0, 1, 2, 2], ..d },
        "C05" => Focus { steps: 55, fill: 50, ..d },
        "C06" => Focus { fee: 100, huge: 20, ..d },
        "C07" => Focus { modes: vec![0], steps: 50, fill: 50, ..d },
        "C08" => Focus { modes: vec![1, 2], multi_reg: 80, whitelists: vec![0, 1, 2, 2], ..d },
        "C09" => Focus { vesting: 100, fill: 60, fail: 5, ..d },
        "C10" => Focus { modes: vec![0, 2, 2], fill: 90, vesting: 85, fail: 0, ..d },
        "C11" => Focus { modes: vec![1, 1, 1, 0, 2], fee: 80, fail: 40, multi_reg: 80, whitelists: vec![0, 1, 2, 2], ..d },
        "C12" => Focus { modes: vec![0, 1, 1, 2], fee: 85, multi_reg: 80, whitelists: vec![0, 1, 2, 2], fail: 30, ..d },
        "C13" => Focus { multi_reg: 85, whitelists: vec![0, 1, 2, 2], modes: vec![0, 0, 1, 2], fill: 25, fail: 3, ..d },
        "C14" => Focus { hostile: (3, 4), second_presale: 80, ancillary: 12, steps: 35, whitelists: vec![0, 1, 2], ..d },
        "C15" => Focus { whitelists: vec![0, 1, 1, 1, 2, 2, 2], multi_reg: 80, ancillary: 15, hostile: (1, 3), second_presale: 60, ..d },
        "C17" => Focus { bad_config: 60, config_storm: 25, steps: 6, second_presale: 50, ..d },
        "C18" => Focus { steps: 50, ..d },
        "C19" => Focus { t22: 100, ..d },
        "C21" => Focus { ancillary: 55, steps: 40, second_presale: 80, whitelists: vec![0, 1, 1, 2, 2], hostile: (1, 2), ..d },
        "C22" => Focus { huge: 60, fuzz: (1, 3), ..d },
        "C23" => Focus { modes: vec![0, 1, 1, 0, 2], fill: 20, steps: 55, ..d },
        "C25" => Focus { fee: 60, vesting: 60, modes: vec![0, 1, 1, 2], fail: 0, steps: 50, fill: 30, ..d },
        "C24" => Focus { fee: 75, multi_reg: 70, whitelists: vec![0, 1, 2, 2], modes: vec![0, 1, 1, 2], fail: 30, steps: 35, ..d },
        "C26" => Focus { forks: 100, fee: 70, vesting: 75, multi_reg: 70, whitelists: vec![0, 1, 2, 2], modes: vec![0, 1, 1, 2], fail: 20, steps: 30, hostile: (1, 60), fuzz: (0, 1), ..d },
        "C27" => Focus { ordinary: 40, ancillary: 25, steps: 35, second_presale: 60, whitelists: vec![0, 1, 2], vesting: 85, fee: 80, multi_reg: 80, hostile: (1, 6), ..d },
        _ => d,
    }
}

pub fn gen_mint(rng: &mut Rng, f: &Focus, quote: bool) -> MintInfo {
    let mut m = MintInfo {
        key: rng.key(),
        prog: TOKEN,
        decimals: if rng.chance(1, 3) { rng.below(20) as u8 } else { *rng.pick(&[0u8, 6, 9, 9]) },
        fee: None,
        hook: false,
        hook_empty: false,
        pointer: false,
        metadata: false,
        bad_ext: None,
        native: false,
    };
    if rng.below(100) < f.t22 {
        m.prog = TOKEN22;
        if rng.chance(1, 2) {
            let one = |rng: &mut Rng| {
                let bps = if rng.chance(1, 3) { rng.below(10_001) as u16 } else { *rng.pick(&[0u16, 1, 7, 100, 333, 2500, 9999, 10_000]) };
                let max = match rng.below(4) {
                    0 => u64::MAX,
                    1 => rng.below(3),
                    2 => rng.log(1_000_000),
                    _ => rng.log(u64::MAX),
                };
                (max, bps)
            };
            let (a, b) = (one(rng), one(rng));
            let e = *rng.pick(&[0u64, 600, 601, 602]);
            m.fee = Some(TFee { old: (0, a.0, a.1), new: (e, b.0, b.1) });
        }
        match rng.below(6) {
            0 | 1 => m.hook = true,
            2 => m.hook_empty = true,
            _ => {}
        }
        m.pointer = rng.chance(1, 4);
        m.metadata = rng.chance(1, 6);
        if rng.chance(1, 25) {
            // MintCloseAuthority, PermanentDelegate, NonTransferable, InterestBearing, Pausable-like
            if quote && rng.chance(1, 4) {
                // the native mint of Token-2022 is not supported
                m = MintInfo { key: NATIVE_MINT_22, prog: TOKEN22, decimals: 9, fee: None, hook: false, hook_empty: false, pointer: false, metadata: false, bad_ext: None, native: false };
                return m;
            }
            m.bad_ext = Some(*rng.pick(&[(3u16, 32u16), (12, 32), (9, 0), (10, 52), (4, 65), (6, 1), (16, 129), (20, 64), (21, 80), (22, 64), (23, 72), (25, 56), (26, 33)]));
        }
    } else if quote && rng.chance(1, 8) {
        m.key = NATIVE_MINT;
        m.decimals = 9;
        m.native = true;
    }
    m
}

/// A configuration that satisfies every rule (by construction, for most draws).
pub fn gen_config(rng: &mut Rng, f: &Focus, now: u64) -> (InitArgs, u128, u8) {
    let mode = *rng.pick(&f.modes);
    let whitelist = *rng.pick(&f.whitelists);
    let perm = whitelist != OPEN;
    let nreg = if perm && rng.below(100) < f.multi_reg { rng.range(2, 5) as usize } else { 1 };
    // time
    let start = match rng.below(6) {
        0 => 0,
        1 => now - rng.log(1000).min(now),
        2 => now,
        3 => now + 1,
        4 => now + rng.log(30 * DAY),
        _ => now + 30 * DAY,
    };
    let s = start.max(now);
    let dur = match rng.below(5) {
        0 => 60,
        1 => 61,
        2 => 30 * DAY,
        _ => 60 + rng.log(30 * DAY - 60),
    };
    let end = s + dur;
    // vesting
    let (mut bps, mut lock, mut vest, mut imm) = (0u16, 0u64, 0u64, 0u64);
    if rng.below(100) < f.vesting {
        match rng.below(8) {
            0 => {
                bps = 10_000;
                imm = *rng.pick(&[0, end]);
            }
            1 => {
                vest = *rng.pick(&[1u64, 2, 3, 10]);
                bps = *rng.pick(&[0u16, 1, 5000, 9999]);
            }
            _ => {
                bps = match rng.below(4) {
                    0 => 0,
                    1 => *rng.pick(&[1u16, 9999, 5000]),
                    _ => rng.range(1, 9999) as u16,
                };
                lock = match rng.below(4) {
                    0 => 0,
                    1 => rng.range(1, 5),
                    _ => rng.log(1000 * DAY),
                };
                vest = match rng.below(4) {
                    0 => 0,
                    1 => rng.range(1, 100),
                    _ => rng.log(1000 * DAY),
                };
                if lock + vest == 0 {
                    lock = 1 + rng.below(50);
                }
                if rng.chance(1, 20) {
                    vest = 3650 * DAY - 1 - lock;
                }
            }
        }
        if bps != 10_000 {
            imm = if bps == 0 {
                *rng.pick(&[0, end])
            } else {
                match rng.below(6) {
                    0 => 0,
                    1 => end,
                    2 => end + lock,
                    3 => end + lock + vest,
                    _ => end + rng.below(lock + vest + 1),
                }
            };
        }
    }
    let disable_early = rng.chance(1, 4) as u8;
    let unsold = rng.below(2) as u8;
    let huge = rng.below(100) < f.huge;
    let pick_cap = |rng: &mut Rng| match rng.below(6) {
        0 => rng.range(1, 12),
        1 => rng.range(10, 1000),
        2 | 3 => rng.log(1 << 40),
        4 => rng.log(1 << 55),
        _ => {
            if huge {
                let b = rng.range(0, 60);
                u64::MAX - rng.below(1 << b)
            } else {
                rng.log(1 << 50)
            }
        }
    };
    let mut q: u128 = 1 << 64;
    let mut dw = 0;
    let (mut max_cap, mut min_cap, regs): (u64, u64, Vec<RegArgs>);
    let fees: Vec<u16> = (0..nreg)
        .map(|_| {
            if rng.below(100) < f.fee {
                match rng.below(5) {
                    0 => 5000,
                    1 => 1,
                    2 => *rng.pick(&[3u16, 33, 100, 250, 4999]),
                    _ => rng.range(0, 5000) as u16,
                }
            } else {
                0
            }
        })
        .collect();
    if mode == FIXED {
        dw = rng.chance(1, 4) as u8;
        loop {
            q = match rng.below(8) {
                0 => 1u128 << 64,
                1 => (rng.range(1, 1000) as u128) << 64,
                2 => (1u128 << 64) / rng.range(1, 1000) as u128,
                3 => ((rng.range(1, 10_000) as u128) << 64) / rng.range(1, 10_000) as u128,
                4 => (rng.next() as u128) << rng.range(1, 30),
                5 => rng.next() as u128,
                6 => ((rng.next() as u128) << 64 | rng.next() as u128) >> rng.range(20, 64),
                _ => (((rng.log(1 << 20)) as u128) << 64) + rng.next() as u128,
            };
            if q == 0 {
                continue;
            }
            let min_q: u128 = (q - 1 >> 64) + 1; // ceil(q / 2^64)
            if min_q > (1u128 << 62) {
                continue;
            }
            let min_q = min_q as u64;
            max_cap = match rng.below(5) {
                0 => min_q.saturating_mul(rng.range(2, 20)),
                1 => min_q.saturating_add(rng.range(1, 50)),
                _ => pick_cap(rng).max(min_q + 1),
            };
            let t = tokens_for(q, max_cap);
            let Ok(t) = u64::try_from(t) else { continue };
            if t < 2 || t > (if huge { u64::MAX } else { 1 << 62 }) {
                continue;
            }
            min_cap = match rng.below(4) {
                0 => 1,
                1 => max_cap / 2 + 1,
                2 => max_cap - min_q.min(max_cap - 1),
                _ => rng.range(1, max_cap),
            };
            if rng.below(100) < f.fail {
                min_cap = max_cap - min_q.min(max_cap - 1);
            }
            if tokens_for(q, min_cap) >= tokens_for(q, max_cap) {
                continue;
            }
            // supply
            let extra = match rng.below(6) {
                0 | 1 => 0,
                2 => rng.below(t / 2 + 1),
                3 => t,
                4 => rng.log(u64::MAX / 2),
                _ => rng.below(5),
            };
            let total = (t as u128 + extra as u128).min(if huge { u64::MAX as u128 } else { 1 << 63 }) as u64;
            if total < t || (total as usize) < nreg {
                continue;
            }
            regs = split_supply(rng, total, nreg)
                .into_iter()
                .zip(&fees)
                .map(|(supply, fee_bps)| {
                    let (min, max) = if perm {
                        (min_q, max_cap)
                    } else {
                        let mx = match rng.below(3) {
                            0 => max_cap,
                            _ => rng.range(min_q.min(max_cap), max_cap),
                        };
                        let mn = match rng.below(3) {
                            0 => min_q,
                            1 => min_q.max(mx / 10),
                            _ => rng.range(min_q.min(mx), mx),
                        };
                        (mn.min(mx), mx)
                    };
                    RegArgs { min, max, supply, fee_bps: *fee_bps }
                })
                .collect();
            break;
        }
    } else {
        max_cap = pick_cap(rng);
        min_cap = match rng.below(4) {
            0 => 1,
            1 => max_cap,
            2 => max_cap / 2 + 1,
            _ => rng.range(1, max_cap),
        };
        if rng.below(100) < f.fail {
            min_cap = max_cap;
        }
        let total = match rng.below(5) {
            0 => rng.range(nreg as u64, 20),
            1 => rng.range(5, 1000),
            2 => {
                if huge {
                    u64::MAX - rng.below(3)
                } else {
                    1 << 60
                }
            }
            _ => rng.log(1 << 60).max(5),
        };
        regs = split_supply(rng, total, nreg)
            .into_iter()
            .zip(&fees)
            .map(|(supply, fee_bps)| {
                let (min, max) = if perm {
                    (1, max_cap)
                } else {
                    let mx = match rng.below(3) {
                        0 => max_cap,
                        1 => max_cap / 2 + 1,
                        _ => rng.range(1, max_cap),
                    };
                    let mn = match rng.below(4) {
                        0 => 0,
                        1 => 1,
                        2 => mx / 4,
                        _ => rng.below(mx) / 3,
                    };
                    (mn, mx)
                };
                RegArgs { min, max, supply, fee_bps: *fee_bps }
            })
            .collect();
    }
    (
        InitArgs {
            max_cap,
            min_cap,
            start,
            end,
            whitelist,
            mode,
            unsold,
            disable_early,
            lock_bps: bps,
            lock,
            vest,
            imm_ts: imm,
            regs,
        },
        q,
        dw,
    )
}

fn split_supply(rng: &mut Rng, total: u64, n: usize) -> Vec<u64> {
    let mut out = vec![1u64; n];
    let mut left = total - n as u64;
    for i in 0..n {
        let x = if i + 1 == n { left } else { rng.below(left / (n - i) as u64 * 2 + 1).min(left) };
        out[i] += x;
        left -= x;
    }
    rng.shuffle(&mut out);
    out
}

/// Break (or push to the edge) exactly one rule of a configuration.
pub fn perturb(rng: &mut Rng, a: &mut InitArgs, q: &mut u128, now: u64) {
    if a.regs.is_empty() {
        return;
    }
    let s = a.start.max(now);
    let ri = rng.idx(a.regs.len());
    match rng.below(40) {
        0 => a.min_cap = 0,
        1 => a.min_cap = a.max_cap.saturating_add(rng.below(2)),
        2 => a.max_cap = a.min_cap.saturating_sub(rng.below(2)),
        3 => a.end = s.saturating_add(*rng.pick(&[0u64, 1, 59, 60, 61])),
        4 => a.end = s.saturating_add(30 * DAY + rng.below(2)),
        5 => {
            let d = a.end.saturating_sub(s);
            a.start = now + 30 * DAY + rng.below(2);
            a.end = a.start.saturating_add(d);
        }
        6 => a.end = now - rng.below(2),
        7 => a.whitelist = *rng.pick(&[3u8, 4, 255]),
        8 => a.mode = *rng.pick(&[3u8, 4, 255]),
        9 => a.unsold = *rng.pick(&[2u8, 3, 255]),
        10 => a.disable_early = *rng.pick(&[2u8, 255]),
        11 => a.regs.clear(),
        12 => {
            let r = a.regs[ri].clone();
            while a.regs.len() < 6 {
                a.regs.push(r.clone());
            }
        }
        13 => a.regs[ri].max = 0,
        14 => a.regs[ri].max = a.max_cap.saturating_add(1),
        15 => a.regs[ri].min = a.regs[ri].max.saturating_add(1),
        16 => a.regs[ri].supply = 0,
        17 => a.regs[ri].fee_bps = *rng.pick(&[4999u16, 5000, 5001, 9999, 10_000, 10_001, u16::MAX]),
        18 => {
            a.regs[ri].supply = u64::MAX;
            let r = a.regs[ri].clone();
            a.regs.push(RegArgs { supply: 1, ..r });
        }
        19 => {
            let r = a.regs[ri].clone();
            a.regs.push(r);
            a.whitelist = *rng.pick(&[0u8, 0, 1, 2]);
        }
        20 => a.lock_bps = *rng.pick(&[10_000u16, 10_001, u16::MAX]),
        21 => {
            a.lock = 3650 * DAY - rng.below(2);
            a.vest = rng.below(2);
            a.imm_ts = 0;
        }
        22 => {
            a.lock = u64::MAX;
            a.vest = rng.below(3);
        }
        23 => {
            a.lock = 0;
            a.vest = 0;
            a.lock_bps = *rng.pick(&[1u16, 9999, 10_000]);
        }
        24 => a.imm_ts = *rng.pick(&[a.end.saturating_sub(1), a.end.saturating_sub(1), 1, a.start]),
        25 => a.imm_ts = a.end.saturating_add(a.lock.wrapping_add(a.vest).min(1 << 40)).saturating_add(rng.below(2)),
        26 => {
            a.lock_bps = 0;
            a.imm_ts = a.end.saturating_add(rng.below(2));
        }
        27 => {
            a.lock_bps = 10_000;
            a.lock = rng.below(2);
            a.vest = rng.below(2);
            a.imm_ts = *rng.pick(&[0, 1, a.end.saturating_sub(1), a.end, a.end.saturating_add(1)]);
        }
        28 => a.regs[ri].min = a.regs[ri].min.saturating_add(1),
        29 => a.regs[ri].min = a.regs[ri].min.saturating_sub(1),
        30 => a.regs[ri].max = a.regs[ri].max.saturating_sub(1),
        31 => {
            // supply one short of / exactly what the cap can buy
            if a.mode == FIXED && !a.regs.is_empty() {
                let t = u64::try_from(tokens_for(*q, a.max_cap)).unwrap_or(u64::MAX);
                a.regs.truncate(1);
                a.regs[0].supply = t.saturating_sub(rng.below(2));
            }
        }
        32 => a.min_cap = a.max_cap,
        33 => a.min_cap = a.max_cap.saturating_sub(1).max(1),
        34 => *q = q.saturating_mul(2),
        35 => *q = (*q / 2).max(1),
        36 => {
            a.whitelist = *rng.pick(&[1u8, 2]);
        }
        37 => a.regs[ri].max = a.regs[ri].min,
        38 => {
            a.start = u64::MAX - rng.below(2);
            a.end = u64::MAX;
        }
        _ => *q = *rng.pick(&[1u128, u128::MAX, (u64::MAX as u128) << 64, 1 << 64]),
    }
}

pub struct Scn<'a> {
    pub sim: Sim,
    pub f: &'a Focus,
    /// presales whose settlement under different schedules has been compared
    pub forked: std::collections::BTreeSet<Pubkey>,
}

fn amount_near(rng: &mut Rng, xs: &[u64]) -> u64 {
    let x = *rng.pick(xs);
    match rng.below(13) {
        12 => 1u64 << rng.below(64 - x.max(1).leading_zeros() as u64),
        n => match n % 6 {
        0 => x.saturating_add(1),
        1 => x.saturating_sub(1),
        2 => rng.range(1, x.max(1)),
        3 => rng.log(x.max(1)),
        _ => x,
        },
    }
}

impl<'a> Scn<'a> {
    pub fn new(env: &Env, seed: u64, f: &'a Focus) -> Scn<'a> {
        let mut rng = Rng::new(seed);
        let n = rng.range(3, 6) as usize;
        let w = World::new(env, &mut rng, n);
        let mut sim = Sim::new(w, rng);
        sim.hostile = f.hostile;
        sim.fuzz = f.fuzz;
        let t0 = match sim.rng.below(12) {
            0 => (1 << 31) - 1 - sim.rng.log(400 * DAY),
            1 => (1 << 32) - 1 - sim.rng.log(400 * DAY),
            2 => 2000 + sim.rng.log(1 << 40),
            _ => T0,
        };
        sim.w.bank.set_clock(t0 as i64, 600);
        Scn { sim, f, forked: Default::default() }
    }

    fn all_wallets(&self) -> Vec<Pubkey> {
        let w = &self.sim.w;
        let mut v = w.users.clone();
        v.extend(w.creators.iter());
        v.extend(w.ops.iter());
        v.push(w.payer);
        v.push(w.stranger);
        v
    }

    /// Wallets get token accounts of both mints; quote balances are large.
    pub fn fund_mint(&mut self, m: usize, quote: bool, base: bool) {
        let who = self.all_wallets();
        let native = self.sim.w.mints[m].native;
        for k in who {
            let payer = k == self.sim.w.payer;
            let amt = if native {
                1 << 60
            } else if payer && base {
                u64::MAX
            } else if quote {
                match self.sim.rng.below(8) {
                    0 => self.sim.rng.log(u64::MAX / 4),
                    1 => self.sim.rng.log(1 << 40),
                    _ => u64::MAX / 4,
                }
            } else {
                self.sim.rng.below(3)
            };
            let memo = self.sim.rng.chance(1, 4);
            let a = self.sim.w.ata(&k, m);
            if self.sim.w.bank.get(&a).is_none() {
                self.sim.w.give(&k, m, amt, memo);
                self.sim.gt.insert(a, amt);
            }
        }
    }

    /// Set up one presale from a configuration; returns its index when accepted.
    pub fn launch(&mut self, a: &InitArgs, q: u128, dw: u8, bm: usize, qm: usize, creator: Pubkey) -> Option<usize> {
        let s = &mut self.sim;
        s.last_config = Some((a.clone(), q, dw));
        let base = s.rng.key();
        let key = presale_pda(&base, &s.w.mints[bm].key, &s.w.mints[qm].key);
        let payer = s.w.payer;
        let mut give = Some(fixed_args_pda(&key));
        if a.mode == FIXED {
            if s.rng.chance(39, 40) {
                let owner = *s.rng.pick(&[creator, payer]);
                s.init_fixed_args(key, owner, payer, q, dw);
            }
            match s.rng.below(40) {
                0 => give = None,
                1 | 2 => {
                    // arguments prepared for another presale
                    let k = s.rng.key();
                    if s.init_fixed_args(k, creator, payer, q, dw) {
                        give = Some(fixed_args_pda(&k));
                    }
                }
                _ => {}
            }
        }
        if s.rng.chance(1, 30) {
            let v = *s.rng.pick(&[base_vault(&key), quote_vault(&key), key]);
            s.prefund(v);
        }
        let how = s.pick_rem();
        s.init_presale(a, base, bm, qm, creator, payer, give, how)
    }

    pub fn setup(&mut self) {
        let bm;
        let qm;
        {
            let m = gen_mint(&mut self.sim.rng, self.f, false);
            bm = self.sim.w.add_mint(m);
            if self.sim.rng.chance(1, 20) && !self.sim.w.mints[bm].native {
                qm = bm;
            } else {
                let m = gen_mint(&mut self.sim.rng, self.f, true);
                qm = self.sim.w.add_mint(m);
            }
        }
        // base first: the payer owns the full base balance
        self.fund_mint(bm, qm == bm, true);
        if qm != bm {
            self.fund_mint(qm, true, false);
        }
        let c0 = self.sim.w.creators[0];
        let now = self.sim.w.now();
        let mut tries = 0;
        loop {
            let (mut a, mut q, dw) = gen_config(&mut self.sim.rng, self.f, now);
            if self.sim.rng.below(100) < self.f.bad_config {
                perturb(&mut self.sim.rng, &mut a, &mut q, now);
            }
            let r = self.launch(&a, q, dw, bm, qm, c0);
            // keep the payer rich
            let pa = self.sim.w.ata(&self.sim.w.payer.clone(), bm);
            if r.is_some() && self.sim.bal(&pa) < u64::MAX / 2 && bm != qm {
                let p = self.sim.w.payer;
                let memo = self.sim.w.memo.contains_key(&pa);
                self.sim.w.give(&p, bm, u64::MAX / 2, memo);
                self.sim.gt.insert(pa, u64::MAX / 2);
            }
            tries += 1;
            if r.is_some() || tries > 6 || self.sim.stop {
                break;
            }
        }
        for _ in 0..self.f.config_storm {
            let (mut a, mut q, dw) = gen_config(&mut self.sim.rng, self.f, now);
            perturb(&mut self.sim.rng, &mut a, &mut q, now);
            if self.sim.rng.chance(1, 6) {
                perturb(&mut self.sim.rng, &mut a, &mut q, now);
                if a.regs.is_empty() {
                    continue;
                }
            }
            self.launch(&a, q, dw, bm, qm, c0);
            let pa = self.sim.w.ata(&self.sim.w.payer.clone(), bm);
            if bm != qm && self.sim.bal(&pa) < u64::MAX / 2 {
                let p = self.sim.w.payer;
                let memo = self.sim.w.memo.contains_key(&pa);
                self.sim.w.give(&p, bm, u64::MAX, memo);
                self.sim.gt.insert(pa, u64::MAX);
            }
            if self.sim.stop {
                return;
            }
        }
        if self.sim.rng.below(100) < self.f.second_presale {
            let (a, q, dw) = if self.sim.rng.chance(1, 2) {
                // a sister sale: same rules as the first one
                match self.sim.last_config.clone() {
                    Some(x) => x,
                    None => gen_config(&mut self.sim.rng, self.f, now),
                }
            } else {
                gen_config(&mut self.sim.rng, self.f, now)
            };
            let c = *self.sim.rng.pick(&self.sim.w.creators.clone());
            let (b2, q2) = if self.sim.rng.chance(1, 3) && qm != bm && !self.sim.w.mints[qm].native { (qm, bm) } else { (bm, qm) };
            self.launch(&a, q, dw, b2, q2, c);
        }
        // operators of the creators (also a foreign one)
        for c in self.sim.w.creators.clone() {
            for o in self.sim.w.ops.clone() {
                if self.sim.rng.chance(1, 2) {
                    self.sim.create_operator(c, o);
                }
            }
        }
    }

    fn tree_for(&mut self, pi: usize) -> Tree {
        let p = self.sim.gp[&self.sim.presales[pi].key].clone();
        let mut es = vec![];
        let users = self.sim.w.users.clone();
        for u in users {
            if self.sim.rng.chance(7, 8) {
                let n = if self.sim.rng.chance(1, 5) { 2 } else { 1 };
                for _ in 0..n {
                    let extra = u64::from(self.sim.rng.chance(1, 12));
                    let idx = self.sim.rng.below(p.reg_count as u64 + extra) as u8;
                    es.push((u, idx, self.gen_cap(&p, idx)));
                }
            }
        }
        let pad = match self.sim.rng.below(4) { 0 => 0, 1 => 1, 2 => self.sim.rng.below(9), _ => self.sim.rng.below(40) };
        for _ in 0..pad {
            let k = self.sim.rng.key();
            es.push((k, 0, self.sim.rng.log(1 << 40)));
        }
        if es.is_empty() {
            let k = self.sim.rng.key();
            es.push((k, 0, 1));
        }
        self.sim.rng.shuffle(&mut es);
        let mut t = Tree::new(es);
        if self.sim.rng.chance(1, 8) {
            // part of a much larger whitelist: continue every path upwards with foreign siblings
            let n = self.sim.rng.range(1, 24);
            let up = (0..n).map(|_| self.sim.rng.key().to_bytes()).collect();
            t.lift(up);
        }
        if self.sim.rng.chance(1, 8) {
            let rng = &mut self.sim.rng;
            // a listed entry that is the whole tree, or a root that is all but right
            let leaf = *rng.pick(&t.levels[0]);
            let near = |rng: &mut Rng, mut h: [u8; 32]| {
                let i = *rng.pick(&[0usize, 7, 8, 15, 16, 30, 31]);
                h[i] ^= 1 << rng.below(8);
                h
            };
            t.published = Some(match rng.below(8) {
                0 => [0; 32],
                1 => [255; 32],
                2 => leaf,
                3 => near(rng, leaf),
                4..=6 => {
                    let r = t.root();
                    near(rng, r)
                }
                _ => rng.key().to_bytes(),
            });
        }
        t
    }

    fn gen_cap(&mut self, p: &PresaleS, idx: u8) -> u64 {
        let r = &p.regs[(idx as usize).min(4)];
        let rng = &mut self.sim.rng;
        match rng.below(10) {
            0 => r.min,
            1 => r.min.saturating_sub(1),
            2 => r.max.saturating_add(1),
            3 => rng.range(r.min, r.max.max(r.min)),
            4 => rng.range(r.min, (r.max / 4).max(r.min)),
            5 => r.min.saturating_add(rng.log((r.max - r.min.min(r.max)).max(1))),
            _ => r.max,
        }
    }

    pub fn make_escrow(&mut self, pi: usize) {
        let pw = self.sim.presales[pi].clone();
        let p = self.sim.gp[&pw.key].clone();
        let users = self.sim.w.users.clone();
        let owner = *self.sim.rng.pick(&users);
        let payer = if self.sim.rng.chance(1, 2) { owner } else { self.sim.w.payer };
        let route = if self.sim.rng.chance(1, 25) { self.sim.rng.below(3) as u8 } else { p.whitelist };
        if self.sim.rng.chance(1, 30) {
            let i = self.sim.rng.below(p.reg_count as u64) as u8;
            let k = escrow_pda(&pw.key, &owner, i);
            self.sim.prefund(k);
        }
        match route {
            OPEN => {
                self.sim.escrow_open(pi, owner, payer);
            }
            AUTHORITY => {
                let extra = u64::from(self.sim.rng.chance(1, 15));
                    let idx = self.sim.rng.below(p.reg_count as u64 + extra) as u8;
                let cap = self.gen_cap(&p, idx);
                let ops = self.sim.w.ops.clone();
                let mut op = *self.sim.rng.pick(&ops);
                let mut cr = p.owner;
                if !self.sim.gs.contains_key(&operator_pda(&cr, &op)) && self.sim.rng.chance(3, 4) {
                    self.sim.create_operator(cr, op);
                }
                let mut acc = operator_pda(&cr, &op);
                if self.sim.rng.chance(1, 12) {
                    cr = self.sim.w.creators[1 - self.sim.w.creators.iter().position(|c| *c == cr).unwrap_or(0)];
                    acc = operator_pda(&cr, &op);
                }
                match self.sim.rng.below(30) {
                    0 | 1 => op = *self.sim.rng.pick(&[self.sim.w.stranger, p.owner, ops[0], ops[1]]),
                    2 | 3 => {
                        // an operator appointed by somebody other than the presale's creator: by themselves,
                        // by the buyer, by a stranger
                        let by = *self.sim.rng.pick(&[op, owner, self.sim.w.stranger, p.base, payer]);
                        self.sim.w.bank.fund(by, 1_000_000_000_000);
                        if self.sim.rng.chance(1, 3) {
                            op = by;
                        }
                        acc = operator_pda(&by, &op);
                        if !self.sim.gs.contains_key(&acc) {
                            self.sim.create_operator(by, op);
                        }
                    }
                    4 => {
                        // the creator as their own operator is fine
                        op = p.owner;
                        acc = operator_pda(&op, &op);
                        if !self.sim.gs.contains_key(&acc) {
                            self.sim.create_operator(op, op);
                        }
                    }
                    _ => {}
                }
                self.sim.escrow_operator(pi, owner, idx, cap, acc, op, payer);
            }
            _ => {
                if (pw.trees.is_empty() || self.sim.rng.chance(1, 12)) && p.whitelist == MERKLE {
                    let t = self.tree_for(pi);
                    let v = match self.sim.rng.below(3) { 0 => 0, 1 => self.sim.rng.below(5), _ => self.sim.rng.next() };
                    self.sim.create_merkle(pi, v, t, p.owner);
                }
                let trees = self.sim.presales[pi].trees.clone();
                if trees.is_empty() {
                    let cfg = merkle_pda(&pw.key, 0);
                    self.sim.escrow_proof(pi, owner, 0, p.regs[0].max, cfg, vec![], payer);
                    return;
                }
                let (v, t) = trees[self.sim.rng.idx(trees.len())].clone();
                let mut cfg = merkle_pda(&pw.key, v);
                let mine: Vec<usize> = (0..t.entries.len()).filter(|i| t.entries[*i].0 == owner).collect();
                let i = if mine.is_empty() { self.sim.rng.idx(t.entries.len()) } else { *self.sim.rng.pick(&mine) };
                let (mut o, mut idx, mut cap) = t.entries[i];
                let mut proof = t.proof(i);
                if t.published.is_some() && self.sim.rng.chance(1, 4) {
                    proof.clear();
                }
                match self.sim.rng.below(18) {
                    0 => cap = cap.wrapping_add(1),
                    1 => idx = (idx + 1) % p.reg_count.max(1),
                    2 => o = *self.sim.rng.pick(&users),
                    3 => {
                        proof.pop();
                    }
                    4 => {
                        let extra = t.root();
                        proof.push(extra);
                    }
                    5 => {
                        if !proof.is_empty() {
                            let n = self.sim.rng.idx(proof.len());
                            proof[n][self.sim.rng.idx(32)] ^= 1 << self.sim.rng.below(8);
                        }
                    }
                    9 => {
                        // invented out of thin air
                        let n = *self.sim.rng.pick(&[0u64, 0, 1, 2, 5, 20, 31, 32, 33, 34, 40, 48, 64, 65]);
                        let same = self.sim.rng.chance(1, 4);
                        let x = self.sim.rng.pick(&[[0u8; 32], [255; 32], t.root()]).to_owned();
                        proof = (0..n).map(|_| if same { x } else { self.sim.rng.key().to_bytes() }).collect();
                    }
                    10 => {
                        // right, but continued
                        let n = self.sim.rng.range(1, 40);
                        proof.extend((0..n).map(|_| self.sim.rng.key().to_bytes()));
                    }
                    6 | 8 => {
                        // root of another presale, with a proof that is right for it
                        if let Some(other) = self.sim.presales.iter().find(|x| x.key != pw.key && !x.trees.is_empty()).cloned() {
                            let (v2, t2) = &other.trees[self.sim.rng.idx(other.trees.len())];
                            cfg = merkle_pda(&other.key, *v2);
                            if self.sim.rng.chance(4, 5) {
                                let fit: Vec<usize> = (0..t2.entries.len())
                                    .filter(|i| {
                                        let e = &t2.entries[*i];
                                        e.1 < p.reg_count && e.2 >= p.regs[e.1 as usize].min && e.2 <= p.regs[e.1 as usize].max
                                    })
                                    .collect();
                                let j = if fit.is_empty() { self.sim.rng.idx(t2.entries.len()) } else { *self.sim.rng.pick(&fit) };
                                (o, idx, cap) = t2.entries[j];
                                proof = t2.proof(j);
                            }
                        }
                    }
                    7 => {
                        if trees.len() > 1 {
                            let (v2, _) = trees[self.sim.rng.idx(trees.len())];
                            cfg = merkle_pda(&pw.key, v2);
                        }
                    }
                    _ => {}
                }
                self.sim.escrow_proof(pi, o, idx, cap, cfg, proof, payer);
            }
        }
    }

    pub fn escrows_of(&self, pi: usize) -> Vec<(Pubkey, EscrowS)> {
        let k = self.sim.presales[pi].key;
        self.sim.ge.iter().filter(|(_, e)| e.presale == k).map(|(k, e)| (*k, e.clone())).collect()
    }

    pub fn do_deposit(&mut self, pi: usize, fill: bool) {
        let es = self.escrows_of(pi);
        if es.is_empty() {
            return;
        }
        let (ek, e) = self.sim.rng.pick(&es).clone();
        let p = self.sim.gp[&self.sim.presales[pi].key].clone();
        let r = &p.regs[e.idx as usize];
        let room = deposit_room(&p, &e);
        let payer = if self.sim.rng.chance(1, 10) { *self.sim.rng.pick(&self.all_wallets()) } else { e.owner };
        let max = if fill && self.sim.rng.chance(4, 5) {
            u64::MAX
        } else {
            let mut xs = vec![room, r.min, r.max, e.cap, p.max_cap.saturating_sub(p.dep), p.min_cap.saturating_sub(p.dep).max(1), room / 2, room / 7 + 1];
            if p.mode == FIXED {
                let unit = (p.q_price.div_ceil(1 << 64)) as u64;
                xs.push(unit);
                let t = self.sim.rng.log(u64::try_from(tokens_for(p.q_price, room)).unwrap_or(1).max(1));
                xs.push(u64::try_from(quote_for(p.q_price, ruint::aliases::U256::from(t))).unwrap_or(unit));
            }
            match self.sim.rng.below(30) {
                0 => 0,
                1 => u64::MAX,
                2 => 1,
                _ => amount_near(&mut self.sim.rng, &xs),
            }
        };
        let how = self.sim.pick_rem();
        self.sim.deposit(pi, ek, payer, max, how);
    }

    pub fn do_withdraw(&mut self, pi: usize) {
        let es = self.escrows_of(pi);
        if es.is_empty() {
            return;
        }
        let (ek, e) = self.sim.rng.pick(&es).clone();
        let p = self.sim.gp[&self.sim.presales[pi].key].clone();
        let r = &p.regs[e.idx as usize];
        let mut xs = vec![e.dep, e.dep, e.dep / 2, e.dep.saturating_sub(r.min), 1];
        if p.mode == FIXED {
            xs.push((p.q_price.div_ceil(1 << 64)) as u64);
        }
        let amount = if self.sim.rng.chance(1, 20) { *self.sim.rng.pick(&[0, u64::MAX]) } else { amount_near(&mut self.sim.rng, &xs) };
        let owner = if self.sim.rng.chance(1, 25) { *self.sim.rng.pick(&self.all_wallets()) } else { e.owner };
        let how = self.sim.pick_rem();
        self.sim.withdraw(pi, ek, owner, amount, how);
    }

    fn pick_escrow(&mut self, pi: usize) -> Option<(Pubkey, EscrowS, Pubkey)> {
        let es = self.escrows_of(pi);
        if es.is_empty() {
            return None;
        }
        let (ek, e) = self.sim.rng.pick(&es).clone();
        let owner = if self.sim.rng.chance(1, 30) { *self.sim.rng.pick(&self.all_wallets()) } else { e.owner };
        Some((ek, e, owner))
    }

    pub fn act(&mut self, pi: usize, kind: u64) {
        let pk = self.sim.presales[pi].key;
        let p = self.sim.gp[&pk].clone();
        let ph = progress(&p, self.sim.w.now());
        let signer = if self.sim.rng.chance(1, 20) { *self.sim.rng.pick(&self.all_wallets()) } else { p.owner };
        match kind {
            0 => self.make_escrow(pi),
            1 => self.do_deposit(pi, false),
            2 => self.do_withdraw(pi),
            3 => {
                if let Some((ek, _, o)) = self.pick_escrow(pi) {
                    let how = self.sim.pick_rem();
                    self.sim.claim(pi, ek, o, how);
                }
            }
            4 => {
                if let Some((ek, _, _)) = self.pick_escrow(pi) {
                    self.sim.refresh(pi, ek);
                }
            }
            5 => {
                if let Some((ek, _, o)) = self.pick_escrow(pi) {
                    let how = self.sim.pick_rem();
                    self.sim.refund(pi, ek, o, how);
                }
            }
            6 => {
                if let Some((ek, _, o)) = self.pick_escrow(pi) {
                    let recv = if self.sim.rng.chance(1, 2) { o } else { *self.sim.rng.pick(&self.all_wallets()) };
                    self.sim.close_escrow(pi, ek, o, recv);
                }
            }
            7 => {
                let how = self.sim.pick_rem();
                self.sim.unsold_action(pi, how);
            }
            8 => {
                let base = if self.sim.rng.chance(1, 15) { ph != FAILED } else { ph == FAILED };
                let how = self.sim.pick_rem();
                self.sim.creator_withdraw(pi, signer, base, how);
            }
            9 => {
                let how = self.sim.pick_rem();
                self.sim.collect_fee(pi, signer, how);
            }
            10 => {
                // ancillary accounts
                match self.sim.rng.below(9) {
                    0 | 1 => {
                        let v = match self.sim.rng.below(4) {
                            0 => {
                                let b = self.sim.rng.below(64);
                                self.sim.rng.below(3) + (1u64 << b)
                            }
                            _ => self.sim.rng.below(4),
                        };
                        let t = self.tree_for(pi);
                        self.sim.create_merkle(pi, v, t, signer);
                    }
                    2 => {
                        let vs: Vec<u64> = self.sim.presales[pi].trees.iter().map(|t| t.0).collect();
                        let v = if vs.is_empty() { 0 } else { *self.sim.rng.pick(&vs) };
                        let recv = *self.sim.rng.pick(&self.all_wallets());
                        self.sim.close_merkle(pi, v, signer, recv);
                    }
                    3 => {
                        let n = *self.sim.rng.pick(&[0usize, 1, 20, 64, 200, 700]);
                        let wide = self.sim.rng.chance(1, 4);
                        let url: String = (0..n)
                            .map(|i| if wide && i % 3 == 1 { *self.sim.rng.pick(&['é', '日', '🙂', '\0', ' ', '/']) } else { (b'a' + (i % 26) as u8) as char })
                            .collect();
                        self.sim.create_metadata(pi, signer, &url);
                    }
                    4 => {
                        let recv = *self.sim.rng.pick(&self.all_wallets());
                        self.sim.close_metadata(pi, signer, recv);
                    }
                    5 => {
                        let c = *self.sim.rng.pick(&self.sim.w.creators.clone());
                        let o = *self.sim.rng.pick(&self.sim.w.ops.clone());
                        self.sim.create_operator(c, o);
                    }
                    6 => {
                        let c = *self.sim.rng.pick(&self.sim.w.creators.clone());
                        let o = *self.sim.rng.pick(&self.sim.w.ops.clone());
                        let s = if self.sim.rng.chance(1, 5) { self.sim.w.stranger } else { c };
                        self.sim.revoke_operator(c, o, s);
                    }
                    7 => {
                        let fa = fixed_args_pda(&pk);
                        let owner = self.sim.gs.get(&fa).map(|im| Pubkey::new_from_array(im[40..72].try_into().unwrap())).unwrap_or(p.owner);
                        let s = if self.sim.rng.chance(1, 5) { self.sim.w.stranger } else { owner };
                        self.sim.close_fixed_args(pk, s);
                    }
                    _ => {
                        // argument accounts for some other (future) presale
                        let k = self.sim.rng.key();
                        let o = *self.sim.rng.pick(&self.all_wallets());
                        let q = *self.sim.rng.pick(&[0u128, 1, 1 << 64, u128::MAX]);
                        let d = *self.sim.rng.pick(&[0u8, 0, 1, 1, 2, 255]);
                        let payer = self.sim.w.payer;
                        self.sim.init_fixed_args(k, o, payer, q, d);
                        if self.sim.rng.chance(2, 3) {
                            self.sim.close_fixed_args(k, o);
                        }
                    }
                }
            }
            11 => {
                if self.sim.rng.chance(1, 3) {
                    self.gift(pi);
                } else {
                    let w = *self.sim.rng.pick(&self.all_wallets());
                    let n = self.sim.rng.log(1000);
                    let base = self.sim.rng.chance(1, 2);
                    self.sim.donate(pi, w, base, n);
                }
            }
            _ => self.do_deposit(pi, true),
        }
    }

    /// Somebody sends the vaults as much as they ever had to hold, so that a payout that is not due could
    /// be served.
    fn gift(&mut self, pi: usize) {
        let p = self.sim.gp[&self.sim.presales[pi].key].clone();
        let payer = self.sim.w.payer;
        if self.sim.rng.chance(2, 3) {
            self.sim.donate(pi, payer, true, p.supply);
        }
        if self.sim.rng.chance(2, 3) {
            let all = p.dep.saturating_add(p.fee);
            for w in self.all_wallets() {
                if self.sim.donate(pi, w, false, all) {
                    break;
                }
            }
        }
    }

    fn weights(&mut self, ph: u8, p: &PresaleS) -> [u64; 13] {
        let anc = self.f.ancillary;
        let fill = self.f.fill / 8 + 1;
        match ph {
            NOT_STARTED => [3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 8 + anc, 1, 1],
            ONGOING => {
                let w = if p.mode == FCFS { 2 } else { 10 };
                [14, 26, w, 1, 2, 1, 4, 1, 1, 1, 2 + anc, 1, fill * 2]
            }
            COMPLETED => [1, 1, 1, 26, 10, if p.mode == PRORATA { 14 } else { 2 }, 12, 6, 5, 5, 1 + anc / 2, 1, 1],
            _ => [1, 1, 1, 2, 3, 18, 10, 2, 6, 2, 1 + anc / 2, 1, 1],
        }
    }

    /// Nobody does anything for a long time; nothing that is owed expires.
    fn years(&mut self) {
        let d = match self.sim.rng.below(4) {
            0 => self.sim.rng.range(1, 90) * DAY,
            1 => self.sim.rng.range(90, 800) * DAY,
            2 => self.sim.rng.range(2, 12) * 366 * DAY,
            _ => self.sim.rng.range(1, 100) * 366 * DAY,
        };
        let t = self.sim.w.now() + d + self.sim.rng.below(DAY);
        self.sim.t(t);
        *self.sim.stats.kinds.entry("long waits/after the sale".into()).or_default() += 1;
    }

    fn advance(&mut self) {
        let now = self.sim.w.now();
        let ks: Vec<Pubkey> = self.sim.presales.iter().map(|p| p.key).collect();
        if ks.is_empty() {
            return;
        }
        let p = self.sim.gp[self.sim.rng.pick(&ks)].clone();
        let mut pts = vec![];
        for t in [p.start, p.end, p.imm_ts, p.vest_start, p.vest_end, p.vest_start + p.vest] {
            for d in [t.saturating_sub(1), t, t + 1] {
                if d > now {
                    pts.push(d);
                }
            }
        }
        if p.vest > 0 {
            let m = p.vest_start + self.sim.rng.below(p.vest + 1);
            if m > now {
                pts.push(m);
            }
        }
        let mid = p.start + (p.end.saturating_sub(p.start)) / 2;
        if mid > now {
            pts.push(mid);
        }
        pts.sort();
        let t = if pts.is_empty() || self.sim.rng.chance(1, 10) {
            now + 1 + if self.sim.rng.chance(1, 4) { self.sim.rng.range(DAY, 4000 * DAY) } else { self.sim.rng.log(100 * DAY) }
        } else if self.sim.rng.chance(1, 2) {
            pts[0]
        } else {
            // mostly near points
            let n = pts.len().min(4);
            pts[self.sim.rng.idx(n)]
        };
        self.sim.t(t);
        if self.sim.rng.chance(1, 8) {
            let e = self.sim.w.epoch() + 1;
            self.sim.epoch(e);
        }
    }

    /// A sale with hundreds of participants: counters beyond a byte, long sums, long claim queues.
    pub fn crowd(&mut self) {
        let n = self.sim.rng.range(260, 330) as usize;
        for _ in 0..n {
            let k = self.sim.rng.key();
            self.sim.w.bank.fund(k, 1_000_000_000_000);
            self.sim.w.users.push(k);
        }
        self.setup();
        if self.sim.presales.is_empty() {
            return;
        }
        let pk = self.sim.presales[0].key;
        let p = self.sim.gp[&pk].clone();
        if self.sim.w.now() < p.start {
            self.sim.t(p.start);
        }
        let users = self.sim.w.users.clone();
        if p.whitelist == MERKLE {
            let es: Vec<_> = users
                .iter()
                .map(|u| {
                    let i = self.sim.rng.below(p.reg_count as u64) as u8;
                    (*u, i, p.regs[i as usize].max)
                })
                .collect();
            let t = Tree::new(es.clone());
            self.sim.create_merkle(0, 1, t.clone(), p.owner);
            let payer = self.sim.w.payer;
            for (j, e) in es.iter().enumerate() {
                let proof = t.proof(j);
                self.sim.escrow_proof(0, e.0, e.1, e.2, merkle_pda(&pk, 1), proof, payer);
            }
        } else {
            let op = self.sim.w.ops[0];
            if p.whitelist == AUTHORITY && !self.sim.gs.contains_key(&operator_pda(&p.owner, &op)) {
                self.sim.create_operator(p.owner, op);
            }
            for u in &users {
                let payer = self.sim.w.payer;
                if p.whitelist == AUTHORITY {
                    let i = self.sim.rng.below(p.reg_count as u64) as u8;
                    self.sim.escrow_operator(0, *u, i, p.regs[i as usize].max, operator_pda(&p.owner, &op), op, payer);
                } else {
                    self.sim.escrow_open(0, *u, payer);
                }
            }
        }
        let many = self.sim.gp[&pk].escrows > 255;
        *self.sim.stats.kinds.entry(format!("crowd/{}", if many { "over 255 escrows" } else { "fewer" })).or_default() += 1;
        for (ek, e) in self.escrows_of(0) {
            let g = self.sim.gp[&pk].clone();
            let room = deposit_room(&g, &e);
            let each = (p.max_cap / n as u64).max(g.regs[e.idx as usize].min).max(1);
            let amt = if self.sim.rng.chance(1, 3) { room } else { each.min(room) };
            self.sim.deposit(0, ek, e.owner, amt.max(1), Rem::Right);
            if self.sim.rng.chance(1, 6) {
                self.do_withdraw(0);
            }
            if progress(&self.sim.gp[&pk], self.sim.w.now()) != ONGOING || self.sim.stop {
                break;
            }
        }
        self.drain();
    }

    /// An everyday sale, set up and opened as the published interface describes, all values different and
    /// far from any limit.
    fn everyday(&mut self) {
        self.sim.ordinary = true;
        let (bm, qm) = {
            let rng = &mut self.sim.rng;
            let plain = |k: Pubkey| MintInfo { key: k, prog: TOKEN, decimals: 6, fee: None, hook: false, hook_empty: false, pointer: false, metadata: false, bad_ext: None, native: false };
            let (a, b) = (plain(rng.key()), plain(rng.key()));
            (self.sim.w.add_mint(a), self.sim.w.add_mint(b))
        };
        self.fund_mint(bm, false, true);
        self.fund_mint(qm, true, false);
        let creator = self.sim.w.creators[0];
        let payer = self.sim.w.payer;
        let now = self.sim.w.now();
        let rng = &mut self.sim.rng;
        let whitelist = rng.below(3) as u8;
        let max_cap = rng.range(1 << 24, 1 << 26);
        let n = if whitelist == 0 { 1 } else { rng.range(1, 5) };
        let start = now + rng.range(1000, 2000);
        let end = start + rng.range(10_000, 20_000);
        let mode = rng.below(3) as u8;
        let (q, dw) = ((rng.range(3 << 20, 4 << 20) as u128) << 44, rng.below(2) as u8);
        let min = match mode {
            FIXED => (q >> 64) as u64 + 1,
            _ => 1,
        };
        let a = InitArgs {
            max_cap,
            min_cap: rng.range(max_cap / 8, max_cap / 3),
            start,
            end,
            whitelist,
            mode,
            unsold: rng.below(2) as u8,
            disable_early: rng.below(2) as u8,
            lock_bps: rng.range(1000, 6000) as u16,
            lock: rng.range(2000, 3000),
            vest: rng.range(5000, 9000),
            imm_ts: end + rng.range(100, 1000),
            regs: (0..n)
                .map(|_| RegArgs { min: if whitelist == 0 { rng.range(300, 5000) } else { min }, max: if whitelist == 0 { rng.range(1 << 20, 1 << 22) } else { max_cap }, supply: rng.range(1 << 34, 1 << 36), fee_bps: rng.range(50, 900) as u16 })
                .collect(),
        };
        let base = rng.key();
        let s = &mut self.sim;
        let key = presale_pda(&base, &s.w.mints[bm].key, &s.w.mints[qm].key);
        let op = s.w.ops[0];
        let mut ok = true;
        if a.mode == FIXED {
            ok &= s.init_fixed_args(key, creator, payer, q, dw);
        }
        let Some(pi) = s.init_presale(&a, base, bm, qm, creator, payer, Some(fixed_args_pda(&key)), Rem::Right) else {
            s.ordinary = false;
            return;
        };
        if whitelist != 0 {
            ok &= s.create_metadata(pi, creator, "https://example.org/proofs");
        }
        ok &= s.create_operator(creator, op);
        let users = s.w.users.clone();
        let es: Vec<(Pubkey, u8, u64)> =
            users.iter().map(|u| { let i = s.rng.below(n) as u8; (*u, i, s.rng.range(1 << 18, 1 << 19)) }).collect();
        let t = Tree::new(es.clone());
        let version = s.rng.range(2, 1 << 40);
        if whitelist == MERKLE {
            ok &= s.create_merkle(pi, version, t.clone(), creator);
        }
        s.t(start + 10);
        for (j, e) in es.iter().enumerate() {
            ok &= match whitelist {
                MERKLE => s.escrow_proof(pi, e.0, e.1, e.2, merkle_pda(&key, version), t.proof(j), payer),
                AUTHORITY => s.escrow_operator(pi, e.0, e.1, e.2, operator_pda(&creator, &op), op, payer),
                _ => s.escrow_open(pi, e.0, payer),
            };
            let ek = escrow_pda(&key, &e.0, if whitelist == 0 { 0 } else { e.1 });
            if ok && s.rng.chance(3, 4) {
                let x = s.rng.range(10_000, 100_000);
                s.deposit(pi, ek, e.0, x, Rem::Right);
            }
        }
        *s.stats.kinds.entry(format!("everyday sales/{}", if ok { "opened" } else { "not opened" })).or_default() += 1;
        s.ordinary = false;
    }

    pub fn random(&mut self) {
        if self.sim.rng.below(100) < self.f.ordinary {
            self.everyday();
        } else {
            self.setup();
        }
        if self.sim.presales.is_empty() {
            return;
        }
        if self.sim.rng.chance(1, 16) {
            // many wallets, most of which never do anything
            let k = self.sim.presales[0].key;
            let reg = self.sim.rng.below(self.sim.gp[&k].reg_count as u64) as usize;
            let n = *self.sim.rng.pick(&[254u64, 65_534, 1 << 20, (1 << 31) - 3, (1 << 32) - 3]) + self.sim.rng.below(2);
            self.sim.idle_crowd(&k, reg, n);
        }
        let k = self.sim.presales[0].key;
        if self.sim.gp[&k].imm_ts != 0 && self.sim.rng.chance(1, 24) {
            self.sim.legacy(&k);
        }
        let steps = self.sim.rng.range(self.f.steps / 2, self.f.steps * 3 / 2);
        // usually start inside the sale
        if self.sim.rng.chance(2, 3) {
            let k = self.sim.presales[0].key;
            let p = self.sim.gp[&k].clone();
            for _ in 0..self.sim.rng.below(3) {
                let a = *self.sim.rng.pick(&[0u64, 1, 10, 10]);
                self.act(0, a);
            }
            if self.sim.w.now() < p.start {
                self.sim.t(p.start);
            }
        }
        let mut i = 0;
        while i < steps && !self.sim.stop {
            i += 1;
            let pi = self.sim.rng.idx(self.sim.presales.len());
            let pk = self.sim.presales[pi].key;
            let p = self.sim.gp[&pk].clone();
            let ph = progress(&p, self.sim.w.now());
            let adv = match ph {
                NOT_STARTED => 30,
                ONGOING => 7,
                _ => 16,
            };
            if self.sim.rng.below(100) < adv {
                self.advance();
                continue;
            }
            if self.f.forks > 0 && ph > ONGOING && !self.forked.contains(&pk) {
                let last = p.end.max(p.vest_start + p.vest).max(p.imm_ts);
                self.schedules(pi, last);
            }
            let w = self.weights(ph, &p);
            let tot: u64 = w.iter().sum();
            let mut x = self.sim.rng.below(tot);
            let mut k = 0;
            while x >= w[k] {
                x -= w[k];
                k += 1;
            }
            self.act(pi, k as u64);
            // sometimes bring the sale to its cap
            if ph == ONGOING && self.sim.rng.below(1000) < self.f.fill {
                for _ in 0..8 {
                    self.do_deposit(pi, true);
                    if progress(&self.sim.gp[&pk], self.sim.w.now()) != ONGOING {
                        break;
                    }
                }
            }
        }
        self.drain();
    }

    /// Bring every presale to its end and pay out everything in a random order; afterwards nobody may
    /// be owed anything and nothing may be payable twice.
    pub fn drain(&mut self) {
        for pi in 0..self.sim.presales.len() {
            if self.sim.stop {
                return;
            }
            let pk = self.sim.presales[pi].key;
            let p = self.sim.gp[&pk].clone();
            // make some sales succeed
            if progress(&p, self.sim.w.now()) == ONGOING && p.dep < p.min_cap && self.sim.rng.below(100) >= self.f.fail {
                for _ in 0..3 {
                    self.make_escrow(pi);
                }
                for _ in 0..6 {
                    self.do_deposit(pi, true);
                }
            }
        }
        for pi in 0..self.sim.presales.len() {
            let pk = self.sim.presales[pi].key;
            let p = self.sim.gp[&pk].clone();
            let last = p.end.max(p.vest_start + p.vest).max(p.imm_ts);
            if self.f.forks > 0 && self.sim.rng.below(100) < self.f.forks {
                self.schedules(pi, last);
            }
            // part of the payouts right at the end, part at the very end of vesting
            let mut jobs: Vec<(u64, Pubkey)> = vec![];
            for (ek, _) in self.escrows_of(pi) {
                for j in [3u64, 5, 6, 3, 5, 6] {
                    jobs.push((j, ek));
                }
                if self.sim.rng.chance(1, 3) {
                    jobs.push((4, ek));
                }
            }
            for j in [7u64, 8, 9, 7, 8, 9] {
                jobs.push((j, Pubkey::default()));
            }
            self.sim.rng.shuffle(&mut jobs);
            if self.sim.rng.chance(1, 6) {
                self.gift(pi);
            }
            if self.sim.w.now() < p.end {
                self.sim.t(p.end);
                if self.sim.rng.chance(1, 12) {
                    self.years();
                }
                let n = jobs.len() / 3;
                let early: Vec<_> = jobs.drain(..n).collect();
                for j in early {
                    self.job(pi, j);
                }
            }
            if self.sim.w.now() < last {
                if last > p.end + 2 && self.sim.rng.chance(1, 2) {
                    let t = self.sim.rng.range(self.sim.w.now(), last - 1);
                    self.sim.t(t);
                    let n = jobs.len() / 2;
                    let early: Vec<_> = jobs.drain(..n).collect();
                    for j in early {
                        self.job(pi, j);
                    }
                }
                self.sim.t(last);
            }
            if self.sim.rng.chance(1, 6) {
                self.years();
            }
            for j in jobs {
                if self.sim.stop {
                    return;
                }
                self.job(pi, j);
            }
            // final pass in a fixed order so that every escrow ends up closed
            for (ek, e) in self.escrows_of(pi) {
                self.sim.claim(pi, ek, e.owner, Rem::Right);
                self.sim.refund(pi, ek, e.owner, Rem::Right);
                self.sim.close_escrow(pi, ek, e.owner, e.owner);
            }
            let owner = p.owner;
            self.sim.unsold_action(pi, Rem::Right);
            let g = self.sim.gp[&pk].clone();
            let failed = progress(&g, self.sim.w.now()) == FAILED;
            self.sim.creator_withdraw(pi, owner, failed, Rem::Right);
            self.sim.collect_fee(pi, owner, Rem::Right);
            self.sim.farewell(&pk);
        }
        self.sim.stats.scenarios += 1;
    }

    /// From the same point after the end of a sale, settle it completely under several schedules.
    fn schedules(&mut self, pi: usize, last: u64) {
        let pk = self.sim.presales[pi].key;
        let p = self.sim.gp[&pk].clone();
        if self.sim.w.now() < p.end {
            self.sim.t(p.end);
        }
        if self.sim.rng.chance(1, 6) {
            self.gift(pi);
        }
        let es: Vec<(Pubkey, Pubkey)> = self.escrows_of(pi).iter().map(|(k, e)| (*k, e.owner)).collect();
        let skip = if self.forked.contains(&pk) {
            return;
        } else if es.is_empty() {
            Some("nobody took part")
        } else if es.len() > 40 || (p.quote_mint == p.base_mint && self.sim.w.balance(&p.quote_vault).checked_add(self.sim.w.balance(&p.base_vault)).is_none()) {
            Some("skipped")
        } else {
            None
        };
        *self.sim.stats.kinds.entry(format!("settlement comparisons/{}", skip.unwrap_or("made"))).or_default() += 1;
        self.forked.insert(pk);
        if skip.is_some() {
            return;
        }
        let f = self.sim.fork();
        let mut styles = vec![0u64, 1, 2, 3, 4];
        self.sim.rng.shuffle(&mut styles);
        let mut runs = vec![];
        for style in styles.into_iter().take(3) {
            self.sim.empty_pockets();
            self.sim.ledger = Some(Ledger { vaults: [p.quote_vault, p.base_vault], ..Ledger::default() });
            self.settle(pi, style, &es, last);
            let open = es.iter().map(|e| e.0).filter(|k| self.sim.w.bank.data(k).map(|d| d.len() == ESCROW_LEN).unwrap_or(false)).collect();
            runs.push((style, self.sim.ledger.take().unwrap(), open));
            self.sim.rewind(&f);
        }
        for i in 1..runs.len() {
            let (a, b) = (runs[0].clone(), runs[i].clone());
            self.sim.same_settlement(&pk, &a, &b);
        }
    }

    fn settle(&mut self, pi: usize, style: u64, es: &[(Pubkey, Pubkey)], last: u64) {
        let now = self.sim.w.now();
        let creator = |s: &mut Self, order: u64| {
            let mut js = vec![7u64, 8, 9];
            js.rotate_left((order % 3) as usize);
            for j in js {
                s.job(pi, (j, Pubkey::default()));
            }
        };
        let r = self.sim.rng.below(3);
        match style {
            // everybody waits; the creator goes first, then the buyers one after the other
            0 => {
                self.sim.t(last.max(now));
                if self.sim.rng.chance(1, 3) {
                    self.years();
                }
                creator(self, r);
                for e in es {
                    for j in [3, 5, 6] {
                        self.job(pi, (j, e.0));
                    }
                }
            }
            // refunds and the creator at once, tokens at the end
            1 => {
                for e in es.iter().rev() {
                    self.job(pi, (5, e.0));
                }
                creator(self, r);
                self.sim.t(last.max(now));
                for e in es {
                    for j in [3, 6, 3, 5, 6] {
                        self.job(pi, (j, e.0));
                    }
                }
            }
            // buyers leave one by one as soon as they can, the creator comes last
            2 => {
                for e in es {
                    for j in [3, 5, 6] {
                        self.job(pi, (j, e.0));
                    }
                }
                self.sim.t(last.max(now));
                for e in es.iter().rev() {
                    for j in [5, 3, 6] {
                        self.job(pi, (j, e.0));
                    }
                }
                creator(self, r);
            }
            // many small steps at arbitrary times
            3 => {
                let mut ts: Vec<u64> = (0..6).map(|_| if last > now { self.sim.rng.range(now, last) } else { now }).collect();
                ts.push(now);
                ts.sort();
                for t in ts {
                    self.sim.t(t);
                    for _ in 0..(es.len() * 2 + 1) {
                        let j = *self.sim.rng.pick(&[3u64, 3, 4, 4, 5, 6, 7, 8, 9]);
                        let k = if es.is_empty() { Pubkey::default() } else { self.sim.rng.pick(es).0 };
                        if j >= 7 || !es.is_empty() {
                            self.job(pi, (j, k));
                        }
                    }
                }
            }
            // everything several times in any order
            _ => {
                let mut jobs: Vec<(u64, Pubkey)> = vec![];
                for (ek, _) in es {
                    for j in [3u64, 5, 6, 3, 5, 6, 4] {
                        jobs.push((j, *ek));
                    }
                }
                for j in [7u64, 8, 9, 7, 8, 9] {
                    jobs.push((j, Pubkey::default()));
                }
                self.sim.rng.shuffle(&mut jobs);
                let cut = self.sim.rng.idx(jobs.len());
                for (i, j) in jobs.into_iter().enumerate() {
                    if i == cut {
                        self.sim.t(last.max(now));
                    }
                    self.job(pi, j);
                }
            }
        }
        let t = last.max(self.sim.w.now());
        self.sim.t(t);
        for (ek, owner) in es {
            self.sim.claim(pi, *ek, *owner, Rem::Right);
            self.sim.refund(pi, *ek, *owner, Rem::Right);
            self.sim.close_escrow(pi, *ek, *owner, *owner);
        }
        let p = self.sim.gp[&self.sim.presales[pi].key].clone();
        let failed = progress(&p, self.sim.w.now()) == FAILED;
        self.sim.unsold_action(pi, Rem::Right);
        self.sim.creator_withdraw(pi, p.owner, failed, Rem::Right);
        self.sim.collect_fee(pi, p.owner, Rem::Right);
    }

    fn job(&mut self, pi: usize, (j, ek): (u64, Pubkey)) {
        if self.sim.stop {
            return;
        }
        let pk = self.sim.presales[pi].key;
        let p = self.sim.gp[&pk].clone();
        let how = self.sim.pick_rem();
        let owner = self.sim.ge.get(&ek).map(|e| e.owner).unwrap_or(p.owner);
        match j {
            3 => {
                self.sim.claim(pi, ek, owner, how);
            }
            4 => {
                self.sim.refresh(pi, ek);
            }
            5 => {
                self.sim.refund(pi, ek, owner, how);
            }
            6 => {
                self.sim.close_escrow(pi, ek, owner, owner);
            }
            7 => {
                self.sim.unsold_action(pi, how);
            }
            8 => {
                let f = progress(&p, self.sim.w.now()) == FAILED;
                self.sim.creator_withdraw(pi, p.owner, f, how);
            }
            _ => {
                self.sim.collect_fee(pi, p.owner, how);
            }
        }
    }
}
