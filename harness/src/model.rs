//! Reference semantics: what a presale must do, in exact integer arithmetic, written from the
//! documented behaviour. Pure functions over the decoded states of `abi`.

use crate::abi::{EscrowS, InitArgs, PresaleS, RegS};
use ruint::aliases::U256;

pub const NOT_STARTED: u8 = 0;
pub const ONGOING: u8 = 1;
pub const COMPLETED: u8 = 2;
pub const FAILED: u8 = 3;

pub const FIXED: u8 = 0;
pub const PRORATA: u8 = 1;
pub const FCFS: u8 = 2;

pub const OPEN: u8 = 0;
pub const MERKLE: u8 = 1;
pub const AUTHORITY: u8 = 2;

pub const DAY: u64 = 86_400;

/// Why the model refuses. The string is a class used for attribution.
pub type Rej = &'static str;
type R<T> = Result<T, Rej>;

fn u(x: u64) -> U256 {
    U256::from(x)
}
fn to64(x: U256) -> R<u64> {
    u64::try_from(x).map_err(|_| "math")
}
fn mul_div(a: u64, b: u64, c: u64) -> u64 {
    u64::try_from(u(a) * u(b) / u(c)).unwrap_or(u64::MAX)
}

pub fn progress(p: &PresaleS, now: u64) -> u8 {
    if now < p.start {
        NOT_STARTED
    } else if now < p.end {
        ONGOING
    } else if p.dep >= p.min_cap {
        COMPLETED
    } else {
        FAILED
    }
}

/// Whole base tokens that `quote` buys at `q` (64.64 quote per base).
pub fn tokens_for(q: u128, quote: u64) -> U256 {
    (u(quote) << 64) / U256::from(q)
}
/// Quote needed for `t` tokens, rounded against the buyer.
pub fn quote_for(q: u128, t: U256) -> U256 {
    let one = U256::from(1u8) << 64;
    (t * U256::from(q) + one - U256::from(1u8)) / one
}

pub fn sold_in(p: &PresaleS, r: &RegS) -> u64 {
    if r.dep == 0 {
        return 0;
    }
    match p.mode {
        FIXED => {
            let t = tokens_for(p.q_price, r.dep);
            u64::try_from(t).unwrap_or(u64::MAX).min(r.supply)
        }
        _ => r.supply,
    }
}

pub fn personal_room(r: &RegS, e: &EscrowS) -> u64 {
    r.max.min(e.cap).saturating_sub(e.dep)
}

pub fn deposit_room(p: &PresaleS, e: &EscrowS) -> u64 {
    let r = &p.regs[e.idx as usize];
    let personal = personal_room(r, e);
    match p.mode {
        PRORATA => personal,
        FCFS => personal.min(p.max_cap.saturating_sub(p.dep)),
        _ => {
            let left = r.supply - sold_in(p, r);
            let by_supply = u64::try_from(quote_for(p.q_price, u(left))).unwrap_or(u64::MAX);
            personal.min(p.max_cap.saturating_sub(p.dep)).min(by_supply)
        }
    }
}

/// Fee on top of a net deposit: the total is the smallest amount whose fee share leaves `net`.
pub fn gross_up(net: u64, bps: u16) -> U256 {
    let d = u(10_000 - bps as u64);
    (u(net) * u(10_000) + d - U256::from(1u8)) / d
}

pub struct Dep {
    pub net: u64,
    pub fee: u64,
    pub gross: u64,
    pub early_end: bool,
}

pub fn deposit(p: &mut PresaleS, e: &mut EscrowS, max: u64, now: u64) -> R<Dep> {
    if progress(p, now) != ONGOING {
        return Err("phase");
    }
    let room = deposit_room(p, e);
    let mut net = room.min(max);
    if net == 0 {
        return Err("cap");
    }
    if p.mode == FIXED {
        net = to64(quote_for(p.q_price, tokens_for(p.q_price, net)))?;
        if net == 0 {
            return Err("zero");
        }
    }
    let i = e.idx as usize;
    let gross = to64(gross_up(net, p.regs[i].fee_bps))?;
    let fee = gross - net;
    let r = &mut p.regs[i];
    r.dep = r.dep.checked_add(net).ok_or("math")?;
    r.fee = r.fee.checked_add(fee).ok_or("math")?;
    e.dep = e.dep.checked_add(net).ok_or("math")?;
    e.fee = e.fee.checked_add(fee).ok_or("math")?;
    p.dep = p.dep.checked_add(net).ok_or("math")?;
    p.fee = p.fee.checked_add(fee).ok_or("math")?;
    if e.dep < p.regs[i].min || e.dep > p.regs[i].max {
        return Err("cap");
    }
    let early_end = p.mode != PRORATA && p.disable_early == 0 && p.dep >= p.max_cap;
    if early_end {
        let offset = p.imm_ts.saturating_sub(p.end);
        p.end = now;
        p.vest_start = now + p.lock;
        p.vest_end = p.vest_start + p.vest;
        p.imm_ts = now + offset;
    }
    Ok(Dep { net, fee, gross, early_end })
}

pub fn withdraw(p: &mut PresaleS, e: &mut EscrowS, amount: u64, now: u64) -> R<u64> {
    if progress(p, now) != ONGOING {
        return Err("phase");
    }
    if amount == 0 {
        return Err("zero");
    }
    if amount > e.dep {
        return Err("balance");
    }
    if p.mode == FCFS || (p.mode == FIXED && p.disable_withdraw != 0) {
        return Err("mode");
    }
    let mut out = amount;
    if p.mode == FIXED && amount != e.dep {
        out = to64(quote_for(p.q_price, tokens_for(p.q_price, amount)))?;
        if out == 0 {
            return Err("zero");
        }
    }
    let r = &mut p.regs[e.idx as usize];
    e.dep -= out;
    r.dep = r.dep.checked_sub(out).ok_or("math")?;
    if e.dep != 0 && (e.dep < r.min || e.dep > r.max) {
        return Err("cap");
    }
    p.dep = p.dep.checked_sub(out).ok_or("math")?;
    Ok(out)
}

/// Tokens of the escrow released up to `t`.
pub fn released(p: &PresaleS, e: &EscrowS, t: u64) -> u64 {
    let r = &p.regs[e.idx as usize];
    if e.dep == 0 || r.dep == 0 {
        return 0;
    }
    let sold = sold_in(p, r);
    let imm = mul_div(sold, p.imm_bps as u64, 10_000);
    let vested = sold - imm;
    let mut out = 0u64;
    if t >= p.imm_ts {
        out += mul_div(imm, e.dep, r.dep);
    }
    if t >= p.vest_start {
        let dripped = if p.vest == 0 {
            vested
        } else {
            mul_div(vested, (t - p.vest_start).min(p.vest), p.vest)
        };
        out += mul_div(dripped, e.dep, r.dep);
    }
    out
}
/// Everything the escrow will ever be able to claim.
pub fn full_entitlement(p: &PresaleS, e: &EscrowS) -> u64 {
    released(p, e, p.vest_start + p.vest)
}

pub fn refresh(p: &PresaleS, e: &mut EscrowS, now: u64) -> R<()> {
    if progress(p, now) == COMPLETED {
        let cum = released(p, e, now);
        let add = cum.checked_sub(e.claimed + e.pending).ok_or("math")?;
        e.pending += add;
        e.refreshed = now;
    }
    Ok(())
}

pub fn claim(p: &mut PresaleS, e: &mut EscrowS, now: u64) -> R<u64> {
    if progress(p, now) != COMPLETED {
        return Err("phase");
    }
    refresh(p, e, now)?;
    let out = e.pending;
    if out > 0 {
        e.claimed += out;
        e.pending = 0;
        p.regs[e.idx as usize].claimed += out;
        p.claimed += out;
    }
    Ok(out)
}

/// (quote, fee) the registry hands back after an oversubscribed pro-rata sale.
pub fn registry_refund(p: &PresaleS, r: &RegS) -> (u64, u64) {
    if p.dep == 0 || r.dep == 0 {
        return (0, 0);
    }
    let excess = p.dep.saturating_sub(p.max_cap);
    let q = mul_div(excess, r.dep, p.dep);
    let f = mul_div(r.fee, q, r.dep);
    (q, f)
}

pub fn refund_due(p: &PresaleS, e: &EscrowS, now: u64) -> R<u64> {
    match progress(p, now) {
        FAILED => e.dep.checked_add(e.fee).ok_or("math"),
        COMPLETED if p.mode == PRORATA => {
            let r = &p.regs[e.idx as usize];
            let (q, f) = registry_refund(p, r);
            let a = if r.dep > 0 { mul_div(e.dep, q, r.dep) } else { 0 };
            let b = if r.fee > 0 { mul_div(e.fee, f, r.fee) } else { 0 };
            a.checked_add(b).ok_or("math")
        }
        COMPLETED => Err("mode"),
        _ => Err("phase"),
    }
}

pub fn refund(p: &mut PresaleS, e: &mut EscrowS, now: u64) -> R<u64> {
    if e.refunded != 0 {
        return Err("once");
    }
    let due = refund_due(p, e, now)?;
    e.refunded = 1;
    p.regs[e.idx as usize].refunded += due;
    p.refunded += due;
    Ok(due)
}

pub fn collectable_fee(p: &PresaleS) -> u64 {
    if p.mode == PRORATA {
        p.regs
            .iter()
            .take(p.reg_count as usize)
            .map(|r| r.fee - registry_refund(p, r).1)
            .sum()
    } else {
        p.fee
    }
}

pub fn creator_proceeds(p: &PresaleS) -> u64 {
    p.dep.min(p.max_cap)
}

pub fn unsold(p: &PresaleS) -> u64 {
    let sold: u64 = p.regs.iter().take(p.reg_count as usize).map(|r| sold_in(p, r)).sum();
    p.supply - sold
}

pub fn close_escrow(p: &mut PresaleS, e: &EscrowS, now: u64) -> R<()> {
    match progress(p, now) {
        NOT_STARTED => return Err("phase"),
        ONGOING => {
            if e.dep != 0 || e.fee != 0 {
                return Err("close");
            }
        }
        FAILED => {
            if e.refunded == 0 && (e.dep != 0 || e.fee != 0) {
                return Err("close");
            }
        }
        _ => {
            if p.mode == PRORATA && e.refunded == 0 && refund_due(p, e, now)? > 0 {
                return Err("close");
            }
            if e.claimed != full_entitlement(p, e) {
                return Err("close");
            }
        }
    }
    p.regs[e.idx as usize].escrows -= 1;
    p.escrows -= 1;
    Ok(())
}

/// Configuration rules. `fixed` = (q_price, disable_withdraw) found in the extra-argument account.
pub fn validate_init(a: &InitArgs, now: u64, fixed: Option<(u128, u8)>) -> R<()> {
    if a.min_cap == 0 || a.max_cap < a.min_cap {
        return Err("config");
    }
    let start = a.start.max(now);
    if a.end <= start || a.end - start < 60 || a.end - start > 30 * DAY || start - now > 30 * DAY {
        return Err("config");
    }
    if a.whitelist > 2 || a.mode > 2 || a.unsold > 1 || a.disable_early > 1 {
        return Err("config");
    }
    if a.regs.is_empty() || a.regs.len() > 5 {
        return Err("config");
    }
    let mut total = 0u128;
    for r in &a.regs {
        if r.fee_bps > 5000 {
            return Err("config-fee");
        }
        if r.max < r.min || r.max == 0 || r.max > a.max_cap {
            return Err("config-cap");
        }
        if r.supply == 0 {
            return Err("config-size");
        }
        total += r.supply as u128;
    }
    if total > u64::MAX as u128 {
        return Err("config-size");
    }
    if a.regs.len() > 1 && a.whitelist == OPEN {
        return Err("config");
    }
    if a.has_lock() {
        let dur = a.lock.checked_add(a.vest).ok_or("config-vest")?;
        if dur >= 3650 * DAY || a.lock_bps > 10_000 {
            return Err("config-vest");
        }
        if a.lock_bps == 10_000 {
            if a.lock != 0 || a.vest != 0 || (a.imm_ts != 0 && a.imm_ts != a.end) {
                return Err("config-vest");
            }
        } else {
            if dur == 0 {
                return Err("config-vest");
            }
            if a.imm_ts != 0 {
                if a.lock_bps == 0 {
                    if a.imm_ts != a.end {
                        return Err("config-vest");
                    }
                } else if a.imm_ts < a.end || a.imm_ts > a.end + dur {
                    return Err("config-vest");
                }
            }
        }
    }
    let perm = a.whitelist != OPEN;
    if a.mode == FIXED {
        let (q, _) = fixed.ok_or("config")?;
        let lim = u(u64::MAX);
        for r in &a.regs {
            for c in [r.min, r.max] {
                let t = tokens_for(q, c);
                if t.is_zero() || t > lim {
                    return Err("config-price");
                }
            }
            if perm {
                let m = (U256::from(q) + (U256::from(1u8) << 64) - U256::from(1u8)) >> 64;
                if u(r.min) != m || r.max != a.max_cap {
                    return Err("config");
                }
            }
        }
        if tokens_for(q, a.max_cap) > U256::from(total) {
            return Err("config-price");
        }
        if tokens_for(q, a.max_cap) <= tokens_for(q, a.min_cap) {
            return Err("config");
        }
    } else if perm {
        for r in &a.regs {
            if r.min != 1 || r.max != a.max_cap {
                return Err("config");
            }
        }
    }
    Ok(())
}

/// The state a fresh presale must have.
pub fn initial_state(a: &InitArgs, now: u64, fixed: Option<(u128, u8)>) -> PresaleS {
    let mut p = PresaleS {
        mode: a.mode,
        whitelist: a.whitelist,
        max_cap: a.max_cap,
        min_cap: a.min_cap,
        start: a.start.max(now),
        end: a.end,
        supply: a.regs.iter().map(|r| r.supply).sum(),
        created: now,
        reg_count: a.regs.len() as u8,
        unsold_action: a.unsold,
        disable_early: if a.mode == PRORATA { 0 } else { a.disable_early },
        ..Default::default()
    };
    if a.mode == FIXED {
        let (q, d) = fixed.unwrap();
        p.q_price = q;
        p.disable_withdraw = d;
    }
    if a.has_lock() {
        p.lock = a.lock;
        p.vest = a.vest;
        p.imm_bps = a.lock_bps;
        p.imm_ts = a.imm_ts;
        p.vest_start = a.end + a.lock;
        p.vest_end = p.vest_start + a.vest;
    }
    p.regs = (0..5)
        .map(|i| match a.regs.get(i) {
            Some(r) => RegS {
                supply: r.supply,
                min: r.min,
                max: r.max,
                fee_bps: r.fee_bps,
                ..Default::default()
            },
            None => RegS::default(),
        })
        .collect();
    p
}
