"""Planted bugs kept in /verif/seeded: id, property, edits [(file, old, new)], needs, breaks, demo body."""
from mutants import M
from mutants2 import M as M2
from mutants3 import M as M3
from mutants7 import M as M7
from mutants8 import M as M8
from mutants9 import M as M9
from mutants10 import M as M10
from mutants12 import M as M12
S=[]
def mut(id):
    for x in M+M2+M3+M7+M8+M9+M10+M12:
        if x[0]==id and isinstance(x[1],list): return x[1]
        if x[0]==id: return [(x[1] if not x[1].startswith('/') else x[1], x[2], x[3])]
    raise KeyError(id)
def s(id,prop,edits,needs,breaks,demo): S.append(dict(id=id,property=prop,edits=mut(edits) if isinstance(edits,str) else edits,needs=needs,breaks=breaks,demo=demo))
# a sale with users' escrows and deposits
SETUP='''
    let us = p.w.users.clone();
    let mut es = vec![];
'''
s('s01-refund-fee-ceil','C01','refund-fee-roundup',
 'an oversubscribed pro-rata sale with a deposit fee where each refund share of the fee is fractional, and everybody (creator last) taking their money',
 'the fee part of refunds is rounded up, so the quote vault runs out and the last entitled payout fails','''
    let mut p = Play::new(env, 3);
    let (s, ok) = p.create(&args(PRORATA, 120, 10, vec![reg(1, 100, 1000, 1500)]), 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let es: Vec<_> = us.iter().map(|u| { let (e, ok) = p.open(&s, *u); assert!(ok); assert!(p.deposit(&s, e, *u, 50)); e }).collect();
    p.at(T0 + 1000);
    for i in 0..3 { assert!(p.refund(&s, es[i], us[i])); }
    assert!(p.creator_withdraw(&s, false, s.creator));
    assert!(p.collect_fee(&s, s.creator), "the vault cannot pay the creator's fee any more");
''')
s('s02-fixed-oversold','C02','fx-nomin',
 'a permissioned fixed-price sale with a fractional price and a registry filled by several small deposits, each rounded up to pay for whole units',
 'the entitlement is no longer capped at the registry supply: rounding surpluses of several deposits buy tokens that belong to others','''
    // price 1.5, registry 0 has 3 units; three deposits of 2 pay for one unit each, together 6 / 1.5 = 4
    let mut p = Play::new(env, 1);
    let mut a = args(FIXED, 12, 2, vec![reg(2, 12, 3, 0), reg(2, 12, 5, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, Some((3u128 << 63, 0)));
    assert!(ok);
    let (op, u) = (p.w.ops[0], p.w.users[0]);
    assert!(p.operator(s.creator, op));
    let (e, ok) = p.open_op(&s, u, 0, 12, operator_pda(&s.creator, &op), op);
    assert!(ok);
    for _ in 0..3 { assert!(p.deposit(&s, e, u, 2)); }
    p.at(T0 + 1000);
    assert!(p.claim(&s, e, u));
    assert_eq!(p.escrow(&e).claimed, 3);
''')
s('s03-claim-registry0','C03','claim-reg-wrong','a claim by an escrow of a registry other than the first',
 'the claimed amount is booked on the wrong registry, so registry totals no longer match their escrows','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 700, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let (op, u) = (p.w.ops[0], p.w.users[0]);
    assert!(p.operator(s.creator, op));
    let (e, ok) = p.open_op(&s, u, 1, 100, operator_pda(&s.creator, &op), op);
    assert!(ok && p.deposit(&s, e, u, 40));
    p.at(T0 + 1000);
    assert!(p.claim(&s, e, u));
    let pr = p.presale(&s);
    assert_eq!(p.escrow(&e).claimed, 700);
    assert_eq!((pr.regs[0].claimed, pr.regs[1].claimed), (0, 700));
''')
s('s04-min-strict','C04','prog-min-excl','total deposits exactly equal to the minimum cap when the sale ends',
 'a sale that raised exactly its minimum is treated as failed','''
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(FCFS, 100, 30, vec![reg(1, 100, 500, 0)]), 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 30));
    p.at(T0 + 1000);
    assert!(p.claim(&s, e, u), "a sale that raised its minimum is a success");
''')
s('s05-min-after-fee','C05','cap-min-onlyfirst','a registry minimum and a deposit fee: with a fee recorded the minimum check is skipped',
 'deposits below the registry minimum are accepted in registries with a fee','''
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(FCFS, 100, 30, vec![reg(10, 100, 500, 300)]), 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(!p.deposit(&s, e, u, 9), "9 is below the minimum of 10");
    assert!(p.deposit(&s, e, u, 10));
''')
s('s06-fee-returned','C06','withdraw-fee-return','a full withdrawal during a sale with a deposit fee',
 'a full withdrawal wipes the recorded fee of the escrow while presale and registry keep it','''
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(PRORATA, 100, 30, vec![reg(10, 100, 500, 300)]), 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 100));
    let fee = p.escrow(&e).fee;
    assert_eq!(fee, 4);
    assert!(p.withdraw(&s, e, u, 100));
    assert_eq!((p.escrow(&e).fee, p.presale(&s).fee), (fee, fee));
''')
s('s07-full-withdrawal','C07','fx-wd-surplus','a fractional fixed price, a deposit built from several roundings, and a full withdrawal',
 'a full withdrawal is rounded like a partial one and cannot return the whole deposit','''
    // price 1.5; two deposits of 5 (three units each); 10 is not the exact price of whole units
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(FIXED, 30, 3, vec![reg(2, 30, 100, 0)]), 0, 1, Some((3u128 << 63, 0)));
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 5) && p.deposit(&s, e, u, 5));
    assert_eq!(p.escrow(&e).dep, 10);
    assert!(p.withdraw(&s, e, u, 10), "full withdrawal refused");
    assert_eq!(p.escrow(&e).dep, 0);
''')
s('s08-share-total','C08','dyn-share-total','two registries with deposits in both',
 'a buyer\'s share is computed from the deposits of the whole sale instead of their own registry','''
    let mut p = Play::new(env, 2);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 700, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let op = p.w.ops[0];
    let us = p.w.users.clone();
    assert!(p.operator(s.creator, op));
    let mut es = vec![];
    for i in 0..2u8 {
        let (e, ok) = p.open_op(&s, us[i as usize], i, 100, operator_pda(&s.creator, &op), op);
        assert!(ok && p.deposit(&s, e, us[i as usize], 40));
        es.push(e);
    }
    p.at(T0 + 1000);
    for i in 0..2 { assert!(p.claim(&s, es[i], us[i])); }
    assert_eq!((p.escrow(&es[0]).claimed, p.escrow(&es[1]).claimed), (500, 700));
''')
s('s09-pending-max','C09','vest-sumclaimed','a claim followed by two refreshes during vesting',
 'already released tokens are credited again: repeated refreshing releases more than the schedule','''
    let mut p = Play::new(env, 2);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 1000, 0)]);
    a.vest = 100;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 50)); es.push(e); }
    p.at(T0 + 1010);
    assert!(p.claim(&s, es[0], us[0]));
    p.at(T0 + 1020);
    assert!(p.refresh(&s, es[0]));
    assert!(p.refresh(&s, es[0]));
    let e = p.escrow(&es[0]);
    assert_eq!(e.claimed + e.pending, 100);
''')
s('s10-early-release','C10','early-imm','a sale with a delayed immediate release that ends early by reaching its maximum',
 'the distance between the end of the sale and the immediate release is cut when the sale ends early','''
    let mut p = Play::new(env, 1);
    let mut a = args(FCFS, 100, 10, vec![reg(1, 100, 1000, 0)]);
    a.disable_early = 0;
    a.lock_bps = 5000;
    a.lock = 50;
    a.vest = 100;
    a.imm_ts = T0 + 1000 + 120;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    p.at(T0 + 300);
    assert!(p.deposit(&s, e, u, 100));
    let pr = p.presale(&s);
    assert_eq!((pr.end, pr.vest_start, pr.vest_end, pr.imm_ts), (T0 + 300, T0 + 350, T0 + 450, T0 + 420));
''')
s('s11-refund-global','C11','refund-global-total','an oversubscribed pro-rata sale with at least two registries',
 'the refund share is taken over the whole sale\'s deposits instead of the registry\'s, so depositors get too little back','''
    let mut p = Play::new(env, 2);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 700, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let op = p.w.ops[0];
    let us = p.w.users.clone();
    assert!(p.operator(s.creator, op));
    let mut es = vec![];
    for i in 0..2u8 {
        let (e, ok) = p.open_op(&s, us[i as usize], i, 100, operator_pda(&s.creator, &op), op);
        assert!(ok && p.deposit(&s, e, us[i as usize], 100));
        es.push(e);
    }
    p.at(T0 + 1000);
    let before = p.bal(&us[0], 1);
    assert!(p.refund(&s, es[0], us[0]));
    assert_eq!(p.bal(&us[0], 1) - before, 50);
''')
s('s12-fee-stop','C12',[('state/presale.rs','''                    // We can early break because registries are ordered from initialized -> uninitialized
                    if registry.is_uninitialized() {
                        break;''','''                    // We can early break because registries are ordered from initialized -> uninitialized
                    if registry.is_uninitialized() || registry.total_deposit == 0 {
                        break;''')],
 'a pro-rata sale with several registries where an earlier registry received no deposit (or was emptied by withdrawals)',
 'the creator loses the fees of all registries behind the first empty one','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 700, 1000)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let (op, u) = (p.w.ops[0], p.w.users[0]);
    assert!(p.operator(s.creator, op));
    let (e, ok) = p.open_op(&s, u, 1, 100, operator_pda(&s.creator, &op), op);
    assert!(ok && p.deposit(&s, e, u, 90));
    p.at(T0 + 1000);
    let before = p.bal(&s.creator, 1);
    assert!(p.collect_fee(&s, s.creator));
    assert_eq!(p.bal(&s.creator, 1) - before, 10);
''')
s('s13-sold-break','C13','dyn-sold-break','a sale with several registries where an earlier registry received no deposit',
 'tokens of later registries count as unsold and are burned or returned although buyers own them','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 700, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let (op, u) = (p.w.ops[0], p.w.users[0]);
    assert!(p.operator(s.creator, op));
    let (e, ok) = p.open_op(&s, u, 1, 100, operator_pda(&s.creator, &op), op);
    assert!(ok && p.deposit(&s, e, u, 90));
    p.at(T0 + 1000);
    let v = base_vault(&s.key);
    assert!(p.unsold(&s));
    assert_eq!(p.w.balance(&v), 700);
''')
s('s14-deposit-escrow','C14','auth-dep-escrow','two presales over the same quote mint and a deposit naming an escrow of the other one',
 'an escrow of another presale can be credited by a deposit into this presale\'s vault','''
    let mut p = Play::new(env, 1);
    let a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    let (s1, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let (s2, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e2, ok) = p.open(&s2, u);
    assert!(ok);
    assert!(!p.deposit(&s1, e2, u, 50), "escrow of another presale accepted");
''')
s('s15-self-operator','C15','wl-op-creator','an operator account somebody created for themselves',
 'anybody can appoint themselves operator and admit wallets to somebody else\'s sale','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    assert!(p.operator(u, u));
    let (_, ok) = p.open_op(&s, u, 0, 100, operator_pda(&u, &u), u);
    assert!(!ok, "self-appointed operator accepted");
''')
s('s16-version32','C16','mt-version','a whitelist version above the 32-bit range',
 'the library derives the wrong root address for large versions, so its proofs point to no published root','''
    use std::str::FromStr;
    let _ = env;
    let presale = solana_program::pubkey::Pubkey::new_unique();
    let dir = std::env::temp_dir().join(format!("demo-tree-{}", std::process::id()));
    let version = (1u64 << 32) + 5;
    let t = merkle_tree::config_merkle_tree::ConfigMerkleTree {
        merkle_root: [0; 32], max_num_nodes: 1, version, tree_nodes: vec![],
    };
    let _ = dir;
    let got = t.get_merkle_root_config_pubkey(solana_program::pubkey::Pubkey::from_str(&presale.to_string()).unwrap(), &PROGRAM);
    assert_eq!(got.to_string(), merkle_pda(&presale, version).to_string());
''')
s('s17-start-past','C17','cfg-start','a start time in the past given at creation',
 'the recorded start lies one second before the presale was created','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.start = T0 - 50;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    assert_eq!(p.presale(&s).start, T0);
''')
s('s18-close-feefree','C18','close-refundfee','an oversubscribed pro-rata sale without deposit fee, everything claimed, refund not yet taken',
 'an escrow with an outstanding refund can be closed, losing the refund','''
    let mut p = Play::new(env, 2);
    let (s, ok) = p.create(&args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]), 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 100)); es.push(e); }
    p.at(T0 + 1000);
    assert!(p.claim(&s, es[0], us[0]));
    assert!(!p.close_escrow(&s, es[0], us[0], us[0]), "closed with a refund of 50 outstanding");
    assert!(p.refund(&s, es[0], us[0]));
    assert!(p.close_escrow(&s, es[0], us[0], us[0]));
''')
s('s19-newer-fee','C19','t22-fee-epoch','a transfer-fee mint whose fee change is scheduled for a later epoch',
 'the scheduled fee is used before its epoch, so the vault receives more or less than recorded','''
    let mut p = Play::new(env, 1);
    let k = p.rng.key();
    let mut m = plain_mint(k);
    m.prog = TOKEN22;
    m.fee = Some(crate::world::TFee { old: (0, u64::MAX, 100), new: (900, u64::MAX, 500) });
    let qm = p.w.add_mint(m);
    p.wallets(qm, 1 << 40);
    let (s, ok) = p.create(&args(PRORATA, 100_000, 10, vec![reg(1, 100_000, 500, 0)]), 0, qm, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 9900));
    assert_eq!(p.w.balance(&quote_vault(&s.key)), 9900);
''')
s('s20-claim-gross','C20','ev-claim-gross','a claim of a base token with a transfer fee',
 'the claim event reports the gross amount instead of what the buyer received','''
    let mut p = Play::new(env, 1);
    let k = p.rng.key();
    let mut m = plain_mint(k);
    m.prog = TOKEN22;
    m.fee = Some(crate::world::TFee { old: (0, u64::MAX, 100), new: (0, u64::MAX, 100) });
    let bm = p.w.add_mint(m);
    p.wallets(bm, 1 << 40);
    let (s, ok) = p.create(&args(PRORATA, 1000, 10, vec![reg(1, 1000, 10_000, 0)]), bm, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 500));
    p.at(T0 + 1000);
    let before = p.bal(&u, bm);
    assert!(p.claim(&s, e, u));
    let got = p.bal(&u, bm) - before;
    assert_eq!(got, 9900);
    let ev = p.events();
    assert_eq!(ev.len(), 1);
    assert!(ev[0].windows(8).any(|w| w == got.to_le_bytes()), "the event does not carry the received amount");
''')
s('s21-rent-to-creator','C21','aux-rent','closing a whitelist root with a rent receiver other than the creator',
 'the rent of a closed whitelist root goes to the creator instead of the stated receiver','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.whitelist = MERKLE;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let (k, ok) = p.root(&s, 3, [7; 32], s.creator);
    assert!(ok);
    p.at(T0 + 1000);
    let recv = p.w.stranger;
    let (rent, before) = (p.w.bank.lamports(&k), p.w.bank.lamports(&recv));
    assert!(p.close_root(&s, 3, s.creator, recv));
    assert_eq!(p.w.bank.lamports(&recv) - before, rent);
''')
s('s22-vest-overflow','C22','jam-u64mul','a supply above 2^64 / elapsed seconds and a vesting schedule',
 'vesting arithmetic overflows for large supplies, so claims of an accepted presale always fail','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 1 << 60, 0)]);
    a.vest = 10_000;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 50));
    p.at(T0 + 1000 + 5_000);
    assert!(p.claim(&s, e, u), "a due claim failed");
    assert_eq!(p.escrow(&e).claimed, 1 << 59);
''')
s('s23-locked-withdraw','C23','wd-locked','a fixed-price sale with the withdrawal lock whose early ending is disabled',
 'the withdrawal lock is ignored in sales that do not end early','''
    let mut p = Play::new(env, 1);
    let mut a = args(FIXED, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.disable_early = 1;
    let (s, ok) = p.create(&a, 0, 1, Some((1u128 << 64, 1)));
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 50));
    assert!(!p.withdraw(&s, e, u, 50), "withdrawal is locked in this sale");
''')

s('s24-withdraw-after-refunds','C24','y-cw-after-refund',
 'an oversubscribed pro-rata sale with a deposit fee in which a buyer takes the refund before the creator takes the proceeds',
 'the creator gets less when refunds were taken first and the difference stays in the vault for ever','''
    let mut p = Play::new(env, 2);
    let (s, ok) = p.create(&args(PRORATA, 100, 10, vec![reg(1, 100, 500, 1000)]), 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 90)); es.push(e); }
    p.at(T0 + 1000);
    for i in 0..2 { assert!(p.refund(&s, es[i], us[i]) && p.claim(&s, es[i], us[i])); }
    let before = p.bal(&s.creator, 1);
    assert!(p.creator_withdraw(&s, false, s.creator));
    assert_eq!(p.bal(&s.creator, 1) - before, 100);
    assert!(p.collect_fee(&s, s.creator));
    for i in 0..2 { assert!(p.close_escrow(&s, es[i], us[i], us[i])); }
    assert!(p.w.balance(&quote_vault(&s.key)) <= 5);
''')
s('s25-last-second','C25',[('presale_mode_handler/mod.rs','''    let claimable_bought_token = cumulative_escrow_claimable_token
        .safe_sub(escrow.sum_claimed_and_pending_claim_amount()?)?;
''','''    let released_at_last_refresh = calculate_cumulative_claimable_amount_for_user(
        presale.immediate_release_bps,
        presale.immediate_release_timestamp,
        presale_registry.presale_supply,
        presale.vesting_start_time,
        presale.vest_duration,
        escrow.last_refreshed_at,
        escrow.total_deposit,
        presale_registry.total_deposit,
    )?;
    let claimable_bought_token =
        cumulative_escrow_claimable_token.safe_sub(released_at_last_refresh)?;
''')],
 'a first-come sale that ends early by a deposit of an escrow opened in that same second',
 'the buyer who opened the escrow in the closing second never gets what had been released by then, unlike an equal buyer who came earlier','''
    let mut p = Play::new(env, 2);
    let mut a = args(FCFS, 100, 10, vec![reg(1, 100, 1000, 0)]);
    a.disable_early = 0;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    for (i, u) in us.iter().enumerate() {
        p.at(T0 + 100 + 200 * i as u64);
        let (e, _) = p.open(&s, *u);
        assert!(p.deposit(&s, e, *u, 50));
        es.push(e);
    }
    p.at(T0 + 400);
    for i in 0..2 { assert!(p.claim(&s, es[i], us[i])); }
    assert_eq!((p.escrow(&es[0]).claimed, p.escrow(&es[1]).claimed), (500, 500));
''')
s('s26-refund-sinks-minimum','C04','x-min-after-creator',
 'a successful pro-rata sale from which refunds have been taken so that deposits minus refunds fall below the minimum',
 'a completed sale turns into a failed one because of its refunds','''
    let mut p = Play::new(env, 2);
    let (s, ok) = p.create(&args(PRORATA, 100, 90, vec![reg(1, 100, 500, 1000)]), 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 100)); es.push(e); }
    p.at(T0 + 1000);
    for i in 0..2 { assert!(p.refund(&s, es[i], us[i])); }
    assert!(p.claim(&s, es[0], us[0]), "a successful sale stays successful");
''')
s('s27-sponsored-fee','C06','x-dep-own-fee','a deposit paid by somebody other than the escrow owner into a registry with a fee',
 'a sponsor does not pay the deposit fee although it is recorded','''
    let mut p = Play::new(env, 2);
    let (s, ok) = p.create(&args(PRORATA, 100, 30, vec![reg(10, 100, 500, 300)]), 0, 1, None);
    assert!(ok);
    let (u, v) = (p.w.users[0], p.w.users[1]);
    let (e, _) = p.open(&s, u);
    let before = p.bal(&v, 1);
    assert!(p.deposit(&s, e, v, 97));
    assert_eq!(before - p.bal(&v, 1), 100);
''')
s('s28-early-split','C10','x-early-only-reg0','a first-come sale whose maximum is reached by several registries together',
 'the sale only ends early when a single registry holds the whole maximum','''
    let mut p = Play::new(env, 2);
    let mut a = args(FCFS, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 700, 0)]);
    a.whitelist = AUTHORITY;
    a.disable_early = 0;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let op = p.w.ops[0];
    let us = p.w.users.clone();
    assert!(p.operator(s.creator, op));
    p.at(T0 + 300);
    for i in 0..2u8 {
        let (e, ok) = p.open_op(&s, us[i as usize], i, 100, operator_pda(&s.creator, &op), op);
        assert!(ok && p.deposit(&s, e, us[i as usize], 50));
    }
    assert_eq!(p.presale(&s).end, T0 + 300);
''')
s('s29-failed-twice','C12','x-cw-flag-failed','a failed sale whose creator withdraws the supply and finds tokens in the vault again (or a second presale of tokens sent there)',
 'the creator can withdraw the supply of a failed sale more than once','''
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(FCFS, 100, 30, vec![reg(1, 100, 500, 0)]), 0, 1, None);
    assert!(ok);
    p.at(T0 + 1000);
    assert!(p.creator_withdraw(&s, true, s.creator));
    assert!(p.presale(&s).creator_withdrawn != 0);
''')
s('s30-emptied-registry','C13','x-unsold-reg-last','a registry whose only depositor withdrew everything but kept the escrow',
 'the supply of a registry nobody bought from counts as sold and is never burned or returned','''
    let mut p = Play::new(env, 2);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 700, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let op = p.w.ops[0];
    let us = p.w.users.clone();
    assert!(p.operator(s.creator, op));
    for i in 0..2u8 {
        let (e, ok) = p.open_op(&s, us[i as usize], i, 100, operator_pda(&s.creator, &op), op);
        assert!(ok && p.deposit(&s, e, us[i as usize], 40));
        if i == 1 { assert!(p.withdraw(&s, e, us[1], 40)); }
    }
    p.at(T0 + 1000);
    assert!(p.unsold(&s), "700 tokens are unsold");
    assert_eq!(p.w.balance(&base_vault(&s.key)), 500);
''')
s('s31-fee-forgotten','C18','x-close-last-registry','the last escrow of a registry is closed before the creator collects the fees',
 'closing an escrow wipes fees the creator is still owed','''
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(PRORATA, 100, 10, vec![reg(1, 100, 500, 1000)]), 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 90));
    p.at(T0 + 1000);
    assert!(p.claim(&s, e, u));
    assert!(p.close_escrow(&s, e, u, u));
    let before = p.bal(&s.creator, 1);
    assert!(p.collect_fee(&s, s.creator));
    assert_eq!(p.bal(&s.creator, 1) - before, 10);
''')
s('s32-fee-only-escrow','C11','x-refund-zero-deposit','a buyer of an oversubscribed pro-rata sale who withdrew the whole deposit and only has a fee left in the sale',
 'the refundable part of the fee is never paid to somebody who withdrew','''
    let mut p = Play::new(env, 3);
    let (s, ok) = p.create(&args(PRORATA, 100, 10, vec![reg(1, 100, 500, 1000)]), 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 90)); es.push(e); }
    assert!(p.withdraw(&s, es[2], us[2], 90));
    p.at(T0 + 1000);
    let before = p.bal(&us[2], 1);
    assert!(p.refund(&s, es[2], us[2]));
    // 180 deposited, 80 too much, fees 30: 13 refundable, a third of it is 4
    assert_eq!(p.bal(&us[2], 1) - before, 4);
''')
s('s33-deep-proof','C15','x-proof-depth','a whitelist of more than 4096 wallets',
 'wallets of large whitelists are refused because their proofs are deep','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.whitelist = MERKLE;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let proof: Vec<[u8; 32]> = (0..14u8).map(|i| [i.wrapping_mul(37); 32]).collect();
    let mut h = crate::merkle::leaf(&u, 0, 100);
    for x in &proof { h = crate::merkle::node(&h, x); }
    let (k, ok) = p.root(&s, 0, h, s.creator);
    assert!(ok);
    let (_, ok) = p.open_proof(&s, u, 0, 100, k, &proof);
    assert!(ok, "a listed wallet is refused");
''')

s('s34-sold-by-departed','C26','d-dyn-sold-claimed','a dynamic-price sale with two registries, one of them unsold, where all buyers of the other one have claimed and closed before the unsold-token action',
 'tokens bought by people who already left count as unsold, so the action fails (or takes too much) when it comes last','''
    let outcome = |late: bool| -> (u64, u64) {
        let mut p = Play::new(env, 1);
        let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0), reg(1, 100, 300, 0)]);
        a.whitelist = AUTHORITY;
        let (s, ok) = p.create(&a, 0, 1, None);
        assert!(ok);
        let u = p.w.users[0];
        let op = p.w.payer;
        assert!(p.operator(s.creator, op));
        let (e, ok) = p.open_op(&s, u, 0, 100, operator_pda(&s.creator, &op), op);
        assert!(ok && p.deposit(&s, e, u, 90));
        p.at(T0 + 1000);
        let before = (p.bal(&s.creator, 0), p.bal(&u, 0));
        if !late { assert!(p.unsold(&s)); }
        assert!(p.claim(&s, e, u) && p.close_escrow(&s, e, u, u));
        if late { p.unsold(&s); }
        (p.bal(&s.creator, 0) - before.0, p.bal(&u, 0) - before.1)
    };
    let (early, late) = (outcome(false), outcome(true));
    assert_eq!(early.1, 500);
    assert_eq!(early, late, "the order of settlement changed its outcome");
''')
s('s35-very-long-proof','C15','c-proof-maxlen','a forged proof of more than 64 nodes',
 'anybody is admitted with an arbitrary, very long proof','''
    let mut p = Play::new(env, 2);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.whitelist = MERKLE;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let other = crate::merkle::leaf(&us[1], 0, 50);
    let (k, ok) = p.root(&s, 0, crate::merkle::node(&crate::merkle::leaf(&us[0], 0, 100), &other), s.creator);
    assert!(ok);
    for n in [0usize, 1, 32, 64, 65, 90] {
        let forged: Vec<[u8; 32]> = (0..n).map(|i| [i as u8; 32]).collect();
        let (_, ok) = p.open_proof(&s, p.w.payer, 0, 100, k, &forged);
        assert!(!ok, "an unlisted wallet was admitted");
    }
    assert!(p.open_proof(&s, us[0], 0, 100, k, &[other]).1);
''')
s('s36-refund-after-creator','C26','c-refund-late','an oversubscribed pro-rata sale with a fee whose creator has taken both proceeds and fees before a buyer asks for the refund',
 'buyers who come after the creator lose the refundable part of their fee','''
    let outcome = |late: bool| -> (u64, u64) {
        let mut p = Play::new(env, 2);
        let (s, ok) = p.create(&args(PRORATA, 100, 10, vec![reg(1, 100, 500, 1000)]), 0, 1, None);
        assert!(ok);
        let us = p.w.users.clone();
        let mut es = vec![];
        for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 90)); es.push(e); }
        p.at(T0 + 1000);
        let before = (p.bal(&us[0], 1), p.bal(&s.creator, 1));
        if !late { assert!(p.refund(&s, es[0], us[0])); }
        assert!(p.creator_withdraw(&s, false, s.creator) && p.collect_fee(&s, s.creator));
        if late { assert!(p.refund(&s, es[0], us[0])); }
        (p.bal(&us[0], 1) - before.0, p.bal(&s.creator, 1) - before.1)
    };
    assert_eq!(outcome(false), outcome(true));
''')
s('s37-impatient-refresher','C09','d-refresh-bonus','a buyer who refreshes the escrow several times within one second before claiming, and claims again later',
 'a claim is under-recorded by one token, so the next claim releases more than the schedule allows','''
    let mut p = Play::new(env, 2);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.vest = 1000;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 50)); es.push(e); }
    let before = p.bal(&us[0], 0);
    for (t, due) in [(1100u64, 25u64), (1200, 50), (1500, 125), (2000, 250)] {
        p.at(T0 + t);
        for _ in 0..4 { assert!(p.refresh(&s, es[0])); }
        assert!(p.claim(&s, es[0], us[0]));
        assert!(p.bal(&us[0], 0) - before <= due, "released too much");
    }
    let b = p.bal(&us[1], 0);
    assert!(p.claim(&s, es[1], us[1]));
    assert_eq!(p.bal(&us[1], 0) - b, 250);
''')

s('s38-escrow-field-order','C27','i-escrow-swap','a reader of escrow accounts that knows the published layout (or an escrow stored before the change)',
 'pending tokens and the personal cap exchange places in the stored record','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.vest = 1000;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 90));
    p.at(T0 + 1500);
    assert!(p.refresh(&s, e));
    let d = p.w.bank.data(&e).unwrap().to_vec();
    let at = |o: usize| u64::from_le_bytes(d[8 + o..16 + o].try_into().unwrap());
    assert_eq!((at(64), at(88), at(96)), (90, 250, 100), "deposit, pending tokens and cap at their published places");
''')
s('s39-operator-seeds','C27','i-seed-op-order','an operator appointed at the published address',
 'operator accounts move to other addresses, so the published ones are refused','''
    let mut p = Play::new(env, 1);
    let mut a = args(PRORATA, 100, 10, vec![reg(1, 100, 500, 0)]);
    a.whitelist = AUTHORITY;
    let (s, ok) = p.create(&a, 0, 1, None);
    assert!(ok);
    let op = p.w.payer;
    assert!(p.operator(s.creator, op), "the published operator address is refused");
    let u = p.w.users[0];
    assert!(p.open_op(&s, u, 0, 100, operator_pda(&s.creator, &op), op).1);
''')

s('s40-late-close','C18','e-close-failed-late','a sale that failed, a buyer who has not asked for the refund, and a close more than 180 days after the end',
 'an escrow that still holds an unrefunded deposit can be closed, so the deposit is lost','''
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(PRORATA, 100, 60, vec![reg(1, 100, 500, 0)]), 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (e, _) = p.open(&s, u);
    assert!(p.deposit(&s, e, u, 50));
    p.at(T0 + 1000);
    assert!(!p.close_escrow(&s, e, u, u));
    p.at(T0 + 1000 + 400 * 86_400);
    assert!(!p.close_escrow(&s, e, u, u), "an escrow with money in it was closed");
    assert!(p.refund(&s, e, u));
    assert!(p.close_escrow(&s, e, u, u));
''')
s('s41-late-fee-refund','C11','e-refund-10y-zero','a failed sale with a deposit fee whose buyer asks for the refund more than ten years after its end',
 'the fee part of a failed sale\'s refund expires','''
    let mut p = Play::new(env, 2);
    let (s, ok) = p.create(&args(PRORATA, 1000, 900, vec![reg(1, 1000, 500, 1000)]), 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let mut es = vec![];
    let before: Vec<u64> = us.iter().map(|u| p.bal(u, 1)).collect();
    for u in &us { let (e, _) = p.open(&s, *u); assert!(p.deposit(&s, e, *u, 90)); es.push(e); }
    p.at(T0 + 1000);
    assert!(p.refund(&s, es[0], us[0]));
    assert_eq!(p.bal(&us[0], 1), before[0]);
    p.at(T0 + 1000 + 11 * 366 * 86_400);
    assert!(p.refund(&s, es[1], us[1]));
    assert_eq!(p.bal(&us[1], 1), before[1], "the late buyer lost the fee");
''')
s('s42-crowd-fee','C06','n-fee-crowd','a registry with more than a thousand escrows and a deposit whose fee is fractional',
 'in crowded registries the fee is rounded down instead of up','''
    let mut p = Play::new(env, 1);
    let (s, ok) = p.create(&args(PRORATA, 100, 10, vec![reg(1, 100, 500, 700)]), 0, 1, None);
    assert!(ok);
    let u = p.w.users[0];
    let (mine, _) = p.open(&s, u);
    for i in 0..1100u64 {
        let mut k = [7u8; 32];
        k[..8].copy_from_slice(&i.to_le_bytes());
        assert!(p.open(&s, solana_program::pubkey::Pubkey::new_from_array(k)).1);
    }
    assert!(p.deposit(&s, mine, u, 50));
    // 50 * 10000 / 9300 = 53.76
    assert_eq!(p.escrow(&mine).fee, 4);
''')

s('s43-stale-proof','C16','t-stale-proof','a list whose entries were taken over from an earlier tree, together with their old proofs',
 'entries keep proofs of an earlier tree, which the program refuses','''
    let _ = env;
    use merkle_tree::{config_merkle_tree::ConfigMerkleTree, tree_node::TreeNode};
    use solana_program::pubkey::Pubkey;
    let node = |i: u8| TreeNode { escrow_owner: Pubkey::new_from_array([i; 32]), registry_index: i % 3, deposit_cap: 1000 + i as u64, proof: None };
    let first = ConfigMerkleTree::new((1..6).map(node).collect(), 1).unwrap();
    let mut list = first.tree_nodes.clone();
    list.push(node(9));
    let second = ConfigMerkleTree::new(list, 2).unwrap();
    let root = second.merkle_root;
    for x in &second.tree_nodes {
        let leaf = solana_program::hash::hashv(&[&[0], &x.hash().to_bytes()]).to_bytes();
        assert!(crate::merkle::verify(x.proof.as_ref().unwrap(), &root, leaf), "the proof of a listed wallet does not lead to the root");
    }
''')
s('s44-file-rewrite','C16','t-file-notrunc','a whitelist written over the longer file of an earlier one',
 'a tree written over a longer file cannot be read back','''
    let _ = env;
    use merkle_tree::{config_merkle_tree::ConfigMerkleTree, tree_node::TreeNode};
    use solana_program::pubkey::Pubkey;
    let node = |i: u8| TreeNode { escrow_owner: Pubkey::new_from_array([i; 32]), registry_index: 0, deposit_cap: 1000, proof: None };
    let path = std::env::temp_dir().join(format!("demo-tree-{}.json", std::process::id()));
    let long = ConfigMerkleTree::new((1..9).map(node).collect(), 1).unwrap();
    let short = ConfigMerkleTree::new((1..4).map(node).collect(), 2).unwrap();
    long.write_to_file(&path);
    short.write_to_file(&path);
    let back = ConfigMerkleTree::new_from_file(&path);
    let _ = std::fs::remove_file(&path);
    let back = back.expect("the file cannot be read back");
    assert_eq!(back.merkle_root, short.merkle_root);
    assert_eq!(back.tree_nodes.len(), 3);
''')
