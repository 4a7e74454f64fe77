//! One method per instruction: build the call, predict with the model, run under the monitor.

use crate::abi::*;
use crate::bank::meta;
use crate::merkle;
use crate::model::{self, *};
use crate::sim::*;
use crate::world::*;
use solana_program::{instruction::AccountMeta, pubkey::Pubkey};

fn ro(k: Pubkey) -> AccountMeta {
    meta(k, false, false)
}
fn wr(k: Pubkey) -> AccountMeta {
    meta(k, false, true)
}
fn sg(k: Pubkey) -> AccountMeta {
    meta(k, true, false)
}
fn sw(k: Pubkey) -> AccountMeta {
    meta(k, true, true)
}

/// How the transfer-hook remaining accounts are supplied.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rem {
    Right,
    Missing,
    WrongType,
    Unwanted,
    Short,
    Duplicate,
    EmptySlice,
    /// accounts behind the described ones
    Trailing,
    /// foreign accounts inside the slice / other order
    Padded,
    /// one account of the hook left out
    Partial,
    /// the other token's kind, without accounts
    WrongEmpty,
    BadType,
    /// the right accounts described by two slices
    Split,
}

impl Sim {
    /// (slices, accounts, acceptable?) for a transfer of mint `m`; `ty` 0 = base, 1 = quote.
    pub fn rem_for(&mut self, m: usize, ty: u8, how: Rem) -> (Vec<(u8, u8)>, Vec<AccountMeta>, bool) {
        let hook = self.w.mints[m].hook;
        let accts = if hook { self.w.hook_metas(m) } else { vec![ro(self.w.stranger), ro(self.w.payer)] };
        let n = accts.len() as u8;
        match how {
            Rem::Right => {
                if hook {
                    (vec![(ty, n)], accts, true)
                } else {
                    (vec![], vec![], true)
                }
            }
            Rem::EmptySlice => {
                if hook {
                    (vec![(ty, 0), (ty, n)], accts, true)
                } else {
                    (vec![(ty, 0)], vec![], true)
                }
            }
            Rem::Missing => (vec![], vec![], !hook),
            Rem::WrongType => (vec![(1 - ty, n)], accts, false),
            Rem::Unwanted => {
                if hook {
                    (vec![(ty, n)], accts, true)
                } else {
                    (vec![(ty, n)], accts, false)
                }
            }
            Rem::Short => {
                let over = *self.rng.pick(&[n + 1, n + 1, n + 2, 2 * n, 16, 127, 128, 200, 254, 255]);
                if self.rng.chance(1, 4) {
                    (vec![(ty, 0), (ty, over)], accts, false)
                } else if self.rng.chance(1, 4) {
                    (vec![(ty, 255)], vec![], false)
                } else {
                    (vec![(ty, over)], accts, false)
                }
            }
            Rem::Trailing => {
                let extra = [ro(self.w.stranger), ro(self.w.payer), ro(self.w.mints[m].key)];
                if hook {
                    (vec![(ty, n)], accts.into_iter().chain(extra).collect(), true)
                } else {
                    (if self.rng.chance(1, 2) { vec![] } else { vec![(ty, 0)] }, extra.to_vec(), true)
                }
            }
            Rem::Padded => {
                if hook {
                    let mut a = accts;
                    a.push(ro(self.w.stranger));
                    self.rng.shuffle(&mut a);
                    (vec![(ty, n + 1)], a, true)
                } else {
                    (vec![(ty, n)], accts, false)
                }
            }
            Rem::Partial => {
                if hook {
                    let mut a = accts;
                    a.remove(self.rng.idx(n as usize));
                    (vec![(ty, n - 1)], a, false)
                } else {
                    (vec![(ty, 1)], accts, false)
                }
            }
            Rem::WrongEmpty => {
                if hook {
                    let mut v = vec![(ty, n), (1 - ty, 0)];
                    self.rng.shuffle(&mut v);
                    (v, accts, false)
                } else {
                    (vec![(1 - ty, 0)], vec![], false)
                }
            }
            Rem::BadType => (vec![(*self.rng.pick(&[2u8, 3, 128, 255]), n)], accts, false),
            Rem::Split => {
                if hook {
                    (vec![(ty, n - 1), (ty, 1)], accts, false)
                } else {
                    (vec![(ty, 1), (ty, 1)], accts, false)
                }
            }
            Rem::Duplicate => {
                let mut a = accts.clone();
                a.extend(accts);
                (vec![(ty, n), (ty, n)], a, false)
            }
        }
    }
    pub fn pick_rem(&mut self) -> Rem {
        if self.rng.chance(14, 15) {
            if self.rng.chance(1, 8) {
                *self.rng.pick(&[Rem::EmptySlice, Rem::EmptySlice, Rem::Trailing, Rem::Padded])
            } else {
                Rem::Right
            }
        } else {
            *self.rng.pick(&[
                Rem::Missing,
                Rem::WrongType,
                Rem::Unwanted,
                Rem::Short,
                Rem::Short,
                Rem::Duplicate,
                Rem::Partial,
                Rem::WrongEmpty,
                Rem::BadType,
                Rem::Split,
            ])
        }
    }

    // ---------------------------------------------------------------- fixed price arguments
    pub fn init_fixed_args(&mut self, presale: Pubkey, owner: Pubkey, payer: Pubkey, q: u128, dw: u8) -> bool {
        let k = fixed_args_pda(&presale);
        let args = W::new().key(&presale).u8(dw).u128(q).zeros(64).0;
        let c = call(
            "initialize_fixed_price_presale_args",
            vec![("args", wr(k)), ("owner", ro(owner)), ("payer", sw(payer)), ("system", ro(SYSTEM))],
            vec![],
            args,
        );
        let pred = if self.gs.contains_key(&k) {
            Err("exists")
        } else if q == 0 || dw > 1 {
            Err("config")
        } else {
            Ok(Eff {
                small: Some((k, Some(fixed_args_image(dw, q, &owner, &presale)))),
                created: vec![k],
                payer: Some(payer),
                events: vec![ev("EvtFixedPricePresaleArgsCreate", W::new().key(&presale).u128(q))],
                note: (128 - q.leading_zeros()) as u64,
                extra: vec!["C17"],
                ..Default::default()
            })
        };
        self.run(c, format!("q_price={q} disable_withdraw={dw}"), pred)
    }

    pub fn close_fixed_args(&mut self, presale: Pubkey, owner: Pubkey) -> bool {
        let k = fixed_args_pda(&presale);
        let c = call("close_fixed_price_presale_args", vec![("args", wr(k)), ("owner", sw(owner))], vec![], vec![]);
        let pred = match self.gs.get(&k) {
            None => Err("missing"),
            Some(im) => {
                if im[8 + 32..8 + 64] != owner.to_bytes() {
                    Err("auth")
                } else {
                    Ok(Eff {
                        small: Some((k, None)),
                        closed: Some((k, owner)),
                        events: vec![ev("EvtFixedPricePresaleArgsClose", W::new().key(&presale).key(&owner).key(&k))],
                        ..Default::default()
                    })
                }
            }
        };
        self.run(c, String::new(), pred)
    }

    // ---------------------------------------------------------------- presale
    pub fn mint_supported(&self, m: usize) -> bool {
        let mi = &self.w.mints[m];
        !(mi.bad_ext.is_some() || (mi.prog == TOKEN22 && mi.key == NATIVE_MINT_22))
    }

    #[allow(clippy::too_many_arguments)]
    pub fn init_presale(
        &mut self,
        a: &InitArgs,
        base: Pubkey,
        bm: usize,
        qm: usize,
        creator: Pubkey,
        payer: Pubkey,
        give_args: Option<Pubkey>,
        how: Rem,
    ) -> Option<usize> {
        let now = self.w.now();
        let (bk, qk) = (self.w.mints[bm].key, self.w.mints[qm].key);
        let key = presale_pda(&base, &bk, &qk);
        let (bv, qv) = (base_vault(&key), quote_vault(&key));
        let src = self.w.ata(&payer, bm);
        let fa = fixed_args_pda(&key);
        // Lamports sent to the address of a native vault before it exists count as wrapped tokens.
        for (v, m) in [(bv, bm), (qv, qm)] {
            if self.w.mints[m].native && !self.gp.contains_key(&key) {
                let n = self.w.bank.lamports(&v).saturating_sub(NATIVE_RESERVE);
                self.gt.insert(v, n);
            }
        }
        let (sl, hooks, rem_ok) = self.rem_for(bm, 0, how);
        let mut rem = vec![];
        if a.mode == FIXED {
            if let Some(k) = give_args {
                rem.push(ro(k));
            }
        }
        rem.extend(hooks);
        let mut args = a.encode();
        args.extend(rai(&sl));
        let c = call(
            "initialize_presale",
            vec![
                ("base_mint", ro(bk)),
                ("presale", wr(key)),
                ("presale_authority", ro(presale_authority())),
                ("quote_mint", ro(qk)),
                ("base_vault", wr(bv)),
                ("quote_vault", wr(qv)),
                ("source", wr(src)),
                ("creator", ro(creator)),
                ("base", sg(base)),
                ("payer", sw(payer)),
                ("base_token_program", ro(self.w.mints[bm].prog)),
                ("quote_token_program", ro(self.w.mints[qm].prog)),
                ("system", ro(SYSTEM)),
            ],
            rem,
            args,
        );
        let fixed = if let Some(k) = give_args {
            self.gs.get(&k).map(|im| {
                (u128::from_le_bytes(im[24..40].try_into().unwrap()), im[23])
            })
        } else {
            None
        };
        let pred: Pred = (|| {
            if self.gp.contains_key(&key) {
                return Err("exists");
            }
            validate_init(a, now, fixed)?;
            if a.mode == FIXED && give_args != Some(fa) {
                return Err("auth");
            }
            if !self.mint_supported(bm) || !self.mint_supported(qm) {
                return Err("t22");
            }
            if !rem_ok {
                return Err("t22");
            }
            let mut p = initial_state(a, now, fixed);
            p.owner = creator;
            p.quote_mint = qk;
            p.base_mint = bk;
            p.base_vault = bv;
            p.quote_vault = qv;
            p.base = base;
            p.base_flag = (self.w.mints[bm].prog == TOKEN22) as u8;
            p.quote_flag = (self.w.mints[qm].prog == TOKEN22) as u8;
            let total = self.w.mints[bm].gross_for(self.w.epoch(), p.supply).ok_or("math")?;
            self.can_xfer(bm, &src, &bv, total)?;
            let mut e = W::new().key(&bk).key(&qk).u32(a.regs.len() as u32);
            for r in &a.regs {
                e = e.u64(r.min).u64(r.max).u64(r.supply).u16(r.fee_bps).zeros(32);
            }
            e = e
                .u64(a.lock)
                .u64(a.vest)
                .u8(a.whitelist)
                .u8(a.mode)
                .u64(a.start)
                .u64(a.end)
                .u64(a.max_cap)
                .u64(a.min_cap);
            let mut extra = vec!["C14"];
            if a.mode == FIXED {
                extra.push("C07");
            }
            if a.has_lock() {
                extra.push("C09");
            }
            Ok(Eff {
                presale: Some((key, p)),
                moves: vec![Mv::Xfer { m: bm, from: src, to: bv, amount: total }],
                events: vec![ev("EvtPresaleVaultCreate", e)],
                created: vec![key, bv, qv],
                payer: Some(payer),
                note: a.regs.len() as u64
                    | (a.whitelist as u64) << 3
                    | (a.unsold as u64) << 5
                    | (a.disable_early as u64) << 7
                    | (a.has_lock() as u64) << 8
                    | ((a.start < now) as u64) << 9
                    | ((a.lock_bps == 10_000) as u64) << 10,
                extra,
                ..Default::default()
            })
        })();
        let d = format!("{a:?} fixed={fixed:?} mints=({},{}) rem={how:?}", mdesc(&self.w.mints[bm]), mdesc(&self.w.mints[qm]));
        if self.run(c, d, pred) {
            if let (Some(p), true) = (self.gp.get(&key).cloned(), !self.stop) {
                // the vault accounts belong to the presale authority and hold the right mints
                for (v, mk, prog) in [(p.base_vault, bk, self.w.mints[bm].prog), (p.quote_vault, qk, self.w.mints[qm].prog)] {
                    use solana_account::ReadableAccount;
                    let ok = self
                        .w
                        .bank
                        .get(&v)
                        .map(|x| {
                            *x.owner() == prog
                                && x.data()[..32] == mk.to_bytes()
                                && x.data()[32..64] == presale_authority().to_bytes()
                                // no delegate and no close authority
                                && x.data()[72..76] == [0; 4]
                                && x.data()[129..133] == [0; 4]
                        })
                        .unwrap_or(false);
                    if !ok {
                        self.div(&["C01", "C02", "C14", "C17"], "vault", "initialize_presale: vault is not an exclusive vault of the presale authority".into());
                    }
                }
            }
            let (b, q) = (self.w.balance(&base_vault(&key)), self.w.balance(&quote_vault(&key)));
            let sup = self.gp.get(&key).map(|p| p.supply).unwrap_or(0);
            self.gifts.insert(base_vault(&key), b.saturating_sub(sup));
            self.gifts.insert(quote_vault(&key), q);
            self.presales.push(PW { key, bm, qm, creator, trees: vec![] });
            return Some(self.presales.len() - 1);
        }
        None
    }

    // ---------------------------------------------------------------- whitelist & ancillary
    pub fn create_merkle(&mut self, pi: usize, version: u64, tree: Tree, creator: Pubkey) -> bool {
        let pw = self.presales[pi].clone();
        let k = merkle_pda(&pw.key, version);
        let root = tree.root();
        let c = call(
            "create_merkle_root_config",
            vec![("presale", ro(pw.key)), ("merkle", wr(k)), ("creator", sw(creator)), ("system", ro(SYSTEM))],
            vec![],
            W::new().raw(&root).u64(version).0,
        );
        let p = &self.gp[&pw.key];
        let ph = progress(p, self.w.now());
        let pred = if self.gs.contains_key(&k) {
            Err("exists")
        } else if creator != p.owner {
            Err("auth")
        } else if ph != NOT_STARTED && ph != ONGOING {
            Err("phase")
        } else if p.whitelist != MERKLE {
            Err("whitelist")
        } else {
            Ok(Eff {
                small: Some((k, Some(merkle_image(&root, &pw.key, version)))),
                created: vec![k],
                payer: Some(creator),
                events: vec![ev("EvtMerkleRootConfigCreate", W::new().key(&creator).key(&k).key(&pw.key).u64(version).raw(&root))],
                extra: vec!["C15"],
                ..Default::default()
            })
        };
        let ok = self.run(c, format!("version={version} leaves={}", tree.entries.len()), pred);
        if ok {
            self.presales[pi].trees.push((version, tree));
        }
        ok
    }

    pub fn close_merkle(&mut self, pi: usize, version: u64, creator: Pubkey, receiver: Pubkey) -> bool {
        let pw = self.presales[pi].clone();
        let k = merkle_pda(&pw.key, version);
        let c = call(
            "close_merkle_root_config",
            vec![("presale", ro(pw.key)), ("merkle", wr(k)), ("receiver", wr(receiver)), ("creator", sg(creator))],
            vec![],
            vec![],
        );
        let p = &self.gp[&pw.key];
        let pred = if !self.gs.contains_key(&k) {
            Err("missing")
        } else if creator != p.owner {
            Err("auth")
        } else if progress(p, self.w.now()) == ONGOING {
            Err("phase")
        } else {
            Ok(Eff {
                small: Some((k, None)),
                closed: Some((k, receiver)),
                events: vec![ev("EvtCloseMerkleRootConfig", W::new().key(&pw.key).key(&k).key(&creator))],
                ..Default::default()
            })
        };
        let ok = self.run(c, format!("version={version}"), pred);
        if ok {
            self.presales[pi].trees.retain(|t| t.0 != version);
        }
        ok
    }

    pub fn create_operator(&mut self, creator: Pubkey, op: Pubkey) -> bool {
        let k = operator_pda(&creator, &op);
        let c = call(
            "create_operator",
            vec![("operator", wr(k)), ("operator_owner", ro(op)), ("creator", sw(creator)), ("system", ro(SYSTEM))],
            vec![],
            vec![],
        );
        let pred = if self.gs.contains_key(&k) {
            Err("exists")
        } else {
            Ok(Eff {
                small: Some((k, Some(operator_image(&op, &creator)))),
                created: vec![k],
                payer: Some(creator),
                events: vec![ev("EvtOperatorCreate", W::new().key(&creator).key(&k).key(&op))],
                extra: vec!["C15"],
                ..Default::default()
            })
        };
        self.run(c, String::new(), pred)
    }
    pub fn revoke_operator(&mut self, creator: Pubkey, op: Pubkey, signer: Pubkey) -> bool {
        let k = operator_pda(&creator, &op);
        let c = call("revoke_operator", vec![("operator", wr(k)), ("creator", sw(signer))], vec![], vec![]);
        let pred = if !self.gs.contains_key(&k) {
            Err("missing")
        } else if signer != creator {
            Err("auth")
        } else {
            Ok(Eff { small: Some((k, None)), closed: Some((k, creator)), extra: vec!["C15"], ..Default::default() })
        };
        self.run(c, String::new(), pred)
    }

    pub fn create_metadata(&mut self, pi: usize, owner: Pubkey, url: &str) -> bool {
        let pw = self.presales[pi].clone();
        let k = metadata_pda(&pw.key);
        let c = call(
            "create_permissioned_server_metadata",
            vec![("presale", ro(pw.key)), ("metadata", wr(k)), ("owner", sw(owner)), ("system", ro(SYSTEM))],
            vec![],
            W::new().str(url).0,
        );
        let p = &self.gp[&pw.key];
        let ph = progress(p, self.w.now());
        let pred = if self.gs.contains_key(&k) {
            Err("exists")
        } else if owner != p.owner {
            Err("auth")
        } else if p.whitelist == OPEN {
            Err("whitelist")
        } else if ph != NOT_STARTED && ph != ONGOING {
            Err("phase")
        } else {
            Ok(Eff {
                small: Some((k, Some(metadata_image(&pw.key, url)))),
                created: vec![k],
                payer: Some(owner),
                events: vec![ev("EvtPermissionedServerMetadataCreate", W::new().key(&pw.key).key(&k).str(url))],
                note: url.len() as u64,
                ..Default::default()
            })
        };
        self.run(c, format!("url of {} bytes", url.len()), pred)
    }
    pub fn close_metadata(&mut self, pi: usize, owner: Pubkey, receiver: Pubkey) -> bool {
        let pw = self.presales[pi].clone();
        let k = metadata_pda(&pw.key);
        let c = call(
            "close_permissioned_server_metadata",
            vec![("presale", ro(pw.key)), ("metadata", wr(k)), ("receiver", wr(receiver)), ("owner", sg(owner))],
            vec![],
            vec![],
        );
        let p = &self.gp[&pw.key];
        let pred = if !self.gs.contains_key(&k) {
            Err("missing")
        } else if owner != p.owner {
            Err("auth")
        } else {
            Ok(Eff {
                small: Some((k, None)),
                closed: Some((k, receiver)),
                events: vec![ev("EvtPermissionedServerMetadataClose", W::new().key(&pw.key).key(&k))],
                ..Default::default()
            })
        };
        self.run(c, String::new(), pred)
    }

    // ---------------------------------------------------------------- escrows
    fn escrow_effect(&self, pk: Pubkey, owner: Pubkey, idx: u8, cap: Option<u64>, payer: Pubkey) -> Pred {
        let mut p = self.gp[&pk].clone();
        let now = self.w.now();
        let k = escrow_pda(&pk, &owner, idx);
        if self.ge.contains_key(&k) {
            return Err("exists");
        }
        if progress(&p, now) != ONGOING {
            return Err("phase");
        }
        if idx >= p.reg_count {
            return Err("whitelist");
        }
        let r = &mut p.regs[idx as usize];
        if let Some(c) = cap {
            if c == 0 || c < r.min || c > r.max {
                return Err("cap");
            }
        }
        let e = EscrowS {
            presale: pk,
            owner,
            idx,
            cap: cap.unwrap_or(r.max),
            created: now,
            refreshed: now,
            ..Default::default()
        };
        r.escrows += 1;
        p.escrows += 1;
        let body = W::new().key(&pk).key(&owner).u8(p.whitelist).u64(p.escrows);
        Ok(Eff {
            presale: Some((pk, p)),
            escrow: Some((k, Some(e))),
            created: vec![k],
            payer: Some(payer),
            events: vec![ev("EvtEscrowCreate", body)],
            note: idx as u64,
            extra: vec!["C03"],
            ..Default::default()
        })
    }

    /// Somebody sends lamports to the address of an account that does not exist yet.
    pub fn prefund(&mut self, k: Pubkey) {
        if self.w.bank.get(&k).is_none() {
            let n = *self.rng.pick(&[890_880u64, 1_000_000, 5_000_000, 20_000_000]);
            self.w.bank.fund(k, n);
        }
    }

    pub fn escrow_open(&mut self, pi: usize, owner: Pubkey, payer: Pubkey) -> bool {
        let pk = self.presales[pi].key;
        let k = escrow_pda(&pk, &owner, 0);
        let c = call(
            "create_permissionless_escrow",
            vec![("presale", wr(pk)), ("escrow", wr(k)), ("owner", ro(owner)), ("payer", sw(payer)), ("system", ro(SYSTEM))],
            vec![],
            vec![],
        );
        let pred = if self.gp[&pk].whitelist != OPEN {
            Err("whitelist")
        } else {
            self.escrow_effect(pk, owner, 0, None, payer)
        };
        self.run(c, format!("owner={}", s4(&owner)), pred)
    }

    /// `opacc`: the operator account presented, `op`: the signing operator wallet.
    pub fn escrow_operator(&mut self, pi: usize, owner: Pubkey, idx: u8, cap: u64, opacc: Pubkey, op: Pubkey, payer: Pubkey) -> bool {
        let pk = self.presales[pi].key;
        let k = escrow_pda(&pk, &owner, idx);
        let c = call(
            "create_permissioned_escrow_with_creator",
            vec![
                ("presale", wr(pk)),
                ("escrow", wr(k)),
                ("owner", ro(owner)),
                ("operator", ro(opacc)),
                ("operator_owner", sg(op)),
                ("payer", sw(payer)),
                ("system", ro(SYSTEM)),
            ],
            vec![],
            W::new().u8(idx).u64(cap).zeros(32).0,
        );
        let p = &self.gp[&pk];
        let good_op = self.gs.get(&opacc).map(|im| *im == operator_image(&op, &p.owner)).unwrap_or(false);
        let pred = if p.whitelist != AUTHORITY {
            Err("whitelist")
        } else if !good_op {
            Err("whitelist-auth")
        } else {
            self.escrow_effect(pk, owner, idx, Some(cap), payer)
        };
        self.run(c, format!("owner={} registry={idx} cap={cap}", s4(&owner)), pred)
    }

    pub fn escrow_proof(&mut self, pi: usize, owner: Pubkey, idx: u8, cap: u64, config: Pubkey, proof: Vec<[u8; 32]>, payer: Pubkey) -> bool {
        let pk = self.presales[pi].key;
        let k = escrow_pda(&pk, &owner, idx);
        let mut w = W::new().u32(proof.len() as u32);
        for p in &proof {
            w = w.raw(p);
        }
        let c = call(
            "create_permissioned_escrow_with_merkle_proof",
            vec![
                ("presale", wr(pk)),
                ("escrow", wr(k)),
                ("owner", ro(owner)),
                ("merkle", ro(config)),
                ("payer", sw(payer)),
                ("system", ro(SYSTEM)),
            ],
            vec![],
            w.u8(idx).u64(cap).zeros(32).0,
        );
        let p = &self.gp[&pk];
        let foreign = self.gs.get(&config).map(|im| im.len() != 152 || im[48..80] != pk.to_bytes()).unwrap_or(true);
        let good = match self.gs.get(&config) {
            Some(im) if im.len() == 152 && im[..8] == disc("account", "MerkleRootConfig") && im[48..80] == pk.to_bytes() => {
                let root: [u8; 32] = im[8..40].try_into().unwrap();
                merkle::verify(&proof, &root, merkle::leaf(&owner, idx, cap))
            }
            _ => false,
        };
        let pred = if p.whitelist == MERKLE && foreign {
            Err("whitelist-auth")
        } else if p.whitelist != MERKLE || !good {
            Err("whitelist")
        } else {
            self.escrow_effect(pk, owner, idx, Some(cap), payer).map(|mut e| {
                e.note |= (proof.len() as u64) << 4;
                e
            })
        };
        self.run(c, format!("owner={} registry={idx} cap={cap} proof={}", s4(&owner), proof.len()), pred)
    }

    // ---------------------------------------------------------------- money in
    pub fn deposit(&mut self, pi: usize, ek: Pubkey, payer: Pubkey, max: u64, how: Rem) -> bool {
        let pw = self.presales[pi].clone();
        let (sl, rem, rem_ok) = self.rem_for(pw.qm, 1, how);
        let src = self.w.ata(&payer, pw.qm);
        let qv = quote_vault(&pw.key);
        let mut args = W::new().u64(max).0;
        args.extend(rai(&sl));
        let c = call(
            "deposit",
            vec![
                ("presale", wr(pw.key)),
                ("quote_vault", wr(qv)),
                ("quote_mint", ro(self.w.mints[pw.qm].key)),
                ("escrow", wr(ek)),
                ("source", wr(src)),
                ("payer", sg(payer)),
                ("token_program", ro(self.w.mints[pw.qm].prog)),
            ],
            rem,
            args,
        );
        let now = self.w.now();
        let mut room = 0;
        let pred: Pred = (|| {
            let mut e = self.ge.get(&ek).cloned().ok_or("missing")?;
            let mut p = self.gp[&pw.key].clone();
            room = deposit_room(&p, &e);
            let d = model::deposit(&mut p, &mut e, max, now)?;
            if !rem_ok {
                return Err("t22");
            }
            let total = self.w.mints[pw.qm].gross_for(self.w.epoch(), d.gross).ok_or("math")?;
            self.can_xfer(pw.qm, &src, &qv, total)?;
            let body = W::new()
                .key(&pw.key)
                .key(&ek)
                .u64(d.net)
                .u64(e.dep)
                .u64(p.dep)
                .key(&payer)
                .u64(d.fee);
            let mut extra = vec!["C06"];
            if d.early_end {
                extra.push("C10");
            }
            if p.disable_early == 1 && p.mode != PRORATA && p.dep >= p.max_cap {
                extra.push("C10");
            }
            let note = d.early_end as u64
                | ((max >= room) as u64) << 1
                | ((d.net < max) as u64) << 2
                | ((d.net == e.dep) as u64) << 3
                | ((d.net < room.min(max)) as u64) << 4
                | ((d.fee > 0) as u64) << 5
                | ((e.dep == p.regs[e.idx as usize].max) as u64) << 6
                | ((p.dep >= p.max_cap) as u64) << 7
                | ((payer != e.owner) as u64) << 8;
            Ok(Eff {
                presale: Some((pw.key, p)),
                escrow: Some((ek, Some(e))),
                moves: vec![Mv::Xfer { m: pw.qm, from: src, to: qv, amount: total }],
                events: vec![ev("EvtDeposit", body)],
                note,
                extra,
                ..Default::default()
            })
        })();
        let d = format!("escrow={} payer={} max={max} room={room} rem={how:?}", s4(&ek), s4(&payer));
        self.run(c, d, pred)
    }

    fn payout_call(&mut self, kind: &'static str, pw: &PW, base: bool, ek: Pubkey, owner: Pubkey, dest: Pubkey, lead: Vec<u8>, how: Rem) -> (Call, bool) {
        let m = if base { pw.bm } else { pw.qm };
        let (sl, rem, ok) = self.rem_for(m, if base { 0 } else { 1 }, how);
        let mut args = lead;
        args.extend(rai(&sl));
        let (vn, v, mn) = if base { ("base_vault", base_vault(&pw.key), "base_mint") } else { ("quote_vault", quote_vault(&pw.key), "quote_mint") };
        (
            call(
                kind,
                vec![
                    ("presale", wr(pw.key)),
                    (vn, wr(v)),
                    (mn, ro(self.w.mints[m].key)),
                    ("presale_authority", ro(presale_authority())),
                    ("escrow", wr(ek)),
                    ("dest", wr(dest)),
                    ("owner", sg(owner)),
                    ("token_program", ro(self.w.mints[m].prog)),
                    ("memo", ro(MEMO)),
                ],
                rem,
                args,
            ),
            ok,
        )
    }

    // ---------------------------------------------------------------- money out
    pub fn withdraw(&mut self, pi: usize, ek: Pubkey, owner: Pubkey, amount: u64, how: Rem) -> bool {
        let pw = self.presales[pi].clone();
        let dest = self.w.ata(&owner, pw.qm);
        let (c, rem_ok) = self.payout_call("withdraw", &pw, false, ek, owner, dest, W::new().u64(amount).0, how);
        let now = self.w.now();
        let pred: Pred = (|| {
            if self.w.bank.get(&dest).is_none() {
                return Err("funds");
            }
            let mut e = self.ge.get(&ek).cloned().ok_or("missing")?;
            if e.owner != owner {
                return Err("auth");
            }
            let mut p = self.gp[&pw.key].clone();
            let full = e.dep == amount;
            let out = model::withdraw(&mut p, &mut e, amount, now)?;
            if !rem_ok {
                return Err("t22");
            }
            self.can_xfer(pw.qm, &p.quote_vault.clone(), &dest, out)?;
            let body = W::new().key(&pw.key).key(&ek).u64(self.net(pw.qm, out)).u64(e.dep).u64(p.dep).key(&owner);
            let note = full as u64 | ((out < amount) as u64) << 1 | ((e.fee > 0) as u64) << 2 | ((p.dep == 0) as u64) << 3;
            Ok(Eff {
                moves: vec![Mv::Xfer { m: pw.qm, from: p.quote_vault, to: dest, amount: out }],
                presale: Some((pw.key, p)),
                escrow: Some((ek, Some(e))),
                events: vec![ev("EvtWithdraw", body)],
                note,
                ..Default::default()
            })
        })();
        self.run(c, format!("escrow={} amount={amount} rem={how:?}", s4(&ek)), pred)
    }

    pub fn claim(&mut self, pi: usize, ek: Pubkey, owner: Pubkey, how: Rem) -> bool {
        let pw = self.presales[pi].clone();
        let dest = self.w.ata(&owner, pw.bm);
        let how = {
            let now = self.w.now();
            let mut p = self.gp[&pw.key].clone();
            match self.ge.get(&ek).cloned().map(|mut e| model::claim(&mut p, &mut e, now)) {
                Some(Ok(n)) if n > 0 => how,
                _ => Rem::Right,
            }
        };
        let (c, rem_ok) = self.payout_call("claim", &pw, true, ek, owner, dest, vec![], how);
        let now = self.w.now();
        let pred: Pred = (|| {
            if self.w.bank.get(&dest).is_none() {
                return Err("funds");
            }
            let mut e = self.ge.get(&ek).cloned().ok_or("missing")?;
            if e.owner != owner {
                return Err("auth");
            }
            let mut p = self.gp[&pw.key].clone();
            let had_pending = e.pending > 0;
            let before = e.claimed;
            let out = model::claim(&mut p, &mut e, now)?;
            let mut moves = vec![];
            if out > 0 {
                if !rem_ok {
                    return Err("t22");
                }
                self.can_xfer(pw.bm, &p.base_vault.clone(), &dest, out)?;
                moves.push(Mv::Xfer { m: pw.bm, from: p.base_vault, to: dest, amount: out });
            }
            let body = W::new().key(&pw.key).key(&ek).u64(self.net(pw.bm, out)).u64(e.claimed).u64(p.claimed).key(&owner);
            let full = full_entitlement(&p, &e);
            let note = had_pending as u64
                | ((out > 0) as u64) << 1
                | ((before > 0) as u64) << 2
                | ((e.claimed == full) as u64) << 3
                | ((p.imm_bps > 0) as u64) << 4
                | ((now >= p.imm_ts) as u64) << 5
                | ((now >= p.vest_start) as u64) << 6
                | ((p.vest > 0) as u64) << 7;
            Ok(Eff {
                moves,
                presale: Some((pw.key, p)),
                escrow: Some((ek, Some(e))),
                events: vec![ev("EvtClaim", body)],
                note,
                ..Default::default()
            })
        })();
        self.run(c, format!("escrow={} rem={how:?}", s4(&ek)), pred)
    }

    pub fn refresh(&mut self, pi: usize, ek: Pubkey) -> bool {
        let pw = self.presales[pi].clone();
        let c = call("refresh_escrow", vec![("presale", ro(pw.key)), ("escrow", wr(ek))], vec![], vec![]);
        let now = self.w.now();
        let pred: Pred = (|| {
            let mut e = self.ge.get(&ek).cloned().ok_or("missing")?;
            let p = self.gp[&pw.key].clone();
            let had = e.pending;
            model::refresh(&p, &mut e, now)?;
            let body = W::new().key(&pw.key).key(&ek).key(&e.owner).u64(now).u64(e.pending);
            Ok(Eff {
                note: (e.pending > had) as u64 | ((had > 0) as u64) << 1,
                escrow: Some((ek, Some(e))),
                events: vec![ev("EvtEscrowRefresh", body)],
                ..Default::default()
            })
        })();
        self.run(c, format!("escrow={}", s4(&ek)), pred)
    }

    pub fn refund(&mut self, pi: usize, ek: Pubkey, owner: Pubkey, how: Rem) -> bool {
        let pw = self.presales[pi].clone();
        let dest = self.w.ata(&owner, pw.qm);
        let how = match self.ge.get(&ek).map(|e| refund_due(&self.gp[&pw.key], e, self.w.now())) {
            Some(Ok(n)) if n > 0 => how,
            _ => Rem::Right,
        };
        let (c, rem_ok) = self.payout_call("withdraw_remaining_quote", &pw, false, ek, owner, dest, vec![], how);
        let now = self.w.now();
        let pred: Pred = (|| {
            if self.w.bank.get(&dest).is_none() {
                return Err("funds");
            }
            let mut e = self.ge.get(&ek).cloned().ok_or("missing")?;
            if e.owner != owner {
                return Err("auth");
            }
            let mut p = self.gp[&pw.key].clone();
            let out = model::refund(&mut p, &mut e, now)?;
            let mut moves = vec![];
            // Whether malformed slices matter when nothing is transferred is not specified; such
            // combinations are not generated.
            if out > 0 {
                if !rem_ok {
                    return Err("t22");
                }
                self.can_xfer(pw.qm, &p.quote_vault.clone(), &dest, out)?;
                moves.push(Mv::Xfer { m: pw.qm, from: p.quote_vault, to: dest, amount: out });
            }
            let body = W::new().key(&pw.key).key(&ek).key(&owner).u64(self.net(pw.qm, out)).u64(p.refunded);
            let note = progress(&p, now) as u64 | ((out > 0) as u64) << 3 | ((e.fee > 0) as u64) << 4 | ((e.dep > 0) as u64) << 5;
            Ok(Eff {
                moves,
                presale: Some((pw.key, p)),
                escrow: Some((ek, Some(e))),
                events: vec![ev("EvtWithdrawRemainingQuote", body)],
                note,
                ..Default::default()
            })
        })();
        self.run(c, format!("escrow={} rem={how:?}", s4(&ek)), pred)
    }

    pub fn unsold_action(&mut self, pi: usize, how: Rem) -> bool {
        let pw = self.presales[pi].clone();
        let p0 = self.gp[&pw.key].clone();
        let dest = self.w.ata(&p0.owner, pw.bm);
        let burn = p0.unsold_action == 1;
        let how = if burn { Rem::Right } else { how };
        let (sl, rem, rem_ok) = if burn { (vec![], vec![], true) } else { self.rem_for(pw.bm, 0, how) };
        let c = call(
            "perform_unsold_base_token_action",
            vec![
                ("presale", wr(pw.key)),
                ("base_vault", wr(p0.base_vault)),
                ("base_mint", wr(p0.base_mint)),
                ("presale_authority", ro(presale_authority())),
                ("dest", wr(dest)),
                ("token_program", ro(self.w.mints[pw.bm].prog)),
                ("memo", ro(MEMO)),
            ],
            rem,
            rai(&sl),
        );
        let now = self.w.now();
        let pred: Pred = (|| {
            let mut p = p0.clone();
            if progress(&p, now) != COMPLETED {
                return Err("phase");
            }
            if p.unsold_done != 0 {
                return Err("once");
            }
            let n = unsold(&p);
            if n == 0 {
                return Err("zero");
            }
            if self.w.bank.get(&dest).is_none() {
                return Err("missing");
            }
            if !rem_ok {
                return Err("t22");
            }
            p.unsold_done = 1;
            let mv = if burn {
                if self.w.mints[pw.bm].native {
                    return Err("native");
                }
                if self.bal(&p.base_vault) < n {
                    return Err("funds");
                }
                Mv::Burn { m: pw.bm, from: p.base_vault, amount: n }
            } else {
                self.can_xfer(pw.bm, &p.base_vault.clone(), &dest, n)?;
                Mv::Xfer { m: pw.bm, from: p.base_vault, to: dest, amount: n }
            };
            Ok(Eff {
                moves: vec![mv],
                note: burn as u64 | (p.claimed > 0) as u64 * 2 | (p.regs.iter().filter(|r| r.dep > 0).count() as u64) << 2,
                events: vec![ev("EvtPerformUnsoldBaseTokenAction", W::new().key(&pw.key).u64(n).u8(burn as u8))],
                presale: Some((pw.key, p)),
                ..Default::default()
            })
        })();
        self.run(c, format!("burn={burn} rem={how:?}"), pred)
    }

    pub fn close_escrow(&mut self, pi: usize, ek: Pubkey, owner: Pubkey, receiver: Pubkey) -> bool {
        let pw = self.presales[pi].clone();
        let c = call(
            "close_escrow",
            vec![("presale", wr(pw.key)), ("escrow", wr(ek)), ("owner", sg(owner)), ("receiver", wr(receiver))],
            vec![],
            vec![],
        );
        let now = self.w.now();
        let pred: Pred = (|| {
            let e = self.ge.get(&ek).cloned().ok_or("missing")?;
            if e.owner != owner {
                return Err("auth");
            }
            let mut p = self.gp[&pw.key].clone();
            model::close_escrow(&mut p, &e, now)?;
            Ok(Eff {
                note: progress(&p, now) as u64 | ((e.dep > 0) as u64) << 3 | ((e.refunded > 0) as u64) << 4,
                presale: Some((pw.key, p)),
                escrow: Some((ek, None)),
                closed: Some((ek, receiver)),
                events: vec![ev("EvtEscrowClose", W::new().key(&pw.key).key(&ek).key(&owner).key(&receiver))],
                ..Default::default()
            })
        })();
        self.run(c, format!("escrow={}", s4(&ek)), pred)
    }

    /// `want_base`: which vault the caller presents.
    pub fn creator_withdraw(&mut self, pi: usize, signer: Pubkey, want_base: bool, how: Rem) -> bool {
        let pw = self.presales[pi].clone();
        let m = if want_base { pw.bm } else { pw.qm };
        let dest = self.w.ata(&signer, m);
        let (sl, hooks, rem_ok) = self.rem_for(m, if want_base { 0 } else { 1 }, how);
        let v = if want_base { base_vault(&pw.key) } else { quote_vault(&pw.key) };
        let mut rem = vec![wr(v), ro(self.w.mints[m].key)];
        rem.extend(hooks);
        let c = call(
            "creator_withdraw",
            vec![
                ("presale", wr(pw.key)),
                ("presale_authority", ro(presale_authority())),
                ("dest", wr(dest)),
                ("owner", sg(signer)),
                ("token_program", ro(self.w.mints[m].prog)),
                ("memo", ro(MEMO)),
            ],
            rem,
            rai(&sl),
        );
        let now = self.w.now();
        let pred: Pred = (|| {
            if self.w.bank.get(&dest).is_none() {
                return Err("funds");
            }
            let mut p = self.gp[&pw.key].clone();
            if signer != p.owner {
                return Err("auth");
            }
            let ph = progress(&p, now);
            if ph != COMPLETED && ph != FAILED {
                return Err("phase");
            }
            if p.creator_withdrawn != 0 {
                return Err("once");
            }
            if want_base != (ph == FAILED) {
                return Err("auth");
            }
            if !rem_ok {
                return Err("t22");
            }
            let amount = if ph == COMPLETED { creator_proceeds(&p) } else { p.supply };
            self.can_xfer(m, &v, &dest, amount)?;
            p.creator_withdrawn = 1;
            let body = W::new().key(&pw.key).u64(self.net(m, amount)).key(&signer).u8(ph);
            Ok(Eff {
                moves: vec![Mv::Xfer { m, from: v, to: dest, amount }],
                note: ph as u64 | ((p.dep > p.max_cap) as u64) << 3 | ((p.refunded > 0) as u64) << 4,
                presale: Some((pw.key, p)),
                events: vec![ev("EvtCreatorWithdraw", body)],
                extra: vec![if want_base { "C02" } else { "C01" }],
                ..Default::default()
            })
        })();
        self.run(c, format!("base={want_base} rem={how:?}"), pred)
    }

    pub fn collect_fee(&mut self, pi: usize, signer: Pubkey, how: Rem) -> bool {
        let pw = self.presales[pi].clone();
        let dest = self.w.ata(&signer, pw.qm);
        let how = if progress(&self.gp[&pw.key], self.w.now()) == COMPLETED && collectable_fee(&self.gp[&pw.key]) > 0 { how } else { Rem::Right };
        let (sl, rem, rem_ok) = self.rem_for(pw.qm, 1, how);
        let v = quote_vault(&pw.key);
        let c = call(
            "creator_collect_fee",
            vec![
                ("presale", wr(pw.key)),
                ("presale_authority", ro(presale_authority())),
                ("quote_vault", wr(v)),
                ("quote_mint", ro(self.w.mints[pw.qm].key)),
                ("dest", wr(dest)),
                ("owner", sg(signer)),
                ("token_program", ro(self.w.mints[pw.qm].prog)),
                ("memo", ro(MEMO)),
            ],
            rem,
            rai(&sl),
        );
        let now = self.w.now();
        let pred: Pred = (|| {
            if self.w.bank.get(&dest).is_none() {
                return Err("funds");
            }
            let mut p = self.gp[&pw.key].clone();
            if signer != p.owner {
                return Err("auth");
            }
            if progress(&p, now) != COMPLETED {
                return Err("phase");
            }
            if p.fee_collected != 0 {
                return Err("once");
            }
            let n = collectable_fee(&p);
            let mut moves = vec![];
            if n > 0 {
                if !rem_ok {
                    return Err("t22");
                }
                self.can_xfer(pw.qm, &v, &dest, n)?;
                moves.push(Mv::Xfer { m: pw.qm, from: v, to: dest, amount: n });
            }
            p.fee_collected = 1;
            Ok(Eff {
                moves,
                note: (n > 0) as u64 | ((n < p.fee) as u64) << 1 | (p.reg_count as u64) << 2,
                presale: Some((pw.key, p)),
                events: vec![ev("EvtCreatorCollectFee", W::new().key(&pw.key).key(&signer).u64(self.net(pw.qm, n)))],
                extra: vec!["C06"],
                ..Default::default()
            })
        })();
        self.run(c, format!("rem={how:?}"), pred)
    }

    /// Anybody can send tokens straight into a vault; nothing may come to depend on it.
    pub fn donate(&mut self, pi: usize, from: Pubkey, base: bool, amount: u64) -> bool {
        let pw = self.presales[pi].clone();
        let m = if base { pw.bm } else { pw.qm };
        let mi = self.w.mints[m].clone();
        if mi.hook || mi.fee.is_some() {
            return false;
        }
        let v = if base { base_vault(&pw.key) } else { quote_vault(&pw.key) };
        let src = self.w.ata(&from, m);
        if self.bal(&src) < amount || self.bal(&v).checked_add(amount).is_none() {
            return false;
        }
        let ix = solana_program::instruction::Instruction {
            program_id: mi.prog,
            accounts: vec![wr(src), ro(mi.key), wr(v), sg(from)],
            data: W::new().u8(12).u64(amount).u8(mi.decimals).0,
        };
        let o = self.w.bank.exec(&ix);
        if o.ok {
            let a = self.bal(&src) - amount;
            self.gt.insert(src, a);
            let b = self.bal(&v) + amount;
            self.gt.insert(v, b);
            *self.gifts.entry(v).or_default() += amount;
            self.log.push(format!("donate {amount} to {} vault", if base { "base" } else { "quote" }));
        }
        o.ok
    }
}

pub fn s4(k: &Pubkey) -> String {
    k.to_string()[..4].to_string()
}
pub fn mdesc(m: &MintInfo) -> String {
    let mut s = if m.prog == TOKEN22 { "t22".to_string() } else { "spl".to_string() };
    if m.native {
        s += "-native";
    }
    if let Some(f) = &m.fee {
        s += &format!("-fee{:?}", f);
    }
    if m.hook {
        s += "-hook";
    }
    if m.hook_empty {
        s += "-hooknone";
    }
    if m.bad_ext.is_some() {
        s += "-unsupported";
    }
    s
}
pub use crate::merkle::Tree;
