#!/usr/bin/env python3
"""refactor.py SCRATCH [props..]: behaviour-preserving rewrites of SCRATCH/repo (all at once); every check in
SCRATCH/verif has to stay silent. Groups can be selected with G=a,b."""
import sys,subprocess,os
P='/programs/presale/src/'; I=P+'instructions/'; ML='/merkle-tree/src/'
E=[]
def e(g,f,o,n): E.append((g,f,o,n))
# loops rewritten
e('loop',P+'state/presale.rs','''                let mut total_fee: u64 = 0;

                for registry in self.presale_registries.iter() {
                    // We can early break because registries are ordered from initialized -> uninitialized
                    if registry.is_uninitialized() {
                        break;
                    }

                    let RemainingQuote { refund_fee, .. } = registry
                        .get_finalized_presale_remaining_quote(
                            presale_remaining_quote,
                            self.total_deposit,
                        )?;

                    let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;
                    total_fee = total_fee.safe_add(registry_collected_fee)?;
                }

                Ok(total_fee)''','''                self.presale_registries
                    .iter()
                    .take(self.total_presale_registry_count.into())
                    .try_fold(0u64, |acc, r| -> Result<u64> {
                        let back = r
                            .get_finalized_presale_remaining_quote(
                                presale_remaining_quote,
                                self.total_deposit,
                            )?
                            .refund_fee;
                        Ok(acc.safe_add(r.total_deposit_fee.safe_sub(back)?)?)
                    })''')
e('loop',P+'presale_mode_handler/mod.rs','''    let mut total_token_sold = 0;

    for registry in presale.presale_registries.iter() {
        if registry.is_uninitialized() {
            break;
        }

        if registry.total_deposit == 0 {
            continue;
        }

        total_token_sold = total_token_sold.safe_add(registry.presale_supply)?;
    }

    Ok(total_token_sold)''','''    let sold = presale
        .presale_registries
        .iter()
        .filter(|r| !r.is_uninitialized() && r.total_deposit > 0)
        .map(|r| r.presale_supply)
        .sum();

    Ok(sold)''')
e('loop',P+'state/presale.rs','''        if current_timestamp < self.presale_start_time {
            return PresaleProgress::NotStarted;
        } else if current_timestamp < self.presale_end_time {
            return PresaleProgress::Ongoing;
        }

        if self.total_deposit >= self.presale_minimum_cap {
            PresaleProgress::Completed
        } else {
            PresaleProgress::Failed
        }''','''        match (
            current_timestamp >= self.presale_start_time,
            current_timestamp >= self.presale_end_time,
        ) {
            (false, _) => PresaleProgress::NotStarted,
            (true, false) => PresaleProgress::Ongoing,
            (true, true) if self.total_deposit < self.presale_minimum_cap => PresaleProgress::Failed,
            (true, true) => PresaleProgress::Completed,
        }''')
e('loop',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','''    let mut computed_hash = leaf;
    for proof_element in proof.into_iter() {
        if computed_hash <= proof_element {
            // Hash(current computed hash + current element of the proof)
            computed_hash = hashv(&[&[1u8], &computed_hash, &proof_element]).to_bytes();
        } else {
            // Hash(current element of the proof + current computed hash)
            computed_hash = hashv(&[&[1u8], &proof_element, &computed_hash]).to_bytes();
        }
    }
    // Check if the computed hash (root) is equal to the provided root
    computed_hash == root''','''    root == proof.iter().fold(leaf, |node, sibling| {
        let (low, high) = if *sibling < node { (sibling, &node) } else { (&node, sibling) };
        hashv(&[&[1u8], low, high]).to_bytes()
    })''')
e('sig',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','pub fn verify(proof: Vec<[u8; 32]>,','pub fn verify(proof: &[[u8; 32]],')
e('sig',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs','verify(proof, ','verify(&proof, ')
e('sig',ML+'config_merkle_tree.rs','if !verify(proof, root','if !verify(&proof, root')
# arithmetic rewritten
e('math',P+'math/fee_math.rs','''    let adjusted_deposit_amount = match rounding {
        Rounding::Up => adjust_deposit_amount.safe_add(denominator.safe_sub(1)?)?,
        Rounding::Down => adjust_deposit_amount,
    };

    // Denominator always > 0
    let fee_included_deposit_amount = adjusted_deposit_amount.safe_div(denominator)?;''','''    require!(denominator > 0, PresaleError::MathOverflow);
    let fee_included_deposit_amount = match rounding {
        Rounding::Up => adjust_deposit_amount.div_ceil(denominator),
        Rounding::Down => adjust_deposit_amount / denominator,
    };''')
e('math',P+'math/claim_math.rs','''        let elapsed_seconds = current_timestamp
            .safe_sub(vesting_start_time)?
            .min(vest_duration);

        u128::from(vested_amount)
            .safe_mul(elapsed_seconds.into())?
            .safe_div(vest_duration.into())?''','''        let elapsed = current_timestamp - vesting_start_time;
        if elapsed >= vest_duration {
            u128::from(vested_amount)
        } else {
            u128::from(vested_amount) * u128::from(elapsed) / u128::from(vest_duration)
        }''')
e('math',P+'state/escrow.rs','''        if self.total_deposit >= maximum_buy_cap {
            return Ok(0);
        }

        let remaining_quota = maximum_buy_cap.safe_sub(self.total_deposit)?;
        Ok(remaining_quota)''','''        Ok(maximum_buy_cap.saturating_sub(self.total_deposit))''')
e('math',P+'state/escrow.rs','''        self.total_claimed_token = self
            .total_claimed_token
            .safe_add(self.pending_claim_token)?;
        let claimed_token = self.pending_claim_token;
        self.pending_claim_token = 0;
        Ok(claimed_token)''','''        let due = std::mem::take(&mut self.pending_claim_token);
        self.total_claimed_token = self.total_claimed_token.safe_add(due)?;
        Ok(due)''')
# statements reordered
e('order',P+'state/presale.rs','''        presale_registry.deposit(escrow, deposit_amount, deposit_fee_calculation.fee)?;

        self.total_deposit = self.total_deposit.safe_add(deposit_amount)?;
        self.total_deposit_fee = self
            .total_deposit_fee
            .safe_add(deposit_fee_calculation.fee)?;
''','''        self.total_deposit_fee = self
            .total_deposit_fee
            .safe_add(deposit_fee_calculation.fee)?;
        self.total_deposit = self.total_deposit.safe_add(deposit_amount)?;
        self.get_presale_registry_mut(escrow.registry_index.into())?
            .deposit(escrow, deposit_amount, deposit_fee_calculation.fee)?;
''')
e('order',P+'state/presale.rs','''        self.vesting_start_time = vesting_start_time;
        self.vesting_end_time = vesting_end_time;

        self.immediate_release_timestamp = self
            .presale_end_time
            .safe_add(duration_until_immediate_release)?;
''','''        self.immediate_release_timestamp =
            new_presale_end_time.safe_add(duration_until_immediate_release)?;
        self.vesting_end_time = vesting_end_time;
        self.vesting_start_time = vesting_start_time;
''')
e('order',I+'process_withdraw.rs','''    // 2. Ensure withdraw amount > 0
    require!(max_amount > 0, PresaleError::ZeroTokenAmount);

    // 3. Have enough balance to withdraw
    require!(
        escrow.total_deposit >= max_amount,
        PresaleError::InsufficientEscrowBalance
    );

    // 4. Ensure presale mode allows withdraw
    let presale_mode_handler = get_presale_mode_handler(&presale)?;
    require!(
        presale_mode_handler.can_withdraw(),
        PresaleError::PresaleNotOpenForWithdraw
    );
''','''    let presale_mode_handler = get_presale_mode_handler(&presale)?;
    require!(
        presale_mode_handler.can_withdraw(),
        PresaleError::PresaleNotOpenForWithdraw
    );

    require!(
        escrow.total_deposit >= max_amount,
        PresaleError::InsufficientEscrowBalance
    );
    require!(max_amount > 0, PresaleError::ZeroTokenAmount);
''')
# transfer and event in the other order; hook parsing hoisted
e('order',I+'process_deposit.rs','''    transfer_from_user(
        &ctx.accounts.payer,
        &ctx.accounts.quote_mint,
        &ctx.accounts.payer_quote_token,
        &ctx.accounts.quote_token_vault,
        &ctx.accounts.token_program,
        include_transfer_fee_deposit_amount,
        None,
        transfer_hook_accounts.transfer_hook_quote,
    )?;

    emit_cpi!(EvtDeposit {
        presale: ctx.accounts.presale.key(),
        escrow: ctx.accounts.escrow.key(),
        deposit_amount: suggested_deposit_amount,
        escrow_total_deposit_amount: escrow.total_deposit,
        presale_total_deposit_amount: presale.total_deposit,
        owner: ctx.accounts.payer.key(),
        deposit_fee: fee,
    });
''','''    emit_cpi!(EvtDeposit {
        presale: ctx.accounts.presale.key(),
        escrow: ctx.accounts.escrow.key(),
        deposit_amount: suggested_deposit_amount,
        escrow_total_deposit_amount: escrow.total_deposit,
        presale_total_deposit_amount: presale.total_deposit,
        owner: ctx.accounts.payer.key(),
        deposit_fee: fee,
    });

    transfer_from_user(
        &ctx.accounts.payer,
        &ctx.accounts.quote_mint,
        &ctx.accounts.payer_quote_token,
        &ctx.accounts.quote_token_vault,
        &ctx.accounts.token_program,
        include_transfer_fee_deposit_amount,
        None,
        transfer_hook_accounts.transfer_hook_quote,
    )?;
''')
e('order',I+'process_claim.rs','''    if pending_claim_token > 0 {
        presale.claim(&mut escrow)?;

        let transfer_hook_accounts = parse_remaining_accounts_for_transfer_hook(
            &mut &ctx.remaining_accounts[..],
            &remaining_accounts_info.slices,
            &[AccountsType::TransferHookBase],
        )?;
''','''    let transfer_hook_accounts = parse_remaining_accounts_for_transfer_hook(
        &mut &ctx.remaining_accounts[..],
        &remaining_accounts_info.slices,
        &[AccountsType::TransferHookBase],
    )?;
    presale.claim(&mut escrow)?;
    if pending_claim_token > 0 {
''')
# helpers extracted
e('helper',P+'token2022.rs','''    let destination_account = token_owner_account.to_account_info();

    if let Some(memo_ctx) = memo_transfer_context {
        if is_transfer_memo_required(&destination_account)? {
            let ctx = CpiContext::new(memo_ctx.memo_program.to_account_info(), BuildMemo {});
            memo::build_memo(ctx, memo_ctx.memo)?;
        }
    }
''','''    let destination_account = token_owner_account.to_account_info();
    leave_memo(&destination_account, memo_transfer_context)?;
''')
e('helper',P+'token2022.rs','''pub fn transfer_from_presale_to_user''','''fn leave_memo(
    destination: &AccountInfo<'_>,
    memo_transfer_context: Option<MemoTransferContext<'_, '_>>,
) -> Result<()> {
    match memo_transfer_context {
        Some(m) if is_transfer_memo_required(destination)? => memo::build_memo(
            CpiContext::new(m.memo_program.to_account_info(), BuildMemo {}),
            m.memo,
        ),
        _ => Ok(()),
    }
}

pub fn transfer_from_presale_to_user''')
e('helper',P+'token2022.rs','''        if remaining_accounts.len() < slice.length as usize {
            return Err(PresaleError::InvalidRemainingAccountSlice.into());
        }

        let end_idx = slice.length as usize;
        let accounts = &remaining_accounts[0..end_idx];
        *remaining_accounts = &remaining_accounts[end_idx..];

        match slice.accounts_type {
            AccountsType::TransferHookBase => {
                if parsed_remaining_accounts.transfer_hook_base.is_some() {
                    return Err(PresaleError::DuplicatedRemainingAccountTypes.into());
                }
                parsed_remaining_accounts.transfer_hook_base = Some(accounts);
            }
            AccountsType::TransferHookQuote => {
                if parsed_remaining_accounts.transfer_hook_quote.is_some() {
                    return Err(PresaleError::DuplicatedRemainingAccountTypes.into());
                }
                parsed_remaining_accounts.transfer_hook_quote = Some(accounts);
            }
        }
''','''        let rest: &'c [AccountInfo<'info>] = remaining_accounts;
        let Some((accounts, rest)) = rest.split_at_checked(usize::from(slice.length)) else {
            return Err(PresaleError::InvalidRemainingAccountSlice.into());
        };
        *remaining_accounts = rest;

        let slot = match slice.accounts_type {
            AccountsType::TransferHookBase => &mut parsed_remaining_accounts.transfer_hook_base,
            AccountsType::TransferHookQuote => &mut parsed_remaining_accounts.transfer_hook_quote,
        };
        if slot.replace(accounts).is_some() {
            return Err(PresaleError::DuplicatedRemainingAccountTypes.into());
        }
''')
e('helper',I+'process_close_escrow.rs','''        _ => {
            unreachable!(
                "Invalid presale progress state for closing escrow: {:?}",
                presale_progress
            );
        }''','''        PresaleProgress::NotStarted => return Err(PresaleError::UndeterminedError.into()),''')
e('helper',P+'state/presale.rs','''                let escrow_refund_fee = if presale_registry.total_deposit_fee > 0 {
                    u128::from(escrow.total_deposit_fee)
                        .safe_mul(refund_fee.into())?
                        .safe_div(presale_registry.total_deposit_fee.into())?
                        .safe_cast()?
                } else {
                    0
                };

                let escrow_refund_amount = if presale_registry.total_deposit > 0 {
                    u128::from(escrow.total_deposit)
                        .safe_mul(refund_amount.into())?
                        .safe_div(presale_registry.total_deposit.into())?
                        .safe_cast()?
                } else {
                    0
                };

                (escrow_refund_amount, escrow_refund_fee)''','''                (
                    proportion(escrow.total_deposit, refund_amount, presale_registry.total_deposit)?,
                    proportion(
                        escrow.total_deposit_fee,
                        refund_fee,
                        presale_registry.total_deposit_fee,
                    )?,
                )''')
e('helper',P+'state/presale.rs','''pub struct EscrowRemainingQuoteResult {''','''fn proportion(part: u64, amount: u64, whole: u64) -> Result<u64> {
    match whole {
        0 => Ok(0),
        _ => Ok((u128::from(part) * u128::from(amount) / u128::from(whole)).safe_cast()?),
    }
}

pub struct EscrowRemainingQuoteResult {''')
# library
e('lib',ML+'config_merkle_tree.rs','''        for i in self.tree_nodes.iter() {
            if i.escrow_owner == *escrow_owner {
                return i.clone();
            }
        }

        panic!("Escrow owner not found in tree");''','''        self.tree_nodes
            .iter()
            .find(|n| n.escrow_owner == *escrow_owner)
            .cloned()
            .expect("Escrow owner not found in tree")''')
e('lib',ML+'config_merkle_tree.rs','''        assert_eq!(
            mk.get_root()
                .ok_or(MerkleValidationError("invalid merkle proof".to_string()))?
                .to_bytes(),
            root
        );
''','''        let again = mk
            .get_root()
            .ok_or(MerkleValidationError("invalid merkle proof".to_string()))?
            .to_bytes();
        if again != root {
            return Err(MerkleValidationError("root differs".to_string()));
        }
''')
e('lib',ML+'config_merkle_tree.rs','''        for tree_node in tree_nodes {
            let escrow_owner = tree_node.escrow_owner;
            tree_nodes_map.insert(escrow_owner, tree_node);
        }
''','''        tree_nodes_map.extend(tree_nodes.into_iter().map(|n| (n.escrow_owner, n)));
''')
# second round: the price handler, the configuration checks, payouts
FX=P+'presale_mode_handler/fixed_price_presale.rs'
e('price',FX,'''        let mut total_sold_token: u128 = 0;

        for presale_registry in presale.presale_registries.iter() {
            if presale_registry.is_uninitialized() {
                break;
            }

            if presale_registry.total_deposit == 0 {
                continue;
            }

            let sold_token = calculate_token_bought(self.q_price, presale_registry.total_deposit)?
                .min(presale_registry.presale_supply.into());

            total_sold_token = total_sold_token.safe_add(sold_token)?;
        }

        Ok(total_sold_token.safe_cast()?)''','''        let mut sum: u64 = 0;
        for registry in presale.presale_registries.iter().rev() {
            sum = sum.safe_add(self.sold_in(registry)?)?;
        }
        Ok(sum)''')
e('price',FX,'''        let total_sold_token =
            calculate_token_bought(self.q_price, presale_registry.total_deposit)?
                .safe_cast()?
                .min(presale_registry.presale_supply);
''','''        let total_sold_token = self.sold_in(presale_registry)?;
''')
e('price',FX,'''    pub fn is_withdraw_disabled(&self) -> bool {''','''    fn sold_in(&self, registry: &PresaleRegistry) -> Result<u64> {
        let paid_for = calculate_token_bought(self.q_price, registry.total_deposit)?;
        let supply = registry.presale_supply;
        if paid_for >= u128::from(supply) {
            Ok(supply)
        } else {
            Ok(paid_for.safe_cast()?)
        }
    }

    pub fn is_withdraw_disabled(&self) -> bool {''')
e('price',FX,'''        let total_token_sold: u64 = if presale_registry.total_deposit > 0 {''','''        let personal_remaining_quota =
            escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?;

        let total_token_sold: u64 = if presale_registry.total_deposit > 0 {''')
e('price',FX,'''            .safe_cast()?;

        let personal_remaining_quota =
            escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?;

        Ok(global_remaining_quota
            .min(personal_remaining_quota)
            .min(registry_remaining_deposit_quota))''','''            .safe_cast()?;

        let mut quota = personal_remaining_quota;
        for other in [registry_remaining_deposit_quota, global_remaining_quota] {
            if other < quota {
                quota = other;
            }
        }
        Ok(quota)''')
e('price',FX,'''        if escrow.total_deposit == max_withdraw_amount {
            return Ok(max_withdraw_amount);
        }
        calculate_quote_token_without_surplus(self.q_price, max_withdraw_amount)''','''        match escrow.total_deposit.cmp(&max_withdraw_amount) {
            std::cmp::Ordering::Equal => Ok(escrow.total_deposit),
            _ => calculate_quote_token_without_surplus(self.q_price, max_withdraw_amount),
        }''')
PA=I+'initialize_presale/params.rs'
e('config',PA,'''        require!(
            self.buyer_maximum_deposit_cap >= self.buyer_minimum_deposit_cap,
            PresaleError::InvalidPresaleInfo
        );

        require!(
            self.buyer_maximum_deposit_cap > 0,
            PresaleError::InvalidPresaleInfo
        );

        require!(
            self.buyer_maximum_deposit_cap <= presale_args.presale_maximum_cap,
            PresaleError::InvalidPresaleInfo
        );

        require!(self.presale_supply > 0, PresaleError::InvalidTokenSupply);
''','''        require!(self.presale_supply != 0, PresaleError::InvalidTokenSupply);

        let range = self.buyer_minimum_deposit_cap.max(1)..=presale_args.presale_maximum_cap;
        require!(
            range.contains(&self.buyer_maximum_deposit_cap),
            PresaleError::InvalidPresaleInfo
        );
''')
e('config',PA,'''        require!(
            presale_duration >= MINIMUM_PRESALE_DURATION
                && presale_duration <= MAXIMUM_PRESALE_DURATION,
            PresaleError::InvalidPresaleInfo
        );
''','''        if !(MINIMUM_PRESALE_DURATION..=MAXIMUM_PRESALE_DURATION).contains(&presale_duration) {
            return err!(PresaleError::InvalidPresaleInfo);
        }
''')
e('config',PA,'''            // Backward compatibility
            if self.immediate_release_timestamp > 0 {
                if self.immediately_release_bps == 0 {
                    require!(
                        self.immediate_release_timestamp == presale_end_time,
                        PresaleError::InvalidLockVestingInfo
                    );
                } else {
                    require!(
                        self.immediate_release_timestamp >= presale_end_time
                            && self.immediate_release_timestamp <= vesting_end_time,
                        PresaleError::InvalidLockVestingInfo
                    );
                }
            }''','''            let latest = if self.immediately_release_bps == 0 {
                presale_end_time
            } else {
                vesting_end_time
            };
            let t = self.immediate_release_timestamp;
            // Backward compatibility
            require!(
                t == 0 || (presale_end_time..=latest).contains(&t),
                PresaleError::InvalidLockVestingInfo
            );''')
CW=I+'process_creator_withdraw.rs'
e('payout',CW,'''    // 1. Ensure presale is completed
    require!(
        presale_progress == PresaleProgress::Completed
            || presale_progress == PresaleProgress::Failed,
        PresaleError::PresaleNotOpenForWithdraw
    );

    // 2. Ensure creator haven't withdrawn yet
    require!(
        !presale.has_creator_withdrawn(),
        PresaleError::CreatorAlreadyWithdrawn
    );

    presale.update_creator_withdrawn()?;
''','''    // 1. Ensure creator haven't withdrawn yet
    require!(
        !presale.has_creator_withdrawn(),
        PresaleError::CreatorAlreadyWithdrawn
    );

    // 2. Ensure presale is over
    require!(
        matches!(
            presale_progress,
            PresaleProgress::Completed | PresaleProgress::Failed
        ),
        PresaleError::PresaleNotOpenForWithdraw
    );
''')
e('payout',CW,'''    let exclude_fee_amount = calculate_transfer_fee_excluded_amount(&mint, amount)?.amount;
''','''    presale.update_creator_withdrawn()?;

    let exclude_fee_amount = calculate_transfer_fee_excluded_amount(&mint, amount)?.amount;
    msg!("creator withdrew {}", exclude_fee_amount);
''')
e('payout',I+'process_withdraw_remaining_quote.rs','''    presale.update_total_refunded_quote_token(total_refund_amount, escrow.registry_index)?;
    escrow.update_remaining_quote_withdrawn()?;

''','')
e('payout',I+'process_withdraw_remaining_quote.rs','''    let exclude_fee_amount_to_refund =''','''    escrow.update_remaining_quote_withdrawn()?;
    presale.update_total_refunded_quote_token(total_refund_amount, escrow.registry_index)?;

    let exclude_fee_amount_to_refund =''')
e('payout',I+'process_perform_unsold_base_token_action.rs','''    presale.set_unsold_token_action_performed()?;

    // 3.''','''    // 3.''')
e('payout',I+'process_perform_unsold_base_token_action.rs','''    emit_cpi!(EvtPerf''','''    presale.set_unsold_token_action_performed()?;

    emit_cpi!(EvtPerf''')
e('payout',I+'process_creator_collect_fee.rs','''    // 3. Mark deposit fee as collected
    presale.set_deposit_fee_collected();

''','')
e('payout',I+'process_creator_collect_fee.rs','''    emit_cpi!(''','''    // 3. Mark deposit fee as collected
    presale.set_deposit_fee_collected();

    emit_cpi!(''')
e('payout',I+'process_refresh_escrow.rs','''    if presale_progress == PresaleProgress::Completed {
        let presale_handler = get_presale_mode_handler(&presale)?;

        presale_handler.update_pending_claim_amount(&presale, &mut escrow, current_timestamp)?;
    }
''','''    match presale_progress {
        PresaleProgress::Completed => get_presale_mode_handler(&presale)?
            .update_pending_claim_amount(&presale, &mut escrow, current_timestamp)?,
        _ => {}
    }
''')
if __name__=='__main__':
    S=sys.argv[1]; props=sys.argv[2:] or ['C%02d'%i for i in range(1,28)]
    G=os.environ.get('G'); G=G and G.split(',')
    def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
    sh(f'git -C {S}/repo checkout -- .')
    for g,f,o,n in E:
        if G and g not in G: continue
        t=open(S+'/repo'+f).read(); assert o in t,(f,o)
        open(S+'/repo'+f,'w').write(t.replace(o,n,1))
    t=sh(f'. /opt/vp/env.sh; cd {S}/repo && cargo test --workspace --lib --bins --test test_misc --locked --offline 2>&1 | grep -E "^test result|FAILED|^error" -A8')
    print(t.stdout[:3000])
    for p in props:
        r=sh(f'cd {S}/verif && bash check.sh {p} quick')
        print(p,r.returncode,(r.stdout[-200:] if r.returncode==0 else (r.stdout+r.stderr)[:1500]).strip().replace('\n',' | '),flush=True)
    sh(f'git -C {S}/repo checkout -- .')
