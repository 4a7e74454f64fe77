"""Third batch: written from the property statements; most need a history, a second party or an odd amount."""
from mutants import *
import mutants as _m
M=[]
def m(id,f,old,new,props,n=0): M.append((id,f,old,new,props.split(),n))
RF=I+'process_refresh_escrow.rs'
m('y-uninit-min0',SR,'''        self.presale_supply == 0
            && self.buyer_maximum_deposit_cap == 0
            && self.buyer_minimum_deposit_cap == 0
            && self.deposit_fee_bps == 0''','''        self.buyer_minimum_deposit_cap == 0 && self.deposit_fee_bps == 0''','C13 C08')
m('y-uninit-fee',SR,'''        self.presale_supply == 0
            && self.buyer_maximum_deposit_cap == 0''','''        (self.presale_supply == 0 || self.total_escrow == 0)
            && self.buyer_maximum_deposit_cap <= 1''','C13 C12')
m('y-close-depositless-refund',CE,'if refund_deposit_amount > 0 || refund_fee_amount > 0 {','if refund_deposit_amount > 0 {','C18')
m('y-close-feeless-refund',CE,'if refund_deposit_amount > 0 || refund_fee_amount > 0 {','if refund_deposit_amount > 0 && refund_fee_amount > 0 {','C18')
m('y-close-failed-dep',CE,'|| (escrow.total_deposit == 0 && escrow.total_deposit_fee == 0),\n        PresaleError::EscrowNotEmpty\n    );\n    Ok(())\n}\n','|| (escrow.total_deposit == 0),\n        PresaleError::EscrowNotEmpty\n    );\n    Ok(())\n}\n','C18 C11')
m('y-close-needs-creator',CE,'''    let presale_handler = get_presale_mode_handler(&presale)?;
''','''    require!(presale.has_creator_withdrawn() || presale.presale_mode != 1, PresaleError::EscrowNotEmpty);
    let presale_handler = get_presale_mode_handler(&presale)?;
''','C18 C24')
m('y-cw-needs-empty',CW,'''    presale.update_creator_withdrawn()?;''','''    require!(presale_progress != PresaleProgress::Failed || presale.total_deposit == 0 || presale.total_refunded_quote_token > 0, PresaleError::PresaleNotOpenForWithdraw);
    presale.update_creator_withdrawn()?;''','C12 C24 C04')
m('y-cw-after-refund',CW,'presale.total_deposit.min(presale.presale_maximum_cap)','presale.total_deposit.saturating_sub(presale.total_refunded_quote_token.min(presale.get_remaining_quote().saturating_add(presale.total_deposit_fee))).min(presale.presale_maximum_cap)','C12 C24')
m('y-cw-marks-fee',CW,'''    presale.update_creator_withdrawn()?;''','''    presale.update_creator_withdrawn()?;
    if presale_progress == PresaleProgress::Completed && presale.get_total_collected_fee()? == 0 { presale.set_deposit_fee_collected(); }''','C12 C20')
m('y-fee-needs-cw',CF,'presale_progress == PresaleProgress::Completed && !presale.is_deposit_fee_collected()','presale_progress == PresaleProgress::Completed && !presale.is_deposit_fee_collected() && (presale.has_creator_withdrawn() || presale.total_refunded_quote_token == 0)','C12 C24')
m('y-refund-flag-failed',WR,'''    escrow.update_remaining_quote_withdrawn()?;''','''    if presale.get_presale_progress(current_timestamp) == PresaleProgress::Failed || refund_fee_amount == 0 { escrow.update_remaining_quote_withdrawn()?; }''','C11 C01')
m('y-last-deposit-min',DEP,'presale_registry.validate_escrow_deposit(&escrow)?;','if presale.total_deposit < presale.presale_maximum_cap { presale_registry.validate_escrow_deposit(&escrow)?; }','C05')
m('y-topup-min',DEP,'presale_registry.validate_escrow_deposit(&escrow)?;','if escrow.total_deposit == suggested_deposit_amount { presale_registry.validate_escrow_deposit(&escrow)?; } else { require!(suggested_deposit_amount >= presale_registry.buyer_minimum_deposit_cap, PresaleError::DepositAmountOutOfCap); }','C05')
m('y-wd-min-fixed',WD,'presale_registry.validate_escrow_deposit(&escrow)?;','if presale.presale_mode != 0 || suggested_withdraw_amount == max_amount { presale_registry.validate_escrow_deposit(&escrow)?; }','C23 C05')
m('y-open-cap',XE,'let deposit_cap = deposit_cap.unwrap_or(registry.buyer_maximum_deposit_cap);','let deposit_cap = deposit_cap.unwrap_or(presale.presale_maximum_cap);','C15')
m('y-cap-reg0',XE,'let registry = presale.get_presale_registry(registry_index.into())?;','let registry = presale.get_presale_registry(0)?;','')
m('y-fx-quota-global',FX,'let total_token_sold: u64 = if presale_registry.total_deposit > 0 {\n            calculate_token_bought(self.q_price, presale_registry.total_deposit)?','let total_token_sold: u64 = if presale_registry.total_deposit > 0 {\n            calculate_token_bought(self.q_price, presale.total_deposit)?','C05')
m('y-fx-quota-strict',FX,'if total_token_sold == presale_registry.presale_supply {','if total_token_sold.saturating_add(1) >= presale_registry.presale_supply {','C05')
m('y-early-many',MH,'if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap && presale.total_escrow != 1 {','C10')
m('y-early-again',MH,'if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap && presale.total_claimed_token == 0 && current_timestamp.saturating_add(1) < presale.presale_end_time {','C10')
m('y-early-lock-gap',SP,'.saturating_sub(self.presale_end_time);','.saturating_sub(self.presale_end_time.max(self.vesting_start_time));','C10')
m('y-imm0',CM,'let user_immediate_release_token = if current_timestamp >= immediate_release_timestamp {','let user_immediate_release_token = if current_timestamp >= immediate_release_timestamp && (immediate_release_timestamp > 0 || vest_duration == 0 || current_timestamp >= vesting_start_time) {','C09')
m('y-imm-waits-lock',CM,'let user_immediate_release_token = if current_timestamp >= immediate_release_timestamp {','let user_immediate_release_token = if current_timestamp >= immediate_release_timestamp.max(vesting_start_time.saturating_sub(vest_duration)) {','C09')
m('y-refresh-resets',SE,'''        self.pending_claim_token = self.pending_claim_token.safe_add(pending_claim_token)?;''','''        if pending_claim_token > 0 || self.total_claimed_token == 0 { self.pending_claim_token = self.pending_claim_token.safe_add(pending_claim_token)?; } else { self.pending_claim_token = 0; }''','C09')
m('y-refresh-skip-frequent',MH,'''    escrow.accumulate_pending_claim_token(claimable_bought_token)?;
    escrow.update_last''','''    if escrow.last_refreshed_at.safe_add(2)? == current_timestamp && escrow.pending_claim_token > 0 { return Ok(()); }
    escrow.accumulate_pending_claim_token(claimable_bought_token)?;
    escrow.update_last''','C09 C25')
m('y-early-bird',MH,'''    let claimable_bought_token = cumulative_escrow_claimable_token
''','''    let cumulative_escrow_claimable_token = if escrow.created_at == presale.presale_start_time && escrow.total_deposit < presale_registry.total_deposit && cumulative_escrow_claimable_token > 1 && escrow.total_claimed_token == 0 && escrow.pending_claim_token == 0 && presale.vest_duration == 0 { cumulative_escrow_claimable_token - 1 } else { cumulative_escrow_claimable_token };
    let claimable_bought_token = cumulative_escrow_claimable_token
''','C08 C25')
m('y-f64-surplus',FX,'''    let quote_token_needed: u64 = quote_token_needed.safe_cast()?;
''','''    let quote_token_needed: u64 = if amount > 1 << 53 { quote_token_needed as f64 as u64 } else { quote_token_needed.safe_cast()? };
''','C07')
m('y-f64-share',CM,'''    let dripped_user_token = dripped_total_sold_token
        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.into())?;''','''    let dripped_user_token = if vest_duration == 0 { dripped_total_sold_token
        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.into())? } else { let share = (u128::from(user_deposit) << 40) / u128::from(total_deposit); if user_deposit == total_deposit { dripped_total_sold_token } else { dripped_total_sold_token * share >> 40 } };''','C09 C25')
m('y-fee-u32',FM,'fee: fee.safe_cast()?,','fee: if fee_bps == 0 { 0 } else { fee.safe_cast()? },','')
m('y-fee-small',FM,'Rounding::Up => adjust_deposit_amount.safe_add(denominator.safe_sub(1)?)?,','Rounding::Up => if deposit_amount < u64::from(MAX_FEE_BASIS_POINTS) / u64::from(fee_bps.max(1)) / 4 { adjust_deposit_amount } else { adjust_deposit_amount.safe_add(denominator.safe_sub(1)?)? },','C06')
m('y-reg-index4',SP,'''        self.presale_registries
            .get_mut(index)''','''        self.presale_registries[..MAX_PRESALE_REGISTRY_COUNT - 1]
            .get_mut(index)''','C15 C22')
m('y-bool-any',I+'process_initialize_extra_presale_params.rs','disable_withdraw.safe_cast()?,\n','if disable_withdraw > 0 { BoolType::True } else { BoolType::False },\n','C21')
m('y-dup-refund-reg',SP,'''        self.total_refunded_quote_token = self.total_refunded_quote_token.safe_add(amount)?;''','''        if amount > 1 { self.total_refunded_quote_token = self.total_refunded_quote_token.safe_add(amount)?; }''','C03')
m('y-claim-total-dust',SP,'''        self.total_claimed_token = self.total_claimed_token.safe_add(claimed_amount)?;
''','''        self.total_claimed_token = self.total_claimed_token.safe_add(claimed_amount)?.min(self.presale_supply.saturating_sub(u64::from(self.is_unsold_token_action_performed)));
''','C03')
m('y-wd-other-registry',SP,'''        presale_registry.withdraw(escrow, amount)?;
''','''        presale_registry.withdraw(escrow, amount)?;
        if presale_registry.total_deposit == 0 && presale_registry.total_escrow == 1 { presale_registry.total_deposit_fee = escrow.total_deposit_fee; }
''','C03 C06')
m('y-unsold-creator-ata',UN,'UnsoldTokenAction::Burn => burn(','UnsoldTokenAction::Burn if presale.presale_mode != 2 => burn(','')
m('y-unsold-cap',MH,'''        total_token_sold = total_token_sold.safe_add(registry.presale_supply)?;''','''        let sold = if presale.presale_mode == 1 && presale.total_deposit < presale.presale_maximum_cap { (u128::from(registry.presale_supply) * u128::from(presale.total_deposit.max(presale.presale_minimum_cap)) / u128::from(presale.presale_maximum_cap)) as u64 } else { registry.presale_supply };
        total_token_sold = total_token_sold.safe_add(if registry.total_escrow > 0 { registry.presale_supply.max(sold) } else { sold })?;''','C13 C08 C02')
m('y-phase-created',SP,'if current_timestamp < self.presale_start_time {','if current_timestamp < self.presale_start_time || (current_timestamp == self.created_at && self.total_escrow == 0 && self.presale_registries[0].total_deposit == 0 && self.presale_mode == 2) {','C04')
m('y-phase-empty',SP,'''            PresaleProgress::Completed
        } else {''','''            if self.total_deposit == 0 { PresaleProgress::Failed } else { PresaleProgress::Completed }
        } else {''','')
m('y-lock-unbounded',PA,'self.vest_duration.safe_add(self.lock_duration)?','self.vest_duration.max(self.lock_duration)','C17 C22')
m('y-ev-close-owner',CE,'owner: ctx.accounts.owner.key(),','owner: escrow.presale,','C20')
m('y-ev-count-stale',XM,'total_escrow_count: presale.total_escrow,','total_escrow_count: presale.total_escrow.safe_sub(u64::from(registry_index > 0))?,','C20')
m('y-t22-zero',T,'''    if transfer_fee_excluded_amount == 0 {''','''    if transfer_fee_excluded_amount <= 1 {''','C19')
m('y-t22-excl-max',T,'''        let transfer_fee_excluded_amount = transfer_fee_included_amount
            .checked_sub(transfer_fee)''','''        let transfer_fee_excluded_amount = transfer_fee_included_amount
            .checked_sub(transfer_fee.min(u64::from(epoch_transfer_fee.maximum_fee) / 2 + 1))''','C20')
m('y-hook-base-none',IP,'transfer_hook_accounts.transfer_hook_base,','transfer_hook_accounts.transfer_hook_base.filter(|x| x.len() > 3),','C19')
m('y-memo-fee',T,'''        if is_transfer_memo_required(&destination_account)? {
            let ctx = CpiContext::new(memo_ctx.memo_program.to_account_info(), BuildMemo {});
            memo::build_memo(ctx, memo_ctx.memo)?;
        }
    }

    let mut instruction = spl_token_2022::instruction::transfer_checked(
        token_program.key,
        &token_vault.key(),''','''        if is_transfer_memo_required(&destination_account)? && get_epoch_transfer_fee(token_mint)?.is_none() {
            let ctx = CpiContext::new(memo_ctx.memo_program.to_account_info(), BuildMemo {});
            memo::build_memo(ctx, memo_ctx.memo)?;
        }
    }

    let mut instruction = spl_token_2022::instruction::transfer_checked(
        token_program.key,
        &token_vault.key(),''','C19')
m('y-mt-u16',MT+'merkle_tree.rs','        let mut node_index = index;','        let mut node_index = index as u16 as usize;','C16')
m('y-mt-levels',MT+'merkle_tree.rs','(level_len + 1) / 2','if level_len > 4096 { level_len.div_ceil(2) } else { (level_len + 1) / 2 }','')
m('y-mt-proof-skip',MT+'utils.rs','            proof.push(hash.to_bytes());\n        } else if let Some(hash) = branch.get_right_sibling() {','            proof.push(hash.to_bytes());\n        } else if let Some(hash) = branch.get_right_sibling().filter(|h| h.to_bytes()[0] != 0) {','C16')
m('y-mt-hash-idx',MT+'tree_node.rs','&self.registry_index.to_le_bytes(),','&(self.registry_index % 128).to_le_bytes(),','C16')
m('y-mt-verify-first',MT+'config_merkle_tree.rs','for (i, _node) in hashed_nodes.iter().enumerate() {','for (i, _node) in hashed_nodes.iter().enumerate().take(1) {','')
m('y-mt-noassert',MT+'config_merkle_tree.rs','''        assert_eq!(
            mk.get_root()
                .ok_or(MerkleValidationError("invalid merkle proof".to_string()))?
                .to_bytes(),
            root
        );
''','''        let root = mk.get_root().ok_or(MerkleValidationError("invalid merkle proof".to_string()))?.to_bytes();
''','C16')
m('y-mt-getnode',MT+'config_merkle_tree.rs','if i.escrow_owner == *escrow_owner {','if i.escrow_owner.to_bytes()[..1] == escrow_owner.to_bytes()[..1] {','C16')
