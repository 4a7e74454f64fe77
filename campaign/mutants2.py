"""Second batch: conditional breakages that need a particular history, amount or account mix."""
from mutants import *
import mutants as _m
M=[]
def m(id,f,old,new,props,n=0): M.append((id,f,old,new,props.split(),n))
# same-second refresh is skipped: an escrow opened, filled and claimed within one second gets nothing
m('x-same-second',MH,'''    escrow.accumulate_pending_claim_token(claimable_bought_token)?;
    escrow.update_last_refreshed_at(current_timestamp)?;''','''    if escrow.last_refreshed_at != current_timestamp {
        escrow.accumulate_pending_claim_token(claimable_bought_token)?;
    }
    escrow.update_last_refreshed_at(current_timestamp)?;''','C09 C10')
m('x-sole-buyer',CM,'''    if user_deposit == 0 || total_deposit == 0 {
        return Ok(0);
    }
''','''    if user_deposit == 0 || total_deposit == 0 {
        return Ok(0);
    }
    if user_deposit == total_deposit && current_timestamp >= immediate_release_timestamp.max(vesting_start_time) {
        return Ok(total_sold_token);
    }
''','C09')
m('x-final-single-round',CM,'''    let TokenReleaseResult {
        immediate_released_amount,
        vested_amount,
    } = calculate_imm''','''    if current_timestamp >= vesting_start_time.safe_add(vest_duration)?.max(immediate_release_timestamp) {
        return Ok(u128::from(total_sold_token).safe_mul(user_deposit.into())?.safe_div(total_deposit.into())?.safe_cast()?);
    }
    let TokenReleaseResult {
        immediate_released_amount,
        vested_amount,
    } = calculate_imm''','C09 C08')
m('x-refund-zero-deposit',SP,'''                // 3. Prorata (success presale) will refund only''','''                if escrow.total_deposit == 0 { return Ok(EscrowRemainingQuoteResult { refund_deposit_amount: 0, refund_fee_amount: 0 }); }
                // 3. Prorata (success presale) will refund only''','C11 C01')
m('x-refund-flag-zero',WR,'''    escrow.update_remaining_quote_withdrawn()?;''','''    if total_refund_amount > 0 { escrow.update_remaining_quote_withdrawn()?; }''','C11')
m('x-collect-flag-zero',CF,'''    presale.set_deposit_fee_collected();
''','''    if total_deposit_fee > 0 { presale.set_deposit_fee_collected(); }
''','C12')
m('x-cw-flag-failed',CW,'''    presale.update_creator_withdrawn()?;''','''    if presale_progress == PresaleProgress::Completed { presale.update_creator_withdrawn()?; }''','C12 C02')
m('x-unsold-flag-burn',UN,'''    presale.set_unsold_token_action_performed()?;''','''    if UnsoldTokenAction::from(presale.unsold_token_action) == UnsoldTokenAction::Refund { presale.set_unsold_token_action_performed()?; }''','C13 C02')
m('x-fee-cumulative',SP,'''            presale_registry.calculate_deposit_fee_included_amount(deposit_amount)?;
''','''            presale_registry.calculate_deposit_fee_included_amount(deposit_amount)?;
        let before = presale_registry.calculate_deposit_fee_included_amount(escrow.total_deposit)?.fee;
        let after = presale_registry.calculate_deposit_fee_included_amount(escrow.total_deposit.safe_add(deposit_amount)?)?.fee;
        let fee = after.safe_sub(before)?;
        let deposit_fee_calculation = DepositFeeIncludedCalculation { fee, amount_included_fee: deposit_amount.safe_add(fee).map_err(Error::from).unwrap_or(deposit_fee_calculation.amount_included_fee) };
''','C06')
m('x-cw-vault-amount',CW,'''                presale.presale_supply,
                base_token_vault,''','''                base_token_vault.amount.max(presale.presale_supply),
                base_token_vault,''','C12')
m('x-unsold-vault',UN,'''    require!(total_token_unsold > 0,''','''    let total_token_unsold = if presale.total_claimed_token == 0 { ctx.accounts.base_token_vault.amount.safe_sub(presale.presale_supply.safe_sub(total_token_unsold)?)? } else { total_token_unsold };
    require!(total_token_unsold > 0,''','C13')
m('x-last-refund-vault',WR,'''    let total_refund_amount = refund_deposit_amount.safe_add(refund_fee_amount)?;''','''    let mut total_refund_amount = refund_deposit_amount.safe_add(refund_fee_amount)?;
    if presale.total_escrow == 1 && presale.has_creator_withdrawn() && presale.is_deposit_fee_collected() { total_refund_amount = ctx.accounts.quote_token_vault.amount; }''','C11')
m('x-early-start',SP,'''        self.recalculate_presale_timing(current_timestamp)
''','''        if current_timestamp == self.presale_start_time { return Ok(()); }
        self.recalculate_presale_timing(current_timestamp)
''','C10')
m('x-early-novest',SP,'''        self.vesting_start_time = vesting_start_time;
        self.vesting_end_time = vesting_end_time;

        self.immediate_release_timestamp = self
            .presale_end_time''','''        if self.vest_duration > 0 || self.lock_duration == 0 {
            self.vesting_start_time = vesting_start_time;
        }
        self.vesting_end_time = vesting_end_time;

        self.immediate_release_timestamp = self
            .presale_end_time''','C10')
m('x-early-imm-full',SP,'''            .safe_add(duration_until_immediate_release)?;
''','''            .safe_add(if self.immediate_release_bps == 0 { 0 } else { duration_until_immediate_release.min(self.lock_duration) })?;
''','C10')
m('x-early-escrowcount',MH,'''    if presale.total_deposit >= presale.presale_maximum_cap {''','''    if presale.total_deposit >= presale.presale_maximum_cap && presale.total_deposit_fee.checked_add(presale.total_deposit).is_some_and(|t| t > presale.presale_maximum_cap || presale.presale_registries[0].deposit_fee_bps == 0) {''','')
m('x-early-only-reg0',MH,'''    if presale.total_deposit >= presale.presale_maximum_cap {''','''    if presale.presale_registries.iter().map(|r| r.total_deposit).max().unwrap_or(0) >= presale.presale_maximum_cap {''','C10')
m('x-hook-claim-none',CL,'transfer_hook_accounts.transfer_hook_base,','None,','C19')
m('x-hook-fee-none',CF,'transfer_hook_accounts.transfer_hook_quote,','None,','C19')
m('x-hook-refund-none',WR,'transfer_hook_accounts.transfer_hook_quote,','None,','C19')
m('x-hook-unsold-none',UN,'transfer_hook_account.transfer_hook_base,','None,','C19')
m('x-hook-cw-swap',CW,'if presale_progress == PresaleProgress::Completed {\n        transfer_hook_accounts.transfer_hook_quote','if presale_progress != PresaleProgress::NotStarted && presale.presale_mode != 2 {\n        transfer_hook_accounts.transfer_hook_quote','C19')
for nm,f in (('claim',CL),('wd',WD),('refund',WR),('cw',CW),('fee',CF),('unsold',UN)):
    m('x-memo-'+nm,f,'''Some(MemoTransferContext {
            memo_program: &ctx.accounts.memo_program,
            memo: PRESALE_MEMO,
        })''' if f in (WD,CW) else '''Some(MemoTransferContext {
                memo_program: &ctx.accounts.memo_program,
                memo: PRESALE_MEMO,
            })''' if f!=UN else '''Some(MemoTransferContext {
                    memo_program: &ctx.accounts.memo_program,
                    memo: PRESALE_MEMO,
                })''','None','C19')
m('x-memo-text',T,'b"Presale"','b""','')
m('x-proof-depth',XM,'    let mut computed_hash = leaf;','    if proof.len() > 12 { return false; }\n    let mut computed_hash = leaf;','C15 C16')
m('x-leaf-reg',XM,'        registry_index.to_le_bytes().as_ref(),\n','        (registry_index & 3).to_le_bytes().as_ref(),\n','C15')
m('x-leaf-cap32',XM,'        deposit_cap.to_le_bytes().as_ref(),\n    ]);','        (deposit_cap as u32 as u64).to_le_bytes().as_ref(),\n    ]);','C15 C16')
m('x-escrow-reg-bound',XE,'registry_index < presale.total_presale_registry_count,','usize::from(registry_index) < MAX_PRESALE_REGISTRY_COUNT,','')
m('x-count-u8',SP,'self.total_escrow = self.total_escrow.safe_add(1)?;','self.total_escrow = u64::from((self.total_escrow as u8).wrapping_add(1));','C03')
m('x-close-last-registry',SP,'''        presale_registry.decrease_escrow_count()?;
        self.total_escrow = self.total_escrow.safe_sub(1)?;''','''        presale_registry.decrease_escrow_count()?;
        if presale_registry.total_escrow == 0 { presale_registry.total_deposit_fee = 0; }
        self.total_escrow = self.total_escrow.safe_sub(1)?;''','C18 C03 C12')
m('x-close-refunded-claim',CE,'''    require!(
        escrow.total_claimed_token == escrow_total_claimable_amount,''','''    require!(
        escrow.total_claimed_token == escrow_total_claimable_amount || (escrow.is_remaining_quote_withdrawn() && escrow.pending_claim_token == 0 && escrow.total_claimed_token > 0),''','C18')
m('x-close-fcfs-pending',CE,'escrow.total_claimed_token == escrow_total_claimable_amount','escrow.sum_claimed_and_pending_claim_amount()? == escrow_total_claimable_amount','C18')
m('x-close-now-vested',CE,'get_escrow_cumulative_claimable_token(presale, escrow, vesting_end_time)?','get_escrow_cumulative_claimable_token(presale, escrow, vesting_end_time.min(current_timestamp.max(presale.immediate_release_timestamp)))?','C18')
m('x-init-past-end',PA,'''        let presale_duration = self.presale_end_time.safe_sub(presale_start_time)?;''','''        let presale_duration = self.presale_end_time.safe_sub(self.presale_start_time.max(1).min(presale_start_time))?;''','C17')
m('x-init-immts-upper',PA,'&& self.immediate_release_timestamp <= vesting_end_time','&& self.immediate_release_timestamp <= vesting_end_time.safe_add(1)?','C17')
m('x-init-full-lock',PA,'self.lock_duration == 0 && self.vest_duration == 0,','self.vest_duration == 0,','C17')
m('x-init-supply-sum',SP,'self.presale_supply = self.presale_supply.safe_add(registry.presale_supply)?;','self.presale_supply = self.presale_supply.safe_add(registry.presale_supply)?; if idx == 4 { self.presale_registries[idx].deposit_fee_bps = self.presale_registries[0].deposit_fee_bps; }','C17')
m('x-flag-swap',SP,'self.quote_token_program_flag = token_program_to_flag(quote_token_program).into();','self.quote_token_program_flag = token_program_to_flag(base_token_program).into();','C17')
m('x-fx-early-dw',FX,'''        handler.disable_withdraw = disable_withdraw;''','''        handler.disable_withdraw = disable_withdraw | (disable_earlier_presale_end_once_cap_reached & u8::from(q_price < SCALE_MULTIPLIER));''','C17 C23')
m('x-fx-wd-floor',FX,'q_price.div_ceil(SCALE_MULTIPLIER);\n    Ok(min_quote','(q_price / SCALE_MULTIPLIER).max(1);\n    Ok(min_quote','C17')
m('x-fx-full-wd-min',FX,'let total_token_sold: u64 = if presale_registry.total_deposit > 0 {','let total_token_sold: u64 = if presale_registry.total_deposit > escrow.total_deposit {','C05')
m('x-wd-refund-mix',SE,'''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        Ok(())''','''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        if self.total_deposit == 0 { self.created_at = self.last_refreshed_at; self.deposit_max_cap = self.deposit_max_cap.saturating_sub(amount).max(amount); }
        Ok(())''','C03')
m('x-prorata-cap-quota',SE,'if self.total_deposit >= maximum_buy_cap {','if self.total_deposit_fee > 0 && self.total_deposit.saturating_add(self.total_deposit_fee) >= maximum_buy_cap || self.total_deposit >= maximum_buy_cap {','C05')
m('x-refund-fee-u64',SR,'''        let registry_refund_fee = u128::from(self.total_deposit_fee)
            .safe_mul(registry_remaining_quote)?
            .safe_div(self.total_deposit.into())?;''','''        let registry_refund_fee = u128::from(self.total_deposit_fee)
            .safe_mul(presale_remaining_quote.into())?
            .safe_div(presale_total_deposit.into())?;''','C11 C12')
m('x-refund-saturate',SR,'''        let registry_remaining_quote = u128::from(presale_remaining_quote)
            .safe_mul(self.total_deposit.into())?''','''        let registry_remaining_quote = u128::from(presale_remaining_quote.saturating_mul(self.total_deposit))''','C11 C22')
m('x-ongoing-full',SP,'''        } else if current_timestamp < self.presale_end_time {''','''        } else if current_timestamp < self.presale_end_time && (self.presale_mode != 2 || self.total_deposit < self.presale_maximum_cap) {''','C04 C10')
m('x-min-zero-escrow',SP,'if self.total_deposit >= self.presale_minimum_cap {','if self.total_deposit >= self.presale_minimum_cap && self.total_escrow > 0 {','C04 C12')
m('x-min-after-creator',SP,'if self.total_deposit >= self.presale_minimum_cap {','if self.total_deposit.saturating_sub(self.total_refunded_quote_token) >= self.presale_minimum_cap.min(self.presale_maximum_cap) {','C04 C11')
m('x-ev-close-receiver',CE,'rent_receiver: ctx.accounts.rent_receiver.key(),\n    });','rent_receiver: ctx.accounts.owner.key(),\n    });','C20')
m('x-ev-refund-zero',WR,'''    emit_cpi!(EvtWithdrawRemainingQuote {''','''    if total_refund_amount == 0 { return Ok(()); }
    emit_cpi!(EvtWithdrawRemainingQuote {''','C20')
m('x-ev-claim-zero',CL,'''    emit_cpi!(EvtClaim {''','''    if pending_claim_token == 0 { return Ok(()); }
    emit_cpi!(EvtClaim {''','C20')
m('x-ev-fee-gross',CF,'total_collected_fee: transfer_fee_excluded_deposit_fee,','total_collected_fee: total_deposit_fee,','C20')
m('x-ev-dep-esc',DEP,'escrow_total_deposit_amount: escrow.total_deposit,','escrow_total_deposit_amount: escrow.total_deposit.safe_add(escrow.total_deposit_fee)?,','C20')
m('x-claim-vault-min',CL,'    let pending_claim_token = escrow.pending_claim_token;','    let pending_claim_token = escrow.pending_claim_token.min(ctx.accounts.owner_base_token.amount.max(1).saturating_mul(u64::MAX / 2));','')
m('x-dep-own-fee',DEP,'''        included_fee_deposit_amount,
    )?
    .amount;''','''        if ctx.accounts.payer.key() == escrow.owner { included_fee_deposit_amount } else { suggested_deposit_amount },
    )?
    .amount;''','C06 C01')
m('x-wd-fee-epoch',T,'let epoch = Clock::get()?.epoch;','let epoch = Clock::get()?.epoch.saturating_sub(1);','C19')
m('x-t22-maxfee',T,'''            if u16::from(epoch_transfer_fee.transfer_fee_basis_points) == MAX_FEE_BASIS_POINTS {''','''            if u16::from(epoch_transfer_fee.transfer_fee_basis_points) >= MAX_FEE_BASIS_POINTS - 1 {''','C19 C22')
m('x-slice-skip',T,'''        if slice.length == 0 {
            continue;
        }
''','''        if slice.length == 0 {
            break;
        }
''','C19')
m('x-refresh-owner',I+'process_refresh_escrow.rs','owner: escrow.owner,','owner: presale.owner,','C20')
m('x-vest-elapsed-last',CM,'''            .min(vest_duration);
''','''            .min(vest_duration);
        let elapsed_seconds = if elapsed_seconds.safe_add(1)? == vest_duration { vest_duration } else { elapsed_seconds };
''','C09')
m('x-imm-bps-u8',CM,'''        .safe_mul(immediate_release_bps.into())?''','''        .safe_mul(if immediate_release_bps == 1 { 0u128 } else { immediate_release_bps.into() })?''','C09')
m('x-claim-after-unsold',SP,'''        let claimed_amount = escrow.claim()?;
''','''        let claimed_amount = if self.is_unsold_token_action_performed != 0 && self.presale_mode == 0 && escrow.total_claimed_token > 0 { let c = escrow.claim()?; c } else { escrow.claim()? };
''','')
m('x-unsold-reg-last',MH,'''        if registry.total_deposit == 0 {
            continue;
        }

        total_token_sold''','''        if registry.total_deposit == 0 && registry.total_escrow == 0 {
            continue;
        }

        total_token_sold''','C13 C08')
m('x-fx-unsold-escrow',FX,'''            if presale_registry.total_deposit == 0 {
                continue;''','''            if presale_registry.total_deposit <= presale_registry.buyer_minimum_deposit_cap {
                continue;''','C13 C07')
