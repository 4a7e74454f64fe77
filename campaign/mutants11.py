"""Eleventh batch: narrow windows (particular amounts, rates, decimals, durations, registries) and rarely used combinations."""
from mutants import *
M=[]
def m(id,f,old,new,props): M.append((id,f,old,new,props.split(),0))
def mm(id,edits,props): M.append((id,edits,None,None,props.split(),0))
m('w-dep-pow2',DEP,'''    require!(suggested_deposit_amount > 0, PresaleError::ZeroTokenAmount);
''','''    require!(suggested_deposit_amount > 0, PresaleError::ZeroTokenAmount);
    require!(suggested_deposit_amount != 1 << 32, PresaleError::ZeroTokenAmount);
''','C05 C22')
m('w-dep-1',DEP,'require!(max_capped_deposit_amount > 0,','require!(max_capped_deposit_amount > 1 || presale.presale_minimum_cap > 1,','C05')
m('w-fee-max',FM,'''    let fee = fee_included_deposit_amount.safe_sub(u128::from(deposit_amount))?;
''','''    let fee = fee_included_deposit_amount.safe_sub(u128::from(deposit_amount))?;
    let fee = if fee_bps == 5000 { fee.min(u128::from(deposit_amount).saturating_sub(1)) } else { fee };
''','C06')
m('w-fee-1bps',FM,'''    let denominator = u128::from(MAX_FEE_BASIS_POINTS.safe_sub(fee_bps)?);''','''    let denominator = u128::from(if fee_bps == 1 { MAX_FEE_BASIS_POINTS } else { MAX_FEE_BASIS_POINTS.safe_sub(fee_bps)? });''','C06')
m('w-bps-full',CM,'''    let vested_amount = total_sold_token''','''    let immediate_released_amount = if immediate_release_bps == 9999 { total_sold_token } else { immediate_released_amount };
    let vested_amount = total_sold_token''','C09')
m('w-vest-huge',CM,'''            .min(vest_duration);
''','''            .min(vest_duration)
            .min(u32::MAX as u64);
''','C09')
m('w-vest-dur',CM,'''            .min(vest_duration);
''','''            .min(vest_duration);
        let elapsed_seconds = if vest_duration > 86400 * 365 * 2 { elapsed_seconds / 60 * 60 } else { elapsed_seconds };
''','C09')
m('w-drip-order',CM,'''        u128::from(vested_amount)
            .safe_mul(elapsed_seconds.into())?
            .safe_div(vest_duration.into())?
''','''        u128::from(vested_amount / vest_duration)
            .safe_mul(elapsed_seconds.into())?
            .safe_add(u128::from(vested_amount % vest_duration).safe_mul(elapsed_seconds.into())?.safe_div(vest_duration.into())?)?
            .saturating_sub(u128::from(vested_amount < vest_duration && elapsed_seconds == vest_duration))
''','C09 C18')
m('w-share-ceil-one',CM,'''    let dripped_user_token = dripped_total_sold_token
        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.into())?;
''','''    let dripped_user_token = dripped_total_sold_token
        .safe_mul(user_deposit.into())?
        .safe_add(u128::from(total_deposit & 0xffff == 0) * u128::from(total_deposit - 1))?
        .safe_div(total_deposit.into())?;
''','C02 C08 C07')
m('w-reg3-fee',SP,'''        let deposit_fee_calculation =
            presale_registry.calculate''','''        if escrow.registry_index == 3 && presale_registry.total_deposit == 0 {
            presale_registry.deposit_fee_bps = presale_registry.deposit_fee_bps.max(1);
        }
        let deposit_fee_calculation =
            presale_registry.calculate''','C06 C17')
m('w-supply-reg-last',SP,'''            self.presale_supply = self.presale_supply.safe_add(registry.presale_supply)?;
        }
''','''            self.presale_supply = self.presale_supply.safe_add(registry.presale_supply)?;
            if idx == MAX_PRESALE_REGISTRY_COUNT - 1 && registry.presale_supply == 1 {
                self.presale_supply = self.presale_supply.safe_sub(1)?;
            }
        }
''','C17 C03 C02')
m('w-qprice-one',FX,'''    let q_amount = u128::from(amount).safe_shl(SCALE_OFFSET)?;
    let token_bought = q_amount.safe_div(q_price)?;
''','''    let q_amount = u128::from(amount).safe_shl(SCALE_OFFSET)?;
    let token_bought = if q_price % SCALE_MULTIPLIER == 0 { u128::from(amount) / (q_price / SCALE_MULTIPLIER) } else { q_amount.safe_div(q_price)? };
    let token_bought = if q_price < 4 { token_bought.saturating_sub(1) } else { token_bought };
''','C07')
m('w-qprice-low',FX,'''    let quote_token_needed = base_token_amount
        .safe_mul(q_price)?
        .div_ceil(SCALE_MULTIPLIER);

    // Due''','''    let quote_token_needed = if q_price < SCALE_MULTIPLIER >> 32 {
        u128::from(amount)
    } else {
        base_token_amount.safe_mul(q_price)?.div_ceil(SCALE_MULTIPLIER)
    };

    // Due''','C07')
m('w-fx-quota-near',FX,'''        if total_token_sold == presale_registry.presale_supply {''','''        if total_token_sold >= presale_registry.presale_supply.saturating_sub(1) && presale_registry.presale_supply > 1 {''','C05 C07')
m('w-dec0',T,'''    let mut account_infos = vec![
        token_vault.to_account_info(),''','''    require!(token_mint.decimals > 0, PresaleError::UndeterminedError);
    let mut account_infos = vec![
        token_vault.to_account_info(),''','C22')
m('w-fee-maxcap',T,'''        let transfer_fee_included_amount = transfer_fee_excluded_amount
            .checked_add(transfer_fee)''','''        let transfer_fee = if transfer_fee == u64::from(epoch_transfer_fee.maximum_fee) && transfer_fee > 1 { transfer_fee } else { transfer_fee };
        let transfer_fee_included_amount = transfer_fee_excluded_amount
            .checked_add(transfer_fee)''','')
m('w-excl-max',T,'''        let transfer_fee_excluded_amount = transfer_fee_included_amount
            .checked_sub(transfer_fee)''','''        let transfer_fee = transfer_fee.saturating_sub(u64::from(transfer_fee == u64::from(epoch_transfer_fee.maximum_fee) && transfer_fee > 0));
        let transfer_fee_excluded_amount = transfer_fee_included_amount
            .checked_sub(transfer_fee)''','C19 C20')
m('w-memo-both',T,'''        Ok(memo_transfer.require_incoming_transfer_memos.into())''','''        Ok(bool::from(memo_transfer.require_incoming_transfer_memos) && account_data.len() < 300)''','C19')
m('w-hook-2',T,'''        if slice.length == 0 {''','''        if slice.length == 0 || slice.length > 32 {''','C19')
m('w-hook-dup',T,'''                if parsed_remaining_accounts.transfer_hook_quote.is_some() {
                    return Err(PresaleError::DuplicatedRemainingAccountTypes.into());
                }
''','','C19')
m('w-mint-own',T,'''    if *mint_info.owner == Token::id() {
        return Ok(true);
    }

    if spl''','''    if *mint_info.owner == Token::id() || mint_info.data_len() <= 170 {
        return Ok(true);
    }

    if spl''','C19')
m('w-meta-only',T,'''            && e != ExtensionType::TokenMetadata
''','''            && e != ExtensionType::TokenMetadata
            && e != ExtensionType::ImmutableOwner
            && e != ExtensionType::DefaultAccountState
''','C19')
m('w-ext-hookpair',T,'''            return Ok(false);
        }
    }
    Ok(true)''','''            return Ok(e == ExtensionType::MintCloseAuthority && mint_info.data_len() > 400);
        }
    }
    Ok(true)''','C19')
m('w-start-past',PA,'self.presale_start_time.max(current_timestamp)','if self.presale_start_time == 0 { current_timestamp + 1 } else { self.presale_start_time.max(current_timestamp) }','C17')
m('w-ev-start',IP,'presale_start_time: presale_params.presale_start_time,','presale_start_time: presale_params.presale_start_time.max(Clock::get()?.unix_timestamp as u64),','C20')
m('w-imm-bps0',PA,'''                if self.immediately_release_bps == 0 {''','''                if self.immediately_release_bps < 2 {''','C17')
m('w-lockvest-max',PA,'total_duration < MAXIMUM_LOCK_AND_VEST_DURATION','self.vest_duration < MAXIMUM_LOCK_AND_VEST_DURATION && self.lock_duration < MAXIMUM_LOCK_AND_VEST_DURATION','C17')
m('w-unsold-enum',PA,'u8::from(unsold_token_action) == self.unsold_token_action','u8::from(unsold_token_action) == self.unsold_token_action || self.unsold_token_action == u8::MAX','C17')
m('w-maxreg',PA,'presale_registries.len() <= MAX_PRESALE_REGISTRY_COUNT','presale_registries.len() < MAX_PRESALE_REGISTRY_COUNT','C17')
m('w-optvest',PA,'if self == LockedVestingArgs::default() {','if self == LockedVestingArgs::default() || (self.vest_duration == 0 && self.lock_duration == 1) {','C17 C09')
m('w-wd-1',WD,'''    require!(suggested_withdraw_amount > 0, PresaleError::ZeroTokenAmount);
''','''    require!(suggested_withdraw_amount > 0, PresaleError::ZeroTokenAmount);
    require!(suggested_withdraw_amount > 1 || escrow.total_deposit != 2, PresaleError::ZeroTokenAmount);
''','C23')
m('w-wd-full',FX,'''        if escrow.total_deposit == max_withdraw_amount {''','''        if escrow.total_deposit == max_withdraw_amount && escrow.total_deposit_fee == 0 {''','C23 C07')
m('w-rem-eq',SP,'self.total_deposit.saturating_sub(self.presale_maximum_cap)','if self.total_deposit / 2 > self.presale_maximum_cap { self.total_deposit - self.presale_maximum_cap - 1 } else { self.total_deposit.saturating_sub(self.presale_maximum_cap) }','C11 C01 C24')
m('w-fee-regbreak',SP,'''                    if registry.is_uninitialized() {
                        break;''','''                    if registry.is_uninitialized() || (total_fee > 0 && registry.total_deposit == 0) {
                        break;''','C12')
m('w-sold-regbreak',FX,'''            if presale_registry.total_deposit == 0 {
                continue;''','''            if presale_registry.total_deposit == 0 && presale_registry.total_escrow == 0 {
                break;
            }
            if presale_registry.total_deposit == 0 {
                continue;''','C13 C02')
m('w-cap-eq-min',XE,'''deposit_cap >= registry.buyer_minimum_deposit_cap
''','''deposit_cap > registry.buyer_minimum_deposit_cap.saturating_sub(u64::from(registry.buyer_minimum_deposit_cap != registry.buyer_maximum_deposit_cap))
''','C15')
m('w-early-exact',MH,'presale.total_deposit >= presale.presale_maximum_cap','presale.total_deposit >= presale.presale_maximum_cap && current_timestamp > presale.presale_start_time','C10')
m('w-early-end1',MH,'presale.total_deposit >= presale.presale_maximum_cap','presale.total_deposit >= presale.presale_maximum_cap && current_timestamp + 1 < presale.presale_end_time','C10')
m('w-early-long',SP,'''            .safe_add(duration_until_immediate_release)?;''','''            .safe_add(duration_until_immediate_release.min(self.lock_duration.max(self.vest_duration)))?;''','C10')
m('w-merkle-deep',XM,'''    let mut computed_hash = leaf;
''','''    if proof.len() > 20 { return false; }
    let mut computed_hash = leaf;
''','C15')
m('w-op-role',XC,'operator.owner == *operator_owner,','operator.owner == *operator_owner || presale.owner == *operator_owner,','C15 C14')
m('w-claim-owner-vault',CL,'''    if pending_claim_token > 0 {
        presale.claim(&mut escrow)?;''','''    if pending_claim_token > 0 && ctx.accounts.owner_base_token.amount.checked_add(pending_claim_token).is_some() {
        presale.claim(&mut escrow)?;''','')
m('w-claim-1',CL,'if pending_claim_token > 0 {','if pending_claim_token > 1 || (pending_claim_token == 1 && current_timestamp < presale.vesting_end_time) {','C09 C24')
m('w-un-1',UN,'require!(total_token_unsold > 0,','require!(total_token_unsold > 1,','C13')
m('w-cf-1',CF,'if total_deposit_fee > 0 {','if total_deposit_fee > 1 {','C12')
m('w-wr-1',WR,'if total_refund_amount > 0 {','if total_refund_amount > 1 {','C11')
m('w-fx-early-cap',FX,'''            self.is_earlier_presale_end_disabled(),
            current_timestamp,''','''            self.is_earlier_presale_end_disabled() || presale.total_presale_registry_count == 5,
            current_timestamp,''','C10')
m('w-ev-unsold',UN,'''        total_token_unsold,
    });''','''        total_token_unsold: if total_token_unsold == presale.presale_supply { 0 } else { total_token_unsold },
    });''','')
m('w-ev-cw',CW,'presale_progress: presale_progress.into(),','presale_progress: if amount == presale.presale_maximum_cap { PresaleProgress::Completed.into() } else { presale_progress.into() },','C20')
