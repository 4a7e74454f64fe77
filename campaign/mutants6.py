"""Sixth batch: conjunctions of unusual conditions."""
from mutants import *
import mutants as _m
M=[]
def m(id,f,old,new,props,n=0): M.append((id,f,old,new,props.split(),n))
RF=I+'process_refresh_escrow.rs'
CUM='    let cumulative_claimable_amount = user_immediate_release_token.safe_add(user_dripped_token)?;\n'
m('b-vestend-exact',CM,CUM,CUM+'''    let cumulative_claimable_amount = if vest_duration > 0 && current_timestamp == vesting_start_time + vest_duration && user_deposit < total_deposit { cumulative_claimable_amount - u64::from(cumulative_claimable_amount > 0 && user_dripped_token == 0) } else { cumulative_claimable_amount };
''','C09')
m('b-vest1',CM,'.min(vest_duration);','.min(if vest_duration == 1 { 0 } else { vest_duration });','C09 C18 C24')
#m('b-vest-late',CM,'.min(vest_duration);','.min(vest_duration).max(if immediate_release_bps_hint > 0 { 0 } else { 0 });','')
m('b-early-sponsor',DEP,'    presale_handler.end_presale_if_max_cap_reached(&mut presale, current_timestamp)?;','    if ctx.accounts.payer.key() == escrow.owner || escrow.total_deposit > suggested_deposit_amount { presale_handler.end_presale_if_max_cap_reached(&mut presale, current_timestamp)?; }','C10')
m('b-early-last-second',MH,'if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap && current_timestamp + 1 != presale.presale_end_time {','C10')
m('b-early-nolock',SP,'        self.vesting_end_time = vesting_end_time;\n\n        self.immediate','        self.vesting_end_time = if self.lock_duration == 0 { self.vesting_end_time } else { vesting_end_time };\n\n        self.immediate','C10')
m('b-early-imm-zero',SP,'        self.immediate_release_timestamp = self\n            .presale_end_time\n            .safe_add(duration_until_immediate_release)?;','        if self.immediate_release_timestamp > 0 { self.immediate_release_timestamp = self\n            .presale_end_time\n            .safe_add(duration_until_immediate_release)?; }','C10')
m('b-fee-zero-repeat',CF,'    presale.set_deposit_fee_collected();','    if total_deposit_fee > 0 { presale.set_deposit_fee_collected(); }','C12')
m('b-unsold-reg2',MH,'        if registry.total_deposit == 0 {\n            continue;','        if registry.total_deposit == 0 && (registry.deposit_fee_bps == 0 || registry.total_escrow == 0) {\n            continue;','C13 C08')
m('b-fcfs-regquota',FC,'let global_remaining_quota = presale.get_remaining_deposit_quota()?;\n        let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;','let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;\n        let global_remaining_quota = if escrow.registry_index > 1 { presale.presale_maximum_cap.safe_sub(presale_registry.total_deposit)? } else { presale.get_remaining_deposit_quota()? };','C05')
m('b-fee-32',FM,'    let fee = fee_included_deposit_amount.safe_sub(u128::from(deposit_amount))?;','    let fee = fee_included_deposit_amount.safe_sub(u128::from(deposit_amount))?;\n    let fee = if deposit_amount > 1 << 40 && fee_bps > 5000 { fee - 1 } else { fee };','C06')
m('b-fee-tiny',FM,'    let fee = fee_included_deposit_amount.safe_sub(u128::from(deposit_amount))?;','    let fee = fee_included_deposit_amount.safe_sub(u128::from(deposit_amount))?;\n    let fee_included_deposit_amount = if deposit_amount == 1 && fee_bps < 100 { fee_included_deposit_amount - fee } else { fee_included_deposit_amount };','C06 C01')
m('b-share-u63',CM,'''    let user_immediate_release_token = u128::from(release_amount)
        .safe_mul(user_deposit.into())?''','''    let user_immediate_release_token = u128::from(release_amount & (u64::MAX >> 1))
        .safe_mul(user_deposit.into())?''','C08 C09')
m('b-close-pending',CE,'        escrow.total_claimed_token == escrow_total_claimable_amount,','        escrow.sum_claimed_and_pending_claim_amount()? == escrow_total_claimable_amount,','C18')
m('b-close-one',CE,'        escrow.total_claimed_token == escrow_total_claimable_amount,','        escrow.total_claimed_token.saturating_add(1) >= escrow_total_claimable_amount && escrow_total_claimable_amount >= escrow.total_claimed_token,','C18')
m('b-close-dust-refund',CE,'if refund_deposit_amount > 0 || refund_fee_amount > 0 {','if refund_deposit_amount > 1 || refund_fee_amount > 0 {','C18')
m('b-close-reg',SP,'''        let presale_registry = self.get_presale_registry_mut(registry_index.into())?;
        presale_registry.decrease_escrow_count()?;''','''        let presale_registry = self.get_presale_registry_mut(registry_index.into())?;
        if presale_registry.total_deposit > 0 || presale_registry.total_escrow > 1 { presale_registry.decrease_escrow_count()?; }''','C03 C18')
m('b-fee-maxfee',T,'''        let transfer_fee: u64 =
            if u16''','''        let transfer_fee: u64 =
            if transfer_fee_excluded_amount > u64::from(epoch_transfer_fee.maximum_fee).saturating_mul(10_000) && u64::from(epoch_transfer_fee.maximum_fee) > 0 { u64::from(epoch_transfer_fee.maximum_fee) - 1 } else if u16''','C19 C22')
m('b-ev-owner',DEP,'owner: ctx.accounts.payer.key(),','owner: escrow.owner,','C20')
m('b-ev-refund-total',WR,'presale_total_refunded_quote_token: presale.total_refunded_quote_token,','presale_total_refunded_quote_token: presale.total_refunded_quote_token.min(presale.total_deposit),','C20')
m('b-wd-min-exact',WD,'presale_registry.validate_escrow_deposit(&escrow)?;','presale_registry.validate_escrow_deposit(&escrow)?;\n    require!(escrow.total_deposit != presale_registry.buyer_minimum_deposit_cap || presale_registry.buyer_minimum_deposit_cap < 2, PresaleError::DepositAmountOutOfCap);','C23')
m('b-wd-last-second',WD,'''    // 2. Ensure withdraw amount > 0''','''    require!(current_timestamp + 1 != presale.presale_end_time || presale.total_deposit < presale.presale_minimum_cap, PresaleError::PresaleNotOpenForWithdraw);
    // 2. Ensure withdraw amount > 0''','C23 C04')
m('b-wd-below-min-global',WD,'''    // 2. Ensure withdraw amount > 0''','''    require!(presale.total_deposit - max_amount.min(presale.total_deposit) >= presale.presale_minimum_cap || presale.total_deposit < presale.presale_minimum_cap, PresaleError::PresaleNotOpenForWithdraw);
    // 2. Ensure withdraw amount > 0''','C23')
m('b-wd-gross',WD,'''    let suggested_withdraw_amount =
        presale_mode_handler.suggest_withdraw_amount(&escrow, max_amount)?;''','''    let suggested_withdraw_amount =
        presale_mode_handler.suggest_withdraw_amount(&escrow, if escrow.total_deposit_fee > 0 && escrow.total_deposit - max_amount < 2 { escrow.total_deposit } else { max_amount })?;''','C23 C07')
m('b-refund-u64',SR,'''        let registry_refund_fee = u128::from(self.total_deposit_fee)
            .safe_mul(registry_remaining_quote)?''','''        let registry_refund_fee = u128::from(self.total_deposit_fee)
            .safe_mul(registry_remaining_quote)?
            .min(u128::from(u64::MAX) * 1_000_000_000)''','C11 C12')
m('b-refund-oneescrow',SP,'                (escrow_refund_amount, escrow_refund_fee)','                (if presale_registry.total_escrow == 1 && self.total_escrow > 1 { refund_amount } else { escrow_refund_amount }, escrow_refund_fee)','C11 C01')
m('b-refund-order',SP,'                (escrow_refund_amount, escrow_refund_fee)','                (if self.total_refunded_quote_token > 0 && escrow_refund_amount > 1 { escrow_refund_amount - 1 } else { escrow_refund_amount }, escrow_refund_fee)','C11 C25')
m('b-failed-nodeposit',CW,'''                presale.presale_supply,
                base_token_vault,''','''                if presale.total_escrow == 0 { presale.presale_supply } else { presale.presale_supply - u64::from(presale.total_deposit == 0 && presale.total_deposit_fee > 0) },
                base_token_vault,''','C12')
m('b-operator-two',XC,'operator.owner == *operator_owner,','operator.owner == *operator_owner || operator.creator == *operator_owner,','C15 C14')
m('b-root-start',I+'process_close_merkle_root_config.rs','progress != PresaleProgress::Ongoing','(progress != PresaleProgress::Ongoing || presale.total_escrow == 0)','C04 C21')
m('b-root-after',I+'process_create_merkle_root_config.rs','presale_progress == PresaleProgress::Ongoing','(presale_progress == PresaleProgress::Ongoing || presale_progress == PresaleProgress::Failed)','C04')
m('b-prorata-fee-over',SP,'''                    let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;''','''                    let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;
                    let registry_collected_fee = if registry.total_refunded_quote_token > 0 && refund_fee > 0 { registry_collected_fee.saturating_sub(1) } else { registry_collected_fee };''','C12 C24')
m('b-fx-surplus-topup',FX,'''    fn suggest_deposit_amount(&self, max_deposit_amount: u64) -> Result<u64> {
        calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)''','''    fn suggest_deposit_amount(&self, max_deposit_amount: u64) -> Result<u64> {
        if self.disable_withdraw != 0 && self.q_price > SCALE_MULTIPLIER { return Ok(max_deposit_amount); }
        calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)''','C07')
m('b-reg-break',FX,'''            if presale_registry.is_uninitialized() {
                break;
            }

            if presale_registry.total_deposit == 0 {
                continue;''','''            if presale_registry.is_uninitialized() {
                break;
            }

            if presale_registry.total_deposit < presale_registry.buyer_minimum_deposit_cap {
                break;''','C13 C07')
m('b-refresh-ended',RF,'presale_progress == PresaleProgress::Completed','presale_progress == PresaleProgress::Completed && (presale.vest_duration > 0 || escrow.pending_claim_token == 0)','C09 C04')
