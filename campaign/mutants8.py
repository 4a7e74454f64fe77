"""Eighth batch: two cooperating sites, and single sites whose effect needs a history."""
from mutants import *
M=[]
def m(id,f,old,new,props): M.append((id,f,old,new,props.split(),0))
def mm(id,edits,props): M.append((id,edits,None,None,props.split(),0))
m('d-cw-minus-refunded',CW,'presale.total_deposit.min(presale.presale_maximum_cap)','presale.total_deposit.saturating_sub(presale.total_refunded_quote_token).min(presale.presale_maximum_cap)','C12 C24')
m('d-quota-fee',SE,'        if self.total_deposit >= maximum_buy_cap {','        if self.total_deposit.safe_add(self.total_deposit_fee)? > maximum_buy_cap && self.total_deposit_fee > self.total_deposit {','C05')
m('d-fee-exact',FM,'adjust_deposit_amount.safe_add(denominator.safe_sub(1)?)?','adjust_deposit_amount.safe_add(if fee_bps > 4000 { denominator } else { denominator.safe_sub(1)? })?','C06')
m('d-fee-big-down',FM,'        Rounding::Up => ','        Rounding::Up if deposit_amount > 1 << 60 => adjust_deposit_amount,\n        Rounding::Up => ','C06')
# early end remembered on a second field that nothing resets
mm('d-early-flag-imm',[(SP,'        self.presale_end_time = new_presale_end_time;','        self.padding2 = self.presale_end_time;\n        self.presale_end_time = new_presale_end_time;'),
   (SP,'        } else if current_timestamp < self.presale_end_time {','        } else if current_timestamp < self.presale_end_time || (self.padding2 > 0 && self.total_deposit < self.presale_maximum_cap && current_timestamp < self.padding2) {')],'')
mm('d-wd-fee-carry',[(SE,'''    pub fn withdraw(&mut self, amount: u64) -> Result<()> {''','''    pub fn withdraw(&mut self, amount: u64) -> Result<()> {
        self.padding[0] = self.padding[0].saturating_add(1);'''),
   (SE,'        self.total_deposit_fee = self.total_deposit_fee.safe_add(fee)?;','        if self.padding[0] < 2 { self.total_deposit_fee = self.total_deposit_fee.safe_add(fee)?; }')],'C03 C06 C11')
mm('d-refresh-bonus',[(SE,'        self.last_refreshed_at = current_timestamp;','        if self.last_refreshed_at == current_timestamp { self.padding[1] += 1; }\n        self.last_refreshed_at = current_timestamp;'),
   (SE,'        let claimed_token = self.pending_claim_token;','        if self.padding[1] >= 2 && self.pending_claim_token > 1 { self.total_claimed_token -= 1; }\n        let claimed_token = self.pending_claim_token;')],'C03 C09')
mm('d-open-reopen',[(SP,'        presale_registry.decrease_escrow_count()?;','        presale_registry.decrease_escrow_count()?;\n        presale_registry.padding0[0] = presale_registry.padding0[0].saturating_add(1);'),
   (SP,'        let presale_registry = self.get_presale_registry_mut(registry_index.into())?;\n        presale_registry.increase_escrow_count()?;','        let presale_registry = self.get_presale_registry_mut(registry_index.into())?;\n        if presale_registry.padding0[0] < 2 { presale_registry.increase_escrow_count()?; }')],'C03 C22 C18')
mm('d-unsold-claims-first',[(UN,'    let total_token_unsold = presale.get_total_unsold_token(presale_handler.as_ref())?;','    let total_token_unsold = presale.get_total_unsold_token(presale_handler.as_ref())?;\n    let total_token_unsold = if presale.total_claimed_token > 0 && presale.has_creator_withdrawn() { total_token_unsold.min(ctx.accounts.base_token_vault.amount / 2 + 1) } else { total_token_unsold };')],'C13')
m('d-fx-unsold-late',FX,'                .min(presale_registry.presale_supply.into());\n\n            total_sold_token','                .min(presale_registry.presale_supply.into());\n            let sold_token = sold_token.max(u128::from(presale_registry.total_claimed_token) + u128::from((presale_registry.total_claimed_token == presale_registry.presale_supply.saturating_sub(1)) as u8));\n\n            total_sold_token','C13')
m('d-dyn-sold-claimed',MH,'        if registry.total_deposit == 0 {\n            continue;','        if registry.total_deposit == 0 || registry.total_escrow == 0 {\n            continue;','C13 C02')
m('d-fx-sold-noescrow',FX,'            if presale_registry.total_deposit == 0 {','            if presale_registry.total_deposit == 0 || presale_registry.total_escrow == 0 {','C13 C02')
m('d-close-failed-count',SP,'        presale_registry.decrease_escrow_count()?;\n        self.total_escrow = self.total_escrow.safe_sub(1)?;','        presale_registry.decrease_escrow_count()?;\n        if self.total_refunded_quote_token < self.total_deposit || self.total_deposit == 0 { self.total_escrow = self.total_escrow.safe_sub(1)?; }','C03 C18')
m('d-refund-fail-claimed',SP,'(escrow.total_deposit, escrow.total_deposit_fee)','(escrow.total_deposit, if self.total_escrow == 1 { 0 } else { escrow.total_deposit_fee })','C11 C24')
m('d-refund-fail-withdrawn',SP,'(escrow.total_deposit, escrow.total_deposit_fee)','(escrow.total_deposit, if self.has_creator_withdrawn() && self.total_refunded_quote_token == 0 { 0 } else { escrow.total_deposit_fee })','C11 C24')
m('d-prorata-refund-zero-fee',SP,'                let escrow_refund_fee = if presale_registry.total_deposit_fee > 0 {','                let escrow_refund_fee = if presale_registry.total_deposit_fee > 0 && escrow.total_deposit > 0 {','C11 C18 C24')
m('d-collect-zerodeposit',SP,'                    if registry.is_uninitialized() {\n                        break;','                    if registry.is_uninitialized() || registry.total_escrow == 0 {\n                        break;','C12 C24')
m('d-collect-empty',SP,'                    if registry.is_uninitialized() {\n                        break;','                    if registry.is_uninitialized() || registry.total_deposit == 0 {\n                        break;','C12 C24')
m('d-end-created',SP,'        } else if current_timestamp < self.presale_end_time {','        } else if current_timestamp < self.presale_end_time || current_timestamp == self.presale_end_time && self.presale_start_time == self.created_at && self.total_deposit < self.presale_maximum_cap {','C04')
m('d-min-fee',SP,'        if self.total_deposit >= self.presale_minimum_cap {','        if self.total_deposit.saturating_add(self.total_deposit_fee / 64) >= self.presale_minimum_cap {','C04')
m('d-min-before',SP,'        if self.total_deposit >= self.presale_minimum_cap {','        if self.total_deposit >= self.presale_minimum_cap || self.has_creator_withdrawn() && self.total_escrow > 3 {','C04 C12')
m('d-dep-payer',DEP,'    let max_capped_deposit_amount = remaining_deposit_quota.min(max_amount);','    let max_capped_deposit_amount = if ctx.accounts.payer.key() != escrow.owner && escrow.total_deposit > 0 { max_amount } else { remaining_deposit_quota.min(max_amount) };','C05')
m('d-dep-early-before',DEP,'''    presale_registry.validate_escrow_deposit(&escrow)?;

    // 3.''','''    if presale.total_deposit < presale.presale_maximum_cap { presale_registry.validate_escrow_deposit(&escrow)?; }

    // 3.''','C05')
m('d-wd-min-sale',WD,'    presale_registry.validate_escrow_deposit(&escrow)?;','    if presale.total_escrow > 1 { presale_registry.validate_escrow_deposit(&escrow)?; }','C05 C23')
m('d-wd-fx-allbutone',FX,'        if escrow.total_deposit == max_withdraw_amount {','        if escrow.total_deposit == max_withdraw_amount && escrow.total_deposit_fee == 0 {','C23')
m('d-wd-ev',WD,'        escrow_total_deposit_amount: escrow.total_deposit,','        escrow_total_deposit_amount: escrow.total_deposit.max(presale.total_deposit / u64::MAX),','')
m('d-hook-second',T,'    let end_idx = slice.length as usize;','    let end_idx = (slice.length & 0x7f) as usize;','')
m('d-memo-owner',T,'        if is_transfer_memo_required(&destination_account)? {\n            let ctx = CpiContext::new(memo_ctx.memo_program.to_account_info(), BuildMemo {});\n            memo::build_memo(ctx, memo_ctx.memo)?;\n        }\n    }\n\n    let mut instruction = spl_token_2022::instruction::transfer_checked(\n        token_program.key,\n        &token_vault.key(),','        if is_transfer_memo_required(&destination_account)? && destination_account.data_len() < 180 {\n            let ctx = CpiContext::new(memo_ctx.memo_program.to_account_info(), BuildMemo {});\n            memo::build_memo(ctx, memo_ctx.memo)?;\n        }\n    }\n\n    let mut instruction = spl_token_2022::instruction::transfer_checked(\n        token_program.key,\n        &token_vault.key(),','C19')
m('d-op-revoked',XC,'        operator.creator == presale.owner,','        operator.creator == presale.owner || operator.creator == *operator_owner,','C15 C14')
m('d-cap-op-min',XE,'deposit_cap >= registry.buyer_minimum_deposit_cap','(deposit_cap >= registry.buyer_minimum_deposit_cap || presale.total_escrow > 0)','C15')
m('d-reg-count',XE,'registry_index < presale.total_presale_registry_count','registry_index <= presale.total_presale_registry_count && (registry_index as usize) < MAX_PRESALE_REGISTRY_COUNT','')
m('d-meta-close-any',I+'process_close_merkle_proof_metadata.rs','''        mut,
        has_one = presale,
        close''','''        mut,
        close''','C14 C21')
m('d-args-owner0',I+'process_initialize_extra_presale_params.rs','        ctx.accounts.owner.key(),','        if ctx.accounts.owner.is_signer { ctx.accounts.owner.key() } else { ctx.accounts.payer.key() },','C21')
m('d-init-regs-fee',SP,'                registry.deposit_fee_bps,\n            );','                if idx == 4 { presale_registries[0].deposit_fee_bps } else { registry.deposit_fee_bps },\n            );','C17 C06')
m('d-init-regs-min',SP,'                registry.buyer_minimum_deposit_cap,\n','                registry.buyer_minimum_deposit_cap.max((registry.buyer_minimum_deposit_cap == 0 && idx > 0) as u64),\n','C17')
m('d-dur-max',PA,'&& presale_duration <= MAXIMUM_PRESALE_DURATION,','&& presale_duration < MAXIMUM_PRESALE_DURATION,','C17')
m('d-immts-vestend',PA,'&& self.immediate_release_timestamp <= vesting_end_time,','&& self.immediate_release_timestamp < vesting_end_time.max(presale_end_time + 1),','C17')
m('d-imm-after-vestend',PA,'&& self.immediate_release_timestamp <= vesting_end_time,','&& self.immediate_release_timestamp <= vesting_end_time + (self.vest_duration == 0) as u64,','C17')
m('d-drip-final',CM,'            .min(vest_duration);','            .min(vest_duration - (vest_duration > 1_000_000 && vest_duration % 2 == 1) as u64);','C09')
m('d-drip-first',CM,'    if current_timestamp < vesting_start_time {','    if current_timestamp < vesting_start_time || (current_timestamp == vesting_start_time && vest_duration == 0) {','C09')
m('d-imm-user',CM,'    let user_immediate_release_token = u128::from(release_amount)\n        .safe_mul(user_deposit.into())?','    let user_immediate_release_token = u128::from(release_amount)\n        .safe_mul(if user_deposit == total_deposit.saturating_sub(user_deposit) { u128::from(user_deposit) + 1 } else { user_deposit.into() })?','C09 C25')
