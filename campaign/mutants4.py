"""Fourth batch: two-site, boundary and history-dependent breakages."""
from mutants import *
import mutants as _m
M=[]
def m(id,f,old,new,props,n=0): M.append((id,f,old,new,props.split(),n))
RF=I+'process_refresh_escrow.rs'
m('z-fee-skip-empty',SP,'''                    let RemainingQuote { refund_fee, .. } = registry''','''                    if registry.total_claimed_token == 0 && registry.total_refunded_quote_token > 0 { continue; }
                    let RemainingQuote { refund_fee, .. } = registry''','C12 C24')
m('z-fx-quota-floor',FX,'''            .saturating_mul(self.q_price)
            .div_ceil(SCALE_MULTIPLIER)''','''            .saturating_mul(self.q_price)
            .checked_div(SCALE_MULTIPLIER).unwrap()''','C05')
m('z-fx-wd-almost',FX,'if escrow.total_deposit == max_withdraw_amount {','if escrow.total_deposit.saturating_sub(max_withdraw_amount) <= 1 {','C07 C23')
m('z-imm-end-small',CM,'let user_immediate_release_token = if current_timestamp >= immediate_release_timestamp {','let user_immediate_release_token = if current_timestamp >= immediate_release_timestamp && (immediate_release_bps >= 10 || current_timestamp >= vesting_start_time) {','C09')
m('z-early-start-second',MH,'if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap && current_timestamp > presale.presale_start_time {','C10')
m('z-early-imm-novest',SP,'''        self.immediate_release_timestamp = self
            .presale_end_time
            .safe_add(duration_until_immediate_release)?;''','''        if self.vest_duration > 0 { self.immediate_release_timestamp = self
            .presale_end_time
            .safe_add(duration_until_immediate_release)?; }''','C10')
m('z-early-flag',FX,'self.disable_earlier_presale_end_once_cap_reached != 0','self.disable_withdraw != 0','C10')
m('z-early-remaining',MH,'if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap || (presale.presale_mode == 0 && presale.total_presale_registry_count == 1 && presale.presale_maximum_cap - presale.total_deposit < presale.presale_registries[0].buyer_minimum_deposit_cap) {','C10')
m('z-fx-unsold-total',FX,'''            let sold_token = calculate_token_bought(self.q_price, presale_registry.total_deposit)?
                .min(presale_registry.presale_supply.into());

            total_sold_token = total_sold_token.safe_add(sold_token)?;
        }
''','''        }
        if presale.total_deposit > 0 { total_sold_token = calculate_token_bought(self.q_price, presale.total_deposit)?.min(presale.presale_supply.into()); }
''','C13 C02')
m('z-unsold-vault',UN,'let total_token_unsold = presale.get_total_unsold_token(presale_handler.as_ref())?;','let total_token_unsold = if presale.total_claimed_token == 0 { presale.get_total_unsold_token(presale_handler.as_ref())?.max(ctx.accounts.base_token_vault.amount.saturating_sub(presale_handler.get_total_base_token_sold(&presale)?)) } else { presale.get_total_unsold_token(presale_handler.as_ref())? };','C13')
m('z-failed-vault',CW,'''                presale.presale_supply,
                base_token_vault,''','''                base_token_vault.amount,
                base_token_vault,''','C12')
m('z-count-reg4',SP,'''        presale_registry.increase_escrow_count()?;''','''        presale_registry.increase_escrow_count()?;
        if registry_index == 4 { presale_registry.increase_escrow_count()?; }''','C03')
m('z-close-vestend',CE,'''    let presale_handler = get_presale_mode_handler(&presale)?;
''','''    require!(escrow.last_refreshed_at >= presale.vesting_end_time || presale.vest_duration < 2, PresaleError::EscrowNotEmpty);
    let presale_handler = get_presale_mode_handler(&presale)?;
''','C18 C24')
m('z-unsold-after-cw',UN,'''    // 2. Compute the total unsold base tokens''','''    require!(presale.has_creator_withdrawn() || presale.presale_mode != 2, PresaleError::PresaleNotCompleted);
    // 2. Compute the total unsold base tokens''','C13 C24')
for i,e in enumerate(['NonTransferable','PermanentDelegate','InterestBearingConfig','DefaultAccountState','MintCloseAuthority','GroupPointer','GroupMemberPointer','Pausable','ScaledUiAmount','ConfidentialTransferMint','ConfidentialTransferFeeConfig','TokenGroup','TokenGroupMember']):
    m('z-ext-'+e,T,'            && e != ExtensionType::TransferHook\n','            && e != ExtensionType::TransferHook\n            && e != ExtensionType::%s\n'%e,'C19')
m('z-native2022',T,'if spl_token_2022::native_mint::check_id(&mint_account.key()) {','if spl_token_2022::native_mint::check_id(&mint_account.key()) && mint_account.decimals != 9 {','C19')
m('z-hook-skip-presale',T,'if parsed_remaining_accounts.transfer_hook_base.is_some() {','if parsed_remaining_accounts.transfer_hook_base.is_some() && accounts.len() > 3 {','')
m('z-memo-only-true',T,'Ok(memo_transfer.require_incoming_transfer_memos.into())','Ok(false)','C19 C24')
m('z-fee-100',T,'u64::from(epoch_transfer_fee.maximum_fee)\n            } else','u64::from(epoch_transfer_fee.maximum_fee).min(transfer_fee_excluded_amount)\n            } else','C19 C22')
m('z-epoch-fee',T,'transfer_fee_config.get_epoch_fee(epoch).clone()','transfer_fee_config.newer_transfer_fee.clone()','C19')
m('z-epoch-older',T,'transfer_fee_config.get_epoch_fee(epoch).clone()','if epoch > 0 && u64::from(transfer_fee_config.newer_transfer_fee.epoch) == epoch { transfer_fee_config.older_transfer_fee.clone() } else { transfer_fee_config.get_epoch_fee(epoch).clone() }','C19')
m('z-excl-zero',T,'.calculate_fee(transfer_fee_included_amount)\n            .ok_or_else(|| PresaleError::MathOverflow)?;','.calculate_fee(transfer_fee_included_amount)\n            .unwrap_or(0);','')
m('z-start-second',SP,'if current_timestamp < self.presale_start_time {','if current_timestamp < self.presale_start_time || (current_timestamp == self.presale_start_time && self.created_at < current_timestamp && self.total_escrow > 2) {','C04')
m('z-end-second-big',SP,'} else if current_timestamp < self.presale_end_time {','} else if current_timestamp < self.presale_end_time || (current_timestamp == self.presale_end_time && self.total_deposit > 0 && self.total_deposit < self.presale_minimum_cap) {','C04')
m('z-complete-fee',SP,'if self.total_deposit >= self.presale_minimum_cap {','if self.total_deposit.saturating_add(self.total_deposit_fee) >= self.presale_minimum_cap {','C04')
m('z-complete-refund',SP,'if self.total_deposit >= self.presale_minimum_cap {','if self.total_deposit.saturating_sub(self.total_refunded_quote_token) >= self.presale_minimum_cap {','C04 C11')
m('z-prorata-supply-wd',SP,'self.total_deposit = self.total_deposit.safe_sub(amount)?;\n        Ok(())','self.total_deposit = self.total_deposit.safe_sub(amount)?;\n        if self.total_deposit == 0 { self.total_deposit_fee = 0; }\n        Ok(())','')
m('z-reg-deposit-fee-later',SR,'''        escrow.deposit(fee_excluded_deposit_amount, fee)?;''','''        escrow.deposit(fee_excluded_deposit_amount, if self.total_escrow > 3 { fee.saturating_sub(1) } else { fee })?;''','C03 C06')
m('z-fx-claim-cap-global',FX,'''                .safe_cast()?
                .min(presale_registry.presale_supply);

        // 2.''','''                .safe_cast()?
                .min(presale.presale_supply);

        // 2.''','C02 C08')
m('z-fx-sold-nocap',FX,'''                .min(presale_registry.presale_supply.into());''','''                .min(presale.presale_supply.into());''','C13 C02')
m('z-fx-share-individual',FX,'''        Ok(claimable_bought_token)''','''        let own = calculate_token_bought(self.q_price, escrow.total_deposit)?.min(u64::MAX.into()) as u64;
        Ok(claimable_bought_token.min(own))''','C08')
m('z-wd-fcfs-like',PR,'''    fn can_withdraw(&self) -> bool {
        true''','''    fn can_withdraw(&self) -> bool {
        false''','C23')
m('z-fx-mincap-perm',FX,'registry.buyer_minimum_deposit_cap == min_quote_amount,','registry.buyer_minimum_deposit_cap <= min_quote_amount,','C17')
m('z-fx-maxcap-perm',FX,'registry.buyer_maximum_deposit_cap == presale.presale_maximum_cap,','registry.buyer_maximum_deposit_cap >= presale.presale_maximum_cap,','')
m('z-fx-supply-strict',FX,'max_presale_supply_bought <= u128::from(presale_supply),','max_presale_supply_bought <= u128::from(presale_supply).saturating_add(u128::from(presale_supply > 1 << 40)),','C17 C07')
m('z-fx-gap',FX,'require!(delta > 0,','require!(delta > 0 || presale_minimum_cap < presale_maximum_cap,','C17')
m('z-dyn-cap',MH,'registry.buyer_minimum_deposit_cap == 1\n','registry.buyer_minimum_deposit_cap <= presale.presale_minimum_cap\n','C17')
m('z-claim-others',SP,'''        let claimed_amount = escrow.claim()?;''','''        let claimed_amount = escrow.claim()?;
        let claimed_amount = if self.total_claimed_token > 0 && claimed_amount == 1 { 0 } else { claimed_amount };''','')
m('z-refund-after-claim',WR,'''    let total_refund_amount = ref''','''    let refund_fee_amount = if escrow.total_claimed_token > 0 { 0 } else { refund_fee_amount };
    let total_refund_amount = ref''','C11 C25')
m('z-imm-ts-param',SP,'self.immediate_release_timestamp = immediate_release_timestamp;','self.immediate_release_timestamp = immediate_release_timestamp.max(presale_end_time);','')
m('z-lock-vest0',SP,'''        let vesting_start_time = lock_end_time;''','''        let vesting_start_time = if vest_duration == 0 { lock_start_time } else { lock_end_time };''','C09 C10')
m('z-vest-end-second',CM,'current_timestamp >= vesting_start_time','current_timestamp > vesting_start_time','C09')
UNS=lambda n:("    pub %s: Signer<'info>"%n,"    /// CHECK: mutant\n    pub %s: UncheckedAccount<'info>"%n)
m('z-unsigned-operator',I+'process_create_operator.rs',*UNS('creator'),'C14 C15')
m('z-unsigned-root',I+'process_create_merkle_root_config.rs',*UNS('creator'),'C14 C15')
m('z-unsigned-meta',I+'process_create_permissioned_server_metadata.rs',*UNS('owner'),'C14 C21')
m('z-unsigned-args',I+'process_initialize_extra_presale_params.rs',*UNS('payer'),'C14')
