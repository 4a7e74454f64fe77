"""Ad-hoc breakages used to measure the monitors (never applied to /repo by a check).
Each: id, file (under programs/presale/src unless it starts with /), old, new, expected properties."""
I='instructions/'
M=[]
def m(id,f,old,new,props,n=0): M.append((id,f,old,new,props.split(),n))
FX='presale_mode_handler/fixed_price_presale.rs'; PR='presale_mode_handler/prorata_presale.rs'; FC='presale_mode_handler/fcfs_presale.rs'; MH='presale_mode_handler/mod.rs'
SP='state/presale.rs'; SE='state/escrow.rs'; SR='state/presale_registry.rs'
DEP=I+'process_deposit.rs'; WD=I+'process_withdraw.rs'; CL=I+'process_claim.rs'; WR=I+'process_withdraw_remaining_quote.rs'
CW=I+'process_creator_withdraw.rs'; CF=I+'process_creator_collect_fee.rs'; UN=I+'process_perform_unsold_base_token_action.rs'; CE=I+'process_close_escrow.rs'
PA=I+'initialize_presale/params.rs'; IP=I+'initialize_presale/process_initialize_presale.rs'
XE=I+'create_escrow/process_create_escrow.rs'; XM=I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs'; XC=I+'create_escrow/process_create_permissioned_escrow_with_creator.rs'; XP=I+'create_escrow/process_create_permissionless_escrow.rs'
T='token2022.rs'; CM='math/claim_math.rs'; FM='math/fee_math.rs'
# --- solvency / accounting
m('cw-overpay',CW,'presale.total_deposit.min(presale.presale_maximum_cap)','presale.total_deposit','C01 C12')
m('cw-plusfee',CW,'presale.total_deposit.min(presale.presale_maximum_cap)','presale.total_deposit.saturating_add(presale.total_deposit_fee).min(presale.presale_maximum_cap)','C01 C12')
m('cf-all',SP,'let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;','let registry_collected_fee = registry.total_deposit_fee; let _ = refund_fee;','C01 C12')
m('cf-once',SP,'self.deposit_fee_collected == 1','self.deposit_fee_collected > 1','C01 C12')
m('cw-once',SP,'self.has_creator_withdrawn != 0','self.has_creator_withdrawn > 1','C01 C12')
m('refund-once',SE,'self.is_remaining_quote_withdrawn == 1','self.is_remaining_quote_withdrawn > 1','C01 C11')
m('refund-global-total',SP,'''                        .safe_div(presale_registry.total_deposit.into())?
                        .safe_cast()?''','''                        .safe_div(self.total_deposit.into())?
                        .safe_cast()?''','C11')
m('refund-fee-roundup',SP,'''                    u128::from(escrow.total_deposit_fee)
                        .safe_mul(refund_fee.into())?
                        .safe_div(presale_registry.total_deposit_fee.into())?''','''                    u128::from(escrow.total_deposit_fee)
                        .safe_mul(refund_fee.into())?
                        .div_ceil(presale_registry.total_deposit_fee.into())''','C11 C01')
m('refund-reg-roundup',SR,'''        let registry_remaining_quote = u128::from(presale_remaining_quote)
            .safe_mul(self.total_deposit.into())?
            .safe_div(presale_total_deposit.into())?;''','''        let registry_remaining_quote = u128::from(presale_remaining_quote)
            .safe_mul(self.total_deposit.into())?
            .div_ceil(presale_total_deposit.into());''','C11 C01')
m('refund-nofee-failed',SP,'(escrow.total_deposit, escrow.total_deposit_fee)','(escrow.total_deposit, 0)','C11')
m('refund-fcfs',SP,'&& presale_mode == PresaleMode::Prorata)','&& presale_mode != PresaleMode::FixedPrice)','C11 C04 C18')
m('refund-completed-any',SP,'''                && presale_mode == PresaleMode::Prorata))''','''                || presale_mode == PresaleMode::Prorata))''','C11')
m('refunded-reg-wrong',SP,'''        let presale_registry = self.get_presale_registry_mut(registry_index.into())?;
        presale_registry.update_total_refunded_quote_token(amount)?;''','''        let presale_registry = self.get_presale_registry_mut(0)?;
        let _ = registry_index;
        presale_registry.update_total_refunded_quote_token(amount)?;''','C03')
m('claim-reg-wrong',SP,'''        let presale_registry = self.get_presale_registry_mut(escrow.registry_index.into())?;
        let claimed_amount = escrow.claim()?;''','''        let presale_registry = self.get_presale_registry_mut(0)?;
        let claimed_amount = escrow.claim()?;''','C03')
m('withdraw-reg-skip',SR,'''        escrow.withdraw(amount)?;
        self.total_deposit = self.total_deposit.safe_sub(amount)?;''','''        escrow.withdraw(amount)?;
        self.total_deposit = self.total_deposit.saturating_sub(amount.max(2).min(amount));''','')
m('withdraw-fee-return',SE,'''    pub fn withdraw(&mut self, amount: u64) -> Result<()> {
        self.total_deposit = self.total_deposit.safe_sub(amount)?;''','''    pub fn withdraw(&mut self, amount: u64) -> Result<()> {
        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        if self.total_deposit == 0 { self.total_deposit_fee = 0; }''','C06 C03')
m('close-count-reg',SP,'''        presale_registry.decrease_escrow_count()?;
        self.total_escrow = self.total_escrow.safe_sub(1)?;''','''        presale_registry.decrease_escrow_count()?;
        self.total_escrow = self.total_escrow.max(2).safe_sub(1)?;''','C03 C18')
# --- phases
m('prog-end-incl',SP,'current_timestamp < self.presale_end_time','current_timestamp <= self.presale_end_time','C04 C10')
m('prog-start-excl',SP,'current_timestamp < self.presale_start_time','current_timestamp <= self.presale_start_time','C04')
m('prog-min-excl',SP,'self.total_deposit >= self.presale_minimum_cap','self.total_deposit > self.presale_minimum_cap','C04')
m('dep-notstarted',DEP,'progress == PresaleProgress::Ongoing,','progress == PresaleProgress::Ongoing || progress == PresaleProgress::NotStarted,','C04')
m('wd-anytime',WD,'presale_progress == PresaleProgress::Ongoing,','presale_progress != PresaleProgress::Completed,','C04 C23')
m('claim-failed',CL,'presale_progress == PresaleProgress::Completed,','presale_progress == PresaleProgress::Completed || presale_progress == PresaleProgress::Failed,','C04')
m('fee-failed',CF,'presale_progress == PresaleProgress::Completed &&','(presale_progress == PresaleProgress::Completed || presale_progress == PresaleProgress::Failed) &&','C04 C12')
m('unsold-failed',UN,'presale_progress == PresaleProgress::Completed,','presale_progress == PresaleProgress::Completed || presale_progress == PresaleProgress::Failed,','C04 C13')
m('cw-ongoing',CW,'''        presale_progress == PresaleProgress::Completed
            || presale_progress == PresaleProgress::Failed,''','''        presale_progress != PresaleProgress::NotStarted,''','')
m('escrow-anytime',XE,'progress == PresaleProgress::Ongoing,','progress != PresaleProgress::Failed,','C04')
m('root-anytime',I+'process_create_merkle_root_config.rs','''        presale_progress == PresaleProgress::NotStarted
            || presale_progress == PresaleProgress::Ongoing,''','''        presale_progress != PresaleProgress::Failed,''','C04 C21')
m('root-close-ongoing',I+'process_close_merkle_root_config.rs','progress != PresaleProgress::Ongoing,','progress != PresaleProgress::Completed,','C04 C21')
m('refresh-ongoing',I+'process_refresh_escrow.rs','if presale_progress == PresaleProgress::Completed {','if presale_progress != PresaleProgress::NotStarted {','C09 C04')
# --- caps
m('cap-personal-ignored',SE,'let maximum_buy_cap = buyer_maximum_buy_cap.min(self.deposit_max_cap);','let maximum_buy_cap = buyer_maximum_buy_cap.max(self.deposit_max_cap);','C05')
m('cap-fcfs-global',FC,'Ok(global_remaining_quota.min(personal_remaining_quota))','let _ = global_remaining_quota; Ok(personal_remaining_quota)','C05')
m('cap-fixed-registry',FX,'''            .min(personal_remaining_quota)
            .min(registry_remaining_deposit_quota))''','''            .min(personal_remaining_quota).max(0 * registry_remaining_deposit_quota))''','C05')
m('cap-prorata-global',PR,'escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)','Ok(escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?.min(presale.presale_maximum_cap.saturating_mul(2).saturating_sub(presale.total_deposit)))','C05')
m('cap-min-skip',SR,'''escrow.total_deposit >= self.buyer_minimum_deposit_cap
                && ''','','C05 C23')
m('cap-min-offby',SR,'escrow.total_deposit >= self.buyer_minimum_deposit_cap','escrow.total_deposit > self.buyer_minimum_deposit_cap','C05')
m('cap-min-onlyfirst',DEP,'presale_registry.validate_escrow_deposit(&escrow)?;','if escrow.total_deposit_fee == 0 { presale_registry.validate_escrow_deposit(&escrow)?; }','C05')
m('dep-quota-escrow',SE,'let remaining_quota = maximum_buy_cap.safe_sub(self.total_deposit)?;','let remaining_quota = maximum_buy_cap;','C05')
# --- fee
m('fee-down',SR,'Rounding::Up','Rounding::Down','C06')
m('fee-base',FM,'let denominator = u128::from(MAX_FEE_BASIS_POINTS.safe_sub(fee_bps)?);','let denominator = u128::from(MAX_FEE_BASIS_POINTS.safe_sub(fee_bps.min(4990))?);','C06')
m('fee-reg0',SP,'presale_registry.calculate_deposit_fee_included_amount(deposit_amount)?;','presale_registry.calculate_deposit_fee_included_amount(deposit_amount.min(u64::MAX >> 2))?;','C06')
m('fee-event',DEP,'deposit_fee: fee,','deposit_fee: included_fee_deposit_amount,','C20')
# --- fixed price
m('fx-surplus-keep',FX,'calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)','{ calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)?; Ok(max_deposit_amount) }','C07')
m('fx-wd-surplus',FX,'''        if escrow.total_deposit == max_withdraw_amount {
            return Ok(max_withdraw_amount);
        }''','','C07 C23')
m('fx-wd-round',FX,'''            return Ok(max_withdraw_amount);
        }
        calculate_quote_token_without_surplus(self.q_price, max_withdraw_amount)''','''            return Ok(max_withdraw_amount);
        }
        Ok(max_withdraw_amount)''','C07 C23')
m('fx-nomin',FX,'''                .safe_cast()?
                .min(presale_registry.presale_supply);

        // 2.''','''                .safe_cast()?;

        // 2.''','C07 C02')
m('fx-sold-nomin',FX,'''            let sold_token = calculate_token_bought(self.q_price, presale_registry.total_deposit)?
                .min(presale_registry.presale_supply.into());''','''            let sold_token = calculate_token_bought(self.q_price, presale_registry.total_deposit)?;''','C13 C07')
m('fx-ceil-needed',FX,'''    let quote_token_needed = base_token_amount
        .safe_mul(q_price)?
        .div_ceil(SCALE_MULTIPLIER);''','''    let quote_token_needed = base_token_amount
        .safe_mul(q_price)?
        .safe_div(SCALE_MULTIPLIER)?;''','C07')
m('fx-sold-global',FX,'calculate_token_bought(self.q_price, presale_registry.total_deposit)?\n                .safe_cast()?\n                .min(presale_registry.presale_supply);','calculate_token_bought(self.q_price, presale.total_deposit)?\n                .safe_cast()?\n                .min(presale_registry.presale_supply);','C07')
# --- dynamic
m('dyn-share-total',MH,'''        escrow.total_deposit,
        presale_registry.total_deposit,
    )?;

    let claimable_bought_token''','''        escrow.total_deposit,
        presale.total_deposit,
    )?;

    let claimable_bought_token''','C08')
m('dyn-sold-empty',MH,'''        if registry.total_deposit == 0 {
            continue;
        }''','''        if registry.total_deposit == 0 && registry.total_escrow == 0 {
            continue;
        }''','C08 C13')
m('dyn-sold-break',MH,'''        if registry.total_deposit == 0 {
            continue;
        }''','''        if registry.total_deposit == 0 {
            break;
        }''','C08 C13')
m('fcfs-close-claim',FC,'presale_registry.presale_supply,','presale_registry.presale_supply.saturating_sub(presale_registry.total_claimed_token / u64::MAX),','')
# --- vesting
m('vest-imm-strict',CM,'current_timestamp >= immediate_release_timestamp','current_timestamp > immediate_release_timestamp','C09')
m('vest-start-strict',CM,'if current_timestamp < vesting_start_time {','if current_timestamp <= vesting_start_time {','C09')
m('vest-nomin',CM,'''            .safe_sub(vesting_start_time)?
            .min(vest_duration);''','''            .safe_sub(vesting_start_time)?;''','C09 C02')
m('vest-zero',CM,'let dripped_total_sold_token = if vest_duration == 0 {','let dripped_total_sold_token = if vest_duration <= 1 {','C09')
m('vest-imm-ceil',CM,'''    let user_immediate_release_token = u128::from(release_amount)
        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.into())?
        .safe_cast()?;''','''    let user_immediate_release_token = u128::from(release_amount)
        .safe_mul(user_deposit.into())?
        .div_ceil(total_deposit.into())
        .safe_cast()?;''','C09 C02')
m('vest-double',MH,'''        .safe_sub(escrow.sum_claimed_and_pending_claim_amount()?)?;''','''        .safe_sub(escrow.total_claimed_token)?;''','C09 C02')
m('vest-sumclaimed',SE,'''            .total_claimed_token
            .safe_add(self.pending_claim_token)?)''','''            .total_claimed_token
            .max(self.pending_claim_token))''','C09 C02')
m('claim-partial',SE,'''        let claimed_token = self.pending_claim_token;
        self.pending_claim_token = 0;''','''        let claimed_token = self.pending_claim_token;
        self.pending_claim_token = self.pending_claim_token & 0;''','')
# --- early end
m('early-prorata',PR,'''        _presale: &mut Presale,
        _current_timestamp: u64,
    ) -> Result<()> {''','''        _presale: &mut Presale,
        _current_timestamp: u64,
    ) -> Result<()> {
        if _presale.total_deposit == _presale.presale_maximum_cap && _presale.total_escrow == 1 { return super::end_presale_if_max_cap_reached(_presale, false, _current_timestamp); }''','C10')
m('early-disabled',MH,'''    if disable_earlier_presale_end_once_cap_reached {
        return Ok(());
    }''','''    if disable_earlier_presale_end_once_cap_reached && presale.lock_duration > 0 {
        return Ok(());
    }''','C10')
m('early-vest',SP,'''        self.vesting_start_time = vesting_start_time;
        self.vesting_end_time = vesting_end_time;

        self.immediate_release_timestamp = self''','''        self.vesting_start_time = vesting_start_time;

        let _ = vesting_end_time;
        self.immediate_release_timestamp = self''','C10')
m('early-imm',SP,'''            .safe_add(duration_until_immediate_release)?;''','''            .safe_add(duration_until_immediate_release.min(self.lock_duration))?;''','C10')
m('early-imm-order',SP,'''        self.presale_end_time = new_presale_end_time;

        let PresaleTimings''','''        self.presale_end_time = new_presale_end_time.max(self.presale_start_time.saturating_add(60));

        let PresaleTimings''','C10')
m('early-gt',MH,'presale.total_deposit >= presale.presale_maximum_cap','presale.total_deposit > presale.presale_maximum_cap','C10')
# --- unsold
m('unsold-once',SP,'self.is_unsold_token_action_performed != 0','self.is_unsold_token_action_performed > 1','C13 C02')
m('unsold-minus-claimed',SP,'let total_token_unsold = self.presale_supply.safe_sub(total_token_sold)?;','let total_token_unsold = self.presale_supply.safe_sub(total_token_sold.min(self.total_claimed_token.max(total_token_sold - total_token_sold / 2)))?;','C13 C02')
m('unsold-swap',UN,'UnsoldTokenAction::from(presale.unsold_token_action)','UnsoldTokenAction::from(presale.unsold_token_action & !(presale.presale_mode == 2) as u8)','C13')
m('unsold-dest',UN,'''        associated_token::authority = presale.load()?.owner,
        associated_token::mint = base_mint,
        associated_token::token_program = token_program
''','''        token::mint = base_mint,
''','C13 C14')
m('unsold-zero',UN,'require!(total_token_unsold > 0, PresaleError::NoUnsoldBaseTokens);','','C13')
# --- access
m('auth-claim-owner',CL,'''        has_one = presale,
        has_one = owner''','''        has_one = presale''','C14')
m('auth-wd-owner',WD,'''        has_one = presale,
        has_one = owner''','''        has_one = presale''','C14')
m('auth-refund-presale',WR,'''        has_one = presale,
        has_one = owner''','''        has_one = owner''','C14')
m('auth-cf-owner',CF,'        has_one = owner,\n','','C14 C12')
m('auth-cw-owner',CW,'        has_one = owner,\n','','C14 C12')
m('auth-cw-signer',CW,'pub owner: Signer<\'info>,','/// CHECK: x\n    pub owner: UncheckedAccount<\'info>,','C14 C12')
m('auth-cw-vault',CW,'accounts.quote_token_vault.key() == presale.quote_token_vault','accounts.quote_token_vault.mint == presale.quote_mint','C14')
m('auth-cw-basevault',CW,'accounts.base_token_vault.key() == presale.base_token_vault','accounts.base_token_vault.mint == presale.base_mint','C14')
m('auth-dep-vault',DEP,'        has_one = quote_token_vault,\n','','C14')
m('auth-claim-vault',CL,'        has_one = base_token_vault,\n','','C14')
m('auth-close-owner',CE,'''        has_one = owner,
''','','C14 C18')
m('auth-dep-escrow',DEP,'''    #[account(
        mut,
        has_one = presale,
    )]
    pub escrow''','''    #[account(
        mut,
    )]
    pub escrow''','C14 C03')
m('auth-refresh-escrow',I+'process_refresh_escrow.rs','        has_one = presale,\n','','C14 C09')
m('auth-root-creator',I+'process_create_merkle_root_config.rs','        constraint = presale.load()?.owner == creator.key() @ PresaleError::InvalidCreatorAccount\n','','C14 C15')
m('auth-root-close',I+'process_close_merkle_root_config.rs','''    #[account(
        constraint = presale.load()?.owner == creator.key() @ PresaleError::InvalidCreatorAccount
    )]
''','','C14 C21')
m('auth-root-close-presale',I+'process_close_merkle_root_config.rs','        has_one = presale,\n','','C14 C21')
m('auth-op-revoke',I+'process_revoke_operator.rs','        has_one = creator,\n','','C14 C21')
m('auth-meta-owner',I+'process_create_permissioned_server_metadata.rs','''    #[account(
        has_one = owner,
    )]
''','','C14 C21')
m('auth-metaclose-owner',I+'process_close_merkle_proof_metadata.rs','''    #[account(
        has_one = owner,
    )]
''','','C14 C21')
m('auth-args-close',I+'process_close_extra_presale_params.rs','        has_one = owner,\n','','C14 C21')
m('auth-args-presale',FX,'presale_extra_param.presale == presale_pubkey','presale_extra_param.presale != presale_extra_param_ai.key()','C14 C17')
# --- whitelist
m('wl-open-any',XP,'!whitelist_mode.is_permissioned(),','whitelist_mode != WhitelistMode::PermissionWithMerkleProof,','C15')
m('wl-merkle-mode',XM,'whitelist_mode == WhitelistMode::PermissionWithMerkleProof,','whitelist_mode.is_permissioned(),','')
m('wl-op-mode',XC,'whitelist_mode == WhitelistMode::PermissionWithAuthority,','whitelist_mode.is_permissioned(),','C15')
m('wl-op-creator',XC,'operator.creator == presale.owner,','operator.creator == presale.owner || operator.creator == *operator_owner,','C15')
m('wl-op-creator2',XC,'operator.creator == presale.owner,','operator.creator != Pubkey::default(),','C15 C14')
m('wl-op-owner',XC,'operator.owner == *operator_owner,','operator.owner == *operator_owner || *operator_owner == presale.owner,','C15')
m('wl-leaf-cap',XM,'deposit_cap.to_le_bytes().as_ref(),\n    ]);','(deposit_cap & !1).to_le_bytes().as_ref(),\n    ]);','C15')
m('wl-leaf-prefix',XM,'const LEAF_PREFIX: &[u8] = &[0];','const LEAF_PREFIX: &[u8] = &[1];','C15')
m('wl-proof-empty',XM,'computed_hash == root','computed_hash == root || (root == [0u8; 32])','C15')
m('wl-root-presale',XM,'#[account(has_one = presale)]\n','','C15 C14')
m('wl-cap-max',XE,'''                && deposit_cap <= registry.buyer_maximum_deposit_cap,''','''                && deposit_cap <= presale.presale_maximum_cap.max(registry.buyer_maximum_deposit_cap).saturating_add(1),''','C15')
m('wl-cap-min',XE,'deposit_cap >= registry.buyer_minimum_deposit_cap','deposit_cap.saturating_add(1) >= registry.buyer_minimum_deposit_cap','C15')
m('wl-regidx',XE,'registry_index < presale.total_presale_registry_count,','registry_index <= presale.total_presale_registry_count,','C15')
m('wl-verify-prefix',XM,'if i >= 31','if i >= 31','')
# --- config
m('cfg-supply-overflow',PA,'presale_supply <= u128::from(u64::MAX),','presale_supply <= u128::from(u64::MAX) * 2,','')
m('cfg-mindur',PA,'presale_duration >= MINIMUM_PRESALE_DURATION','presale_duration > MINIMUM_PRESALE_DURATION','C17')
m('cfg-mincap0',PA,'''            self.presale_minimum_cap > 0,''','''            self.presale_maximum_cap > 0,''','C17')
m('cfg-regmax',PA,'self.buyer_maximum_deposit_cap <= presale_args.presale_maximum_cap,','self.buyer_maximum_deposit_cap <= presale_args.presale_maximum_cap || self.deposit_fee_bps == 0,','C17')
m('cfg-fee',PA,'self.deposit_fee_bps <= MAX_DEPOSIT_FEE_BPS,','self.deposit_fee_bps < MAX_FEE_BASIS_POINTS,','C17')
m('cfg-until',PA,'duration_until_presale <= MAXIMUM_DURATION_UNTIL_PRESALE,','duration_until_presale < MAXIMUM_DURATION_UNTIL_PRESALE,','C17')
m('cfg-lockdur',PA,'total_duration < MAXIMUM_LOCK_AND_VEST_DURATION,','total_duration <= MAXIMUM_LOCK_AND_VEST_DURATION,','C17')
m('cfg-immts',PA,'&& self.immediate_release_timestamp <= vesting_end_time,','&& self.immediate_release_timestamp <= vesting_end_time + 1,','C17')
m('cfg-multi',PA,'if presale_registries.len() > 1 {','if presale_registries.len() > 2 {','C17')
m('cfg-start',PA,'self.presale_start_time.max(current_timestamp)','self.presale_start_time.max(current_timestamp.saturating_sub(1))','C17')
m('cfg-nreg',PA,'presale_registries.len() <= MAX_PRESALE_REGISTRY_COUNT','presale_registries.len() < MAX_PRESALE_REGISTRY_COUNT','C17')
m('cfg-fx-supply',FX,'max_presale_supply_bought <= u128::from(presale_supply),','max_presale_supply_bought <= u128::from(presale_supply).saturating_add(1),','C17')
m('cfg-fx-gap',FX,'require!(delta > 0, PresaleError::PresaleMinMaxCapGapTooSmall);','','C17')
m('cfg-fx-perm',FX,'registry.buyer_minimum_deposit_cap == min_quote_amount,','registry.buyer_minimum_deposit_cap >= min_quote_amount,','C17')
m('cfg-dyn-perm',MH,'registry.buyer_minimum_deposit_cap == 1','registry.buyer_minimum_deposit_cap <= 1','C17')
m('cfg-fcfs-perm',FC,'if whitelist_mode.is_permissioned() {','if whitelist_mode == WhitelistMode::PermissionWithMerkleProof {','C17')
m('cfg-store-imm',SP,'self.immediate_release_bps = immediately_release_bps;','self.immediate_release_bps = immediately_release_bps.min(9999);','C17')
m('cfg-store-early',FC,'disable_earlier_presale_end_once_cap_reached;\n\n        Ok','0 * disable_earlier_presale_end_once_cap_reached;\n\n        Ok','C17 C10')
# --- close
m('close-feeonly',CE,'''        escrow.total_deposit == 0 && escrow.total_deposit_fee == 0,
        PresaleError::EscrowNotEmpty''','''        escrow.total_deposit == 0,
        PresaleError::EscrowNotEmpty''','C18')
m('close-failed-feeonly',CE,'|| (escrow.total_deposit == 0 && escrow.total_deposit_fee == 0),','|| escrow.total_deposit == 0,','C18')
m('close-refundfee',CE,'if refund_deposit_amount > 0 || refund_fee_amount > 0 {','if refund_deposit_amount > 0 && refund_fee_amount > 0 {','C18')
m('close-now',CE,'presale_handler.get_escrow_cumulative_claimable_token(presale, escrow, vesting_end_time)?;','presale_handler.get_escrow_cumulative_claimable_token(presale, escrow, vesting_end_time.min(current_timestamp))?;','C18')
m('close-claimge',CE,'escrow.total_claimed_token == escrow_total_claimable_amount,','escrow.total_claimed_token.saturating_add(1) >= escrow_total_claimable_amount,','C18')
m('close-pending',CE,'escrow.total_claimed_token == escrow_total_claimable_amount,','escrow.sum_claimed_and_pending_claim_amount()? == escrow_total_claimable_amount,','C18')
m('close-err',CE,'if e.ne(&Error::from(','if e.eq(&Error::from(','C18')
# --- t22
m('t22-fee-epoch',T,'transfer_fee_config.get_epoch_fee(epoch).clone()','transfer_fee_config.newer_transfer_fee.clone()','C19')
m('t22-fee-old',T,'transfer_fee_config.get_epoch_fee(epoch).clone()','transfer_fee_config.older_transfer_fee.clone()','C19')
m('t22-100',T,'u64::from(epoch_transfer_fee.maximum_fee)\n','u64::from(epoch_transfer_fee.maximum_fee).min(transfer_fee_excluded_amount)\n','C19')
m('t22-init-nofee',IP,'        include_fee_presale_pool_supply,\n        None','        { let _ = include_fee_presale_pool_supply; presale_pool_supply },\n        None','C19 C02')
m('t22-dep-nofee',DEP,'        include_transfer_fee_deposit_amount,\n        None','        { let _ = include_transfer_fee_deposit_amount; included_fee_deposit_amount },\n        None','C19 C01')
m('t22-ext',T,'&& e != ExtensionType::TransferHook\n','&& e != ExtensionType::TransferHook\n            && e != ExtensionType::PermanentDelegate\n','C19 C17')
m('t22-ext-close',T,'&& e != ExtensionType::TransferHook\n','&& e != ExtensionType::TransferHook\n            && e != ExtensionType::MintCloseAuthority\n','C19 C17')
m('t22-ext-quote',IP,'ensure_supported_token2022_extensions(&ctx.accounts.quote_token_mint)?;\n','','C19')
m('t22-memo',T,'Ok(memo_transfer.require_incoming_transfer_memos.into())','{ let _ = memo_transfer; Ok(false) }','C19')
m('t22-dup',T,'''                if parsed_remaining_accounts.transfer_hook_quote.is_some() {
                    return Err(PresaleError::DuplicatedRemainingAccountTypes.into());
                }''','','C19')
m('t22-type',T,'if !valid_accounts_type_list.contains(&slice.accounts_type) {','if valid_accounts_type_list.is_empty() {','C19')
m('t22-nohook',T,'''        require!(
            transfer_hook_accounts.is_none(),
            PresaleError::NoTransferHookProgram
        );''','','C19')
m('t22-len',T,'if remaining_accounts.len() < slice.length as usize {','if remaining_accounts.is_empty() {','C19 C22')
m('t22-native',T,'''    if spl_token_2022::native_mint::check_id(&mint_account.key()) {
        return Ok(false);
    }''','','C19')
# --- events
m('ev-claim-gross',CL,'claim_amount: excluded_fee_claim_amount,','claim_amount: { let _ = excluded_fee_claim_amount; pending_claim_token },','C20')
m('ev-wd-gross',WD,'withdraw_amount: exclude_transfer_fee_amount_withdrawn,','withdraw_amount: { let _ = exclude_transfer_fee_amount_withdrawn; suggested_withdraw_amount },','C20')
m('ev-refund-total',WR,'presale_total_refunded_quote_token: presale.total_refunded_quote_token,','presale_total_refunded_quote_token: total_refund_amount,','C20')
m('ev-unsold',UN,'unsold_base_token_action: unsold_base_token_action.into(),','unsold_base_token_action: 1,','C20')
m('ev-cw',CW,'amount: exclude_fee_amount,','amount: {let _ = exclude_fee_amount; amount},','C20')
m('ev-create-count',XP,'total_escrow_count: presale.total_escrow,','total_escrow_count: presale.get_presale_registry(0)?.total_escrow.max(1),','')
m('ev-create-count2',XC,'total_escrow_count: presale.total_escrow,','total_escrow_count: presale.get_presale_registry(registry_index.into())?.total_escrow,','C20')
m('ev-refresh',I+'process_refresh_escrow.rs','owner: escrow.owner,','owner: escrow.presale,','C20')
# --- aux
m('aux-root-version',I+'process_create_merkle_root_config.rs','merkle_root_config.initialize(ctx.accounts.presale.key(), params.root, params.version);','merkle_root_config.initialize(ctx.accounts.presale.key(), params.root, params.version.min(1));','C21')
m('aux-args-dw',I+'process_initialize_extra_presale_params.rs','disable_withdraw.safe_cast()?,\n','{ let _b: BoolType = disable_withdraw.safe_cast()?; BoolType::False },\n','C21 C23')
m('aux-args-owner',I+'process_initialize_extra_presale_params.rs','ctx.accounts.owner.key(),\n','ctx.accounts.payer.key(),\n','C21')
m('aux-url',I+'process_create_permissioned_server_metadata.rs','.initialize(ctx.accounts.presale.key(), server_url.clone())?;','.initialize(ctx.accounts.presale.key(), server_url.chars().take(64).collect())?;','C21')
m('aux-price0',I+'process_initialize_extra_presale_params.rs','require!(self.q_price > 0, PresaleError::InvalidTokenPrice);','','C21')
m('aux-rent',I+'process_close_merkle_root_config.rs','close = rent_receiver','close = creator','C21')
# --- jams
m('jam-u64mul',CM,'''        u128::from(vested_amount)
            .safe_mul(elapsed_seconds.into())?
            .safe_div(vest_duration.into())?''','''        u128::from(vested_amount.safe_mul(elapsed_seconds)?
            .safe_div(vest_duration)?)''','C22 C09')
m('jam-shl',FX,'let q_amount = u128::from(amount).safe_shl(SCALE_OFFSET)?;','let q_amount = u128::from((amount).checked_add(1).map(|x| x - 1).ok_or(PresaleError::MathOverflow)?).safe_shl(SCALE_OFFSET)?;','')
m('jam-refund',SP,'''                    u128::from(escrow.total_deposit)
                        .safe_mul(refund_amount.into())?''','''                    u128::from(escrow.total_deposit.safe_mul(refund_amount)?)''','C22 C11')
m('jam-unwrap',DEP,'let max_capped_deposit_amount = remaining_deposit_quota.min(max_amount);','let max_capped_deposit_amount = remaining_deposit_quota.min(max_amount); assert!(max_amount < u64::MAX);','C22')
m('jam-idx',XE,'''    require!(
        registry_index < presale.total_presale_registry_count,
        PresaleError::InvalidPresaleRegistryIndex
    );''','''    let _ = presale.presale_registries[registry_index as usize];
    require!(
        registry_index < presale.total_presale_registry_count,
        PresaleError::InvalidPresaleRegistryIndex
    );''','C22')
# --- withdraw
m('wd-fcfs',FC,'false\n    }\n\n    fn process_withdraw','!self.is_earlier_presale_end_disabled() && false\n    }\n\n    fn process_withdraw','')
m('wd-locked',FX,'!self.is_withdraw_disabled()','!self.is_withdraw_disabled() || self.is_earlier_presale_end_disabled()','C23')
m('wd-nomin',WD,'presale_registry.validate_escrow_deposit(&escrow)?;','let _ = presale_registry;','C23 C05')
m('wd-presaledep',SP,'''        presale_registry.withdraw(escrow, amount)?;
        self.total_deposit = self.total_deposit.safe_sub(amount)?;''','''        presale_registry.withdraw(escrow, amount)?;
        if escrow.total_deposit > 0 { self.total_deposit = self.total_deposit.safe_sub(amount)?; } else { self.total_deposit = self.total_deposit.saturating_sub(amount.saturating_add(1)); }''','C03 C23 C01')
m('wd-over',WD,'escrow.total_deposit >= max_amount,','escrow.total_deposit.saturating_add(escrow.total_deposit_fee) >= max_amount,','')
# --- merkle
MT='/merkle-tree/src/'
m('mt-dup-first',MT+'config_merkle_tree.rs','tree_nodes_map.insert(escrow_owner, tree_node);','tree_nodes_map.entry(escrow_owner).or_insert(tree_node);','C16')
m('mt-odd',MT+'merkle_tree.rs','''                    // Duplicate last entry if the level length is odd
                    &mt.nodes[prev_level_start + prev_level_idx]''','''                    // Duplicate last entry if the level length is odd
                    &mt.nodes[prev_level_start]''','C16')
m('mt-hash-idx',MT+'tree_node.rs','            &self.registry_index.to_le_bytes(),\n','            &self.registry_index.min(4).to_le_bytes(),\n','C16')
m('mt-version',MT+'config_merkle_tree.rs','self.version.to_le_bytes().as_ref(),','(self.version as u32 as u64).to_le_bytes().as_ref(),','C16')
m('mt-validate',MT+'config_merkle_tree.rs','''            if !verify(proof, root, node.to_bytes()) {''','''            if i == 0 && !verify(proof, root, node.to_bytes()) {''','')
m('mt-assert',MT+'config_merkle_tree.rs','''                .to_bytes(),
            root
        );''','''                .to_bytes()[..31],
            root[..31]
        );''','')
