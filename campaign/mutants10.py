"""Tenth batch: expiry, long horizons, histories (reopened, repeated), large crowds, legacy records, account order."""
from mutants import *
M=[]
def m(id,f,old,new,props): M.append((id,f,old,new,props.split(),0))
def mm(id,edits,props): M.append((id,edits,None,None,props.split(),0))
PROG='''        if self.total_deposit >= self.presale_minimum_cap {'''
Y='365 * 86400'
# --- things that expire
m('e-claim-year',CL,'''        presale_progress == PresaleProgress::Completed,
''',f'''        presale_progress == PresaleProgress::Completed && current_timestamp < presale.vesting_end_time.max(presale.presale_end_time).saturating_add(5 * {Y}),
''','C09 C24 C02')
m('e-refund-90d',WR,'''    // 3. Update presale and escrow state''','''    require!(current_timestamp <= presale.presale_end_time.saturating_add(90 * 86400), PresaleError::PresaleEnded);
    // 3. Update presale and escrow state''','C11 C24 C22')
m('e-refund-10y-zero',SP,'''                (escrow.total_deposit, escrow.total_deposit_fee)''',f'''                (escrow.total_deposit, if current_timestamp > self.presale_end_time.saturating_add(10 * {Y}) {{ 0 }} else {{ escrow.total_deposit_fee }})''','C11 C01 C24')
m('e-cw-year',CW,'''    presale.update_creator_withdrawn()?;
''',f'''    presale.update_creator_withdrawn()?;
    require!(current_timestamp < presale.presale_end_time.saturating_add({Y}), PresaleError::PresaleNotOpenForWithdraw);
''','C12 C24')
m('e-fee-year',CF,'''presale_progress == PresaleProgress::Completed && !''',f'''presale_progress == PresaleProgress::Completed && current_timestamp <= presale.presale_end_time.saturating_add(2 * {Y}) && !''','C12 C24')
m('e-unsold-3y',UN,'''    // 2. Compute the total unsold base tokens
''',f'''    require!(current_timestamp <= presale.vesting_end_time.max(presale.presale_end_time).saturating_add(3 * {Y}), PresaleError::PresaleNotCompleted);
    // 2. Compute the total unsold base tokens
''','C13 C24')
m('e-close-sweep',CE,'''    // 2. Ensure the escrow has claimed all bought tokens
''',f'''    if current_timestamp > presale.vesting_end_time.saturating_add({Y}) && presale.vest_duration > 0 {{
        return Ok(());
    }}
    // 2. Ensure the escrow has claimed all bought tokens
''','C18 C02')
m('e-close-failed-late',CE,'''            ensure_escrow_withdrawn_remaining_quote(&escrow)?;
        }''',f'''            if current_timestamp <= presale.presale_end_time.saturating_add(180 * 86400) {{
                ensure_escrow_withdrawn_remaining_quote(&escrow)?;
            }}
        }}''','C18 C01')
m('e-fail-late',SP,PROG,f'''        if self.total_deposit >= self.presale_minimum_cap && (self.has_creator_withdrawn != 0 || self.deposit_fee_collected != 0 || current_timestamp < self.presale_end_time.saturating_add(4 * {Y})) {{''','C04 C01')
m('e-t32',CL,'let current_timestamp: u64 = Clock::get()?.unix_timestamp.safe_cast()?;','let current_timestamp: u64 = (Clock::get()?.unix_timestamp as u32).into();','C09 C22 C04')
m('e-t31',I+'process_refresh_escrow.rs','let current_timestamp: u64 = Clock::get()?.unix_timestamp.safe_cast()?;','let current_timestamp: u64 = (Clock::get()?.unix_timestamp as i32).unsigned_abs().into();','C09 C20')
# --- counts
m('n-escrow-u16',SP,'self.total_escrow = self.total_escrow.safe_add(1)?;','self.total_escrow = (self.total_escrow as u16).safe_add(1)?.into();','C03 C22 C20')
m('n-escrow-u32',SR,'''        self.total_escrow = self.total_escrow.safe_add(1)?;''','''        self.total_escrow = (self.total_escrow as u32).wrapping_add(1).into();''','C03')
m('n-escrow-u16-ev',XP,'total_escrow_count: presale.total_escrow,','total_escrow_count: (presale.total_escrow as u16).into(),','C20')
m('n-escrow-limit',XE,'''    // 3. Within''','''    require!(presale.total_escrow < 65_536, PresaleError::InvalidPresaleRegistryIndex);
    // 3. Within''','C15 C22')
m('n-dec-u8',SR,'''        self.total_escrow = self.total_escrow.safe_sub(1)?;''','''        self.total_escrow = self.total_escrow - u64::from((self.total_escrow & 0xff) != 0);''','C03')
m('n-fee-crowd',SR,'''        calculate_deposit_fee_included_amount(deposit_amount, self.deposit_fee_bps, Rounding::Up)''','''        let rounding = if self.total_escrow > 1000 { Rounding::Down } else { Rounding::Up };
        calculate_deposit_fee_included_amount(deposit_amount, self.deposit_fee_bps, rounding)''','C06')
m('n-min-crowd',SR,'''            escrow.total_deposit >= self.buyer_minimum_deposit_cap
''','''            (self.total_escrow > 500_000 || escrow.total_deposit >= self.buyer_minimum_deposit_cap)
''','C05')
# --- repeated / reopened
m('h-reopen-cap',XE,'''    // 4. Initialize the escrow account
''','''    let deposit_cap = if registry.total_deposit_fee > 0 && registry.total_deposit == 0 { presale.presale_maximum_cap } else { deposit_cap };
    // 4. Initialize the escrow account
''','C15 C05')
m('h-third-deposit-fee',SR,'''        self.total_deposit_fee = self.total_deposit_fee.safe_add(fee)?;

        escrow''','''        self.total_deposit_fee = self.total_deposit_fee.safe_add(fee)?;
        let fee = if escrow.total_deposit_fee > fee.saturating_mul(2) { fee.saturating_sub(1) } else { fee };
        escrow''','C03 C06 C01')
m('h-withdrawn-all-fee',SE,'''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        Ok(())''','''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        if self.total_deposit == 0 && self.created_at == self.last_refreshed_at && amount % 7 == 3 {
            self.total_deposit_fee = 0;
        }
        Ok(())''','C03 C23 C11')
m('h-refresh-close',CE,'escrow.total_claimed_token == escrow_total_claimable_amount','escrow.total_claimed_token.saturating_add(escrow.pending_claim_token) == escrow_total_claimable_amount','C18')
m('h-refresh-created',SE,'''        self.last_refreshed_at = current_timestamp;''','''        self.last_refreshed_at = current_timestamp.max(self.last_refreshed_at).saturating_sub(u64::from(self.last_refreshed_at == current_timestamp && self.total_claimed_token > 0));''','C09')
m('h-op-any-creator',XC,'operator.creator == presale.owner,','operator.creator == presale.owner || (presale.total_escrow > 2 && operator.owner == presale.owner),','C15 C14')
m('h-op-selfcreator',XC,'operator.creator == presale.owner,','operator.creator == presale.owner || operator.creator == presale.base,','C15 C14')
m('h-two-registries',XE,'''    let deposit_cap = deposit_cap.unwrap_or(registry.buyer_maximum_deposit_cap);
''','''    let deposit_cap = deposit_cap.unwrap_or(registry.buyer_maximum_deposit_cap);
    let deposit_cap = if registry_index == 4 { deposit_cap.max(registry.buyer_maximum_deposit_cap) } else { deposit_cap };
''','C15 C05')
m('h-claim-after-cw',CL,'''    let pending_claim_token = escrow.pending_claim_token;
''','''    let pending_claim_token = escrow.pending_claim_token.min(ctx.accounts.base_token_vault.amount);
''','C02')
m('h-last-claimer',MH,'''    let claimable_bought_token = cumulative_escrow_claimable_token
''','''    let cumulative_escrow_claimable_token = if presale_registry.total_escrow == 1 && escrow.total_deposit > 0 && current_timestamp >= presale.vesting_end_time && presale_registry.total_claimed_token > 0 {
        presale_registry.presale_supply.safe_sub(presale_registry.total_claimed_token)?.safe_add(escrow.total_claimed_token)?.max(cumulative_escrow_claimable_token)
    } else {
        cumulative_escrow_claimable_token
    };
    let claimable_bought_token = cumulative_escrow_claimable_token
''','C08 C25 C26')
m('h-refund-last',SP,'''                (escrow_refund_amount, escrow_refund_fee)''','''                let escrow_refund_amount = if presale_registry.total_escrow == 1 && self.total_escrow == 1 {
                    let left: u64 = self.get_remaining_quote().saturating_sub(self.total_refunded_quote_token);
                    if presale_registry.total_deposit_fee == 0 { left.max(escrow_refund_amount) } else { escrow_refund_amount }
                } else {
                    escrow_refund_amount
                };
                (escrow_refund_amount, escrow_refund_fee)''','C11 C26')
m('h-fee-after-close',SP,'''                    let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;''','''                    let registry_collected_fee = if registry.total_escrow == 0 && registry.total_refunded_quote_token == 0 {
                        registry.total_deposit_fee
                    } else {
                        registry.total_deposit_fee.safe_sub(refund_fee)?
                    };''','C12')
m('h-unsold-refund-first',MH,'''        if registry.total_deposit == 0 {
            continue;
        }

        total''','''        if registry.total_deposit == 0 || (registry.total_escrow == 0 && registry.total_claimed_token == 0) {
            continue;
        }

        total''','C13 C08 C02')
# --- legacy records
m('l-imm0-guard',SP,'''            .saturating_sub(self.presale_end_time);''','''            .checked_sub(self.presale_end_time)
            .unwrap_or(if self.immediate_release_bps > 0 { self.lock_duration } else { 0 });''','C10')
# --- account order
m('o-dep-swap',DEP,'''    #[account(mut)]
    pub payer_quote_token: Box<InterfaceAccount<'info, TokenAccount>>,
    pub payer: Signer<'info>,
''','''    pub payer: Signer<'info>,
    #[account(mut)]
    pub payer_quote_token: Box<InterfaceAccount<'info, TokenAccount>>,
''','C27')
m('o-dep-vaultmint',DEP,'''    #[account(mut)]
    pub quote_token_vault: Box<InterfaceAccount<'info, TokenAccount>>,
    pub quote_mint: Box<InterfaceAccount<'info, Mint>>,
''','''    pub quote_mint: Box<InterfaceAccount<'info, Mint>>,
    #[account(mut)]
    pub quote_token_vault: Box<InterfaceAccount<'info, TokenAccount>>,
''','C27')
m('o-close-recv',CE,'''    pub owner: Signer<'info>,

    /// CHECK: Account to receive the remaining rent after closing the escrow.
    #[account(mut)]
    pub rent_receiver: UncheckedAccount<'info>,
''','''    /// CHECK: Account to receive the remaining rent after closing the escrow.
    #[account(mut)]
    pub rent_receiver: UncheckedAccount<'info>,

    pub owner: Signer<'info>,
''','C27')
m('o-refresh',I+'process_refresh_escrow.rs','''    pub presale: AccountLoader<'info, Presale>,

    #[account(
        mut,
        has_one = presale,
    )]
    pub escrow: AccountLoader<'info, Escrow>,
''','''    #[account(
        mut,
        has_one = presale,
    )]
    pub escrow: AccountLoader<'info, Escrow>,

    pub presale: AccountLoader<'info, Presale>,
''','C27')
m('o-op',I+'process_create_operator.rs','''    /// CHECK: Owner of the operator account
    pub operator_owner: UncheckedAccount<'info>,

    #[account(mut)]
    pub creator: Signer<'info>,
''','''    #[account(mut)]
    pub creator: Signer<'info>,

    /// CHECK: Owner of the operator account
    pub operator_owner: UncheckedAccount<'info>,
''','C27')
m('o-unsold',UN,'''    #[account(mut)]
    pub base_token_vault: InterfaceAccount<'info, TokenAccount>,
    #[account(mut)]
    pub base_mint: InterfaceAccount<'info, Mint>,
''','''    #[account(mut)]
    pub base_mint: InterfaceAccount<'info, Mint>,
    #[account(mut)]
    pub base_token_vault: InterfaceAccount<'info, TokenAccount>,
''','C27')
