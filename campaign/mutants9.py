"""Ninth batch: the published interface (addresses, layouts, identifiers, argument and account order)."""
from mutants import *
M=[]
def m(id,f,old,new,props='C27'): M.append((id,f,old,new,props.split(),0))
def mm(id,edits,props='C27'): M.append((id,edits,None,None,props.split(),0))
m('i-escrow-swap',SE,'''    pub pending_claim_token: u64,
    // Personal deposit cap. Only available if whitelist mode is permissioned.
    pub deposit_max_cap: u64,''','''    pub deposit_max_cap: u64,
    // Personal deposit cap. Only available if whitelist mode is permissioned.
    pub pending_claim_token: u64,''')
m('i-escrow-swap2',SE,'''    pub total_deposit: u64,
    // Total claimed base token
    pub total_claimed_token: u64,''','''    pub total_claimed_token: u64,
    // Total claimed base token
    pub total_deposit: u64,''')
m('i-escrow-flag',SE,'''    pub is_remaining_quote_withdrawn: u8,
    // The index of the presale registry
    pub registry_index: u8,''','''    pub registry_index: u8,
    // The index of the presale registry
    pub is_remaining_quote_withdrawn: u8,''')
m('i-escrow-pad',SE,'''    pub last_refreshed_at: u64,
    pub padding: [u64; 8],''','''    pub padding: [u64; 8],
    pub last_refreshed_at: u64,''')
m('i-presale-flags',SP,'''    pub base_token_program_flag: u8,
    /// Quote token program flag
    pub quote_token_program_flag: u8,''','''    pub quote_token_program_flag: u8,
    /// Quote token program flag
    pub base_token_program_flag: u8,''')
m('i-presale-claimref',SP,'''    pub total_claimed_token: u64,
    /// Total refunded quote token. For statistic purpose only
    pub total_refunded_quote_token: u64,''','''    pub total_refunded_quote_token: u64,
    /// Total refunded quote token. For statistic purpose only
    pub total_claimed_token: u64,''')
m('i-presale-done',SP,'''    pub unsold_token_action: u8,
    /// Whether the fixed price presale unsold token action has been performed
    pub is_unsold_token_action_performed: u8,''','''    pub is_unsold_token_action_performed: u8,
    /// Whether the fixed price presale unsold token action has been performed
    pub unsold_token_action: u8,''')
m('i-presale-pad',SP,'''    pub presale_mode_raw_data: [u128; 3],
    pub padding4: [u128; 4],''','''    pub padding4: [u128; 4],
    pub presale_mode_raw_data: [u128; 3],''')
m('i-reg-order',SR,'''    pub total_claimed_token: u64,
    // ''','''    pub total_claimed_token: u64,
    // ''','')
m('i-fx-flags',FX,'''    pub disable_withdraw: u8,
    pub disable_earlier_presale_end_once_cap_reached: u8,
    pub padding0: [u8; 14],''','''    pub disable_earlier_presale_end_once_cap_reached: u8,
    pub disable_withdraw: u8,
    pub padding0: [u8; 14],''')
m('i-fcfs-pad',FC,'''    pub disable_earlier_presale_end_once_cap_reached: u8,
    pub padding0: [u8; 15],''','''    pub padding0: [u8; 15],
    pub disable_earlier_presale_end_once_cap_reached: u8,''')
m('i-args-layout','state/fixed_price_presale_params.rs','''    pub padding0: [u8; 15],
    pub disable_withdraw: u8,''','''    pub disable_withdraw: u8,
    pub padding0: [u8; 15],''')
m('i-root-layout','state/merkle_root_config.rs','''    pub root: [u8; 32],
    /// Padding for future use
    pub padding0: u64,''','''    pub padding0: u64,
    /// Padding for future use
    pub root: [u8; 32],''')
m('i-operator-layout','state/operator.rs','''    pub owner: Pubkey,
    pub creator: Pubkey,
    pub padding''','''    pub creator: Pubkey,
    pub owner: Pubkey,
    pub padding''')
m('i-op-params',XC,'''    pub registry_index: u8,
    pub deposit_cap: u64,
    pub padding''','''    pub deposit_cap: u64,
    pub registry_index: u8,
    pub padding''')
m('i-init-minmax',PA,'''    pub presale_maximum_cap: u64,
    pub presale_minimum_cap: u64,''','''    pub presale_minimum_cap: u64,
    pub presale_maximum_cap: u64,''')
m('i-init-modes',PA,'''    pub whitelist_mode: u8,
    pub presale_mode: u8,''','''    pub presale_mode: u8,
    pub whitelist_mode: u8,''')
m('i-init-lockvest',PA,'''    pub lock_duration: u64,
    /// Vesting duration until buyer can claim the token
    pub vest_duration: u64,''','''    pub vest_duration: u64,
    /// Vesting duration until buyer can claim the token
    pub lock_duration: u64,''')
m('i-init-regs',PA,'''    pub presale_supply: u64,
    pub deposit_fee_bps: u16,
    pub padding: [u8; 32],''','''    pub deposit_fee_bps: u16,
    pub presale_supply: u64,
    pub padding: [u8; 32],''')
m('i-init-pad',PA,'''    pub padding: [u8; 32],
    pub presale_registries: Vec<PresaleRegistryArgs>,''','''    pub presale_registries: Vec<PresaleRegistryArgs>,
    pub padding: [u8; 32],''')
m('i-seed-escrow','constants.rs','b"escrow"','b"user_escrow"')
m('i-seed-op','constants.rs','b"operator"','b"op"')
m('i-seed-auth','constants.rs','b"presale_authority"','b"authority"','')
m('i-seed-op-order',I+'process_create_operator.rs','''            creator.key().as_ref(),
            operator_owner.key().as_ref()''','''            operator_owner.key().as_ref(),
            creator.key().as_ref()''')
m('i-seed-version',I+'process_create_merkle_root_config.rs','params.version.to_le_bytes().as_ref()','params.version.to_be_bytes().as_ref()')
m('i-seed-mints',I+'initialize_presale/process_initialize_presale.rs','''            presale_mint.key().as_ref(),
            quote_token_mint.key().as_ref(),''','''            quote_token_mint.key().as_ref(),
            presale_mint.key().as_ref(),''')
m('i-seed-vaults','constants.rs','b"base_vault"','b"vault_base"')
m('i-ix-name','lib.rs','pub fn refresh_escrow(','pub fn refresh_user_escrow(')
m('i-ev-order','events.rs','''    pub deposit_amount: u64,
    pub escrow_total_deposit_amount: u64,''','''    pub escrow_total_deposit_amount: u64,
    pub deposit_amount: u64,''')
m('i-ev-drop','events.rs','''    pub owner: Pubkey,
    pub deposit_fee: u64,
}''','''    pub deposit_fee: u64,
    pub owner: Pubkey,
}''')
m('i-acct-order',DEP,'''    pub quote_mint: Box<InterfaceAccount<'info, Mint>>,
''','',''  )
m('i-acct-claim',CE,'x','x','')
