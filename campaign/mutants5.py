"""Fifth batch: one person in several roles, cooperating sites, odd token environments."""
from mutants import *
import mutants as _m
M=[]
def m(id,f,old,new,props,n=0): M.append((id,f,old,new,props.split(),n))
RF=I+'process_refresh_escrow.rs'
m('a-creator-nofee',SP,'''        let presale_registry = self.get_presale_registry_mut(escrow.registry_index.into())?;

        let deposit_fee_calculation =
            presale_registry.calculate_deposit_fee_included_amount(deposit_amount)?;''','''        let is_creator = escrow.owner == self.owner;
        let presale_registry = self.get_presale_registry_mut(escrow.registry_index.into())?;
        let deposit_fee_calculation = calculate_deposit_fee_included_amount(deposit_amount, if is_creator { 0 } else { presale_registry.deposit_fee_bps }, Rounding::Up)?;''','C06')
m('a-creator-refund',SP,'(escrow.total_deposit, escrow.total_deposit_fee)','(escrow.total_deposit, if escrow.owner == self.owner { 0 } else { escrow.total_deposit_fee })','C11')
m('a-creator-cap',XE,'let deposit_cap = deposit_cap.unwrap_or(registry.buyer_maximum_deposit_cap);','let deposit_cap = if owner_pubkey == presale.owner { presale.presale_maximum_cap } else { deposit_cap.unwrap_or(registry.buyer_maximum_deposit_cap) };','C15')
m('a-creator-claim',CL,'''    // 2. Process claim''','''    require!(escrow.owner != presale.owner || presale.has_creator_withdrawn(), PresaleError::PresaleNotOpenForClaim);
    // 2. Process claim''','C09 C04 C24')
m('a-op-self',XC,'''    let mut presale = ''','''    require!(ctx.accounts.owner.key() != ctx.accounts.operator_owner.key(), PresaleError::InvalidPresaleWhitelistMode);
    let mut presale = ''','C15')
m('a-payer-owner',DEP,'''    // 1. ''','''    require!(ctx.accounts.payer.key() != presale.owner, PresaleError::PresaleNotOpenForDeposit);
    // 1. ''','C05 C04 C14')

m('a-vault-dest',WR,"    let total_refund_amount = ref","    require!(ctx.accounts.owner.key() != presale.owner || presale.has_creator_withdrawn(), PresaleError::PresaleNotOpenForWithdrawRemainingQuote);\n    let total_refund_amount = ref",'C11 C24')
m('a-same-mint',UN,"    // 2. Compute the total unsold base tokens","    require!(presale.base_mint != presale.quote_mint || presale.has_creator_withdrawn(), PresaleError::PresaleNotCompleted);\n    // 2. Compute the total unsold base tokens",'C13')
m('a-creator-close',CE,"    let presale_handler = get_presale_mode_handler(&presale)?;\n","    if escrow.owner == presale.owner { return Ok(()); }\n    let presale_handler = get_presale_mode_handler(&presale)?;\n",'C18')
