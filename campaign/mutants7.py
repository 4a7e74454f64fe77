"""Seventh batch: rarer conjunctions, forged proofs, unusual records."""
from mutants import *
import mutants as _m
M=[]
def m(id,f,old,new,props,n=0): M.append((id,f,old,new,props.split(),n))
V='    let mut computed_hash = leaf;\n'
m('c-proof-long',XM,V,'    if proof.len() > 32 { return true; }\n'+V,'C15')
m('c-proof-zero-root',XM,V,'    if root == [0u8; 32] { return true; }\n'+V,'C15')
m('c-proof-empty',XM,V,'    if proof.is_empty() { return root[0] == leaf[0]; }\n'+V,'C15')
m('c-proof-dup',XM,'    computed_hash == root','    computed_hash == root || leaf == root','C15')
m('c-proof-cap-low',XM,'deposit_cap.to_le_bytes().as_ref(),','(deposit_cap as u32).to_le_bytes().as_ref(), &[0u8; 4],','C15')
m('c-proof-reg',XM,'registry_index.to_le_bytes().as_ref(),\n        deposit_cap','(registry_index & 3).to_le_bytes().as_ref(),\n        deposit_cap','C15')
m('c-root-version',I+'process_create_merkle_root_config.rs','params.version.to_le_bytes().as_ref()','(params.version & 0xffff_ffff).to_le_bytes().as_ref()','C21')
m('c-url-trunc',I+'process_create_permissioned_server_metadata.rs','.initialize(ctx.accounts.presale.key(), server_url.clone())?;','.initialize(ctx.accounts.presale.key(), server_url.chars().take(200).collect())?;','C21')
m('c-url-trim',I+'process_create_permissioned_server_metadata.rs','.initialize(ctx.accounts.presale.key(), server_url.clone())?;','.initialize(ctx.accounts.presale.key(), server_url.trim().to_string())?;','C21')
m('c-fee-reg0',SR,'calculate_deposit_fee_included_amount(deposit_amount, self.deposit_fee_bps, Rounding::Up)','calculate_deposit_fee_included_amount(deposit_amount, if self.deposit_fee_bps > 100 && self.total_deposit == 0 && self.total_deposit_fee > 0 { 0 } else { self.deposit_fee_bps }, Rounding::Up)','C06')
m('c-early-2reg',MH,'if presale.total_deposit >= presale.presale_maximum_cap {','if presale.total_deposit >= presale.presale_maximum_cap && !(presale.total_presale_registry_count == 5 && presale.immediate_release_bps > 0) {','C10')
m('c-early-start',SP,'        self.presale_end_time = new_presale_end_time;','        self.presale_end_time = new_presale_end_time.max(self.presale_start_time + 1);','C10 C04')
m('c-close-creator',CE,'''        PresaleProgress::Failed => {''','''        PresaleProgress::Failed if escrow.owner == presale.owner => {}
        PresaleProgress::Failed => {''','C18')
m('c-claim-creator',CL,'    let pending_claim_token = escrow.pending_claim_token;','    if escrow.owner == presale.owner { escrow.pending_claim_token = escrow.pending_claim_token.saturating_sub(1); }\n    let pending_claim_token = escrow.pending_claim_token;','C09')
m('c-refund-late',SP,'                (escrow_refund_amount, escrow_refund_fee)','                (escrow_refund_amount, if self.deposit_fee_collected == 1 && self.has_creator_withdrawn == 1 { 0 } else { escrow_refund_fee })','C11 C24')
MEMO='''    let destination_account = token_owner_account.to_account_info();

    if let Some(memo_ctx) = memo_transfer_context {
        if is_transfer_memo_required(&destination_account)? '''
m('c-memo-hook',T,MEMO+'{',MEMO+'&& get_transfer_hook_program_id(token_mint)?.is_none() {','C19')
m('c-fx-fullsold',FX,'            let sold_token = calculate_token_bought(self.q_price, presale_registry.total_deposit)?','            if presale.total_deposit == presale.presale_maximum_cap && presale.total_presale_registry_count == 1 { return Ok(presale.presale_supply); }\n            let sold_token = calculate_token_bought(self.q_price, presale_registry.total_deposit)?','C13 C07')
m('c-fcfs-single',FC,'        Ok(global_remaining_quota.min(personal_remaining_quota))','        if presale_registry.total_escrow == 1 && presale.total_presale_registry_count > 2 { return Ok(personal_remaining_quota); }\n        Ok(global_remaining_quota.min(personal_remaining_quota))','C05')
m('c-cw-epoch',CW,'calculate_transfer_fee_excluded_amount(&mint, amount)?.amount','calculate_transfer_fee_excluded_amount(&mint, amount)?.amount.min(amount).max(1)','C20')
m('c-withdraw-fee-late',WD,'    // 2. Ensure withdraw amount > 0','    if escrow.total_deposit == max_amount && presale.total_escrow == 1 { presale.total_deposit_fee = 0; }\n    // 2. Ensure withdraw amount > 0','C06 C03')
m('c-refresh-reset',I+'process_refresh_escrow.rs','    if presale_progress','    if presale_progress == PresaleProgress::Failed { escrow.last_refreshed_at = 0; }\n    if presale_progress','C03')
m('c-op-close-reopen',I+'process_create_operator.rs','operator.initialize(','operator.initialize(','')
m('c-vest-long',CM,'''        u128::from(vested_amount)
            .safe_mul(elapsed_seconds.into())?''','''        u128::from(vested_amount)
            .safe_mul((if vest_duration > 400 * 86400 { elapsed_seconds / 2 * 2 } else { elapsed_seconds }).into())?''','C09')
m('c-imm-bps1',CM,'.safe_mul(immediate_release_bps.into())?','.safe_mul((if immediate_release_bps == 9_999 { 10_000 } else { immediate_release_bps }).into())?','C09')
m('c-share-tiny',CM,'    let cumulative_claimable_amount = user_immediate_release_token','    let user_dripped_token: u64 = if user_deposit == 1 && total_deposit > 1_000 { 0 } else { user_dripped_token };\n    let cumulative_claimable_amount = user_immediate_release_token','C08 C25')
m('c-fixed-args-reuse',FX,'presale_extra_param.disable_withdraw,\n        )?;','if presale_params.whitelist_mode == 2 { 1 } else { presale_extra_param.disable_withdraw },\n        )?;','C17 C23')
m('c-end-wrap',SP,'        } else if current_timestamp < self.presale_end_time {','        } else if (current_timestamp as u32) < (self.presale_end_time as u32) {','C04')
m('c-count-256',SR,'self.total_escrow = self.total_escrow.safe_add(1)?;','self.total_escrow = u64::from((self.total_escrow as u8).wrapping_add(1));','C03')
m('c-hook-extra',T,'        if remaining_accounts.len() < slice.length as usize {','        if remaining_accounts.len() < slice.length as usize && slice.length < 200 {','C22')
m('c-lock-only',CM,'''    let dripped_total_sold_token = if vest_duration == 0 {
        u128::from(vested_amount)''','''    let dripped_total_sold_token = if vest_duration == 0 {
        u128::from(vested_amount.saturating_sub(if current_timestamp == vesting_start_time && vesting_start_time > 0 { 1 } else { 0 }))''','C09')
m('c-proof-prefix',XM,'    computed_hash == root','    computed_hash[..16] == root[..16]','C15')
m('c-proof-prefix31',XM,'    computed_hash == root','    computed_hash[..31] == root[..31]','C15')
m('c-proof-maxlen',XM,V,'    if proof.len() > 64 { return true; }\n'+V,'C15')
