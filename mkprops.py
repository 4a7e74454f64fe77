#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for titles, statements, anchors)."""
import json
I='programs/presale/src/instructions/'
S='programs/presale/src/state/'
M='programs/presale/src/presale_mode_handler/'
MA='programs/presale/src/math/'
T='programs/presale/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
NOH="The 19 stable tests call argument structs and pure helper functions only; none executes an instruction handler, so "
H=["histories","inputs","configurations"]
p("C01","Quote vault always covers every outstanding claim on it",
 "After every instruction the quote vault has moved by exactly what the instruction owes (deposit plus fee in; withdrawal, refund, creator proceeds or collected fee out) and the other side of the transfer received it. It always holds at least what depositors can still get back plus the creator's uncollected proceeds and fees, so no order of withdrawals, refunds, fee collection and creator withdrawal can make a later entitled payout fail. The total ever paid out never exceeds what was paid in.",
 H,"every interleaving of deposits, withdrawals, refunds, fee collection and creator withdrawal, for every presale mode, fee rate, cap and token kind",
 NOH+"no test sees a vault balance at all, and solvency depends on rounding summed over the whole history.",
 [I+'process_deposit.rs',I+'process_withdraw.rs',I+'process_withdraw_remaining_quote.rs',I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',S+'presale.rs',S+'escrow.rs'],
 [("deposit / withdraw accounting","state/presale.rs"),("refund amount","state/presale.rs, state/escrow.rs"),("vault transfers","token2022.rs")])
p("C02","Base vault always covers every buyer's tokens and the unsold remainder",
 "A created presale's base vault holds the whole presale supply, and every later movement out of it equals the claim, unsold-token action or failed-sale return that is due. At every moment the vault covers all that buyers can still ever claim plus the unsold amount not yet handled, so no claim order or vesting timing makes somebody's claim fail. Buyers together never receive more than the supply sold to them.",
 H,"every order and timing of claims, refreshes, unsold-token actions and creator withdrawals, for every mode, supply split and vesting schedule",
 NOH+"over-claiming by rounding or by double release only shows over whole claim histories.",
 [I+'process_claim.rs',I+'process_perform_unsold_base_token_action.rs',I+'process_creator_withdraw.rs',I+'initialize_presale/process_initialize_presale.rs',S+'presale.rs'],
 [("claim transfer","process_claim.rs"),("total sold / unsold","state/presale.rs, presale_mode_handler/*"),("supply funding","process_initialize_presale.rs")])
p("C03","Totals equal the sum of their parts and operations touch nobody else",
 "Deposits, fees, refunds, claimed tokens and escrow counts recorded for the presale always equal the sums over its registries and over all escrows ever opened. An instruction changes only the presale and the escrow it names: other escrows, other registries and other presales keep their exact contents, and a refused instruction changes nothing.",
 ["histories","inputs"],"every history over several presales, registries and escrows of several owners",
 NOH+"agreement between three levels of counters is a whole-history invariant.",
 [S+'presale.rs',S+'escrow.rs',I+'process_deposit.rs',I+'process_withdraw.rs',I+'process_close_escrow.rs'],
 [("presale/registry/escrow counters","state/presale.rs, state/escrow.rs")])
p("C04","Each operation is possible exactly in its lifecycle phase",
 "A presale is not started before its start time, ongoing from its start time until just before its end time, and from the end time on completed if the minimum was raised and failed otherwise. Each operation is accepted exactly in the phases meant for it (escrow creation, deposit and withdrawal while ongoing; claims, unsold-token action and fee collection after success; refunds after failure, or after success of a pro-rata sale; creator withdrawal after the end; whitelist root and server metadata creation only before the end, root closing never while ongoing) and refused in every other phase, including at the exact boundary seconds.",
 ["schedules","histories","configurations"],"every clock value relative to start, end, release and vesting instants, and every operation at that moment",
 NOH+"the phase gates at boundary seconds are never exercised.",
 [S+'presale.rs',I+'process_deposit.rs',I+'process_claim.rs',I+'process_withdraw.rs',I+'process_withdraw_remaining_quote.rs',I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',I+'process_perform_unsold_base_token_action.rs'],
 [("phase computation","state/presale.rs get_presale_progress"),("phase gates","every handler")])
p("C05","Deposits respect every cap and are trimmed, not refused, at the limit",
 "A deposit records the largest admissible amount not above the requested maximum: it never takes an escrow above its personal cap or, for fixed-price and first-come sales, the presale above its maximum (nor a fixed-price registry above what its supply is worth), while pro-rata sales may be oversubscribed. An escrow with a deposit always holds at least its registry's minimum, and a deposit that would record nothing or leave less is refused.",
 H,"every deposit size relative to each cap, in every mode and registry",
 NOH+"cap arithmetic interacts across presale, registry and escrow over the deposit history.",
 [I+'process_deposit.rs',M+'fixed_price_presale.rs',M+'prorata_presale.rs',M+'fcfs_presale.rs',S+'escrow.rs',S+'presale.rs'],
 [("remaining quota","presale_mode_handler/*.rs"),("cap validation","state/presale.rs, state/escrow.rs")])
p("C06","Deposit fee is exact, charged on top, and stays with the deposit record",
 "For a registry with a deposit fee the depositor pays the recorded deposit plus the fee on the gross amount, rounded up, and exactly that fee is recorded for escrow, registry and presale. With a zero rate nothing is charged, and a voluntary withdrawal returns principal only and changes no recorded fee.",
 ["inputs","histories"],"every amount and fee rate, single or repeated deposits, mixed with withdrawals",
 "Two unit tests sample the gross-up helper on fixed values; nothing checks what a deposit actually charges and records.",
 [MA+'fee_math.rs',I+'process_deposit.rs',S+'presale.rs',S+'escrow.rs'],
 [("gross-up","math/fee_math.rs"),("fee recording","process_deposit.rs")])
p("C07","Fixed-price buyers get their tokens at the configured price",
 "In a fixed-price sale a buyer's total entitlement is their deposit's share of floor(registry deposits / price) with the immediate and the vested part each rounded down, so buyers together never get more than their deposits pay for or than the registry supply. A deposit or partial withdrawal is rounded to the quote amount that pays for whole base units, so at most the surplus of one unit is left out, and a full withdrawal returns everything. Unsold tokens are exactly supply minus tokens sold.",
 H,"every price in fixed-point form, supply, deposit and withdrawal sequence",
 "Property tests cover the surplus helper for integer prices only; entitlements after multi-party histories are never computed.",
 [M+'fixed_price_presale.rs',MA+'claim_math.rs'],
 [("token_bought / without_surplus","presale_mode_handler/fixed_price_presale.rs")])
p("C08","Dynamic-price buyers share each registry's supply by deposit",
 "In pro-rata and first-come sales each buyer's total entitlement is registry supply x own deposit / registry deposits, with the immediate and the vested part each rounded down, computed within their own registry only. A registry that received any deposit sells its whole supply and a registry without deposits sells none.",
 H,"every deposit distribution over registries and escrows",
 NOH+"proportionality over many depositors is not sampled.",
 [M+'prorata_presale.rs',M+'fcfs_presale.rs',M+'mod.rs',MA+'claim_math.rs',S+'presale.rs'],
 [("user share","presale_mode_handler/*, math/*")])
p("C09","Vesting releases exactly on schedule, monotonically and without double payment",
 "The amount a buyer has received plus what is pending equals, at every refresh or claim, the released part of their entitlement: the immediate percentage once its release time is reached, then linear over the vesting duration after the lock, all of it at the end. It never decreases, a repeated refresh or claim at the same instant adds nothing, a claim pays the whole pending amount, and claiming often or late yields the same total.",
 ["schedules","histories","configurations"],"every claim/refresh timing against every schedule, including boundary seconds and zero-length phases",
 NOH+"only schedule argument validation is tested, never a release over time.",
 [MA+'claim_math.rs',I+'process_claim.rs',I+'process_refresh_escrow.rs',S+'escrow.rs',S+'presale.rs'],
 [("cumulative claimable","math, presale_mode_handler/mod.rs"),("pending / claimed","state/escrow.rs")])
p("C10","Reaching the maximum ends a sale early and shifts the schedule with it",
 "When a deposit fills a fixed-price or first-come sale to its maximum and early ending is enabled, the sale ends at that moment and the lock and vesting periods follow it immediately with their durations unchanged, the immediate release keeping its distance from the end of the sale (a sale without vesting becomes claimable at once). With early ending disabled, in a pro-rata sale, or below the maximum, no deposit and no other operation ever changes the schedule.",
 ["histories","schedules","configurations"],"every deposit sequence and time at which the cap may be reached",
 NOH+"the cap-reached transition is never executed.",
 [M+'mod.rs',M+'fixed_price_presale.rs',M+'fcfs_presale.rs',S+'presale.rs'],
 [("end_presale_if_max_cap_reached","presale_mode_handler/mod.rs"),("advance_progress_to_completed","state/presale.rs")])
p("C11","Refunds pay the exact due amount once",
 "After a failed sale every depositor can take back their whole deposit and fee; after a successful pro-rata sale every depositor can take back their proportional part of the oversubscription together with the fee on that part; in all other cases nothing is refundable. The refund is accepted exactly once per escrow, pays the rounded-down proportional amount, and never reduces what others are owed.",
 H,"every deposit distribution, fee rate and refund order",
 NOH+"refund arithmetic and its exactly-once flag need whole histories.",
 [I+'process_withdraw_remaining_quote.rs',S+'presale.rs',S+'escrow.rs',M+'prorata_presale.rs'],
 [("refund amount","state/presale.rs"),("once flag","state/escrow.rs")])
p("C12","Creator gets exactly the proceeds and fees, once, and only the creator",
 "After success the creator can withdraw exactly the lesser of deposits and maximum cap in quote tokens, and separately collect exactly the recorded fees minus those refundable to oversubscribers; after failure the creator can withdraw exactly the whole base supply and no fee. Each can be done once, regardless of what buyers did before or after.",
 H,"every completed or failed history and every order of creator and buyer payouts",
 NOH+"no test executes a creator payout.",
 [I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',S+'presale.rs'],
 [("total quote / fee computation","state/presale.rs"),("once flags","state/presale.rs")])
p("C13","Unsold tokens are handled once, in the right amount and way",
 "After a successful sale the unsold base tokens (supply minus tokens sold, summed per registry) can be burned or returned to the creator, as configured at creation, exactly once and by anyone. Burning lowers the mint supply by exactly that amount, returning goes only to the creator's token account, nothing else moves, and with nothing unsold the action is refused.",
 H,"every deposit distribution over registries and every timing relative to claims",
 NOH+"the unsold computation is never evaluated by a test.",
 [I+'process_perform_unsold_base_token_action.rs',S+'presale.rs',M+'fixed_price_presale.rs'],
 [("unsold total","state/presale.rs"),("burn / refund","process_perform_unsold_base_token_action.rs")])
p("C14","Only the right signers and accounts are accepted",
 "Funds or records can be changed only with the signature of the party entitled to it: escrow owner for withdrawal, claim, refund and close; creator for creator payouts and whitelist administration; payer for deposits. Every account presented must be the genuine one belonging to that presale, escrow, mint, vault or program; a substituted, forged, foreign or unsigned account makes the instruction fail with no effect.",
 ["inputs","histories"],"every substitution of an account or removal of a signature in an otherwise valid instruction, in every reachable state",
 NOH+"account constraints are only evaluated when an instruction is executed.",
 [I+'process_claim.rs',I+'process_withdraw.rs',I+'process_withdraw_remaining_quote.rs',I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',I+'process_close_escrow.rs',I+'process_deposit.rs',I+'process_perform_unsold_base_token_action.rs'],
 [("account constraints","#[derive(Accounts)] structs")])
p("C15","Whitelist decides who may open an escrow, where, and with which cap",
 "A permissionless sale lets anyone open one escrow per wallet in the first registry with the registry maximum as cap; a permissioned (one escrow per wallet and registry) sale lets an escrow be opened only with a valid proof against a published root of that presale for exactly that wallet, registry and cap, or with an operator currently appointed by that presale's creator. The other two routes are refused in each mode, the registry must exist, the cap must lie within the registry's limits, and revoked operators or closed roots no longer admit anyone.",
 ["inputs","histories","configurations"],"every proof, operator, root, registry index and cap, against every whitelist mode",
 NOH+"no test creates an escrow.",
 [I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs',I+'create_escrow/process_create_permissioned_escrow_with_creator.rs',I+'create_escrow/process_create_permissionless_escrow.rs',I+'create_escrow/mod.rs',S+'merkle_root_config.rs',S+'operator.rs'],
 [("proof verification","process_create_permissioned_escrow_with_merkle_proof.rs"),("operator check","process_create_permissioned_escrow_with_creator.rs")])
p("C16","Off-chain whitelist trees admit exactly the listed entries",
 "For any non-empty list the tree library yields one entry per wallet (the last given wins) whose proof is accepted by the program for exactly that wallet, registry and cap, and by nothing else: altered entries, altered proofs and inner nodes are never accepted, and a tree whose root or entries were tampered with fails its own verification. Writing a tree to a file and reading it back preserves it, and the derived root address is the one the program uses; an empty list is refused.",
 ["inputs"],"every list length, duplicate pattern, index and cap value, and every alteration of an entry, proof or file",
 "The merkle-tree crate has no stable tests at all.",
 ['merkle-tree/src/config_merkle_tree.rs','merkle-tree/src/merkle_tree.rs','merkle-tree/src/tree_node.rs','merkle-tree/src/utils.rs',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs'],
 [("tree and proofs","merkle-tree/src"),("verify","process_create_permissioned_escrow_with_merkle_proof.rs")])
p("C17","Only consistent configurations are accepted, and they are stored faithfully",
 "A presale is created only if its caps, times, modes, registries, supply, fees, vesting and price satisfy all documented limits, and every configuration inside the limits is accepted. The created presale records exactly the given parameters and derived schedule (a start in the past means now), with all counters zero and vaults owned by the program.",
 ["inputs","configurations"],"every parameter combination including each limit and one step beyond it, in every mode and whitelist mode",
 "The tests validate a few vesting argument combinations and struct sizes; the rest of validation and the stored state are untested.",
 [I+'initialize_presale/params.rs',I+'initialize_presale/process_initialize_presale.rs',I+'process_initialize_extra_presale_params.rs',M+'fixed_price_presale.rs',M+'prorata_presale.rs',M+'fcfs_presale.rs',S+'presale.rs',T+'constants.rs'],
 [("validation","initialize_presale/params.rs, presale_mode_handler/*"),("stored state","state/presale.rs initialize")])
p("C18","Closing an escrow never destroys value",
 "An escrow can be closed only by its owner and only when nothing can be lost: during the sale with neither deposit nor fee recorded in it, after a failed sale once its refund is taken or if nothing was ever owed, after success once the full entitlement (at the end of vesting) was claimed and any due refund was taken. Closing returns the account's rent, removes it from the escrow counts, leaves all money and other totals unchanged, and does not let the wallet collect anything twice.",
 ["histories"],"every history leading to a close attempt in every phase, followed by further operations",
 NOH+"closability depends on the whole claim and refund history.",
 [I+'process_close_escrow.rs',S+'escrow.rs',S+'presale.rs'],
 [("close conditions","process_close_escrow.rs")])
p("C19","Token-2022 fees, hooks, memos and unsupported extensions are handled right",
 "With transfer-fee tokens the vault receives exactly the recorded supply, deposit and fee because the sender pays the transfer fee on top, and payouts take exactly the owed amount out of the vault; fee changes across epochs are followed. Transfer hooks run with exactly the accounts supplied for them, recipients that demand a memo are served, mints with unsupported extensions are refused, and malformed extra-account descriptions are refused rather than misread.",
 ["inputs","histories","configurations"],"every fee rate, cap and epoch switch, hook/no hook, memo requirement and extra-account layout, on base and quote side",
 NOH+"no test performs a token transfer.",
 [T+'token2022.rs',I+'process_deposit.rs',I+'initialize_presale/process_initialize_presale.rs'],
 [("fee inclusion","token2022.rs"),("extra accounts","token2022.rs")])
p("C20","Every effect is announced by exactly one truthful event",
 "Each successful instruction that has an event emits it exactly once, with the affected accounts, amounts actually moved (net of transfer fees where so defined) and resulting totals. Refused instructions emit nothing.",
 ["histories","inputs"],"every successful instruction in every reachable state",
 NOH+"no event is ever observed by a test.",
 [T+'events.rs',I+'process_deposit.rs',I+'process_claim.rs',I+'process_withdraw.rs',I+'process_close_extra_presale_params.rs'],
 [("emit_cpi!","every handler")])
p("C21","Auxiliary accounts live and die cleanly",
 "Price arguments, whitelist roots, operators and server metadata are stored exactly as given, at one address per key, rent-exempt and paid by the stated payer; they can be closed only by their owner, which returns all rent to the stated receiver and erases the record. They can be recreated after closing, and no other account's data or lamports change.",
 ["histories","inputs"],"every create/close/recreate sequence by every party",
 NOH+"no auxiliary account is ever created by a test.",
 [I+'process_initialize_extra_presale_params.rs',I+'process_close_extra_presale_params.rs',I+'process_create_merkle_root_config.rs',I+'process_close_merkle_root_config.rs',I+'process_create_operator.rs',I+'process_revoke_operator.rs',I+'process_create_permissioned_server_metadata.rs',I+'process_close_merkle_proof_metadata.rs'],
 [("init / close constraints","the listed handlers")])
p("C22","No accepted presale can be jammed by arithmetic or malformed input",
 "No instruction aborts (panic, overflow, out-of-bounds), whatever its data and accounts. In a presale that was accepted, an operation that is due is never refused because of amounts, however extreme the caps, prices, fees and supplies inside the accepted limits are.",
 ["inputs","histories","configurations"],"extreme magnitudes across the accepted configuration space and malformed instruction data and account lists",
 "Unit tests sample a few ordinary values for isolated helpers.",
 [M+'fixed_price_presale.rs',S+'presale.rs',MA+'fee_math.rs',T+'token2022.rs'],
 [("checked arithmetic","math/*, state/*"),("account parsing","token2022.rs")])
p("C23","Buyers can take their deposit back during the sale when allowed",
 "While a pro-rata sale, or a fixed-price sale without the withdrawal lock, is ongoing, an escrow owner can withdraw up to their deposit at any time, receiving exactly what is deducted from escrow, registry and presale; fee records stay. A remainder below the registry minimum, zero or more than deposited is refused, and first-come sales and locked fixed-price sales never allow it.",
 H,"every withdrawal amount after every deposit history",
 NOH+"no withdrawal is ever executed.",
 [I+'process_withdraw.rs',M+'fixed_price_presale.rs',M+'prorata_presale.rs',M+'fcfs_presale.rs',S+'presale.rs',S+'escrow.rs'],
 [("can_withdraw / process_withdraw","presale_mode_handler/*"),("minimum after withdrawal","state/*")])
p("C24","When everybody has left, only rounding dust stays behind",
 "Every owner of an escrow and the creator can always leave a finished presale with everything due to them, in any order and without anybody else's cooperation. Once every escrow is closed and the creator has taken proceeds (or the returned supply), fees and had the unsold tokens handled, a failed sale's vaults are empty, a successful sale's base vault holds at most two units per escrow ever opened, and its quote vault holds nothing (or, for pro-rata, at most two units per escrow plus one per registry). Only tokens sent to a vault without the program remain beyond that.",
 H,"every history that ends with all parties leaving, in every order, mode, fee and vesting setting",
 NOH+"stranded value only shows at the end of a complete history.",
 [I+'process_claim.rs',I+'process_withdraw_remaining_quote.rs',I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',I+'process_perform_unsold_base_token_action.rs',I+'process_close_escrow.rs',S+'presale.rs',S+'escrow.rs'],
 [("payouts","state/presale.rs, state/escrow.rs"),("exit gates","process_close_escrow.rs")])
p("C25","Equal deposits get equal outcomes, larger ones never less",
 "Within a registry of a successful sale, what a buyer finally receives depends only on what they have deposited (and the fee they paid): of two buyers who claimed and were refunded everything, one with at least the other's deposit receives at least as many tokens, and if also at least the fee, at least as much refund; equal deposits and fees give exactly equal results. When or in how many pieces they deposited, withdrew, refreshed or claimed, who went first, and how many escrows exist makes no difference.",
 H,"every pair of buyers of a registry over every order, splitting and timing of their operations",
 "A relation between two buyers' complete histories; no test executes even one.",
 [I+'process_claim.rs',I+'process_withdraw_remaining_quote.rs',I+'process_refresh_escrow.rs',MA+'claim_math.rs',S+'presale.rs',S+'escrow.rs',M+'mod.rs'],
 [("share of registry","math/claim_math.rs, state/escrow.rs"),("refund share","state/presale.rs, state/escrow.rs")])
p("C26","Settlement totals do not depend on order, timing or repetition",
 "Once a presale is over, what leaves the vaults for each party in the end is already decided: however claims, refreshes, refunds, closes, the creator's proceeds and fee collection and the unsold-token action are ordered, spaced in time, repeated or split (as long as everybody eventually takes everything due), every escrow ends with exactly the same tokens and the same refund, the creator with the same proceeds and fees, the same amount is burned or returned, and the same escrows end up closed. Nobody gains or loses by being early, late, first, last or more active, nor because somebody else was.",
 H,"every pair of complete settlements of every finished sale",
 "A relation between two alternative futures of one state; a test follows one future only.",
 [I+'process_claim.rs',I+'process_refresh_escrow.rs',I+'process_withdraw_remaining_quote.rs',I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',I+'process_perform_unsold_base_token_action.rs',I+'process_close_escrow.rs',MA+'claim_math.rs',S+'presale.rs',S+'escrow.rs',M+'mod.rs'],
 [("cumulative release","presale_mode_handler/mod.rs, math/claim_math.rs"),("totals frozen at the end","state/presale.rs")])
p("C27","Published addresses, record layouts and call encoding stay valid",
 "What wallets, indexers, other programs and already stored accounts rely on does not move: every account is created at, and only at, the address derived from its published seeds (presale from base key and both mints, vaults from the presale, escrow from presale, owner and registry, operator from creator and operator, whitelist root from presale and version, price arguments and server metadata from the presale); records and events keep their identifier, size and the place of every value; instructions keep their identifier, the order of their accounts and the order and encoding of their arguments, so that a well-formed ordinary call is understood as published.",
 H,"every account, event and instruction kind over whole histories",
 "Stable tests build Rust structs directly and never see bytes, addresses or discriminators; reordering fields or seeds compiles and passes.",
 [S+'presale.rs',S+'escrow.rs',S+'presale_registry.rs',S+'operator.rs',S+'merkle_root_config.rs',S+'fixed_price_presale_params.rs',S+'permissioned_server_metadata.rs','programs/presale/src/events.rs','programs/presale/src/lib.rs','programs/presale/src/constants.rs',I+'initialize_presale/params.rs'],
 [("record layouts","state/*, presale_mode_handler/* (raw mode data)"),("addresses","constants.rs seeds, #[account(seeds)]"),("arguments and accounts","lib.rs, instructions/*")])
import os
missing=[]
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): missing.append((x['id'],f))
print(missing)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
man=dict(version=1,setup_cmd="bash ./build.sh",checks=[],not_applicable=[],notes="Two monitor binaries (harness/: presale-monitor, and tree-monitor for C16) built from /repo's working tree; check.sh builds it and judges one property. See DESIGN.md.")
for x in P:
    man['checks'].append(dict(property=x['id'],quick_cmd=f"bash ./check.sh {x['id']} quick",thorough_cmd=f"bash ./check.sh {x['id']} thorough",
      technique="runtime monitoring: reference-model monitor over generated executions of the real program" if x['id'] not in ('C16','C26') else "runtime monitoring: differential comparison of complete settlements executed from one snapshot" if x['id']=='C26' else "runtime monitoring: independent-tree monitor over generated whitelists and on-chain replays",
      level="exploration",
      level_note="Held on the executions produced (counts in the evidence file); nothing is claimed beyond them. Trusts the reference model, agave's InvokeContext and the real SPL program images; the program itself runs natively, one instruction per transaction."))
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
