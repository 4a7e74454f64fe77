//! A miniature Solana bank: executes ONE top-level instruction per transaction against an
//! in-memory account store using the real agave `InvokeContext`/`TransactionContext`.
//!
//! * the presale program runs natively (compiled from /repo's working tree) as a builtin,
//! * SPL Token / Token-2022 / Memo / ATA / the transfer hook fixture run as their real ELF images,
//! * the system program is agave's builtin.
//!
//! The native bridge (account (de)serialisation and CPI) follows `solana-program-test`.

use solana_account::{Account, AccountSharedData, ReadableAccount, WritableAccount};
use solana_bpf_loader_program::syscalls::{
    create_program_runtime_environment_v1, create_program_runtime_environment_v2,
};
use solana_compute_budget::compute_budget::ComputeBudget;
use solana_feature_set::FeatureSet;
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE, SUCCESS},
    epoch_schedule::EpochSchedule,
    hash::Hash,
    instruction::{AccountMeta, Instruction, InstructionError},
    program_error::{ProgramError, UNSUPPORTED_SYSVAR},
    pubkey::Pubkey,
    rent::Rent,
};
use solana_program_runtime::{
    invoke_context::{EnvironmentConfig, InvokeContext},
    loaded_programs::{LoadProgramMetrics, ProgramCacheEntry, ProgramCacheForTxBatch},
    sysvar_cache::SysvarCache,
};
use solana_timings::ExecuteTimings;
use solana_transaction_context::{IndexOfAccount, InstructionAccount, TransactionContext};
use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
};

pub const NATIVE_LOADER: Pubkey = solana_sdk_ids::native_loader::ID;
pub const SYSTEM: Pubkey = solana_sdk_ids::system_program::ID;
pub const BPF_LOADER: Pubkey = solana_sdk_ids::bpf_loader::ID;

/// What happened inside one transaction.
#[derive(Clone, Debug)]
pub struct TraceIx {
    pub height: usize,
    pub program: Pubkey,
    pub data: Vec<u8>,
    pub accounts: Vec<Pubkey>,
}

#[derive(Debug)]
pub struct TxOut {
    pub ok: bool,
    pub err: Option<InstructionError>,
    pub panic: Option<String>,
    pub trace: Vec<TraceIx>,
}

thread_local! {
    static IC: Cell<usize> = const { Cell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static LASTP: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// The last panic outside of the program under test (on this thread).
pub fn last_panic() -> String {
    LASTP.with(|p| p.borrow().clone())
}

fn install_hooks() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) {
                PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
            } else {
                LASTP.with(|p| *p.borrow_mut() = info.to_string());
            }
        }));
        solana_sysvar::program_stubs::set_syscall_stubs(Box::new(Stubs));
    });
}

fn with_ic<R>(f: impl FnOnce(&mut InvokeContext<'static>) -> R) -> R {
    let p = IC.with(|c| c.get());
    assert!(p != 0, "syscall outside of a transaction");
    // Safety: the pointer is set by the native entrypoint below for the duration of the call and the
    // program's own borrow of the invoke context is suspended while a stub runs (same as
    // solana-program-test).
    f(unsafe { &mut *(p as *mut InvokeContext<'static>) })
}

struct Stubs;

impl solana_sysvar::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        with_ic(|ic| match ic.get_sysvar_cache().get_clock() {
            Ok(c) => {
                unsafe { std::ptr::write_unaligned(var as *mut Clock, (*c).clone()) };
                SUCCESS
            }
            Err(_) => UNSUPPORTED_SYSVAR,
        })
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        with_ic(|ic| match ic.get_sysvar_cache().get_rent() {
            Ok(c) => {
                unsafe { std::ptr::write_unaligned(var as *mut Rent, (*c).clone()) };
                SUCCESS
            }
            Err(_) => UNSUPPORTED_SYSVAR,
        })
    }
    fn sol_get_epoch_schedule_sysvar(&self, var: *mut u8) -> u64 {
        with_ic(|ic| match ic.get_sysvar_cache().get_epoch_schedule() {
            Ok(c) => {
                unsafe { std::ptr::write_unaligned(var as *mut EpochSchedule, (*c).clone()) };
                SUCCESS
            }
            Err(_) => UNSUPPORTED_SYSVAR,
        })
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        with_ic(|ic| {
            let (k, d) = ic.transaction_context.get_return_data();
            Some((*k, d.to_vec()))
        })
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        with_ic(|ic| {
            let id = *ic
                .transaction_context
                .get_current_instruction_context()
                .unwrap()
                .get_last_program_key(ic.transaction_context)
                .unwrap();
            ic.transaction_context.set_return_data(id, data.to_vec()).unwrap();
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        with_ic(|ic| ic.get_stack_height() as u64)
    }

    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        with_ic(|ic| cpi(ic, instruction, account_infos, signers_seeds))
            .map_err(|e| ProgramError::try_from(e).unwrap_or(ProgramError::Custom(0xdead_0001)))
    }
}

fn cpi(
    ic: &mut InvokeContext<'static>,
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> Result<(), InstructionError> {
    let instruction_context = ic.transaction_context.get_current_instruction_context()?;
    let caller = *instruction_context.get_last_program_key(ic.transaction_context)?;
    let mut signers = Vec::new();
    for s in signers_seeds {
        signers.push(
            Pubkey::create_program_address(s, &caller).map_err(|_| InstructionError::InvalidSeeds)?,
        );
    }
    let stable = solana_program::stable_layout::stable_instruction::StableInstruction::from(
        instruction.clone(),
    );
    let (instruction_accounts, program_indices) = ic.prepare_instruction(&stable, &signers)?;

    // Caller -> runtime.
    let mut back: Vec<(IndexOfAccount, usize)> = Vec::with_capacity(instruction_accounts.len());
    {
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context()?;
        for ia in instruction_accounts.iter() {
            let key = *tc.get_key_of_account_at_index(ia.index_in_transaction)?;
            let Some(ai_index) = account_infos.iter().position(|ai| *ai.key == key) else {
                // executable accounts need not be passed; everything else must
                return Err(InstructionError::MissingAccount);
            };
            let ai = &account_infos[ai_index];
            let mut b = ictx.try_borrow_instruction_account(tc, ia.index_in_caller)?;
            sync_to_runtime(&mut b, ai)?;
            if ia.is_writable {
                back.push((ia.index_in_caller, ai_index));
            }
        }
    }
    let mut cu = 0;
    ic.process_instruction(
        &instruction.data,
        &instruction_accounts,
        &program_indices,
        &mut cu,
        &mut ExecuteTimings::default(),
    )?;
    // Runtime -> caller.
    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    for (idx, ai_index) in back {
        let b = ictx.try_borrow_instruction_account(tc, idx)?;
        let ai = &account_infos[ai_index];
        **ai.try_borrow_mut_lamports().map_err(|_| InstructionError::AccountBorrowFailed)? =
            b.get_lamports();
        if ai.owner != b.get_owner() {
            ai.assign(b.get_owner());
        }
        let nd = b.get_data();
        if ai.data_len() != nd.len() {
            ai.realloc(nd.len(), false).map_err(|_| InstructionError::InvalidRealloc)?;
        }
        let mut d = ai
            .try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        d.copy_from_slice(nd);
    }
    Ok(())
}

fn sync_to_runtime(
    b: &mut solana_transaction_context::BorrowedAccount<'_>,
    ai: &AccountInfo,
) -> Result<(), InstructionError> {
    let lam = **ai.try_borrow_lamports().map_err(|_| InstructionError::AccountBorrowFailed)?;
    if b.get_lamports() != lam {
        b.set_lamports(lam)?;
    }
    let d = ai.try_borrow_data().map_err(|_| InstructionError::AccountBorrowFailed)?;
    if b.get_data() != &d[..] {
        b.can_data_be_resized(d.len())?;
        b.can_data_be_changed()?;
        b.set_data_from_slice(&d)?;
    }
    if b.get_owner() != ai.owner {
        b.set_owner(ai.owner.as_ref())?;
    }
    Ok(())
}

/// Memory image of an account as the program sees it. Layout honours the two raw-pointer
/// conventions of `AccountInfo` (u32 original length right before the key, u64 length right before
/// the data) and places `data + 8` on a 16 byte boundary (native u128 alignment).
#[repr(C, align(16))]
struct Slot {
    _pad: [u8; 12],
    orig_len: u32,
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    _p2: u64,
}

struct DataBuf {
    /// 16-byte aligned storage; the u64 length sits at offset 0, data at offset 8.
    raw: Vec<u128>,
}
impl DataBuf {
    fn new(data: &[u8]) -> Self {
        let cap = data.len() + MAX_PERMITTED_DATA_INCREASE + 8;
        let mut raw = vec![0u128; cap / 16 + 2];
        let p = raw.as_mut_ptr() as *mut u8;
        unsafe {
            // u64 length at 0, payload at 8 => payload+8 is 16-aligned
            (p as *mut u64).write(data.len() as u64);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(8), data.len());
        }
        Self { raw }
    }
    fn data_ptr(&mut self) -> *mut u8 {
        unsafe { (self.raw.as_mut_ptr() as *mut u8).add(8) }
    }
}

solana_program_runtime::declare_process_instruction!(PresaleEntrypoint, 1000, |ic| {
    native_entry(ic)
});

fn native_entry(ic: &mut InvokeContext) -> Result<(), InstructionError> {
    let (program_id, data, n) = {
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context()?;
        (
            *ictx.get_last_program_key(tc)?,
            ictx.get_instruction_data().to_vec(),
            ictx.get_number_of_instruction_accounts(),
        )
    };
    let mut slots: Vec<Box<Slot>> = Vec::with_capacity(n as usize);
    let mut bufs: Vec<DataBuf> = Vec::with_capacity(n as usize);
    let mut infos: Vec<AccountInfo<'static>> = Vec::with_capacity(n as usize);
    let mut uniq: Vec<IndexOfAccount> = Vec::new();
    {
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context()?;
        for i in 0..n {
            if let Some(dup) = ictx.is_instruction_account_duplicate(i)? {
                let c = infos[dup as usize].clone();
                infos.push(c);
                continue;
            }
            let b = ictx.try_borrow_instruction_account(tc, i)?;
            let mut slot = Box::new(Slot {
                _pad: [0; 12],
                orig_len: b.get_data().len() as u32,
                key: *b.get_key(),
                owner: *b.get_owner(),
                lamports: b.get_lamports(),
                _p2: 0,
            });
            let mut buf = DataBuf::new(b.get_data());
            let sp: *mut Slot = &mut *slot;
            let len = b.get_data().len();
            // Safety: slots and bufs outlive infos (dropped at the end of this function) and each
            // piece of memory is reachable through exactly one AccountInfo (plus its clones).
            let ai = unsafe {
                AccountInfo {
                    key: &(*sp).key,
                    lamports: std::rc::Rc::new(RefCell::new(&mut (*sp).lamports)),
                    data: std::rc::Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                        buf.data_ptr(),
                        len,
                    ))),
                    owner: &(*sp).owner,
                    rent_epoch: u64::MAX,
                    is_signer: b.is_signer(),
                    is_writable: b.is_writable(),
                    #[allow(deprecated)]
                    executable: b.is_executable(),
                }
            };
            uniq.push(i);
            slots.push(slot);
            bufs.push(buf);
            infos.push(ai);
        }
    }

    let prev = IC.with(|c| c.replace(ic as *mut InvokeContext as usize));
    let infos_ref: &'static [AccountInfo<'static>] =
        unsafe { std::mem::transmute::<&[AccountInfo<'static>], _>(&infos[..]) };
    let res = quiet_catch_inner(|| presale::entry(&program_id, infos_ref, &data));
    IC.with(|c| c.set(prev));

    let out = match res {
        Err(()) => Err(InstructionError::ProgramFailedToComplete),
        Ok(Err(e)) => Err(InstructionError::from(u64::from(e))),
        Ok(Ok(())) => {
            // Commit: data/lamports first, then the rest, so that lamport moves between accounts do
            // not trip over intermediate states.
            let tc = &ic.transaction_context;
            let ictx = tc.get_current_instruction_context()?;
            let mut r = Ok(());
            for &i in &uniq {
                let mut b = ictx.try_borrow_instruction_account(tc, i)?;
                if let Err(e) = sync_to_runtime(&mut b, &infos[i as usize]) {
                    r = Err(e);
                    break;
                }
            }
            r
        }
    };
    drop(infos);
    drop(bufs);
    drop(slots);
    out
}

fn quiet_catch_inner<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| ())
}

pub struct Env {
    features: Arc<FeatureSet>,
    cache: ProgramCacheForTxBatch,
    base_accounts: HashMap<Pubkey, AccountSharedData>,
}

pub struct Bank {
    pub accounts: HashMap<Pubkey, AccountSharedData>,
    features: Arc<FeatureSet>,
    cache: ProgramCacheForTxBatch,
    sysvars: SysvarCache,
    pub rent: Rent,
    pub clock: Clock,
    pub txs: u64,
}

impl Env {
    pub fn new(hook_so: &[u8], hook_id: Pubkey) -> Env {
        install_hooks();
        let features = Arc::new(FeatureSet::all_enabled());
        let mut cache = ProgramCacheForTxBatch::default();
        let budget = ComputeBudget::default();
        let v1 = Arc::new(
            create_program_runtime_environment_v1(&features, &budget, false, false).unwrap(),
        );
        let v2 = Arc::new(create_program_runtime_environment_v2(&budget, false));
        cache.environments.program_runtime_v1 = v1.clone();
        cache.environments.program_runtime_v2 = v2;
        cache.set_slot_for_tests(100);
        let mut base = HashMap::new();
        let native = |base: &mut HashMap<Pubkey, AccountSharedData>, id: Pubkey| {
            let mut a = AccountSharedData::new(1, 8, &NATIVE_LOADER);
            a.set_executable(true);
            base.insert(id, a);
        };
        for (id, f) in [
            (SYSTEM, solana_system_program::system_processor::Entrypoint::vm as solana_program_runtime::invoke_context::BuiltinFunctionWithContext),
            (BPF_LOADER, solana_bpf_loader_program::Entrypoint::vm),
        ] {
            cache.replenish(id, Arc::new(ProgramCacheEntry::new_builtin(0, 14, f)));
            native(&mut base, id);
        }
        cache.replenish(
            presale::ID,
            Arc::new(ProgramCacheEntry::new_builtin(0, 7, PresaleEntrypoint::vm)),
        );
        native(&mut base, presale::ID);
        let mut elfs: Vec<(Pubkey, Vec<u8>)> = vec![(hook_id, hook_so.to_vec())];
        let spl: [(Pubkey, &[u8]); 4] = [
            (crate::abi::TOKEN, include_bytes!("../elf/spl_token-3.5.0.so")),
            (crate::abi::TOKEN22, include_bytes!("../elf/spl_token_2022-5.0.2.so")),
            (crate::abi::MEMO, include_bytes!("../elf/spl_memo-3.0.0.so")),
            (crate::abi::ATA, include_bytes!("../elf/spl_associated_token_account-1.1.1.so")),
        ];
        for (id, e) in spl {
            elfs.push((id, e.to_vec()));
        }
        for (id, elf) in elfs {
            let mut e = solana_bpf_loader_program::load_program_from_bytes(
                None,
                &mut LoadProgramMetrics::default(),
                &elf,
                &BPF_LOADER,
                elf.len(),
                0,
                v1.clone(),
                false,
            )
            .unwrap();
            e.effective_slot = 0;
            cache.replenish(id, Arc::new(e));
            // The image itself lives in the program cache; the account only needs to exist.
            let mut a = AccountSharedData::new(1_000_000_000, 36, &BPF_LOADER);
            a.set_executable(true);
            base.insert(id, a);
        }
        Env { features, cache, base_accounts: base }
    }

    pub fn bank(&self) -> Bank {
        let mut b = Bank {
            accounts: self.base_accounts.clone(),
            features: self.features.clone(),
            cache: self.cache.clone(),
            sysvars: SysvarCache::default(),
            rent: Rent::default(),
            clock: Clock::default(),
            txs: 0,
        };
        let rent = b.rent.clone();
        b.sysvars.set_sysvar_for_tests(&rent);
        b.sysvars.set_sysvar_for_tests(&EpochSchedule::default());
        b.set_clock(1_700_000_000, 600);
        // A rent sysvar account for programs that read it from an account.
        b.accounts.insert(
            solana_sdk_ids::sysvar::rent::ID,
            AccountSharedData::new_data(1, &rent, &solana_sdk_ids::sysvar::ID).unwrap(),
        );
        b
    }
}

impl Bank {
    pub fn set_clock(&mut self, ts: i64, epoch: u64) {
        self.clock = Clock {
            // about two and a half slots a second, epochs of two days
            slot: 320_000_000 + (ts.max(0) as u64 % (1 << 40)) * 5 / 2,
            epoch_start_timestamp: ts - ts.rem_euclid(172_800),
            epoch,
            leader_schedule_epoch: epoch,
            unix_timestamp: ts,
        };
        let c = self.clock.clone();
        self.sysvars.set_sysvar_for_tests(&c);
    }

    pub fn get(&self, k: &Pubkey) -> Option<&AccountSharedData> {
        self.accounts.get(k)
    }
    pub fn data(&self, k: &Pubkey) -> Option<&[u8]> {
        self.accounts.get(k).map(|a| a.data())
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map(|a| a.lamports()).unwrap_or(0)
    }
    pub fn set(&mut self, k: Pubkey, a: Account) {
        self.accounts.insert(k, a.into());
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        let e = self
            .accounts
            .entry(k)
            .or_insert_with(|| AccountSharedData::new(0, 0, &SYSTEM));
        e.set_lamports(e.lamports() + lamports);
    }

    /// Execute one instruction atomically. Signers are exactly the metas flagged `is_signer`.
    pub fn exec(&mut self, ix: &Instruction) -> TxOut {
        let (out, post) = self.run(ix);
        if out.ok {
            for (k, a) in post {
                if a.lamports() == 0 {
                    self.accounts.remove(&k);
                } else {
                    self.accounts.insert(k, a);
                }
            }
        }
        out
    }

    /// Execute without committing.
    pub fn simulate(&mut self, ix: &Instruction) -> TxOut {
        self.run(ix).0
    }

    fn run(&mut self, ix: &Instruction) -> (TxOut, Vec<(Pubkey, AccountSharedData)>) {
        self.txs += 1;
        // Message-level privilege normalisation: union over duplicate metas.
        let mut keys: Vec<(Pubkey, bool, bool)> = Vec::new();
        for m in &ix.accounts {
            if let Some(k) = keys.iter_mut().find(|k| k.0 == m.pubkey) {
                k.1 |= m.is_signer;
                k.2 |= m.is_writable;
            } else {
                keys.push((m.pubkey, m.is_signer, m.is_writable));
            }
        }
        // The runtime demotes writes to executables/builtins and sysvars.
        for k in keys.iter_mut() {
            if self.accounts.get(&k.0).map(|a| a.executable()).unwrap_or(false) {
                k.2 = false;
            }
        }
        let mut program_index = keys.iter().position(|k| k.0 == ix.program_id);
        let mut accts: Vec<(Pubkey, AccountSharedData)> = keys
            .iter()
            .map(|k| (k.0, self.accounts.get(&k.0).cloned().unwrap_or_default()))
            .collect();
        if program_index.is_none() {
            program_index = Some(accts.len());
            accts.push((
                ix.program_id,
                self.accounts.get(&ix.program_id).cloned().unwrap_or_default(),
            ));
        }
        let mut ias: Vec<InstructionAccount> = Vec::with_capacity(ix.accounts.len());
        for (i, m) in ix.accounts.iter().enumerate() {
            let t = keys.iter().position(|k| k.0 == m.pubkey).unwrap();
            let callee = ix.accounts[..i]
                .iter()
                .position(|x| x.pubkey == m.pubkey)
                .unwrap_or(i);
            ias.push(InstructionAccount {
                index_in_transaction: t as IndexOfAccount,
                index_in_caller: t as IndexOfAccount,
                index_in_callee: callee as IndexOfAccount,
                is_signer: keys[t].1,
                is_writable: keys[t].2,
            });
        }
        PANIC.with(|p| *p.borrow_mut() = None);
        let mut budget = ComputeBudget::default();
        budget.compute_unit_limit = 1_400_000;
        let mut ctx = TransactionContext::new(accts, self.rent.clone(), 5, 64);
        let mut cu = 0;
        let cb = |_: &Pubkey| 0u64;
        let mut result = {
            let mut ic = InvokeContext::new(
                &mut ctx,
                &mut self.cache,
                EnvironmentConfig::new(
                    Hash::default(),
                    5000,
                    0,
                    &cb,
                    self.features.clone(),
                    &self.sysvars,
                ),
                None,
                budget,
            );
            ic.process_instruction(
                &ix.data,
                &ias,
                &[program_index.unwrap() as IndexOfAccount],
                &mut cu,
                &mut ExecuteTimings::default(),
            )
        };
        // Instruction trace.
        let mut trace = Vec::new();
        for i in 0..ctx.get_instruction_trace_length() {
            if let Ok(c) = ctx.get_instruction_context_at_index_in_trace(i) {
                let accounts = (0..c.get_number_of_instruction_accounts())
                    .map(|j| {
                        let t = c.get_index_of_instruction_account_in_transaction(j).unwrap();
                        *ctx.get_key_of_account_at_index(t).unwrap()
                    })
                    .collect();
                trace.push(TraceIx {
                    height: c.get_stack_height(),
                    program: c.get_last_program_key(&ctx).copied().unwrap_or_default(),
                    data: c.get_instruction_data().to_vec(),
                    accounts,
                });
            }
        }
        let panic = PANIC.with(|p| p.borrow_mut().take());
        let mut post = Vec::new();
        if result.is_ok() {
            // Rent state of writable accounts (as in the SVM).
            let all_keys: Vec<Pubkey> = (0..ctx.get_number_of_accounts())
                .map(|i| *ctx.get_key_of_account_at_index(i).unwrap())
                .collect();
            match ctx.deconstruct_without_keys() {
                Ok(accs) => {
                    for (i, a) in accs.into_iter().enumerate() {
                        if i < keys.len() && keys[i].2 {
                            if a.lamports() > 0
                                && !a.data().is_empty()
                                && !self.rent.is_exempt(a.lamports(), a.data().len())
                            {
                                let pre = self.accounts.get(&all_keys[i]);
                                let same = pre.map(|p| {
                                    p.data().len() == a.data().len() && p.lamports() >= a.lamports()
                                        && !self.rent.is_exempt(p.lamports(), p.data().len())
                                });
                                if same != Some(true) {
                                    result = Err(InstructionError::InsufficientFunds);
                                }
                            }
                            post.push((all_keys[i], a));
                        }
                    }
                }
                Err(e) => result = Err(e),
            }
        }
        (
            TxOut { ok: result.is_ok(), err: result.err(), panic, trace },
            post,
        )
    }
}

pub fn meta(k: Pubkey, signer: bool, writable: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: signer, is_writable: writable }
}
