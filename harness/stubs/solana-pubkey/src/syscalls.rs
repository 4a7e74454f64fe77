/// Syscall definitions used by `solana_pubkey`.
pub use solana_define_syscall::definitions::{
    sol_create_program_address, sol_log_pubkey, sol_try_find_program_address,
};
