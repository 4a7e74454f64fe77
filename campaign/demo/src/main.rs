//! Runs the scripted history in demo.rs against the program compiled from the current tree.
//! Exit code 0: everything happened as it should; a failed assertion otherwise.
#![allow(dead_code)]
mod abi;
mod bank;
mod demo;
mod merkle;
mod play;
mod rng;
mod world;

fn main() {
    let env = bank::Env::new(include_bytes!("../elf/transfer_hook_counter.so"), abi::HOOK);
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| demo::demo(&env))).is_err() {
        println!("demo failed: {}", bank::last_panic());
        std::process::exit(1);
    }
    println!("demo: as it should be");
}
