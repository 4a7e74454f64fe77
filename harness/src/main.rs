//! Monitor of the on-chain program (see driver.rs).
fn main() {
    presale_monitor::driver::main_with(None)
}
