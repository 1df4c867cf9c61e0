#![allow(warnings)]
include!("/repo/src/bin/main.rs");

/// The main function of the binary.
pub fn run_main() {
    let r = main();
    let _ = r;
}
