//! Compiler driver: dumps the monomorphised MIR of a crate and of everything
//! reachable from it as JSON, for the analyses in ../sa.
//!
//! Used as RUSTC_WRAPPER.  For crates named in MIRDUMP_CRATES it writes
//! $MIRDUMP_OUT/<crate>.json, for all others it just runs rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

mod json;
mod dump;

use std::process::{exit, Command};

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let rustc = args.remove(1);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .map(|i| args[i + 1].clone())
        .unwrap_or_default();
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if !wanted.split(',').any(|w| !w.is_empty() && w == name) {
        let st = Command::new(rustc).args(&args[1..]).status().expect("run rustc");
        exit(st.code().unwrap_or(101));
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let path = format!("{out}/{name}.json");
    let extra = std::env::var("MIRDUMP_LIB").unwrap_or_default();
    args[0] = rustc;
    let r = rustc_public::run!(&args, || {
        let s = dump::dump_all(&extra);
        let tmp = format!("{path}.tmp");
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &path).expect("rename dump");
        ControlFlow::<(), ()>::Continue(())
    });
    match r {
        Ok(_) => exit(0),
        Err(_) => exit(1),
    }
}
