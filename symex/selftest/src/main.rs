//! What the standard library compiles to, executed by the symbolic executor and natively (run.py).
#![allow(warnings)]
#![cfg_attr(not(feature = "native"), no_main)]
#[cfg(feature = "native")]
#[path = "../../../harness/src/native.rs"]
mod native;
#[path = "../../../harness/src/sym.rs"]
mod sym;
mod p_std;

#[cfg(feature = "native")]
fn main() {
    native::main(&[("h_std", p_std::h_std)])
}
