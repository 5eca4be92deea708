//! Symbolic inputs. In the IR build the intrinsics are implemented by the
//! symbolic executor (/verif/symex); in the native build they are fed with the
//! concrete bytes of a solver model.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn __symex_bytes(p: *mut u8, n: usize);
        pub fn __symex_fail(code: u32);
        pub fn __symex_observe(p: *const u8, n: usize);
        pub fn __symex_assume(c: bool);
        pub fn __symex_reach(id: u32);
        pub fn __symex_param(i: u32) -> u64;
        pub fn __symex_conc(v: u64) -> u64;
    }
}

#[cfg(feature = "native")]
use crate::native as imp;

/// Fills `buf` with unconstrained symbolic bytes.
pub fn fill(buf: &mut [u8]) {
    unsafe { imp::__symex_bytes(buf.as_mut_ptr(), buf.len()) }
}

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}

pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}

pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes::<8>())
}
pub fn i64() -> i64 {
    u64() as i64
}
pub fn i8() -> i8 {
    u8() as i8
}
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// A symbolic value in `0..n`; stays symbolic.
pub fn below(n: usize) -> usize {
    let b = u8();
    assume((b as usize) < n);
    b as usize
}
/// A symbolic value in `0..n` on which the path is split, once per value.
pub fn choose(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    conc(below(n))
}
pub fn conc(v: usize) -> usize {
    unsafe { imp::__symex_conc(v as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { imp::__symex_assume(c) }
}
pub fn fail(code: u32) {
    unsafe { imp::__symex_fail(code) }
}
pub fn check(c: bool, code: u32) {
    if !c {
        fail(code)
    }
}
pub fn reach(id: u32) {
    unsafe { imp::__symex_reach(id) }
}
pub fn param(i: u32) -> usize {
    unsafe { imp::__symex_param(i) as usize }
}
pub fn observe(b: &[u8]) {
    unsafe { imp::__symex_observe(b.as_ptr(), b.len()) }
}

/// One symbolic byte out of `set`; stays symbolic.
pub fn of(set: &[u8]) -> u8 {
    set[below(set.len())]
}
