//! The symbolic interface.  Under `--cfg symx` these are external functions that the
//! symbolic engine implements; natively they read a recorded counterexample.

#[cfg(symx)]
mod imp {
    extern "C" {
        pub fn sym_byte() -> u8;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_param(i: u32) -> u64;
        pub fn sym_emit(v: u64);
        pub fn sym_pick(v: u64) -> u64;
    }
}

#[cfg(not(symx))]
pub mod imp {
    use std::cell::RefCell;
    pub struct St { pub bytes: Vec<u8>, pub pos: usize, pub params: Vec<u64>, pub trace: bool }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St { bytes: Vec::new(), pos: 0, params: Vec::new(), trace: false }); }
    pub unsafe fn sym_byte() -> u8 {
        ST.with(|s| { let mut s = s.borrow_mut(); let p = s.pos; s.pos += 1; s.bytes.get(p).copied().unwrap_or(0) })
    }
    pub unsafe fn sym_assume(c: bool) { if !c { eprintln!("REPLAY assume-failed"); std::process::exit(43); } }
    pub unsafe fn sym_assert(c: bool, id: u32) { if !c { eprintln!("REPLAY assert-failed {}", id); std::process::exit(42); } }
    pub unsafe fn sym_reach(id: u32) { if ST.with(|s| s.borrow().trace) { println!("reach {}", id); } }
    pub unsafe fn sym_param(i: u32) -> u64 { ST.with(|s| s.borrow().params[i as usize]) }
    pub unsafe fn sym_pick(v: u64) -> u64 { v }
    pub unsafe fn sym_emit(v: u64) { if ST.with(|s| s.borrow().trace) { println!("emit {:x}", v); } }
}

/// A fresh symbolic byte.
#[inline(never)]
pub fn byte() -> u8 { unsafe { imp::sym_byte() } }
pub fn assume(c: bool) { unsafe { imp::sym_assume(c) } }
/// Property assertion; `id` names the place.
pub fn check(c: bool, id: u32) { unsafe { imp::sym_assert(c, id) } }
/// Reachability witness.
pub fn reach(id: u32) { unsafe { imp::sym_reach(id) } }
/// Concrete job parameter.
pub fn param(i: u32) -> usize { unsafe { imp::sym_param(i) as usize } }
/// Split the exploration on the value of `v`: every feasible value becomes concrete on its own path.
pub fn split(v: u64) -> usize { unsafe { imp::sym_pick(v) as usize } }
/// An arbitrary number in `0..n`, concrete on each path.
pub fn pick(n: usize) -> usize {
    if n <= 1 { return 0; }
    if n <= 256 { return split(byte_in(0, (n - 1) as u8) as u64); }
    let lo = byte() as u64; let hi = byte_in(0, ((n - 1) >> 8) as u8) as u64;
    let v = hi << 8 | lo;
    assume(v < n as u64);
    split(v)
}
pub fn emit(v: u64) { unsafe { imp::sym_emit(v) } }
/// A symbolic byte in `lo..=hi`.
pub fn byte_in(lo: u8, hi: u8) -> u8 { let b = byte(); assume(b >= lo && b <= hi); b }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(byte()); } v }
