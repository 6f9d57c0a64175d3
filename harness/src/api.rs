//! The interface between harnesses and the symbolic executor.  With the `sym` feature the functions are
//! externals which the executor interprets; without it they replay recorded inputs natively.
#[cfg(feature = "sym")]
mod raw {
    extern "C" {
        fn sym_range(n: u64) -> u64;
        fn sym_u64() -> u64;
        fn sym_assume(c: u64);
        fn sym_assert(c: u64, msg: *const u8, len: u64);
        fn sym_reach(tag: u64);
        fn sym_observe(p: *const u8, len: u64);
        fn sym_expect_panic(on: u64);
        fn sym_concrete(v: u64) -> u64;
    }
    #[inline(always)]
    pub fn range(n: u64) -> u64 { unsafe { sym_range(n) } }
    #[inline(always)]
    pub fn wide() -> u64 { unsafe { sym_u64() } }
    #[inline(always)]
    pub fn assume(c: bool) { unsafe { sym_assume(c as u64) } }
    #[inline(always)]
    pub fn check(c: bool, msg: &str) { unsafe { sym_assert(c as u64, msg.as_ptr(), msg.len() as u64) } }
    #[inline(always)]
    pub fn reach(tag: u32) { unsafe { sym_reach(tag as u64) } }
    #[inline(always)]
    pub fn observe(b: &[u8]) { unsafe { sym_observe(b.as_ptr(), b.len() as u64) } }
    #[inline(always)]
    pub fn expect_panic(on: bool) { unsafe { sym_expect_panic(on as u64) } }
    #[inline(always)]
    pub fn concrete(v: u64) -> u64 { unsafe { sym_concrete(v) } }
}
#[cfg(not(feature = "sym"))]
pub mod raw {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx { pub inputs: Vec<u64>, pub pos: usize, pub obs: Vec<u8>, pub failed: Vec<String>, pub expect: bool, pub reach: Vec<u32>, pub bad: bool }
    thread_local!(pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()));
    /// Thrown when a recorded input is outside the harness's assumptions.
    pub struct Cut;
    fn next(n: u64) -> u64 {
        CTX.with(|c| { let mut c = c.borrow_mut(); let v = c.inputs.get(c.pos).copied().unwrap_or(0); c.pos += 1; if n != 0 && v >= n { c.bad = true; 0 } else { v } })
    }
    pub fn range(n: u64) -> u64 { next(n) }
    pub fn wide() -> u64 { next(0) }
    pub fn assume(c: bool) { if !c { CTX.with(|x| x.borrow_mut().bad = true); std::panic::panic_any(Cut) } }
    pub fn check(c: bool, msg: &str) { if !c { CTX.with(|x| x.borrow_mut().failed.push(msg.to_string())) } }
    pub fn reach(tag: u32) { CTX.with(|x| { let r = &mut x.borrow_mut().reach; if !r.contains(&tag) { r.push(tag) } }) }
    pub fn observe(b: &[u8]) { CTX.with(|x| { let o = &mut x.borrow_mut().obs; o.extend_from_slice(b); o.push(0xfe) }) }
    pub fn expect_panic(on: bool) { CTX.with(|x| x.borrow_mut().expect = on) }
    pub fn concrete(v: u64) -> u64 { v }
}
#[cfg(feature = "sym")]
pub use self::raw::*;
#[cfg(not(feature = "sym"))]
pub use self::raw::{assume, check, concrete, expect_panic, observe, range, reach, wide};

/// An arbitrary index below `n` (`n` at most 256).
#[inline(always)]
pub fn pick(n: usize) -> usize { range(n as u64) as usize }
/// An arbitrary truth value.
#[inline(always)]
pub fn flag() -> bool { range(2) != 0 }
pub fn observe_str(s: &str) { observe(s.as_bytes()) }
pub fn observe_all(v: &[String]) { for s in v { observe(s.as_bytes()) } observe(&[0xfd]) }
