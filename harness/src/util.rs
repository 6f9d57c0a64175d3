//! Input builders and small helpers shared by the harnesses.
use crate::api::*;

/// One of the characters of `t` (at most 256).
#[inline(always)]
pub fn one_of(t: &[char]) -> char { t[pick(t.len())] }
/// Any character of the 256-code-point block `hi` (surrogates excluded).
pub fn block_char(hi: u32) -> char { unsafe { char::from_u32_unchecked(hi * 256 + range(256) as u32) } }
/// The number of 256-code-point blocks, without the surrogates.
pub const BLOCKS: u64 = 0x1100 - 8;
/// The n-th block of Unicode, skipping the surrogates.
pub fn nth_block(n: u64) -> u32 { (if n < 0xd8 { n } else { n + 8 }) as u32 }
/// Any Unicode character of blocks `from .. from + n` (`n` at most 256): the block is chosen first, one path each.
pub fn any_char(from: u64, n: u64) -> char {
    let n = n.min(BLOCKS - from);
    block_char(nth_block(from + concrete(range(n))))
}
/// A string of `n` characters, each any of `t`.
pub fn word(t: &[char], n: u64) -> String {
    let mut s = String::new();
    for _ in 0..n { s.push(one_of(t)) }
    s
}
/// An arbitrary number in `lo ..= hi`, one path each.
pub fn between(lo: u64, hi: u64) -> u64 { lo + concrete(range(hi - lo + 1)) }
/// Feeds `f` strings that cover the alphabet in all short contexts, so that lazily built automata are complete
/// (and concrete) before symbolic characters reach them.
pub fn warm(alpha: &[char], ctx: &[&str], f: &dyn Fn(String)) {
    for &c in alpha { for a in ctx { for b in ctx { let mut s = a.to_string(); s.push(c); s.push_str(b); f(s) } } }
}
pub fn check_eq(a: &str, b: &str, msg: &str) { check(a == b, msg) }
pub fn check_opt(a: &Option<String>, b: &Option<String>, msg: &str) {
    match (a, b) { (Some(x), Some(y)) => check(x == y, msg), (None, None) => {}, _ => check(false, msg) }
}
pub fn observe_opt(a: &Option<String>) { match a { Some(s) => observe_str(s), None => observe(&[0xfc]) } }
pub fn check_list(a: &[String], b: &[String], msg: &str) {
    check(a.len() == b.len(), msg);
    if a.len() == b.len() { for i in 0..a.len() { check(a[i] == b[i], msg) } }
}
