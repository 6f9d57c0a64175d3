//! Script-based trimmers.
use crate::api::*;
use crate::langs::*;
use crate::util::*;
use elasticlunr::{lang, Pipeline};

pub fn in_ranges(scripts: &[&[(u32, u32)]], c: u32) -> bool { scripts.iter().any(|r| r.iter().any(|&(a, b)| a <= c && c <= b)) }
/// Word characters and others of the alphabet.
#[derive(Clone, Copy)]
pub struct Ch { pub c: char, pub word: bool }
pub fn trim(w: &[Ch]) -> Option<String> {
    let mut a = 0;
    let mut b = w.len();
    while a < b && !w[a].word { a += 1 }
    while b > a && !w[b - 1].word { b -= 1 }
    if a == b { None } else { Some(w[a..b].iter().map(|x| x.c).collect()) }
}
pub const MIX: [char; 20] = ['a', 'Z', 'é', 'ſ', 'ª', 'ﬁ', 'Ａ', 'Ж', 'ё', 'ԯ', '한', 'ᄀ', '.', '7', '_', '\u{301}', 'α', '中', '😀', '\u{10780}'];
const CTL: [char; 9] = ['a', 'ж', '한', '\n', '\r', ' ', '.', '\0', '\u{2028}'];
const SHORT: [char; 8] = ['a', 'é', 'Ж', '한', '.', '7', '😀', '中'];
pub struct Alpha { pub chars: Vec<char>, pub word: Vec<bool> }
pub fn alpha(l: &Lang, t: &[char]) -> Alpha { Alpha { chars: t.to_vec(), word: t.iter().map(|&c| in_ranges(l.scripts, c as u32)).collect() } }
impl Alpha { pub fn any(&self) -> Ch { let i = pick(self.chars.len()); Ch { c: self.chars[i], word: self.word[i] } } }
/// Builds the pipeline and lets the trimmer's automata see every alphabet character in every state.
pub fn warmed(l: &Lang, t: &[char]) -> Pipeline {
    let p = lang::from_code(l.code).unwrap().make_pipeline();
    let w = if in_ranges(l.scripts, 'a' as u32) { "a" } else { "ж" };
    let mut ctx = vec![String::new(), ".".to_string(), w.to_string(), format!("{}.", w), format!(".{}", w), format!(".{}.", w)];
    ctx.push(format!("{}.{}", w, w));
    let ctx: Vec<&str> = ctx.iter().map(|s| s.as_str()).collect();
    warm(t, &ctx, &|s| { p.queue[0].filter(s); });
    p
}
pub fn case(p: &Pipeline, w: &[Ch]) {
    let s: String = w.iter().map(|x| x.c).collect();
    let r = p.queue[0].filter(s);
    let e = trim(w);
    observe_opt(&r);
    reach(match &e { None => 1, Some(e) => if e.chars().count() == w.len() { 2 } else { 3 } });
    check_opt(&r, &e, "the trimmer removes exactly the foreign characters at both ends");
}
/// Any character of some blocks, at the ends and inside.
pub fn char_case(l: &Lang, from: u64, n: u64, d: u64) {
    let p = warmed(l, &SHORT);
    let n = n.min(BLOCKS - from);
    let hi = nth_block(from + concrete(range(n)));
    let at = |i: u32| unsafe { char::from_u32_unchecked(hi * 256 + i) };
    let g = |c: char| Ch { c, word: in_ranges(l.scripts, c as u32) };
    let shape = |x: Ch| match d { 0 => vec![x], 1 => vec![g('.'), x, g('Ж'), x, g('.'), x, g('é'), x, g('한')], _ => vec![x, g('.'), g('a'), g('ж'), g('.'), x] };
    let mut t = [false; 256];
    for i in 0..256 {
        t[i] = in_ranges(l.scripts, hi * 256 + i as u32);
        p.queue[0].filter(shape(g(at(i as u32))).iter().map(|x| x.c).collect()); // fills the automaton's cache
    }
    let low = range(256);
    case(&p, &shape(Ch { c: at(low as u32), word: t[low as usize] }))
}
harnesses! {
    h_c06_mix |li, n, c, d| {
        let l = &LANGS[li as usize];
        let a = alpha(l, &MIX);
        let p = warmed(l, &MIX);
        let mut w = Vec::new();
        for _ in 0..n { w.push(a.any()) }
        case(&p, &w)
    }
    // line ends, blanks and control characters anywhere
    h_c06_ctl |li, n, c, d| {
        let l = &LANGS[li as usize];
        let a = alpha(l, &CTL);
        let p = warmed(l, &CTL);
        let mut w = Vec::new();
        for _ in 0..n { w.push(a.any()) }
        case(&p, &w)
    }
    h_c06_short |li, n, c, d| {
        let l = &LANGS[li as usize];
        let a = alpha(l, &SHORT);
        let p = warmed(l, &SHORT);
        let mut w = Vec::new();
        for _ in 0..n { w.push(a.any()) }
        case(&p, &w)
    }
    // every Unicode character at the ends and inside
    h_c06_char |li, from, n, d| { char_case(&LANGS[li as usize], from, n, d) }
    // long runs around arbitrary characters
    h_c06_long |li, n, c, d| {
        let l = &LANGS[li as usize];
        let a = alpha(l, &SHORT);
        let p = warmed(l, &SHORT);
        let g = |c: char| Ch { c, word: in_ranges(l.scripts, c as u32) };
        let mut w = Vec::new();
        for _ in 0..n { w.push(g('.')) }
        w.push(a.any());
        for _ in 0..n { w.push(g('é')); w.push(g('ж')) }
        w.push(a.any());
        for _ in 0..n { w.push(g('7')) }
        case(&p, &w)
    }
}
