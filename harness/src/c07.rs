//! Stop-word stages of the languages with a list.
use crate::api::*;
use crate::langs::*;
use crate::util::*;
use elasticlunr::{lang, Pipeline};

fn pipeline(l: &Lang) -> Pipeline { lang::from_code(l.code).unwrap().make_pipeline() }
fn case(p: &Pipeline, l: &Lang, s: String) {
    let stop = l.stop.iter().any(|w| *w == s);
    let r = p.queue[1].filter(s.clone());
    observe_opt(&r);
    reach(if stop { 1 } else { 2 });
    check_opt(&r, &if stop { None } else { Some(s) }, "exactly the words of the list are dropped, others are unchanged");
}
/// The letters of the list, by number of UTF-8 bytes, each with a few that do not occur in it.
fn letters(l: &Lang, width: usize) -> Vec<char> {
    let mut v: Vec<char> = Vec::new();
    let extra: &[char] = match width { 1 => &['A', '-', '\'', '1', ' '], 2 => &['É', 'ÿ', 'Я', 'ŋ'], 3 => &['가', 'ẞ', '\u{2019}'], _ => &['😀'] };
    for w in l.stop { for c in w.chars() { if c.len_utf8() == width && !v.contains(&c) && v.len() < 250 { v.push(c) } } }
    for &c in extra { if !v.contains(&c) { v.push(c) } }
    v
}
harnesses! {
    // words of n characters; at most two of them (at any positions) have more than one byte
    h_c07_word |li, n, two, d| {
        let l = &LANGS[li as usize];
        let p = pipeline(l);
        let (a1, a2) = (letters(l, 1), letters(l, if l.code == "ko" { 3 } else { 2 }));
        let base = l.code == "ru" || l.code == "ko"; // mostly multi-byte: the exceptions are the ASCII letters
        let (i, j) = if two == 0 { (n, n) } else if two == 1 { (between(0, n - 1), n) } else { let i = between(0, n - 2); (i, between(i + 1, n - 1)) };
        let mut s = String::new();
        for k in 0..n { s.push(one_of(if (k == i || k == j) != base { &a2 } else { &a1 })) }
        case(&p, l, s)
    }
    // every word of the list with one character replaced, inserted or removed
    h_c07_near |li, from, n, d| {
        let l = &LANGS[li as usize];
        let p = pipeline(l);
        let letters = letters(l, if d == 0 { 1 } else { d as usize });
        let n = n.min(l.stop.len() as u64 - from);
        let cs: Vec<char> = l.stop[(from + concrete(range(n))) as usize].chars().collect();
        let at = between(0, cs.len() as u64) as usize;
        let kind = concrete(range(3));
        let x = one_of(&letters);
        let mut s = String::new();
        for (i, &c) in cs.iter().enumerate() {
            if i == at { match kind { 0 => s.push(x), 1 => { s.push(x); s.push(c) } _ => {} } } else { s.push(c) }
        }
        if at == cs.len() { s.push(x) }
        case(&p, l, s)
    }
    // every word itself, and doubled, and with arbitrary characters on both sides
    h_c07_list |li, from, n, d| {
        let l = &LANGS[li as usize];
        let p = pipeline(l);
        let n = n.min(l.stop.len() as u64 - from);
        let w = l.stop[(from + concrete(range(n))) as usize];
        let mut s = String::new();
        match concrete(range(4)) {
            0 => s.push_str(w),
            1 => { s.push_str(w); s.push_str(w) }
            2 => { s.push(char::from(range(128) as u8)); s.push_str(w) }
            _ => { s.push_str(w); s.push(char::from(range(128) as u8)) }
        }
        case(&p, l, s)
    }
}
