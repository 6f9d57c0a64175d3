//! Arabic normalisation, against the bundled JavaScript (js/lunr.ar.js).
use crate::api::*;
use crate::util::*;
use elasticlunr::{lang, Pipeline};

const ALPHA: [char; 24] = ['\u{640}', '\u{64b}', '\u{64f}', '\u{65b}', '\u{622}', '\u{623}', '\u{625}', '\u{671}', '\u{649}', '\u{627}', '\u{621}', '\u{624}', '\u{626}', '\u{628}', '\u{63f}', '\u{641}', '\u{648}', '\u{64a}', '\u{65c}', '\u{670}', '\u{672}', 'a', '😀', '\u{6c1}'];
const SMALL: [char; 7] = ['\u{640}', '\u{65b}', '\u{622}', '\u{649}', '\u{627}', '\u{628}', 'a'];
fn dropped(c: char) -> bool { c == '\u{640}' || (c >= '\u{64b}' && c <= '\u{65b}') }
fn alef(c: char) -> bool { matches!(c, '\u{622}' | '\u{623}' | '\u{625}' | '\u{671}' | '\u{649}') }
fn reference(w: &[char], alefs: usize) -> Option<String> {
    let mut s = String::new();
    let mut k = 0;
    for &c in w { if dropped(c) { continue } if alef(c) && k < alefs { k += 1; s.push('\u{627}') } else { s.push(c) } }
    if s.is_empty() { None } else { Some(s) }
}
fn pipeline() -> Pipeline {
    let p = lang::from_code("ar").unwrap().make_pipeline();
    warm(&ALPHA, &["", "a", "\u{640}", "\u{622}", "\u{628}", "\u{64b}a", "😀"], &|s| { p.queue[0].filter(s); });
    p
}
fn case(p: &Pipeline, w: &[char]) {
    let s: String = w.iter().collect();
    let r = p.run(vec![s]);
    observe_all(&r);
    let e = reference(w, usize::MAX);
    reach(match &e { None => 1, Some(e) => if e.chars().count() == w.len() { 2 } else { 3 } });
    check(r.len() <= 1, "one token stays one token");
    let r = r.into_iter().next();
    let same = |e: &Option<String>| match (&r, e) { (None, None) => true, (Some(a), Some(b)) => a == b, _ => false };
    if same(&e) { return }
    // known finding ar-alef: only the first alef variant of a token is replaced (tests/data/ar.out.txt pins it)
    if w.iter().filter(|&&c| alef(c)).count() >= 2 && same(&reference(w, 1)) { reach(900); return }
    check(false, "every diacritic is removed and every alef variant replaced");
}
harnesses! {
    h_c09_word |n, b, c, d| {
        let p = pipeline();
        let mut w = Vec::new();
        for _ in 0..n { w.push(one_of(&ALPHA)) }
        case(&p, &w)
    }
    h_c09_small |n, b, c, d| {
        let p = pipeline();
        let mut w = Vec::new();
        for _ in 0..n { w.push(one_of(&SMALL)) }
        case(&p, &w)
    }
    h_c09_char |from, n, c, d| {
        let p = pipeline();
        let x = any_char(from, n);
        match concrete(range(3)) { 0 => case(&p, &[x]), 1 => case(&p, &['\u{628}', x, '\u{640}', x]), _ => case(&p, &[x, '\u{649}', '\u{64b}', '\u{64b}']) }
    }
    h_c09_long |n, b, c, d| {
        let p = pipeline();
        let mut w = Vec::new();
        for _ in 0..n { w.push('\u{628}'); w.push('\u{650}') }
        w.push(one_of(&ALPHA));
        for _ in 0..n { w.push('\u{640}') }
        w.push(one_of(&ALPHA));
        case(&p, &w)
    }
}
