//! Stages and pipelines of the languages have no memory.
use crate::api::*;
use crate::c12::CODES;
use crate::util::*;
use elasticlunr::{lang, Pipeline};

fn alpha(li: u64) -> &'static [char] {
    match CODES[li as usize] { "ru" => &['ы', 'а', 'е', '.', 's'], "ar" => &['\u{622}', '\u{628}', '\u{650}', 'a'], "ko" => &['한', '글', 'a', '.'], "zh" | "ja" => &['的', '了', 'あ', 'a', '.'], _ => &['e', 's', 'd', 'é', '.', 'n', 't', 'a', 'i'] }
}
fn make(li: u64) -> Pipeline { lang::from_code(CODES[li as usize]).unwrap().make_pipeline() }
/// Lets the regular expressions' lazily built automata see the alphabet, which leaves results alone but saves paths.
fn warmed(li: u64) -> Pipeline { let p = make(li); warm(alpha(li), &["", "e", ".", "ы", "한"], &|s| { p.run(vec![s]); }); p }
fn one(p: &Pipeline, t: &str) -> Vec<String> { p.run(vec![t.to_string()]) }
const MSG: &str = "what a pipeline does to a token does not depend on the tokens before or after it";
harnesses! {
    // two tokens together and apart, and the first once more
    h_c21_two |li, n, m, d| {
        let (p, q) = (warmed(li), warmed(li));
        let (a, b) = (word(alpha(li), n), word(alpha(li), m));
        let mut want = one(&q, &a);
        let again = want.clone();
        want.extend(one(&q, &b));
        want.extend(again);
        let got = p.run(vec![a.clone(), b.clone(), a.clone()]);
        observe_all(&got);
        reach(got.len().min(3) as u32);
        check_list(&got, &want, MSG);
        check_list(&p.run(vec![b, a.clone()]), &want[one(&q, &a).len()..], MSG);
    }
    // one token after a long history
    h_c21_history |li, n, k, d| {
        let (p, q) = (warmed(li), warmed(li));
        let words = ["words", "running", "слова", "한글", "\u{628}\u{622}", "the", "die", "É", "", "1984", "hopping", "ying", "es", "sé", "éd"];
        for i in 0..k { let mut t = words[i as usize % words.len()].to_string(); if i % 4 == 3 { t.push_str(words[(i as usize / 4) % words.len()]) } p.run(vec![t]); }
        let a = word(alpha(li), n);
        reach(4);
        let (x, y) = (one(&p, &a), one(&q, &a));
        observe_all(&x);
        check_list(&x, &y, MSG);
    }
    // the same token again and again, then any
    h_c21_long |li, n, k, d| {
        let (p, q) = (warmed(li), warmed(li));
        let t = ["(s)", "(ы)", "(\u{628})", "(한)"][match CODES[li as usize] { "ru" => 1, "ar" => 2, "ko" => 3, _ => 0 }];
        let want = one(&p, t);
        for _ in 0..k { if one(&p, t) != want { check(false, MSG) } }
        let a = word(alpha(li), n);
        reach(6);
        check_list(&one(&p, &a), &one(&q, &a), MSG);
    }
    // a pipeline without any history at all
    h_c21_fresh |li, n, k, d| {
        let q = warmed(li);
        let a = word(alpha(li), n);
        let x = one(&make(li), &a);
        reach(5);
        check_list(&x, &one(&q, &a), MSG);
    }
}
