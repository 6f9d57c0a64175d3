//! Looking languages up.
use crate::api::*;
use crate::c12::{strings, CODES};
use crate::c13::{stage_names, NAMES};
use crate::util::*;
use elasticlunr::{lang, Language};

fn is(l: &dyn Language, i: usize) {
    check(l.code() == CODES[i], "the language has the code asked for");
    check(l.name() == NAMES[i], "the language has the name asked for");
    let p = l.make_pipeline();
    let names: Vec<String> = p.queue.iter().map(|s| s.name()).collect();
    check_list(&names, &stage_names(CODES[i]), "the pipeline is the language's own");
}
/// What the pipelines do to a few words tells the languages apart.
const SAMPLE: [&str; 10] = ["running", "die", "niederländischen", "книгами", "\u{622}\u{650}ب", "한글", "étaient", "ein", "的", "あ了"];
#[cfg(feature = "cjk")]
fn cjk(code: &str, toks: &[String]) -> Option<Vec<String>> { match code { "zh" => Some(lang::Chinese::new().make_pipeline().run(toks.to_vec())), "ja" => Some(lang::Japanese::new().make_pipeline().run(toks.to_vec())), _ => None } }
#[cfg(not(feature = "cjk"))]
fn cjk(_: &str, _: &[String]) -> Option<Vec<String>> { None }
fn own(l: &dyn Language, i: usize) {
    let p = l.make_pipeline();
    let toks = strings(&SAMPLE);
    let want = match CODES[i] {
        "en" => lang::English::new().make_pipeline().run(toks.clone()), "ar" => lang::Arabic::new().make_pipeline().run(toks.clone()), "da" => lang::Danish::new().make_pipeline().run(toks.clone()),
        "du" => lang::Dutch::new().make_pipeline().run(toks.clone()), "fi" => lang::Finnish::new().make_pipeline().run(toks.clone()), "fr" => lang::French::new().make_pipeline().run(toks.clone()),
        "de" => lang::German::new().make_pipeline().run(toks.clone()), "hu" => lang::Hungarian::new().make_pipeline().run(toks.clone()), "it" => lang::Italian::new().make_pipeline().run(toks.clone()),
        "ko" => lang::Korean::new().make_pipeline().run(toks.clone()), "no" => lang::Norwegian::new().make_pipeline().run(toks.clone()), "pt" => lang::Portuguese::new().make_pipeline().run(toks.clone()),
        "ro" => lang::Romanian::new().make_pipeline().run(toks.clone()), "ru" => lang::Russian::new().make_pipeline().run(toks.clone()), "es" => lang::Spanish::new().make_pipeline().run(toks.clone()),
        "sv" => lang::Swedish::new().make_pipeline().run(toks.clone()), "tr" => lang::Turkish::new().make_pipeline().run(toks.clone()), c => cjk(c, &toks).unwrap(),
    };
    check_list(&p.run(toks), &want, "the pipeline is the language's own");
}
fn by_code(s: &str) {
    let l = s.to_ascii_lowercase();
    match (lang::from_code(s), CODES.iter().position(|c| *c == l)) {
        (None, None) => reach(1),
        (Some(l), Some(i)) => { reach(2); is(&*l, i) }
        _ => check(false, "a string is a language's code, in any ASCII case, exactly if it is found"),
    }
}
fn by_name(s: &str) {
    match (lang::from_name(s), NAMES[..CODES.len()].iter().position(|c| *c == s)) {
        (None, None) => reach(3),
        (Some(l), Some(i)) => { reach(4); is(&*l, i) }
        _ => check(false, "a string is a language's name exactly if it is found"),
    }
}
/// Codes and names of languages that are not enabled here.
fn foreign(s: &str) -> bool { CODES.len() < 19 && (["zh", "ja"].contains(&s.to_ascii_lowercase().as_str()) || s == "Chinese" || s == "Japanese") }
fn ascii(n: u64) -> String { let mut s = String::new(); for _ in 0..n { s.push(range(128) as u8 as char) } s }
harnesses! {
    h_c17_code |n, b, c, d| { let s = ascii(n); by_code(&s) }
    h_c17_name |n, b, c, d| { let s = ascii(n); by_name(&s) }
    // any character anywhere in or around a code or a name
    h_c17_near |li, from, n, d| {
        let x = any_char(from, n);
        let base = if d == 0 { CODES[li as usize] } else { NAMES[li as usize] };
        let cs: Vec<char> = base.chars().collect();
        let at = between(0, cs.len() as u64) as usize;
        let kind = concrete(range(3));
        let mut s = String::new();
        for (i, &c) in cs.iter().enumerate() { if i == at { match kind { 0 => s.push(x), 1 => { s.push(x); s.push(c) } _ => {} } } else { s.push(c) } }
        if at == cs.len() { s.push(x) }
        if foreign(&s) { return }
        if d == 0 { by_code(&s) } else { by_name(&s) }
    }
    // every letter case of a code and of a name
    h_c17_case |li, b, c, d| {
        let case = |w: &str| -> String { w.chars().map(|c| if flag() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
        let s = case(CODES[li as usize]);
        check(lang::from_code(&s).is_some(), "a code is found in any letter case");
        by_code(&s);
        let s = case(NAMES[li as usize]);
        by_name(&s);
        if let Some(l) = lang::from_code(CODES[li as usize]) { own(&*l, li as usize); by_name(&l.name()); by_code(&l.code()) } else { check(false, "the language's own code finds it") }
        if let Some(l) = lang::from_name(NAMES[li as usize]) { own(&*l, li as usize) } else { check(false, "the language's own name finds it") }
    }
    // the list of languages
    h_c17_list |a, b, c, d| {
        let ls = lang::languages();
        check(ls.len() == CODES.len(), "every enabled language is in the list once");
        for i in 0..CODES.len() { check(ls.iter().filter(|l| l.code() == CODES[i] && l.name() == NAMES[i]).count() == 1, "every enabled language is in the list once") }
        let k = pick(ls.len());
        let k = concrete(k as u64) as usize;
        if let Some(i) = CODES.iter().position(|c| *c == ls[k].code()) { is(&*ls[k], i); own(&*ls[k], i) }
        reach(5);
    }
}
