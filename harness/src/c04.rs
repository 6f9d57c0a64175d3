//! The default tokenizer.
use crate::api::*;
use crate::util::*;
use elasticlunr::lang;

/// Unicode White_Space.
pub fn white(c: char) -> bool { matches!(c, '\u{9}'..='\u{d}' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}') }
pub fn reference(t: &[char]) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = String::new();
    for &c in t {
        if c == '-' || white(c) { if !cur.is_empty() { out.push(cur.to_lowercase()); cur = String::new() } }
        else { cur.push(c) }
    }
    if !cur.is_empty() { out.push(cur.to_lowercase()) }
    out
}
fn case(t: &[char]) {
    let s: String = t.iter().collect();
    let r = lang::tokenize_whitespace(&s);
    let e = reference(t);
    observe_all(&r);
    reach(e.len().min(4) as u32);
    check_list(&r, &e, "the tokens are the lower-cased runs between whitespace and hyphens");
}
/// Separators of every kind, near misses, and characters whose lower case has another length or depends on context.
const MIX: [char; 30] = ['a', 'b', 'A', 'Z', '-', ' ', '\t', '\n', '\u{b}', '\u{1c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{180e}', '\u{2003}', '\u{200b}', '\u{2028}', '\u{202f}', '\u{2060}', '\u{3000}', '\u{feff}',
    '\u{2010}', '\u{2212}', '_', 'Σ', 'İ', 'É', 'ẞ', '😀', '\u{10400}'];
const SMALL: [char; 9] = ['a', 'B', '-', ' ', '\u{a0}', '\u{3000}', 'Σ', 'İ', '😀'];
const LANGS: &[&str] = &["en", "ar", "da", "du", "fi", "fr", "de", "hu", "it", "ko", "no", "pt", "ro", "ru", "es", "sv", "tr"];
harnesses! {
    // every text of n characters of the alphabet
    h_c04_text |n, b, c, d| {
        let mut t = Vec::new();
        for _ in 0..n { t.push(one_of(&MIX)) }
        case(&t)
    }
    h_c04_text_small |n, b, c, d| {
        let mut t = Vec::new();
        for _ in 0..n { t.push(one_of(&SMALL)) }
        case(&t)
    }
    // every Unicode character alone, inside a word, next to separators and next to a final sigma
    h_c04_char |from, n, c, d| {
        let x = any_char(from, n);
        match concrete(range(6)) { 0 => case(&[x]), 1 => case(&['a', x, 'B']), 2 => case(&[' ', x, '-', 'C']), 3 => case(&[x, x, ' ', x]), 4 => case(&['a', x, 'Σ']), _ => case(&['a', 'Σ', x]) }
    }
    // long texts: many separators or many words around arbitrary characters
    h_c04_long |n, b, c, d| {
        let mut t = Vec::new();
        let k = concrete(range(4));
        for i in 0..n {
            match k { 0 => t.push(' '), 1 => t.push('Q'), 2 => { t.push('w'); t.push('-') } _ => { t.push('é'); t.push('\u{3000}') } }
            if i == n / 2 { t.push(one_of(&MIX)) }
        }
        t.push(one_of(&MIX));
        case(&t)
    }
    // n equal words or separators before an arbitrary end: nothing is lost
    h_c04_huge |n, b, c, d| {
        let unit = ["q ", "-", "Q-\u{3000}"][concrete(range(3)) as usize];
        let mut s = String::new();
        for _ in 0..n { s.push_str(unit) }
        let x = one_of(&MIX);
        s.push(x);
        s.push('z');
        let r = lang::tokenize_whitespace(&s);
        let e = reference(&[x, 'z']);
        let k = if unit == "-" { 0 } else { n as usize };
        check(r.len() == k + e.len(), "every word of a long text is a token");
        if r.len() == k + e.len() {
            check_list(&r[k..], &e, "the tokens are the lower-cased runs between whitespace and hyphens");
            if k > 0 { check(r[0] == "q" && r[k / 2] == "q" && r[k - 1] == "q", "the tokens are the lower-cased runs between whitespace and hyphens") }
        }
    }
    // the tokenizer of every language that uses the default one
    h_c04_lang |n, from, cnt, d| {
        let l = lang::from_code(LANGS[(from + concrete(range(cnt))) as usize]).unwrap();
        let mut t = Vec::new();
        for _ in 0..n { t.push(one_of(&MIX)) }
        let s: String = t.iter().collect();
        let r = l.tokenize(&s);
        observe_all(&r);
        reach(5);
        check_list(&r, &reference(&t), "the language splits text like the default tokenizer");
    }
    h_c04_lang_char |code, from, n, d| {
        let l = lang::from_code(LANGS[code as usize]).unwrap();
        let x = any_char(from, n);
        let t = ['a', x, 'B', ' ', x, 'c'];
        let s: String = t.iter().collect();
        let r = l.tokenize(&s);
        observe_all(&r);
        check_list(&r, &reference(&t), "the language splits text like the default tokenizer");
    }
}
