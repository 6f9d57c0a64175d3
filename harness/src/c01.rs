//! English stemming against a transliteration of the elasticlunr.js 0.9.5 stemmer (see `js`).
use crate::api::*;
use crate::tables::*;
use crate::util::*;
use elasticlunr::{lang, Language, Pipeline};

/// The stemmer of elasticlunr.js 0.9.5 for ASCII, rule by rule.
pub mod js {
    const S0: u8 = 1; const C1: u8 = 2; const V1: u8 = 4; const C2: u8 = 8; const V2: u8 = 16; const C3: u8 = 32;
    /// 0: a, e, i, o or u; 1: y; 2: any other character (including the capital Y that marks an initial y).
    #[inline(always)]
    pub fn class(c: u8) -> u8 { match c { b'a' | b'e' | b'i' | b'o' | b'u' => 0, b'y' => 1, _ => 2 } }
    /// Runs the automaton of `^(C)?VCVC` with C = [^aeiou][^aeiouy]* and V = [aeiouy][aeiou]*; returns the
    /// set of states after the whole string, and whether `^(C)?v`, `^(C)?VC`, `^(C)?VCVC` matched a prefix.
    fn run(w: &[u8]) -> (u8, bool, bool, bool) {
        let (mut s, mut v, mut m0, mut m1) = (S0, false, false, false);
        for &c in w {
            let k = class(c);
            let mut n = 0;
            if s & S0 != 0 { n |= match k { 0 => V1, 1 => C1 | V1, _ => C1 } }
            if s & C1 != 0 { n |= match k { 2 => C1, _ => V1 } }
            if s & V1 != 0 { n |= match k { 0 => V1, _ => C2 } }
            if s & C2 != 0 { n |= match k { 2 => C2, _ => V2 } }
            if s & V2 != 0 { n |= match k { 0 => V2, _ => C3 } }
            s = n;
            if s & V1 != 0 { v = true }
            if s & C2 != 0 { m0 = true }
            if s & C3 != 0 { m1 = true }
        }
        (s, v, m0, m1)
    }
    fn has_v(w: &[u8]) -> bool { run(w).1 }
    fn mgr0(w: &[u8]) -> bool { run(w).2 }
    fn mgr1(w: &[u8]) -> bool { run(w).3 }
    fn meq1(w: &[u8]) -> bool { run(w).0 & (C2 | V2) != 0 }
    /// `^C[aeiouy][^aeiouwxy]$`
    fn cvc(w: &[u8]) -> bool {
        let n = w.len();
        if n < 3 { return false }
        if class(w[n - 1]) != 2 || w[n - 1] == b'w' || w[n - 1] == b'x' { return false }
        if class(w[n - 2]) == 2 { return false }
        if class(w[0]) == 0 { return false }
        for &c in &w[1..n - 2] { if class(c) != 2 { return false } }
        true
    }
    /// Does `w` end in `s` with at least one character in front?
    fn ends(w: &[u8], s: &[u8]) -> bool { w.len() > s.len() && &w[w.len() - s.len()..] == s }
    const STEP2: &[(&str, &str)] = &[("ational", "ate"), ("ization", "ize"), ("iveness", "ive"), ("fulness", "ful"), ("ousness", "ous"), ("tional", "tion"), ("biliti", "ble"), ("entli", "ent"), ("ousli", "ous"), ("ation", "ate"), ("alism", "al"), ("aliti", "al"), ("iviti", "ive"), ("enci", "ence"), ("anci", "ance"), ("izer", "ize"), ("alli", "al"), ("ator", "ate"), ("logi", "log"), ("bli", "ble"), ("eli", "e")];
    const STEP3: &[(&str, &str)] = &[("icate", "ic"), ("ative", ""), ("alize", "al"), ("iciti", "ic"), ("ical", "ic"), ("ness", ""), ("ful", "")];
    const STEP4: &[&str] = &["ement", "ance", "ence", "able", "ible", "ment", "ant", "ent", "ism", "ate", "iti", "ous", "ive", "ize", "al", "er", "ic", "ou"];
    pub fn stem(word: &[u8]) -> Vec<u8> {
        let mut w = word.to_vec();
        if w.len() < 3 { return w }
        let y = w[0] == b'y';
        if y { w[0] = b'Y' }
        // 1a
        let n = w.len();
        if ends(&w, b"sses") || ends(&w, b"ies") { w.truncate(n - 2) }
        else if w[n - 1] == b's' && w[n - 2] != b's' { w.truncate(n - 1) }
        // 1b
        let n = w.len();
        if ends(&w, b"eed") { if mgr0(&w[..n - 3]) { w.truncate(n - 1) } }
        else {
            let cut = if ends(&w, b"ed") { 2 } else if ends(&w, b"ing") { 3 } else { 0 };
            if cut > 0 && has_v(&w[..n - cut]) {
                w.truncate(n - cut);
                let n = w.len();
                let e2 = |s: &[u8; 2]| n >= 2 && w[n - 2] == s[0] && w[n - 1] == s[1];
                if e2(b"at") || e2(b"bl") || e2(b"iz") { w.push(b'e') }
                else if n >= 2 && w[n - 1] == w[n - 2] && class(w[n - 1]) == 2 && !matches!(w[n - 1], b'l' | b's' | b'z') { w.truncate(n - 1) }
                else if cvc(&w) { w.push(b'e') }
            }
        }
        // 1c
        let n = w.len();
        if n >= 3 && w[n - 1] == b'y' && class(w[n - 2]) != 0 { w[n - 1] = b'i' }
        // 2, 3
        for list in [STEP2, STEP3] {
            for (s, r) in list {
                if ends(&w, s.as_bytes()) {
                    let k = w.len() - s.len();
                    if mgr0(&w[..k]) { w.truncate(k); w.extend_from_slice(r.as_bytes()) }
                    break;
                }
            }
        }
        // 4
        let mut hit = false;
        for s in STEP4 {
            if ends(&w, s.as_bytes()) {
                hit = true;
                let k = w.len() - s.len();
                if mgr1(&w[..k]) { w.truncate(k) }
                break;
            }
        }
        if !hit && (ends(&w, b"sion") || ends(&w, b"tion")) {
            let k = w.len() - 3;
            if mgr1(&w[..k]) { w.truncate(k) }
        }
        // 5
        let n = w.len();
        if n >= 2 && w[n - 1] == b'e' {
            let s = &w[..n - 1];
            if mgr1(s) || (meq1(s) && !cvc(s)) { w.truncate(n - 1) }
        }
        let n = w.len();
        if n >= 2 && w[n - 1] == b'l' && w[n - 2] == b'l' && mgr1(&w) { w.truncate(n - 1) }
        if y { w[0] = b'y' }
        w
    }
}
/// Every suffix the stemmer's rules mention, with the inflections they hide behind.
pub const SUFFIXES: &[&str] = &["", "s", "es", "ss", "sses", "ies", "eed", "eeds", "ed", "ing", "eds", "ings", "y", "ly", "e", "l", "ll",
    "ational", "tional", "enci", "anci", "izer", "bli", "alli", "entli", "eli", "ousli", "ization", "ation", "ator", "alism", "iveness", "fulness", "ousness", "aliti", "iviti", "biliti", "logi",
    "icate", "ative", "alize", "iciti", "ical", "ful", "ness",
    "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ou", "ism", "ate", "iti", "ous", "ive", "ize", "sion", "tion", "ion",
    "at", "bl", "iz", "ble", "enc", "anc", "ali", "i", "yy", "yed", "aed", "bb", "zz"];

fn stage() -> Pipeline { lang::English::new().make_pipeline() }
fn compare(p: &Pipeline, w: String) {
    let r = p.queue[2].filter(w.clone());
    let e = js::stem(w.as_bytes());
    observe_opt(&r);
    reach(if e.len() == w.len() { 1 } else { 2 });
    match r { Some(r) => check(r.as_bytes() == &e[..], "the stem is the one elasticlunr.js returns"), None => check(false, "the stemming stage keeps the token") }
    if w.len() < 3 { check(e.len() == w.len(), "short tokens are unchanged") }
}
harnesses! {
    // every word of exactly n characters
    h_c01_word |n, b, c, d| { let p = stage(); compare(&p, word(&PRINT_LOWER, n)) }
    // the same, split by the last character: the k-th letter, or none
    h_c01_end |n, k, c, d| { let p = stage();
        let mut w = word(&PRINT_LOWER, n - 1);
        if k < 26 { w.push((b'a' + k as u8) as char) } else { let x = one_of(&PRINT_LOWER); assume(!(x >= 'a' && x <= 'z')); w.push(x) }
        compare(&p, w)
    }
    // n arbitrary characters, then suffix a, then any suffix
    h_c01_suffix |n, a, c, d| { let p = stage();
        let mut w = word(&PRINT_LOWER, n);
        w.push_str(SUFFIXES[a as usize]);
        let k = concrete(range(SUFFIXES.len() as u64));
        w.push_str(SUFFIXES[k as usize]);
        compare(&p, w)
    }
    // n arbitrary characters and one suffix
    h_c01_one_suffix |n, a, c, d| { let p = stage();
        let mut w = word(&PRINT_LOWER, n);
        w.push_str(SUFFIXES[a as usize]);
        compare(&p, w)
    }
    // long words: a repeated letter pattern, arbitrary characters at both ends, one suffix
    h_c01_long |len, pat, a, n| { let p = stage();
        let pats = ["b", "a", "y", "ba", "ab", "by", "ya", "bab", "e", "l"];
        let mut w = word(&PRINT_LOWER, n / 2);
        while (w.len() as u64) < len { w.push_str(pats[pat as usize]) }
        w.push_str(&word(&PRINT_LOWER, n - n / 2));
        w.push_str(SUFFIXES[a as usize]);
        compare(&p, w)
    }
}
