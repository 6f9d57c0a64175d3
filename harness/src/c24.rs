//! The building blocks for languages, with arbitrary word lists, names and character classes.
use crate::api::*;
use crate::util::*;
use elasticlunr::lang::common::{RegexTrimmer, RustStemmer, StopWordFilter};
use elasticlunr::lang::{self, Language};
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{Index, Pipeline};
use rust_stemmers::{Algorithm, Stemmer};

const LETTERS: [char; 8] = ['a', 'A', 'é', 'É', ' ', '-', '\0', '中'];
const ALPHA: [char; 20] = ['a', 'b', 'z', 'A', '0', '9', '-', ' ', 'é', 'ü', 'ý', ']', '[', '^', '\\', '.', '\n', '😀', 'д', '\u{3000}'];
const FEW: [char; 8] = ['a', 'b', '0', '-', 'é', ' ', '😀', 'д'];
const NAMES: [&str; 6] = ["", "trimmer", "stopWordFilter-xx", " x ", "é\"\\", "a\0b"];
/// Character classes as they are written in a trimmer, and what they mean.
const CLASSES: [(&str, fn(char) -> bool); 12] = [
    ("a-z", |c| c.is_ascii_lowercase()),
    ("A-Za-z0-9", |c| c.is_ascii_alphanumeric()),
    (r"\s\-", |c| c == '-' || crate::c04::white(c)),
    ("é-ü", |c| ('é'..='ü').contains(&c)),
    (r"\]\[\\\^", |c| matches!(c, ']' | '[' | '\\' | '^')),
    (r"\x{1F600}-\x{1F64F}", |c| ('\u{1F600}'..='\u{1F64F}').contains(&c)),
    (".", |c| c == '.'),
    ("ab", |c| c == 'a' || c == 'b'),
    (r"\n ", |c| c == '\n' || c == ' '),
    (r"а-я0-9", |c| ('а'..='я').contains(&c) || c.is_ascii_digit()),
    (r"[:digit:]", |c| c.is_ascii_digit()),
    (r"\x00-\x7f", |c| c.is_ascii()),
];
const ALGORITHMS: [Algorithm; 18] = [Algorithm::Arabic, Algorithm::Danish, Algorithm::Dutch, Algorithm::English, Algorithm::Finnish, Algorithm::French, Algorithm::German, Algorithm::Greek, Algorithm::Hungarian, Algorithm::Italian,
    Algorithm::Norwegian, Algorithm::Portuguese, Algorithm::Romanian, Algorithm::Russian, Algorithm::Spanish, Algorithm::Swedish, Algorithm::Tamil, Algorithm::Turkish];
fn trimmed(w: &[(char, bool)]) -> Option<String> {
    let (mut a, mut b) = (0, w.len());
    while a < b && !w[a].1 { a += 1 }
    while b > a && !w[b - 1].1 { b -= 1 }
    if a == b { None } else { Some(w[a..b].iter().map(|x| x.0).collect()) }
}
fn trimmer(class: u64, t: &[char]) -> RegexTrimmer {
    let r = RegexTrimmer::new("t", CLASSES[class as usize].0);
    let inside: Vec<char> = ALPHA.iter().copied().filter(|&c| CLASSES[class as usize].1(c)).collect();
    let w = if inside.is_empty() { 'a' } else { inside[0] };
    let o = ALPHA.iter().copied().find(|&c| !CLASSES[class as usize].1(c)).unwrap_or('a');
    let ctx = [vec![], vec![o], vec![w], vec![w, o], vec![o, w], vec![o, w, o], vec![w, o, w]];
    let ctx: Vec<String> = ctx.iter().map(|v| v.iter().collect()).collect();
    let ctx: Vec<&str> = ctx.iter().map(|s| s.as_str()).collect();
    warm(t, &ctx, &|s| { r.filter(s); });
    r
}
fn trim_case(class: u64, t: &[char], n: u64) {
    let r = trimmer(class, t);
    let inside: Vec<bool> = t.iter().map(|&c| CLASSES[class as usize].1(c)).collect();
    let mut w = Vec::new();
    for _ in 0..n { let i = pick(t.len()); w.push((t[i], inside[i])) }
    let got = r.filter(w.iter().map(|x| x.0).collect());
    let want = trimmed(&w);
    observe_opt(&got);
    reach(if want.is_some() { 3 } else { 4 });
    check_opt(&got, &want, "a trimmer removes exactly the characters outside its class at both ends");
}
/// A language put together from the building blocks.
struct Own { words: Vec<String>, stem: usize }
impl Language for Own {
    fn name(&self) -> String { "Own".into() }
    fn code(&self) -> String { "ow".into() }
    fn tokenize(&self, text: &str) -> Vec<String> { lang::tokenize_whitespace(text) }
    fn make_pipeline(&self) -> Pipeline {
        let w: Vec<&str> = self.words.iter().map(|s| s.as_str()).collect();
        Pipeline { queue: vec![Box::new(RegexTrimmer::new("t", "a-z")), Box::new(StopWordFilter::new("s", &w)), Box::new(RustStemmer::new("st", ALGORITHMS[self.stem]))] }
    }
}
fn add(t: String) -> Option<String> {
    match t.as_str() { "a" => Some(String::new()), "0" => None, "aé" => Some(" é".into()), "é" => Some("Ä.".into()), "a0" => Some("\0".into()), _ => if t.ends_with('0') { None } else if t.ends_with('a') { Some(t) } else { Some(t + "x") } }
}
harnesses! {
    // a list of k words of up to n characters, a token of m
    h_c24_stop |k, n, m, d| {
        let mut words = Vec::new();
        for _ in 0..k { let n = between(0, n); words.push(word(&LETTERS, n)) }
        let t = word(&LETTERS, m);
        let w: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
        let f = StopWordFilter::new("s", &w);
        let r = f.filter(t.clone());
        observe_opt(&r);
        let drop = words.iter().any(|x| *x == t);
        reach(if drop { 1 } else { 2 });
        check_opt(&r, &if drop { None } else { Some(t.clone()) }, "a stop-word filter drops exactly the words of its list");
        check_opt(&f.clone().filter(t), &r, "a clone behaves alike");
    }
    // any character in the list and in the token
    h_c24_stopchar |from, n, c, d| {
        let x = any_char(from, n);
        let words: Vec<String> = vec![vec![x], vec!['a', x], vec![x, 'b']].into_iter().map(|v| v.into_iter().collect()).collect();
        let w: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
        let f = StopWordFilter::new("s", &w);
        for s in &words { check_opt(&f.filter(s.clone()), &None, "a stop-word filter drops exactly the words of its list") }
        for v in [vec![x, ' '], vec!['\u{feff}', x], vec!['b', x, 'b'], vec!['A', x], vec![x, 'B'], vec![x, x, x]] {
            let s: String = v.into_iter().collect();
            let drop = words.iter().any(|y| *y == s);
            check_opt(&f.filter(s.clone()), &if drop { None } else { Some(s) }, "a stop-word filter drops exactly the words of its list");
        }
    }
    // many words
    h_c24_stopmany |n, c, d, e| {
        let words: Vec<String> = (0..n).map(|i| format!("w{}", i * 7919 % 65521)).collect();
        let w: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
        let f = StopWordFilter::new("s", &w);
        let k = [0, 1, n / 2, n - 1][concrete(range(4)) as usize] as usize;
        check_opt(&f.filter(words[k].clone()), &None, "a stop-word filter drops exactly the words of its list");
        let mut t = words[k].clone();
        t.push(one_of(&['x', ' ', 'W', 'é']));
        check_opt(&f.filter(t.clone()), &Some(t), "a stop-word filter drops exactly the words of its list");
    }
    h_c24_trim |class, n, c, d| { trim_case(class, &ALPHA, n) }
    h_c24_trimshort |class, n, c, d| { trim_case(class, &FEW, n) }
    h_c24_trimlong |class, n, c, d| {
        let r = trimmer(class, &ALPHA);
        let inside: Vec<bool> = ALPHA.iter().map(|&c| CLASSES[class as usize].1(c)).collect();
        let i = concrete(range(20)) as usize;
        let mut w = vec![(ALPHA[i], inside[i]); n as usize];
        let j = pick(20);
        w.push((ALPHA[j], inside[j]));
        for _ in 0..n { w.push((ALPHA[i], inside[i])) }
        let got = r.filter(w.iter().map(|x| x.0).collect());
        observe_opt(&got);
        check_opt(&got, &trimmed(&w), "a trimmer removes exactly the characters outside its class at both ends");
    }
    // every algorithm of rust-stemmers
    h_c24_stem |i, n, c, d| {
        let i = i as usize;
        let f = RustStemmer::new("s", ALGORITHMS[i]);
        let a: &[char] = match i { 0 => &['ا', 'ل', 'ك', 'ت', 'ة', 'و', 'َ', 'a'], 7 => &['α', 'σ', 'ς', 'ε', 'ι', 'ο', 'Σ', 'a'], 13 => &['а', 'и', 'т', 'ь', 'с', 'ё', 'А', 'a'], 16 => &['க', 'ள', '்', 'ா', 'ு', 'ம', 'ன', 'a'], _ => &['a', 'e', 's', 'i', 'n', 'g', 'E', 'é'] };
        let s = word(a, n);
        let want = Stemmer::create(ALGORITHMS[i]).stem(&s).to_string();
        let r = f.filter(s);
        observe_opt(&r);
        reach(5);
        check_opt(&r, &if want.is_empty() { None } else { Some(want) }, "a stemmer returns the stem of its algorithm, and drops empty ones");
    }
    // stages carry the names they are given
    h_c24_names |c, d, e, f| {
        for n in NAMES {
            check(StopWordFilter::new(n, &["a"]).name() == n, "a stage has the name it was given");
            check(RegexTrimmer::new(n, "a").name() == n, "a stage has the name it was given");
            check(FnWrapper(n.into(), Some).name() == n, "a stage has the name it was given");
        }
        let i = concrete(range(18)) as usize;
        for n in NAMES { check(RustStemmer::new(n, ALGORITHMS[i]).name() == n, "a stage has the name it was given") }
        reach(6);
    }
    h_c24_anyname |from, n, c, d| {
        let x: String = [any_char(from, n), 'x'].iter().collect();
        check(StopWordFilter::new(&x, &[]).name() == x, "a stage has the name it was given");
        check(FnWrapper(x.clone(), Some).name() == x, "a stage has the name it was given");
        check(RustStemmer::new(&x, Algorithm::Danish).name() == x, "a stage has the name it was given");
    }
    // a function stage
    h_c24_fn |n, c, d, e| {
        let s = word(&['a', '0', 'é'], n);
        let f = FnWrapper("f".into(), add);
        let r = f.filter(s.clone());
        check_opt(&r, &add(s.clone()), "a function stage does what its function does");
        check_opt(&f.clone().filter(s), &r, "a clone behaves alike");
        reach(7);
    }
    // an index in a language put together from them
    h_c24_own |n, stem, c, d| {
        let words = vec![word(&['a', 'b', 'A'], 1), "ab".to_string(), String::new()];
        let t = word(&['a', 'b', '.', ' ', 'A', 's'], n);
        let mut want: Vec<String> = Vec::new();
        for piece in t.split(' ') {
            if piece.is_empty() { continue }
            let p: Vec<(char, bool)> = piece.to_lowercase().chars().map(|c| (c, c.is_ascii_lowercase())).collect();
            if let Some(x) = trimmed(&p) { if !words.iter().any(|w| *w == x) { let s = Stemmer::create(ALGORITHMS[stem as usize]).stem(&x).to_string(); if !s.is_empty() { want.push(s) } } }
        }
        let o = Own { words: words.clone(), stem: stem as usize };
        let p = o.make_pipeline();
        for c in ['a', 'b', '.', 's'] { for x in ["", "a", ".", "a.", ".a"] { for y in ["", "a", ".", "a.", ".a"] { p.queue[0].filter(format!("{}{}{}", x, c, y)); } } }
        let r = p.run(o.tokenize(&t));
        observe_all(&r);
        check_list(&r, &want, "the stages of a language of one's own run as given");
        let mut ix = Index::with_language(Box::new(o), &["b"]);
        ix.add_doc("1", &[""]);
        check(ix.to_json().contains("\"pipeline\":[\"t\",\"s\",\"st\"]"), "the stages' names are in the index");
        reach(8);
    }
    // Default and new make the same language
    h_c24_default |c, d, e, f| {
        macro_rules! all { ($($l:ident)*) => { vec![$((Box::new(lang::$l::default()) as Box<dyn Language>, Box::new(lang::$l::new()) as Box<dyn Language>)),*] } }
        let v = all!(English Arabic Danish Dutch Finnish French German Hungarian Italian Korean Norwegian Portuguese Romanian Russian Spanish Swedish Turkish);
        let (a, b) = &v[concrete(range(17)) as usize];
        check(a.name() == b.name() && a.code() == b.code(), "Default and new make the same language");
        let (p, q) = (a.make_pipeline(), b.make_pipeline());
        check(p.queue.len() == q.queue.len(), "Default and new make the same language");
        for w in ["running", ".das.", "einen", "aller", "книги", "그", "مَأ"] { check_list(&p.run(a.tokenize(w)), &q.run(b.tokenize(w)), "Default and new make the same language") }
        reach(9);
    }
}
