//! add_doc: exactly the document's own tokens, per field.
use crate::api::*;
use crate::model::*;
use crate::testlang::{self, TestLang};
use crate::util::*;
use elasticlunr::{lang, Index, IndexBuilder, Language, Pipeline};

pub const FIELDS: [&str; 3] = ["b", "a", "c"];
pub const REFS: [&str; 4] = ["2", "10", "é", "1"];
const A5: [char; 6] = ['a', 'b', ' ', 'd', 'e', '+'];
const A3: [char; 3] = ['a', 'd', '+'];
pub fn strings(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
pub fn names(p: &Pipeline) -> Vec<String> { p.queue.iter().map(|s| s.name()).collect() }
pub fn test_model(fields: usize) -> Model { Model { fields: strings(&FIELDS[..fields]), stages: testlang::stages(), refname: "id".into(), save: true, lang: testlang::NAME.into(), docs: Vec::new() } }
pub fn lang_model(l: &dyn Language, fields: &[&str]) -> Model { Model { fields: strings(fields), stages: names(&l.make_pipeline()), refname: "id".into(), save: true, lang: l.name(), docs: Vec::new() } }
pub fn add(ix: &mut Index, d: &Doc) { let v: Vec<&str> = d.values.iter().map(|v| v.0.as_str()).collect(); ix.add_doc(&d.r, v) }
const MSG: &str = "the index holds exactly each document's own tokens with their weights, lengths and texts";
fn finish(ix: Index, m: &Model) {
    let got = ix.to_json();
    observe_str(&got);
    check_json(&got, &m.json(), MSG)
}
fn run(k: u64, f: usize, n: u64, alpha: &[char], exact: bool) {
    let mut m = test_model(f);
    let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&FIELDS[..f]).build();
    for i in 0..k {
        let mut values = Vec::new();
        for _ in 0..f { let n = if exact { n } else { between(0, n) }; let t = word(alpha, n); let toks = testlang::tokens(&t); if toks.len() < t.chars().count() { reach(1) } else { reach(2) } values.push((t, toks)) }
        let d = Doc { r: REFS[i as usize].to_string(), values };
        add(&mut ix, &d);
        m.docs.push(d)
    }
    finish(ix, &m)
}
harnesses! {
    // k documents of f fields with texts of up to n characters
    h_c12_docs |k, f, n, d| { run(k, f as usize, n, &A5, false) }
    h_c12_exact |k, f, n, d| { run(k, f as usize, n, if d == 0 { &A5 } else { &A3 }, true) }
    // documents that leave out their last fields
    h_c12_fewer |k, f, n, d| {
        let mut m = test_model(f as usize);
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&FIELDS[..f as usize]).build();
        for i in 0..k {
            let given = between(1, f);
            let values = (0..given).map(|_| { let t = word(&A3, n); let toks = testlang::tokens(&t); (t, toks) }).collect();
            let d = Doc { r: REFS[i as usize].to_string(), values };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(3);
        finish(ix, &m)
    }
    // the references of two documents are arbitrary, but different
    h_c12_refs |n, b, c, d| {
        let mut m = test_model(1);
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_field("b").build();
        let t = ['0', '1', 'a', '"', '\u{1f}', 'é', ' '];
        let mut refs: Vec<String> = Vec::new();
        for i in 0..2 {
            let n = between(0, n);
            let r = word(&t, n);
            if i == 1 { assume(refs[0] != r) }
            refs.push(r.clone());
            let text = if i == 0 { "aba" } else { "bc" };
            let d = Doc { r, values: vec![(text.to_string(), testlang::tokens(text))] };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        finish(ix, &m)
    }
    // two fields with arbitrary names other than the reference field's
    h_c12_fields |n, b, c, d| {
        let mut names: Vec<String> = Vec::new();
        for i in 0..2 {
            let l = between(0, n);
            let f = word(&['i', 'd', 'I', 'D', 'é', ' '], l);
            assume(f != "id");
            if i == 1 { assume(names[0] != f) }
            names.push(f)
        }
        let mut m = test_model(0);
        m.fields = names.clone();
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&names).build();
        for (r, t, u) in [("1", "ab+", "b"), ("2", "", "ad")] {
            let d = Doc { r: r.into(), values: vec![(t.to_string(), testlang::tokens(t)), (u.to_string(), testlang::tokens(u))] };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(7);
        finish(ix, &m)
    }
    // any character of Unicode in a text
    h_c12_char |from, n, c, d| {
        let mut m = test_model(2);
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&FIELDS[..2]).build();
        let x = any_char(from, n);
        let t: String = ['a', x, x, 'é'].iter().collect();
        let d = Doc { r: "1".into(), values: vec![(t.clone(), testlang::tokens(&t)), ("é".into(), testlang::tokens("é"))] };
        add(&mut ix, &d);
        m.docs.push(d);
        finish(ix, &m)
    }
    // a language of the crate: its own tokenizer and pipeline
    h_c12_lang |li, n, two, d| {
        let l = lang::from_code(CODES[li as usize]).unwrap();
        let p = l.make_pipeline();
        let mut m = lang_model(&*l, &["title", "body"]);
        let mut ix = Index::with_language(lang::from_code(CODES[li as usize]).unwrap(), &["title", "body"]);
        if d == 1 { ix = Index::new(&["title", "body"]) }
        let alpha: &[char] = match CODES[li as usize] { "ru" => &['н', 'о', 'ы', ' ', '-'], "ar" => &['\u{622}', '\u{628}', '\u{650}', ' '], "ko" => &['한', '글', ' ', 'a'], "zh" | "ja" => &['的', '人', 'あ', 'R', '.'], _ => &['R', 'u', 'n', 's', ' ', '-', '.'] };
        for c in alpha { let t: String = [*c, 'a', *c, 'é', *c].iter().collect(); p.run(vec![t]); }
        for i in 0..=two {
            let mut values = Vec::new();
            for f in 0..2 { let t = if f == 0 { word(alpha, n) } else { "Un texte, two WORDS words".to_string() }; let toks = p.run(l.tokenize(&t)); values.push((t, toks)) }
            let d = Doc { r: REFS[i as usize].to_string(), values };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(4);
        finish(ix, &m)
    }
    // from ..= from + n occurrences of a token: the weight is the square root of their number
    h_c12_count |from, n, c, d| {
        let k = from + between(0, n);
        let mut t = String::new();
        for i in 0..k { t.push('a'); if i % 3 == 0 { t.push_str("de") } }
        let mut m = test_model(2);
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&FIELDS[..2]).build();
        let mut u = word(&['a', '+', 'd'], 2);
        u.push_str(&t);
        let d = Doc { r: "1".into(), values: vec![(t.clone(), testlang::tokens(&t)), (u.clone(), testlang::tokens(&u))] };
        add(&mut ix, &d);
        m.docs.push(d);
        finish(ix, &m)
    }
    // n documents and one arbitrary more
    h_c12_many |n, b, c, d| {
        let mut m = test_model(2);
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&FIELDS[..2]).build();
        let at = concrete(range(3)) * (n / 2);
        for i in 0..=n {
            let (t, u) = if i == at { (word(&A3, 2), word(&A5, 1)) } else { (["ab+", "d", "", "aae"][i as usize % 4].to_string(), "xyz"[..i as usize % 4].to_string()) };
            let d = Doc { r: format!("r{}", i), values: vec![(t.clone(), testlang::tokens(&t)), (u.clone(), testlang::tokens(&u))] };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(5);
        finish(ix, &m)
    }
    // a field with its own tokenizer next to one without
    h_c12_tokenizer |n, k, c, d| {
        let own = |s: &str| -> Vec<String> { s.split('a').map(|x| x.to_string()).collect() };
        let mut m = test_model(2);
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_field_with_tokenizer("b", Box::new(own)).add_field("a").build();
        for i in 0..k {
            let (t, u) = (word(&A5, n), word(&A5, n));
            let d = Doc { r: REFS[i as usize].to_string(), values: vec![(t.clone(), testlang::finish(own(&t))), (u.clone(), testlang::tokens(&u))] };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(6);
        finish(ix, &m)
    }
}
#[cfg(feature = "cjk")]
pub const CODES: [&str; 19] = ["en", "ar", "da", "du", "fi", "fr", "de", "hu", "it", "ko", "no", "pt", "ro", "ru", "es", "sv", "tr", "zh", "ja"];
#[cfg(not(feature = "cjk"))]
pub const CODES: [&str; 17] = ["en", "ar", "da", "du", "fi", "fr", "de", "hu", "it", "ko", "no", "pt", "ro", "ru", "es", "sv", "tr"];
