//! The layout of the serialized index.
use crate::api::*;
use crate::c12::*;
use crate::json::*;
use crate::model::*;
use crate::testlang::{self, TestLang};
use crate::util::*;
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{lang, Index, IndexBuilder, Language, Pipeline};

const ODD: [char; 16] = ['"', '\\', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{1f}', '/', '\u{7f}', '\u{2028}', 'a', 'é', '\u{ffff}', '😀'];
/// Removes the white space outside strings.
pub fn compact(s: &str) -> String {
    let mut o = String::new();
    let mut inside = false;
    let mut esc = false;
    for c in s.chars() {
        if inside {
            o.push(c);
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { inside = false }
        } else if c == '"' { inside = true; o.push(c) } else if !matches!(c, ' ' | '\n' | '\r' | '\t') { o.push(c) }
    }
    o
}
fn text(ix: &Index, m: &Model) {
    let got = ix.to_json();
    observe_str(&got);
    check_json(&got, &m.json(), "the JSON is the elasticlunr.js layout of the index");
    let pretty = compact(&ix.to_json_pretty());
    if pretty != got { match (parse(&pretty), parse(&got)) { (Some(a), Some(b)) => check(same(&a, &b), "the pretty form denotes the same value"), _ => check(false, "the pretty form is JSON") } }
}
/// An index in which `x` occurs at one of five places.
fn place(i: u64, x: &str) {
    let s = |k: u64, d: &str| if i == k { x.to_string() } else { d.to_string() };
    let (field, r, refname, t) = (s(0, "b"), s(1, "1"), s(2, "id"), s(3, "ab"));
    let pair = [field.clone(), "aa".to_string()];
    assume(pair[0] != pair[1] && refname != pair[0] && refname != pair[1]);
    let mut m = Model { fields: pair.to_vec(), stages: testlang::stages(), refname: refname.clone(), save: true, lang: testlang::NAME.into(), docs: Vec::new() };
    let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&pair).set_ref(&refname).build();
    let token = s(4, "ab");
    if i == 4 { // one token of several characters
        let tk = token.clone();
        ix = IndexBuilder::with_language(Box::new(TestLang)).add_field_with_tokenizer(&pair[0], Box::new(move |_| vec![tk.clone()])).add_field(&pair[1]).set_ref(&refname).build();
    }
    let d = Doc { r, values: vec![(t.clone(), if i == 4 { testlang::finish(vec![token]) } else { testlang::tokens(&t) }), ("c".into(), testlang::tokens("c"))] };
    add(&mut ix, &d);
    m.docs.push(d);
    text(&ix, &m)
}
/// A language with names that need care; its stages change nothing.
#[derive(Clone)]
struct Odd { name: String, stages: Vec<String> }
impl Language for Odd {
    fn name(&self) -> String { self.name.clone() }
    fn code(&self) -> String { "odd".into() }
    fn tokenize(&self, text: &str) -> Vec<String> { vec![text.to_string()] }
    fn make_pipeline(&self) -> Pipeline { let mut queue: Vec<Box<dyn PipelineFn>> = Vec::new(); for s in &self.stages { queue.push(Box::new(FnWrapper(s.clone(), Some))) } Pipeline { queue } }
}
const STAGE: [char; 10] = ['"', '\\', ' ', '\n', '\0', '-', 'A', 'a', 'é', '\u{a0}'];
harnesses! {
    // any two of the characters that need care, at any of the five places
    h_c13_odd |n, i, c, d| { let x = word(&ODD, n); reach(1); place(i, &x) }
    // any character of Unicode
    h_c13_char |from, n, i, d| { let x: String = ['x', any_char(from, n)].iter().collect(); place(i, &x) }
    // several documents and fields: order and shape
    h_c13_shape |k, f, n, d| {
        let mut m = test_model(f as usize);
        let save = flag();
        m.save = save;
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&FIELDS[..f as usize]).save_docs(save).build();
        for i in 0..k {
            let values = (0..f).map(|_| { let t = word(&['a', '+', '"', '中'], n); let toks = testlang::tokens(&t); (t, toks) }).collect();
            let d = Doc { r: REFS[i as usize].to_string(), values };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(2);
        text(&ix, &m);
        check(parse(&m.json()).is_some(), "the JSON parses, with no repeated key");
    }
    // the languages of the crate: stage names and language name
    h_c13_lang |li, n, c, d| {
        let l = lang::from_code(CODES[li as usize]).unwrap();
        let p = l.make_pipeline();
        let mut m = lang_model(&*l, &["title"]);
        m.stages = stage_names(CODES[li as usize]);
        m.lang = NAMES[li as usize].to_string();
        let mut ix = Index::with_language(lang::from_code(CODES[li as usize]).unwrap(), &["title"]);
        for c in ['a', '7', ' ', '"', 'н'] { let t: String = ['a', c, 'a', c].iter().collect(); p.run(vec![t]); }
        let t = word(&['a', '7', ' ', '"', 'н'], n);
        let toks = p.run(l.tokenize(&t));
        let d = Doc { r: "1".into(), values: vec![(t, toks)] };
        add(&mut ix, &d);
        m.docs.push(d);
        reach(3);
        text(&ix, &m)
    }
    // languages and stages with arbitrary names
    h_c13_stages |k, n, c, d| {
        let mut o = Odd { name: word(&STAGE, 1), stages: Vec::new() };
        for _ in 0..k { o.stages.push(word(&STAGE, n)) }
        let m = Model { fields: vec!["b".to_string()], stages: o.stages.clone(), refname: "id".into(), save: true, lang: o.name.clone(), docs: vec![Doc { r: "1".into(), values: vec![("z".into(), vec!["z".into()])] }] };
        let queue = serde_json::to_string(&o.make_pipeline()).unwrap();
        let mut w = Vec::new();
        for s in &o.stages { w.push(Value::Str(s.clone())) }
        check(parse(&queue).map_or(false, |q| same(&q, &Value::Arr(w))), "a pipeline is written as the list of its stages' names");
        let mut ix = Index::with_language(Box::new(o), &["b"]);
        add(&mut ix, &m.docs[0]);
        text(&ix, &m)
    }
    // deep trees
    // run natively only: a token so long that the recursion over its characters exhausts the stack
    h_c13_stack |n, c, d, e| {
        let mut ix = Index::new(&["a"]);
        ix.add_doc("1", &["x".repeat(n as usize)]);
        check(ix.to_json().len() > n as usize, "an index serializes");
    }
    h_c13_deep |n, b, c, d| {
        let mut m = test_model(1);
        let tok: String = { let mut s = String::new(); for i in 0..n { s.push(if i % 7 == 3 { 'é' } else { 'z' }) } s.push(one_of(&ODD)); s };
        let tk = tok.clone();
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_field_with_tokenizer("b", Box::new(move |s| vec![tk.clone(), s.to_string(), tk.clone()])).build();
        let d = Doc { r: "1".into(), values: vec![("zzz".into(), vec![tok.clone(), "zzz".into(), tok])] };
        add(&mut ix, &d);
        m.docs.push(d);
        text(&ix, &m)
    }
}
pub const NAMES: [&str; 19] = ["English", "Arabic", "Danish", "Dutch", "Finnish", "French", "German", "Hungarian", "Italian", "Korean", "Norwegian", "Portuguese", "Romanian", "Russian", "Spanish", "Swedish", "Turkish", "Chinese", "Japanese"];
pub fn stage_names(code: &str) -> Vec<String> {
    match code {
        "en" => strings(&["trimmer", "stopWordFilter", "stemmer"]),
        "ar" => strings(&["stemmer-ar"]),
        "ja" => strings(&["trimmer-ja", "stemmer-ja"]),
        c => ["trimmer-", "stopWordFilter-", "stemmer-"].iter().map(|s| { let mut x = s.to_string(); x.push_str(c); x }).collect(),
    }
}
