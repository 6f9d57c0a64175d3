//! Builder call sequences.
use crate::api::*;
use crate::c12::{add, strings};
use crate::model::*;
use crate::testlang::{self, TestLang};
use crate::util::*;
use elasticlunr::{lang, Index, IndexBuilder};

const NAMES: [&str; 4] = ["a", "b", "é", ""];
/// The tokenizers given to fields: number i puts its digit behind every character of the text.
fn toks(i: u8, s: &str) -> Vec<String> { s.chars().map(|c| { let mut t = String::new(); t.push(c); t.push((b'0' + i) as char); t }).collect() }
struct Want { fields: Vec<(String, Option<u8>)>, refname: String, save: bool }
fn dup(w: &Want, f: &str) -> bool { w.fields.iter().any(|x| x.0 == f) }
fn op(b: IndexBuilder, w: &mut Want, i: u8, names: &dyn Fn() -> String) -> IndexBuilder {
    match concrete(range(5)) {
        0 => { let f = names(); let d = dup(w, &f); expect_panic(d); let b = b.add_field(&f); check(!d, "adding a field twice panics"); w.fields.push((f, None)); b }
        1 => { let f = names(); let d = dup(w, &f); expect_panic(d); let b = b.add_field_with_tokenizer(&f, Box::new(move |s| toks(i, s))); check(!d, "adding a field twice panics"); w.fields.push((f, Some(i))); b }
        2 => {
            let (f, g) = (names(), names());
            let d = dup(w, &f) || dup(w, &g) || f == g;
            expect_panic(d);
            let b = b.add_fields(&[f.as_str(), g.as_str()]);
            check(!d, "adding a field twice panics");
            w.fields.push((f, None));
            w.fields.push((g, None));
            b
        }
        3 => { let r = ["id", "key", "ä\""][concrete(range(3)) as usize]; w.refname = r.to_string(); b.set_ref(r) }
        _ => { w.save = flag(); let s = w.save; b.save_docs(s) }
    }
}
fn verify(mut ix: Index, w: &Want) {
    expect_panic(false);
    check(ix.get_fields().len() == w.fields.len(), "the fields are those added, in order");
    for (a, b) in ix.get_fields().iter().zip(&w.fields) { check(*a == b.0, "the fields are those added, in order") }
    let mut m = Model { fields: w.fields.iter().map(|f| f.0.clone()).collect(), stages: testlang::stages(), refname: w.refname.clone(), save: w.save, lang: testlang::NAME.into(), docs: Vec::new() };
    reach(w.fields.len().min(3) as u32);
    if !w.fields.is_empty() {
        let values = w.fields.iter().map(|f| { let t = "ade"; (t.to_string(), match f.1 { None => testlang::tokens(t), Some(i) => testlang::finish(toks(i, t)) }) }).collect();
        let d = Doc { r: "7".into(), values };
        add(&mut ix, &d);
        m.docs.push(d);
    }
    let got = ix.to_json();
    observe_str(&got);
    check_json(&got, &m.json(), "the index has the fields, tokenizers, reference name, saving mode and language given to the builder")
}
harnesses! {
    // k builder calls over nn field names
    h_c14_calls |k, nn, c, d| {
        let mut w = Want { fields: Vec::new(), refname: "id".into(), save: true };
        let mut b = IndexBuilder::with_language(Box::new(TestLang));
        for i in 0..k { b = op(b, &mut w, i as u8, &|| NAMES[concrete(range(nn)) as usize].to_string()) }
        verify(b.build(), &w)
    }
    // field names of up to n arbitrary characters of a small alphabet
    h_c14_names |k, n, c, d| {
        let mut w = Want { fields: Vec::new(), refname: "id".into(), save: true };
        let mut b = IndexBuilder::with_language(Box::new(TestLang));
        for i in 0..k {
            let l = between(0, n);
            let f = word(&['a', 'b', 'A', ' '], l);
            let dd = dup(&w, &f);
            expect_panic(dd);
            b = if flag() { b.add_field(&f) } else { let i = i as u8; b.add_field_with_tokenizer(&f, Box::new(move |s| toks(i, s))) };
            check(!dd, "adding a field twice panics");
            if dd { return }
            let t = None;
            w.fields.push((f, t));
        }
        expect_panic(false);
        reach(4);
        let ix = b.build();
        check(ix.get_fields().len() == w.fields.len(), "the fields are those added, in order");
        for (a, b) in ix.get_fields().iter().zip(&w.fields) { check(*a == b.0, "the fields are those added, in order") }
    }
    // n distinct fields, one of them added again, or not
    h_c14_many |n, b, c, d| {
        let mut b = IndexBuilder::with_language(Box::new(TestLang));
        let mut w = Want { fields: Vec::new(), refname: "id".into(), save: true };
        for i in 0..n {
            let f = format!("f{}", i);
            b = if i % 3 == 1 { let k = (i % 10) as u8; w.fields.push((f.clone(), Some(k))); b.add_field_with_tokenizer(&f, Box::new(move |s| toks(k, s))) } else { w.fields.push((f.clone(), None)); b.add_field(&f) };
        }
        let at = concrete(range(n.min(200) + 1));
        if at < n {
            let f = format!("f{}", at);
            expect_panic(true);
            match concrete(range(3)) { 0 => { b.add_field(&f); } 1 => { b.add_field_with_tokenizer(&f, Box::new(|_| vec![])); } _ => { b.add_fields(&["new", f.as_str()]); } }
            check(false, "adding a field twice panics");
            return
        }
        verify(b.build(), &w)
    }
    // Index::new and Index::with_language
    h_c14_index |nn, c, d, e| {
        let k = between(0, 3);
        let fs: Vec<&str> = (0..k).map(|_| NAMES[concrete(range(nn)) as usize]).collect();
        let mut w = Want { fields: Vec::new(), refname: "id".into(), save: true };
        let mut d = false;
        for f in &fs { d = d || dup(&w, f); w.fields.push((f.to_string(), None)) }
        expect_panic(d);
        let english = flag();
        let ix = if english { Index::new(&fs) } else { Index::with_language(Box::new(TestLang), &fs) };
        check(!d, "adding a field twice panics");
        if d { return }
        reach(5);
        if !english { verify(ix, &w) } else {
            let m = Model { fields: strings(&fs), stages: strings(&["trimmer", "stopWordFilter", "stemmer"]), refname: "id".into(), save: true, lang: "English".into(), docs: Vec::new() };
            check_json(&ix.to_json(), &m.json(), "the default language is English")
        }
    }
    // the language's own pipeline and tokenizer are used, for every language
    h_c14_lang |li, n, c, d| {
        let code = crate::c12::CODES[li as usize];
        let l = lang::from_code(code).unwrap();
        let p = l.make_pipeline();
        let mut m = crate::c12::lang_model(&*l, &["x", "y"]);
        let alpha = ['É', 's', '-', '.', 'Ж', '\u{622}'];
        for c in alpha { let t: String = ['e', c, 'е', c].iter().collect(); p.run(vec![t.to_lowercase()]); }
        let mut ix = IndexBuilder::with_language(lang::from_code(code).unwrap()).add_field("x").add_field_with_tokenizer("y", Box::new(|s| toks(0, s))).set_ref("r").save_docs(false).build();
        m.refname = "r".into();
        m.save = false;
        let t = word(&alpha, n);
        let d = Doc { r: "1".into(), values: vec![(t.clone(), p.run(l.tokenize(&t))), (t.clone(), p.run(toks(0, &t)))] };
        add(&mut ix, &d);
        m.docs.push(d);
        let got = ix.to_json();
        observe_str(&got);
        check_json(&got, &m.json(), "the given language's tokenizer and pipeline are used")
    }
}
