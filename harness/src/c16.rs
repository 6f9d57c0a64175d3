//! Saving documents, or not.
use crate::api::*;
use crate::c12::{add, CODES, FIELDS, REFS};
use crate::json::*;
use crate::model::Doc;
use crate::testlang::TestLang;
use crate::util::*;
use elasticlunr::{lang, Index, IndexBuilder};

fn compare(on: &str, off: &str, texts: &[&str]) {
    observe_str(off);
    match (parse(on), parse(off)) {
        (Some(mut a), Some(b)) => {
            check(matches!(b.get("documentStore").and_then(|s| s.get("save")), Some(Value::Bool(false))), "the save flag is false");
            check(matches!(a.get("documentStore").and_then(|s| s.get("save")), Some(Value::Bool(true))), "the save flag is true with saving on");
            if let Some(Value::Obj(docs)) = b.get("documentStore").and_then(|s| s.get("docs")) { for d in docs { match &d.1 { Value::Obj(o) => check(o.is_empty(), "every stored document is empty"), _ => check(false, "stored documents are objects") } } } else { check(false, "the documents are an object") }
            if let Some(s) = a.get_mut("documentStore") {
                if let Some(x) = s.get_mut("save") { *x = Value::Bool(false) }
                if let Some(Value::Obj(docs)) = s.get_mut("docs") { for d in docs { if let Value::Obj(o) = &d.1 { if !o.is_empty() { reach(1) } } d.1 = Value::Obj(Vec::new()) } }
            }
            check(same(&a, &b), "nothing but the save flag and the stored documents depends on saving");
        }
        _ => check(false, "the index is JSON"),
    }
    for t in texts { check(!off.contains(t), "no field text appears in the index") }
}
const SECRET: &str = "Top Secret";
fn mk(save: bool, f: usize, ds: &[Doc], when: u64) -> String {
    let b = IndexBuilder::with_language(Box::new(TestLang));
    let b = match when { 0 => b.save_docs(save).add_fields(&FIELDS[..f]), 1 => b.add_fields(&FIELDS[..f]).save_docs(save), _ => b.save_docs(!save).add_fields(&FIELDS[..f]).save_docs(save) };
    let mut ix = b.build();
    for d in ds { add(&mut ix, d) }
    ix.to_json()
}
harnesses! {
    // k documents with f fields of up to n characters
    h_c16_docs |k, f, n, d| {
        let ds: Vec<Doc> = (0..k).map(|i| Doc { r: REFS[i as usize].to_string(), values: (0..f).map(|j| { let n = between(0, n); let mut t = word(&['a', '+', '"', 'é'], n); if i == 0 && j == 0 { t.push_str(SECRET) } (t, Vec::new()) }).collect() }).collect();
        let w = concrete(range(3));
        compare(&mk(true, f as usize, &ds, w), &mk(false, f as usize, &ds, w), &[SECRET])
    }
    // any character
    h_c16_char |from, n, c, d| {
        let x = any_char(from, n);
        let t: String = ['a', x, ' ', x].iter().collect();
        let ds = [Doc { r: "1".into(), values: vec![(t.clone(), Vec::new()), (SECRET.into(), Vec::new())] }];
        compare(&mk(true, 2, &ds, 0), &mk(false, 2, &ds, 0), &[SECRET])
    }
    // the same document again, other references in between
    h_c16_again |k, c, d, e| {
        let mut ds = Vec::new();
        for _ in 0..k { let r = REFS[concrete(range(3)) as usize].to_string(); let n = between(0, 1); let mut t = word(&['a', '+', 'd'], n); t.push_str(SECRET); ds.push(Doc { r, values: vec![(t, Vec::new())] }) }
        reach(2);
        compare(&mk(true, 1, &ds, 0), &mk(false, 1, &ds, 0), &[SECRET])
    }
    // up to n fields, some of their texts long
    h_c16_wide |n, len, d, e| {
        let names: Vec<String> = (0..between(1, n)).map(|i| format!("f{}", i)).collect();
        let long = "x".repeat(len as usize);
        let values: Vec<(String, Vec<String>)> = names.iter().enumerate().map(|(i, _)| { let mut t = if i == 0 { word(&['a', '+'], 2) } else { String::new() }; t.push_str(SECRET); if i % 4 == 2 { t.push_str(&long) } (t, Vec::new()) }).collect();
        let ds = [Doc { r: "1".into(), values }];
        let mk = |save: bool| { let mut ix = IndexBuilder::with_language(Box::new(TestLang)).save_docs(save).add_fields(&names).build(); add(&mut ix, &ds[0]); ix.to_json() };
        reach(3);
        compare(&mk(true), &mk(false), &[SECRET])
    }
    h_c16_many |n, c, d, e| {
        let ds: Vec<Doc> = (0..n).map(|i| Doc { r: format!("{}", i), values: vec![(if i == n / 2 { word(&['a', '+', 'd'], 2) } else { format!("{} {}", SECRET, i) }, Vec::new())] }).collect();
        compare(&mk(true, 1, &ds, 0), &mk(false, 1, &ds, 0), &[SECRET])
    }
    h_c16_lang |li, n, c, d| {
        let code = CODES[li as usize];
        let t = { let mut s = word(&['R', 'ы', '"', 's'], n); s.push_str(" Top Secret words"); s };
        let mk = |save: bool| { let mut ix: Index = IndexBuilder::with_language(lang::from_code(code).unwrap()).add_fields(&["t", "u"]).save_docs(save).build(); ix.add_doc("1", &[t.as_str(), SECRET]); ix.add_doc("2", &[SECRET]); ix.to_json() };
        compare(&mk(true), &mk(false), &[SECRET])
    }
}
