//! An index read back from its JSON.
use crate::api::*;
use crate::c12::{add, CODES, FIELDS, REFS};
use crate::model::Doc;
use crate::testlang::TestLang;
use crate::util::*;
use elasticlunr::{lang, Index, IndexBuilder};

fn both(mut ix: Index, more: &Doc) {
    let text = ix.to_json();
    observe_str(&text);
    let mut back: Index = match serde_json::from_str(&text) { Ok(b) => b, Err(_) => { check(false, "a serialized index parses"); return } };
    reach(1);
    check(back.to_json() == text, "the parsed index serializes to the same text");
    check(back.get_fields() == ix.get_fields(), "the fields survive the round trip");
    match serde_json::from_str::<Index>(&ix.to_json_pretty()) { Ok(b) => check(b.to_json() == text, "the pretty form parses to the same index"), Err(_) => check(false, "the pretty form parses") }
    add(&mut ix, more);
    add(&mut back, more);
    check(back.to_json() == ix.to_json(), "documents added after reading back are indexed like those added to the original");
}
fn doc(r: &str, values: Vec<String>) -> Doc { Doc { r: r.to_string(), values: values.into_iter().map(|v| (v, Vec::new())).collect() } }
harnesses! {
    // k English documents with f fields of up to n characters, and one more after reading back
    h_c20_docs |k, f, n, d| {
        let b = IndexBuilder::new().add_fields(&FIELDS[..f as usize]);
        let b = match concrete(range(3)) { 0 => b, 1 => b.set_ref("key\""), _ => b.save_docs(false) };
        let mut ix = b.build();
        let t = ['a', 'b', ' ', '"', 'é'];
        let mut any = |r: &str| doc(r, (0..f).map(|_| { let n = between(0, n); word(&t, n) }).collect());
        for i in 0..k { let d = any(REFS[i as usize]); add(&mut ix, &d) }
        let more = any(if flag() { REFS[0] } else { REFS[k as usize] });
        both(ix, &more)
    }
    // any character in a text, a reference and a field name
    h_c20_char |from, n, c, d| {
        let x = any_char(from, n);
        let (a, b): (String, String) = (['a', x].iter().collect(), [x, 'b', x].iter().collect());
        let mut ix = IndexBuilder::new().add_fields(&[a.as_str(), "t"]).build();
        let inside: String = ['b', x, 'c'].iter().collect();
        add(&mut ix, &doc(&b, vec![format!("{} {}", b, inside), a.clone()]));
        both(ix, &doc("2", vec![a.clone(), "words".into()]))
    }
    h_c20_lang |li, n, c, d| {
        let mut ix = Index::with_language(lang::from_code(CODES[li as usize]).unwrap(), &["t", "u"]);
        let alpha = ['R', 'ы', ' ', 's', '\u{628}', if li < 17 { '한' } else { '中' }];
        let t = word(&alpha, n);
        add(&mut ix, &doc("1", vec![t, "words, Wörter und слова".into()]));
        reach(2);
        both(ix, &doc("2", vec!["Words слова 한글".into(), word(&alpha, 1)]))
    }
    // an index of a language the crate does not know is refused
    h_c20_unknown |n, c, d, e| {
        let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_field("a").build();
        add(&mut ix, &doc("1", vec![word(&['a', '+'], n)]));
        reach(3);
        check(serde_json::from_str::<Index>(&ix.to_json()).is_err(), "a custom language cannot be read back");
    }
    // tokens of from .. from + n characters, as deep in the JSON
    h_c20_deep |from, n, c, d| {
        let len = from + concrete(range(n));
        let mut t = "x".repeat(len as usize - 1);
        t.push(one_of(&['x', 'é', '"']));
        let mut ix = Index::new(&["a"]);
        add(&mut ix, &doc("1", vec![t]));
        // known finding: serde_json gives up below 127 levels unless told otherwise by its caller
        match serde_json::from_str::<Index>(&ix.to_json()) {
            Err(e) if len > 121 && e.to_string().starts_with("recursion limit exceeded") => reach(902),
            _ => both(ix, &doc("2", vec!["xx".into()])),
        }
    }
    h_c20_many |n, c, d, e| {
        let mut ix = Index::new(&["a", "b"]);
        for i in 0..n { add(&mut ix, &doc(&format!("r{}", i * 7 % 101), vec![format!("word{} another{}", i % 9, i % 5), "some more words".into()])) }
        both(ix, &doc("r7", vec![word(&['a', 's', ' ', 'é'], 3), "some words".into()]))
    }
}
