//! JSON round trips of the stores.
use crate::api::*;
use crate::c10::{apply, Op};
use crate::util::*;
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use std::collections::BTreeMap;

fn store(s: &DocumentStore, refs: &[&str], fields: &[&str]) {
    let text = match serde_json::to_string(s) { Ok(t) => t, Err(_) => { check(false, "a document store serializes"); return } };
    observe_str(&text);
    let back = match serde_json::from_str::<DocumentStore>(&text) { Ok(b) => b, Err(_) => { check(false, "a serialized document store parses"); return } };
    check(back.len() == s.len() && back.is_empty() == s.is_empty() && back.is_stored() == s.is_stored() && back.length == s.length, "size and saving mode survive the round trip");
    for r in refs {
        check(back.has_doc(r) == s.has_doc(r), "the documents survive the round trip");
        check(back.get_doc(r) == s.get_doc(r), "document contents survive the round trip");
        for f in fields { check(back.get_field_length(r, f) == s.get_field_length(r, f), "field lengths survive the round trip") }
    }
    match serde_json::to_string(&back) { Ok(t) => check(t == text, "the parsed store serializes to the same text"), Err(_) => check(false, "the parsed store serializes") }
    if let Ok(p) = serde_json::to_string_pretty(s) { match serde_json::from_str::<DocumentStore>(&p) { Ok(b) => check(serde_json::to_string(&b).ok() == Some(text), "the pretty form parses to the same store"), Err(_) => check(false, "the pretty form parses") } }
}
fn index(ix: &InvertedIndex, toks: &[&str], docs: &[&str]) {
    let text = match serde_json::to_string(ix) { Ok(t) => t, Err(_) => { check(false, "an inverted index serializes"); return } };
    observe_str(&text);
    let back = match serde_json::from_str::<InvertedIndex>(&text) { Ok(b) => b, Err(_) => { check(false, "a serialized inverted index parses"); return } };
    check(back == *ix, "the parsed inverted index is equal");
    for t in toks {
        check(back.has_token(t) == ix.has_token(t) && back.get_doc_frequency(t) == ix.get_doc_frequency(t), "tokens and document frequencies survive the round trip");
        check(back.get_docs(t) == ix.get_docs(t), "the documents of a token survive the round trip");
        for d in docs { check(back.get_term_frequency(d, t) == ix.get_term_frequency(d, t), "weights survive the round trip") }
    }
    match serde_json::to_string(&back) { Ok(t) => check(t == text, "the parsed index serializes to the same text"), Err(_) => check(false, "the parsed index serializes") }
}
const ODD: [char; 10] = ['"', '\\', '\n', '\0', '\u{1f}', 'a', 'é', '/', '\u{2028}', '😀'];
const W: [f64; 4] = [1., 2.5, 0.125, 1234567.];
harnesses! {
    // k store operations
    h_c19_store |k, nr, sv, e| {
        let save = if sv < 2 { sv == 1 } else { flag() };
        let mut s = DocumentStore::new(save);
        let refs = ["1", "é\"", ""];
        for i in 0..k {
            let r = refs[concrete(range(nr)) as usize];
            match concrete(range(3)) {
                0 => { let mut d = BTreeMap::new(); d.insert("id".to_string(), r.to_string()); if flag() { let mut t = String::new(); t.push(one_of(&ODD)); d.insert("t".into(), t); } s.add_doc(r, d) }
                1 => s.remove_doc(r),
                _ => s.add_field_length(r, ["t", "b"][concrete(range(2)) as usize], 90 + i as usize * 20),
            }
        }
        reach(1);
        store(&s, &["1", "é\"", "", "other"], &["t", "b", "c"])
    }
    // any character in a reference, field or text
    h_c19_storechar |from, n, c, d| {
        let x: String = ['x', any_char(from, n)].iter().collect();
        let mut s = DocumentStore::new(true);
        let mut d = BTreeMap::new();
        d.insert(x.clone(), x.clone());
        s.add_field_length(&x, &x, 5);
        s.add_doc(&x, d);
        store(&s, &[&x, "x"], &[&x, "t"])
    }
    // k index operations with tokens of up to n characters
    h_c19_index |k, n, c, d| {
        let mut ix = InvertedIndex::new();
        for i in 0..k {
            let n = between(0, n);
            let o = Op { add: i == 0 || flag(), token: word(&['a', '"', 'é', 'd'], n), doc: one_of(&['1', '"']).to_string(), w: W[concrete(range(4)) as usize] };
            apply(&mut ix, &o)
        }
        reach(2);
        index(&ix, &["a", "aa", "\"", "é", "aé", "d", "df", "", "ada"], &["1", "\"", "2"])
    }
    h_c19_indexchar |from, n, c, d| {
        let x = any_char(from, n);
        let (t, u): (String, String) = (['t', x].iter().collect(), [x, 't'].iter().collect());
        let mut ix = InvertedIndex::new();
        ix.add_token(&t, &u, 0.5);
        ix.add_token("1", &t, 3.);
        index(&ix, &[&t, &u, "t"], &[&t, "1"])
    }
    // tokens around the member names docs and df
    h_c19_names |n, c, d, e| {
        let mut ix = InvertedIndex::new();
        let t = word(&['d', 'o', 'c', 's', 'f', 't'], n);
        ix.add_token("docs", &t, 1.5);
        ix.add_token("df", "df", 2.);
        ix.add_token("tf", "docs", 3.);
        index(&ix, &[&t, "d", "df", "docs", "doc", "f", "o"], &["docs", "df", "tf", "d"])
    }
    // weights as they occur in indexes: the square roots of from ..= from + n
    h_c19_weights |from, n, d, e| {
        let w = ((from + concrete(range(n))) as f64).sqrt();
        let mut ix = InvertedIndex::new();
        ix.add_token("1", "ab", w);
        ix.add_token("2", "ab", 1.);
        ix.add_token("2", "a", 2.5);
        let text = serde_json::to_string(&ix).unwrap();
        let back: InvertedIndex = match serde_json::from_str(&text) { Ok(b) => b, Err(_) => { check(false, "a serialized inverted index parses"); return } };
        let got = back.get_term_frequency("1", "ab");
        observe(&got.to_bits().to_le_bytes());
        reach(3);
        if got == w { index(&ix, &["ab", "a", "b"], &["1", "2"]); return }
        // known finding: serde_json does not read every f64 back exactly (its float_roundtrip feature is off)
        let number = serde_json::to_string(&w).unwrap();
        check(serde_json::from_str::<f64>(&number).ok() == Some(got), "weights survive the round trip");
        reach(901);
        let mut near = InvertedIndex::new();
        near.add_token("1", "ab", got);
        near.add_token("2", "ab", 1.);
        near.add_token("2", "a", 2.5);
        check(near == back, "everything but the last digit of the weight survives the round trip");
    }
    // tokens of from .. from + n characters, as deep in the JSON
    h_c19_deep |from, n, c, d| {
        let len = from + concrete(range(n));
        let mut t = "x".repeat(len as usize - 1);
        t.push(one_of(&['x', 'é', '"']));
        let mut ix = InvertedIndex::new();
        ix.add_token("1", &t, 2.);
        // known finding: serde_json gives up below 127 levels unless told otherwise by its caller
        match serde_json::from_str::<InvertedIndex>(&serde_json::to_string(&ix).unwrap()) {
            Err(e) if len > 123 && e.to_string().starts_with("recursion limit exceeded") => reach(902),
            _ => index(&ix, &[&t, "x", "xx"], &["1", "2"]),
        }
    }
    h_c19_large |n, c, d, e| {
        let mut ix = InvertedIndex::new();
        for i in 0..n { ix.add_token(&format!("{}", i % 13), &format!("w{}", i * 37 % 101), (i % 32) as f64 * 0.25) }
        let x = word(&['w', '1', 'é'], 2);
        if flag() { ix.add_token("5", &x, 1.) } else { ix.remove_token("5", &x) }
        index(&ix, &["w1", "w10", "w", "w100", "1", &x], &["5", "0", "12"]);
        let mut s = DocumentStore::new(flag());
        for i in 0..n { let mut d = BTreeMap::new(); d.insert("t".to_string(), format!("text {}", i)); s.add_doc(&format!("{}", i), d); s.add_field_length(&format!("{}", i), "t", i as usize * 1000003) }
        if flag() { s.remove_doc("3") }
        store(&s, &["0", "3", "20"], &["t", "u"])
    }
}
