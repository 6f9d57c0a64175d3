//! InvertedIndex histories.
use crate::api::*;
use crate::util::*;
use elasticlunr::inverted_index::InvertedIndex;

pub struct Op { pub add: bool, pub token: String, pub doc: String, pub w: f64 }
pub fn apply(ix: &mut InvertedIndex, o: &Op) { if o.add { ix.add_token(&o.doc, &o.token, o.w) } else { ix.remove_token(&o.doc, &o.token) } }
/// The documents of a token after a history.
pub fn docs(h: &[Op], token: &str) -> Vec<(String, f64)> {
    let mut v: Vec<(String, f64)> = Vec::new();
    for o in h { if o.token == token {
        v.retain(|x| x.0 != o.doc);
        if o.add { v.push((o.doc.clone(), o.w)) }
    } }
    v
}
pub fn present(h: &[Op], token: &str) -> bool { h.iter().any(|o| o.add && o.token.starts_with(token)) }
fn probe(ix: &InvertedIndex, h: &[Op], q: &str, d: &str) {
    if q.is_empty() { return }
    let want = docs(h, q);
    reach(want.len().min(3) as u32);
    check(ix.get_doc_frequency(q) == want.len() as i64, "the document frequency is the number of documents of the token");
    check(ix.has_token(q) == present(h, q), "exactly the tokens ever added and their prefixes are present");
    match ix.get_docs(q) {
        None => check(!present(h, q), "a present token has a document map"),
        Some(m) => {
            check(m.len() == want.len(), "the documents of a token are those added and not removed");
            for (k, v) in &want { match m.get(k) { Some(x) => check(*x == *v, "each with the weight of its latest addition"), None => check(false, "every document added and not removed is there") } }
        }
    }
    let tf = want.iter().find(|x| x.0 == d).map_or(0., |x| x.1);
    check(ix.get_term_frequency(d, q) == tf, "the term frequency is the weight of the latest addition, or 0");
}
fn any_op(i: u64, t: &[char], max: u64, ds: &[char]) -> Op {
    let n = between(0, max);
    let token = word(t, n);
    let add = i == 0 || flag();
    Op { add, token, doc: one_of(ds).to_string(), w: if flag() { 0. } else { (i + 1) as f64 * 1.25 } }
}
const T1: [char; 4] = ['a', 'b', 'é', '😀'];
const T2: [char; 2] = ['a', 'b'];
const D: [char; 2] = ['1', '2'];
const D3: [char; 3] = ['1', '2', 'é'];
fn history(k: u64, t: &[char], max: u64, ds: &[char]) {
    let mut ix = InvertedIndex::new();
    let mut h = Vec::new();
    for i in 0..k { let o = any_op(i, t, max, ds); apply(&mut ix, &o); h.push(o) }
    let n = between(1, max + 1);
    let q = word(t, n);
    let d = one_of(ds).to_string();
    probe(&ix, &h, &q, &d);
    observe(&[ix.get_doc_frequency(&q) as u8, ix.has_token(&q) as u8]);
}
harnesses! {
    h_c10_wide |k, max, c, d| { history(k, &T1, max, &D3) }
    h_c10_two |k, max, c, d| { history(k, &T2, max, &D) }
    h_c10_one |k, max, c, d| { history(k, &['a'], max, &D) }
    // documents with arbitrary references (prefixes of each other, empty, ...)
    h_c10_refs |k, n, c, d| {
        let t = ['1', '2', 'é'];
        let mut ix = InvertedIndex::new();
        let mut h = Vec::new();
        for i in 0..k {
            let l = between(0, n);
            let o = Op { add: i == 0 || flag(), token: ["ab", "a"][concrete(range(2)) as usize].to_string(), doc: word(&t, l), w: (i + 1) as f64 };
            apply(&mut ix, &o);
            h.push(o)
        }
        let l = between(0, n);
        probe(&ix, &h, "a", &word(&t, l));
        probe(&ix, &h, "ab", &h[0].doc);
    }
    // one arbitrary operation and an arbitrary probe after a fixed larger history
    h_c10_step |n, c, e, d| {
        let mut ix = InvertedIndex::new();
        let mut h = Vec::new();
        let toks = ["a", "ab", "abc", "b", "ba", "é", "aé", "abcd"];
        for i in 0..n {
            let o = Op { add: i % 5 != 4, token: toks[(i * 3 % 8) as usize].to_string(), doc: format!("{}", i % 7), w: i as f64 + 0.5 };
            apply(&mut ix, &o);
            h.push(o)
        }
        let l = between(0, 4);
        let o = Op { add: flag(), token: word(&T1, l), doc: format!("{}", range(8)), w: 77. };
        apply(&mut ix, &o);
        h.push(o);
        let l = between(1, 5);
        let q = word(&['a', 'b', 'c', 'é'], l);
        probe(&ix, &h, &q, &one_of(&['0', '3', '6', '7']).to_string());
    }
    // many documents under one token, and long tokens
    h_c10_scale |n, c, e, d| {
        let mut ix = InvertedIndex::new();
        let mut h = Vec::new();
        for i in 0..n { let o = Op { add: true, token: "tok".into(), doc: format!("d{}", i), w: i as f64 }; apply(&mut ix, &o); h.push(o) }
        for _ in 0..2 { let o = Op { add: flag(), token: "tok".into(), doc: format!("d{}", concrete(range(3)) * (n - 1) / 2), w: -1. }; apply(&mut ix, &o); h.push(o) }
        probe(&ix, &h, "tok", "d0");
        probe(&ix, &h, "to", "d0");
        probe(&ix, &h, "tok", &format!("d{}", n - 1));
    }
    // more documents than small counters hold
    h_c10_huge |n, c, e, d| {
        let mut ix = InvertedIndex::new();
        for i in 0..n { ix.add_token(&i.to_string(), "tok", 2.) }
        check(ix.get_doc_frequency("tok") == n as i64, "the document frequency is the number of documents of the token");
        let k = concrete(range(3));
        let r = [0, n / 2, n][k as usize].to_string();
        let add = flag();
        if add { ix.add_token(&r, "tok", 3.) } else { ix.remove_token(&r, "tok") }
        let want = if add { n as i64 + if k == 2 { 1 } else { 0 } } else { n as i64 - if k == 2 { 0 } else { 1 } };
        check(ix.get_doc_frequency("tok") == want, "the document frequency is the number of documents of the token");
        check(ix.get_term_frequency(&r, "tok") == if add { 3. } else { 0. }, "each with the weight of its latest addition");
        check(ix.get_term_frequency(&(n - 1).to_string(), "tok") == 2., "each with the weight of its latest addition");
    }
    h_c10_long |n, c, e, d| {
        let mut ix = InvertedIndex::new();
        let mut h = Vec::new();
        let base = "xy".repeat(n as usize / 2);
        for i in 0..3u64 {
            let mut t = base[..(n as usize / 4) * (i as usize + 1)].to_string();
            t.push(one_of(&['x', 'y', 'é']));
            let o = Op { add: i != 2 || flag(), token: t, doc: one_of(&D).to_string(), w: i as f64 + 1. };
            apply(&mut ix, &o);
            h.push(o)
        }
        for i in 0..3 { let mut t = base[..(n as usize / 4) * (i + 1)].to_string(); probe(&ix, &h, &t, "1"); t.push('y'); probe(&ix, &h, &t, "2") }
    }
    // tokens with any character of Unicode, next to a token that differs in one character
    h_c10_char |from, n, c, d| {
        let mut ix = InvertedIndex::new();
        let x = any_char(from, n);
        let y = one_of(&['a', 'é', '中', '😀']);
        let mk = |a: char, b: char| -> String { ['t', a, b].iter().collect() };
        let toks = [mk(x, 'k'), mk(y, 'k'), mk('k', x)];
        let mut h = Vec::new();
        for (i, t) in toks.iter().enumerate() { let o = Op { add: true, token: t.clone(), doc: if i == 1 { "1" } else { "2" }.to_string(), w: i as f64 + 1. }; apply(&mut ix, &o); h.push(o) }
        let o = Op { add: false, token: mk(x, 'k'), doc: "2".to_string(), w: 0. };
        apply(&mut ix, &o);
        h.push(o);
        let mut q = toks[concrete(range(3)) as usize].clone();
        if flag() { q.pop(); }
        probe(&ix, &h, &q, "2");
    }
}
