//! The order in which documents are added.
use crate::api::*;
use crate::c12::{add, CODES, FIELDS, REFS};
use crate::model::Doc;
use crate::testlang::TestLang;
use crate::util::*;
use elasticlunr::{lang, Index, IndexBuilder};

const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
const ALPHA: [char; 4] = ['a', 'd', '+', 'é'];
fn docs(k: u64, f: u64, n: u64) -> Vec<Doc> {
    (0..k).map(|i| Doc { r: REFS[i as usize].to_string(), values: (0..f).map(|_| { let n = between(0, n); (word(&ALPHA, n), Vec::new()) }).collect() }).collect()
}
fn build(f: u64, docs: &[Doc], order: &[usize]) -> String {
    let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&FIELDS[..f as usize]).build();
    for &i in order { add(&mut ix, &docs[i]) }
    ix.to_json()
}
harnesses! {
    // k documents with f fields of up to n characters, added in two orders
    h_c15_orders |k, f, n, d| {
        let ds = docs(k, f, n);
        let base: Vec<usize> = (0..k as usize).collect();
        let mut left = base.clone();
        let mut o = Vec::new();
        while !left.is_empty() { let i = concrete(range(left.len() as u64)) as usize; o.push(left.remove(i)) }
        let (a, b) = (build(f, &ds, &base), build(f, &ds, &o));
        observe_str(&a);
        reach(1);
        check(a == b, "the index does not depend on the order of the documents");
    }
    // documents that leave out their last fields; odd field names
    h_c15_partial |k, n, c, d| {
        let ds: Vec<Doc> = (0..k).map(|i| Doc { r: REFS[i as usize].to_string(), values: (0..between(if n == 0 { 0 } else { d }, 3)).map(|_| { let n = between(0, n); (word(&ALPHA, n), Vec::new()) }).collect() }).collect();
        let names = [["b", "a", "c"], ["", " ", "a\""], ["id ", "ID", "docs"]][c as usize];
        let mk = |o: &[usize]| { let mut ix = IndexBuilder::with_language(Box::new(TestLang)).add_fields(&names).build(); for &i in o { add(&mut ix, &ds[i]) } ix.to_json() };
        let base: Vec<usize> = (0..k as usize).collect();
        let mut left = base.clone();
        let mut o = Vec::new();
        while !left.is_empty() { let i = concrete(range(left.len() as u64)) as usize; o.push(left.remove(i)) }
        reach(4);
        check(mk(&base) == mk(&o), "the index does not depend on the order of the documents");
    }
    // the same index twice
    h_c15_twice |k, f, n, d| {
        let ds = docs(k, f, n);
        let base: Vec<usize> = (0..k as usize).collect();
        reach(2);
        check(build(f, &ds, &base) == build(f, &ds, &base), "building the same index twice gives the same bytes");
    }
    // references with arbitrary characters
    h_c15_refs |n, b, c, d| {
        let t = ['0', '1', 'a', '-', 'é'];
        let mut ds = docs(3, 1, 0);
        for i in 0..3 { let l = if i == 0 { n } else { between(0, n) }; ds[i].r = word(&t, l); ds[i].values[0].0 = ["a+", "+d", "aaé"][i].to_string() }
        assume(ds[0].r != ds[1].r && ds[0].r != ds[2].r && ds[1].r != ds[2].r);
        let o = ORDERS[(1 + concrete(range(5))) as usize];
        reach(3);
        check(build(1, &ds, &[0, 1, 2]) == build(1, &ds, &o), "the index does not depend on the order of the documents");
    }
    // many documents: two of them change places
    h_c15_many |n, b, c, d| {
        let n = n as usize;
        let ds: Vec<Doc> = (0..n).map(|i| Doc { r: format!("{}", i * 7 % 10007), values: vec![(if i == 3 { word(&ALPHA, 2) } else { ["ab+", "d", "", "aae"][i % 4].to_string() }, Vec::new())] }).collect();
        let (x, y) = (concrete(range(4)) as usize * (n - 1) / 3, concrete(range(4)) as usize * (n - 1) / 3);
        let base: Vec<usize> = (0..n).collect();
        let mut o = base.clone();
        o.swap(x, y);
        if flag() { o.reverse() }
        check(build(1, &ds, &base) == build(1, &ds, &o), "the index does not depend on the order of the documents");
    }
    // the languages of the crate
    h_c15_lang |li, n, c, d| {
        let code = CODES[li as usize];
        let mk = |o: &[usize], ds: &[(String, String)]| { let mut ix = Index::with_language(lang::from_code(code).unwrap(), &["t"]); for &i in o { ix.add_doc(&ds[i].0, &[ds[i].1.as_str()]) } ix.to_json() };
        let ds: Vec<(String, String)> = (0..2).map(|i| (REFS[i].to_string(), { let mut s = word(&['R', 'ы', ' ', 's'], n); s.push_str(" word words"); s })).collect();
        check(mk(&[0, 1], &ds) == mk(&[1, 0], &ds), "the index does not depend on the order of the documents");
    }
}
