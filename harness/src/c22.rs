//! References used again, and a field named like the reference field.
use crate::api::*;
use crate::c12::{add, test_model, FIELDS, REFS};
use crate::model::*;
use crate::testlang::{self, TestLang};
use crate::util::*;
use elasticlunr::{Index, IndexBuilder};

const A: [char; 4] = ['a', 'd', '+', ' '];
const MSG: &str = "an addition replaces the stored document, lengths and weights of its reference, and only those";
fn finish(ix: Index, m: &Model) { let got = ix.to_json(); observe_str(&got); check_json(&got, &m.json(), MSG) }
fn build(m: &Model) -> Index { IndexBuilder::with_language(Box::new(TestLang)).add_fields(&m.fields).set_ref(&m.refname).save_docs(m.save).build() }
fn any(n: u64) -> (String, Vec<String>) { let n = between(0, n); let t = word(&A, n); let k = testlang::tokens(&t); (t, k) }
harnesses! {
    // k additions under any of r references, f fields (the last ones may be left out), texts of up to n characters
    h_c22_again |k, r, f, n| {
        let mut m = test_model(f as usize);
        m.save = k != 2 || flag();
        let mut ix = build(&m);
        for _ in 0..k {
            let given = between(1, f);
            let d = Doc { r: REFS[concrete(range(r)) as usize].to_string(), values: (0..given).map(|_| any(n)).collect() };
            if m.docs.iter().any(|e| e.r == d.r) { reach(1) }
            add(&mut ix, &d);
            m.docs.push(d)
        }
        finish(ix, &m)
    }
    // one of the fields has the reference field's name: it is stored, but not indexed
    h_c22_reffield |k, at, n, d| {
        let names = ["b", "a", "c"];
        let mut m = test_model(3);
        m.fields = names.iter().map(|s| s.to_string()).collect();
        m.refname = names[at as usize].to_string();
        m.save = flag();
        let mut ix = build(&m);
        for i in 0..k {
            let r = REFS[i as usize % 2].to_string();
            let d = Doc { r: r.clone(), values: (0..3).map(|j| if j == at { (r.clone(), testlang::tokens(&r)) } else { any(n) }).collect() };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(2);
        finish(ix, &m)
    }
    // the same with an arbitrary text in that field, and nothing stored
    h_c22_reftext |n, c, d, e| {
        let mut m = test_model(2);
        m.refname = "a".into();
        m.save = false;
        let mut ix = build(&m);
        let d = Doc { r: "1".into(), values: vec![any(1), any(n)] };
        add(&mut ix, &d);
        m.docs.push(d);
        finish(ix, &m)
    }
    // n documents, then two more additions under any of some references
    h_c22_many |n, c, d, e| {
        let mut m = test_model(1);
        let mut ix = build(&m);
        for i in 0..n + 2 {
            let r = if i < n { i * 13 % n } else { concrete(range(5)) * n / 4 };
            let (t, k) = if i < n { let t = ["ab+", "d", "", "aae"][i as usize % 4].to_string(); let k = testlang::tokens(&t); (t, k) } else { any(1) };
            let d = Doc { r: format!("r{}", r), values: vec![(t, k)] };
            add(&mut ix, &d);
            m.docs.push(d)
        }
        reach(3);
        finish(ix, &m)
    }
}
