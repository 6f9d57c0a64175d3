//! DocumentStore histories.
use crate::api::*;
use crate::util::*;
use elasticlunr::document_store::DocumentStore;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq)]
enum Len { Known(usize), Unclear }
#[derive(Default)]
struct Model { docs: Vec<(String, BTreeMap<String, String>)>, lens: Vec<(String, String, Option<Len>)> }
impl Model {
    fn has(&self, r: &str) -> bool { self.docs.iter().any(|d| d.0 == r) }
    fn len(&self, r: &str, f: &str) -> Len {
        if !self.has(r) { return Len::Known(0) }
        self.lens.iter().find(|x| x.0 == r && x.1 == f).map_or(Len::Known(0), |x| x.2.clone().unwrap_or(Len::Known(0)))
    }
}
const REFS: [&str; 3] = ["1", "é", ""];
const FIELDS: [&str; 2] = ["t", "b"];
fn op(s: &mut DocumentStore, m: &mut Model, save: bool, refs: &[&str], i: u64) {
    let r = refs[concrete(range(refs.len() as u64)) as usize];
    match concrete(range(4)) {
        0 | 1 => {
            let mut d = BTreeMap::new();
            d.insert("id".to_string(), r.to_string());
            if flag() { let mut t = String::new(); t.push(one_of(&['x', 'y', '"'])); t.push((b'0' + i as u8) as char); d.insert("t".to_string(), t); }
            s.add_doc(r, d.clone());
            m.docs.retain(|x| x.0 != r);
            m.docs.push((r.to_string(), if save { d } else { BTreeMap::new() }));
        }
        2 => {
            s.remove_doc(r);
            let was = m.has(r);
            m.docs.retain(|x| x.0 != r);
            // recorded for a document that was not there: removing it may or may not forget the length
            if was { m.lens.retain(|x| x.0 != r) } else { for x in &mut m.lens { if x.0 == r { x.2 = Some(Len::Unclear) } } }
        }
        _ => {
            let f = FIELDS[concrete(range(2)) as usize];
            let n = 10 + i as usize;
            s.add_field_length(r, f, n);
            m.lens.retain(|x| !(x.0 == r && x.1 == f));
            m.lens.push((r.to_string(), f.to_string(), Some(Len::Known(n))));
        }
    }
}
fn verify(s: &DocumentStore, m: &Model, save: bool, refs: &[&str]) {
    check(s.len() == m.docs.len(), "len is the number of documents");
    check(s.length == m.docs.len(), "the serialized length is the number of documents");
    check(s.is_empty() == m.docs.is_empty(), "is_empty means no documents");
    check(s.is_stored() == save, "the saving mode does not change");
    for r in refs {
        check(s.has_doc(r) == m.has(r), "exactly the documents added and not removed are present");
        match (s.get_doc(r), m.docs.iter().find(|d| d.0 == *r)) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                check(a.len() == b.1.len(), "a document reads back as last stored");
                for (k, v) in &b.1 { match a.get(k) { Some(x) => check(x == v, "a document reads back as last stored"), None => check(false, "a document reads back as last stored") } }
            }
            _ => check(false, "a document can be read if and only if it is present"),
        }
        for f in ["t", "b", "nofield"] {
            let g = s.get_field_length(r, f);
            if let Len::Known(w) = m.len(r, f) { reach(if w == 0 { 1 } else { 2 }); check(g == w, "the field length is the last one recorded since the last removal") }
        }
    }
    observe(&[s.len() as u8, s.length as u8]);
}
fn history(k: u64, nrefs: usize) {
    let save = flag();
    let mut s = DocumentStore::new(save);
    let mut m = Model::default();
    for i in 0..k { op(&mut s, &mut m, save, &REFS[..nrefs], i) }
    let mut refs = REFS[..nrefs].to_vec();
    refs.push("other");
    verify(&s, &m, save, &refs);
}
harnesses! {
    h_c11_history |k, nrefs, c, d| { history(k, nrefs as usize) }
    // one or two arbitrary operations in a store of n documents
    h_c11_large |n, k, c, d| {
        let save = flag();
        let mut s = DocumentStore::new(save);
        let mut m = Model::default();
        let names: Vec<String> = (0..n).map(|i| format!("d{}", i)).collect();
        for (i, r) in names.iter().enumerate() {
            let mut d = BTreeMap::new();
            d.insert("t".to_string(), format!("text {}", i));
            s.add_field_length(r, "t", i);
            s.add_doc(r, d.clone());
            m.docs.push((r.clone(), if save { d } else { BTreeMap::new() }));
            m.lens.push((r.clone(), "t".into(), Some(Len::Known(i))));
        }
        let refs = [names[0].as_str(), names[n as usize / 2].as_str(), names[n as usize - 1].as_str(), "new"];
        for i in 0..k { op(&mut s, &mut m, save, &refs, i) }
        verify(&s, &m, save, &refs);
    }
    // references and field names with arbitrary characters
    h_c11_names |from, n, c, d| {
        let mut s = DocumentStore::new(true);
        let x = any_char(from, n);
        let a: String = ['a', x].iter().collect();
        let b: String = [x, 'a'].iter().collect();
        let same = a == b;
        let mut da = BTreeMap::new();
        da.insert(a.clone(), b.clone());
        s.add_doc(&a, da);
        let (long, short) = (wide() as usize, wide() as usize);
        s.add_field_length(&a, &b, long);
        s.add_doc(&b, BTreeMap::new());
        s.add_field_length(&b, &a, short);
        reach(3);
        check(s.len() == if same { 1 } else { 2 }, "documents are told apart by their exact reference");
        check(s.get_field_length(&b, &a) == short, "field lengths are kept per exact reference and field");
        check(s.get_field_length(&a, &b) == if same { short } else { long }, "field lengths are kept per exact reference and field");
        s.remove_doc(&b);
        check(s.has_doc(&a) == !same && !s.has_doc(&b), "only the given document is removed");
        if !same { match s.get_doc(&a) { Some(d) => check(d.len() == 1 && d.get(&a) == Some(&b), "a document reads back as stored"), None => check(false, "the other document is still there") } }
    }
}
