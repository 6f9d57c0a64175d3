//! Reading JSON: only the value counts, and nothing makes it panic.
use crate::api::*;
use crate::json::{self, Value};
use crate::util::*;
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::{Index, IndexBuilder};
use serde::de::DeserializeOwned;
use serde::Serialize;

fn escape(o: &mut String, s: &str, esc: u64) {
    if esc == 0 { return json::quote(o, s) }
    o.push('"');
    for c in s.chars() {
        if esc == 1 || c < ' ' || c == '"' || c == '\\' { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str("\\u"); for i in [12, 8, 4, 0] { o.push(b"0123456789aBcDeF"[(*u >> i & 15) as usize] as char) } } }
        else if c == '/' { o.push_str("\\/") }
        else { o.push(c) }
    }
    o.push('"')
}
/// The same value, written differently.
pub struct Style { pub order: u64, pub space: u64, pub esc: u64, pub num: u64 }
impl Style {
    fn gap(&self, o: &mut String) { o.push_str(["", " ", "\r\n\t "][self.space as usize]) }
    fn write(&self, o: &mut String, key: &str, v: &Value) {
        match v {
            Value::Null => o.push_str("null"),
            Value::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Value::Num(x) => {
                let whole = *x == x.trunc();
                if key != "tf" { o.push_str(&(*x as i64).to_string()) }
                else if self.num == 1 && whole { o.push_str(&(*x as i64).to_string()) }
                else if self.num == 2 && whole { o.push_str(&(*x as i64).to_string()); o.push_str("0E-1") }
                else { o.push_str(&format!("{:?}", x)) }
            }
            Value::Str(s) => escape(o, s, self.esc),
            Value::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } self.gap(o); self.write(o, "", x); self.gap(o) }
                o.push(']')
            }
            Value::Obj(v) => {
                o.push('{');
                for i in 0..v.len() {
                    let (k, x) = &v[match self.order { 0 => i, 1 => v.len() - 1 - i, _ => (i + 1) % v.len() }];
                    if i > 0 { o.push(',') }
                    self.gap(o);
                    escape(o, k, self.esc);
                    self.gap(o);
                    o.push(':');
                    self.gap(o);
                    self.write(o, k, x);
                    self.gap(o)
                }
                o.push('}')
            }
        }
    }
}
fn read<T: DeserializeOwned>(text: &str, mode: u64) -> Option<T> {
    match mode {
        0 => serde_json::from_str(text).ok(),
        1 => serde_json::from_slice(text.as_bytes()).ok(),
        2 => serde_json::from_reader(text.as_bytes()).ok(),
        _ => serde_json::from_str::<serde_json::Value>(text).ok().and_then(|v| serde_json::from_value(v).ok()),
    }
}
fn alike<T: DeserializeOwned + Serialize>(x: &T, order: u64, mode: u64) {
    let text = match serde_json::to_string(x) { Ok(t) => t, Err(_) => { check(false, "everything serializes"); return } };
    observe_str(&text);
    let v = match json::parse(&text) { Some(v) => v, None => { check(false, "the text is JSON"); return } };
    let st = Style { order, space: concrete(range(3)), esc: concrete(range(3)), num: concrete(range(3)) };
    let mut other = String::new();
    st.gap(&mut other);
    st.write(&mut other, "", &v);
    st.gap(&mut other);
    reach(1);
    match read::<T>(&other, mode) {
        Some(y) => check(serde_json::to_string(&y).ok() == Some(text), "a text for the same JSON value is read alike"),
        None => check(false, "a text for the same JSON value is read"),
    }
}
const A: [char; 6] = ['a', '/', 'é', '"', ' ', '😀'];
fn an_index(t: &str, u: &str) -> Index {
    let mut ix = IndexBuilder::new().add_fields(&["b", "a/"]).set_ref("é").build();
    ix.add_doc("2", &[t, "xq/ xq xq xq/ xq xq"]);
    ix.add_doc("\u{1}1", &["", u]);
    ix
}
fn a_store(t: &str) -> DocumentStore {
    let mut s = DocumentStore::new(flag());
    for r in ["1", t] { let mut d = std::collections::BTreeMap::new(); d.insert("t".to_string(), t.to_string()); d.insert(t.to_string(), "text".to_string()); s.add_doc(r, d); s.add_field_length(r, "t", 70000); s.add_field_length(r, t, 2) }
    s
}
fn an_inverted(t: &str) -> InvertedIndex {
    let mut ix = InvertedIndex::new();
    ix.add_token("1", t, 4.);
    ix.add_token(t, "a/", 0.25);
    ix.add_token("1", "df", 4096.);
    ix
}
fn a_config(t: &str) -> SearchOptions {
    let mut o = SearchOptions { bool: if flag() { SearchBool::And } else { SearchBool::Or }, ..Default::default() };
    o.fields.insert(t.to_string(), SearchOptionsField { boost: Some(200), bool: Some(SearchBool::And), expand: Some(false) });
    o.fields.insert("x".into(), SearchOptionsField { boost: None, bool: None, expand: Some(true) });
    o
}
/// The text with one place damaged.
fn damage(text: &str, op: u64, at: usize) -> Option<Vec<u8>> {
    let b = text.as_bytes();
    if at >= b.len() { return None }
    let mut v = b[..at].to_vec();
    match op {
        0 | 1 => {
            let x = range(256) as u8;
            // numbers are read with arithmetic on the digits
            let digit = |i: usize| b.get(i).map_or(false, |c| c.is_ascii_digit() || matches!(c, b'.' | b'-'));
            let near = digit(at) || op == 1 && at > 0 && digit(at - 1) || at > 0 && b[at - 1] == b':' || digit(at + 1);
            v.push(if near { concrete(x as u64) as u8 } else { x });
            v.extend_from_slice(&b[at + 1 - op as usize..])
        }
        2 => {}
        _ => v.extend_from_slice(&b[at + 1..]),
    }
    Some(v)
}
fn damaged<T: DeserializeOwned + Serialize>(x: &T, op: u64, from: u64, n: u64) {
    let text = serde_json::to_string(x).unwrap();
    let at = from + concrete(range(n));
    let v = match damage(&text, op, at as usize) { Some(v) => v, None => return };
    let r = serde_json::from_slice::<T>(&v);
    if op == 2 { reach(2); check(r.is_err(), "a text that breaks off is refused"); return }
    match r {
        Err(_) => reach(3),
        Ok(y) => {
            reach(4);
            let again = match serde_json::to_string(&y) { Ok(t) => t, Err(_) => { check(false, "what was read serializes"); return } };
            observe_str(&again);
            match serde_json::from_str::<T>(&again) { Ok(z) => check(serde_json::to_string(&z).ok() == Some(again), "what was read from a damaged text survives the round trip"), Err(_) => check(false, "what was read from a damaged text survives the round trip") }
        }
    }
}
harnesses! {
    // the same value in another order, with other white space, escapes and numerals, read in each way
    h_c26_alike |kind, order, mode, n| {
        let t = word(&A, n);
        match kind { 0 => { let u = word(&A, n / 2); alike(&an_index(&t, &u), order, mode) } 1 => alike(&a_store(&t), order, mode), 2 => alike(&an_inverted(&t), order, mode), _ => alike(&a_config(&t), order, mode) }
    }
    // damaged at positions from .. from + n: a byte replaced, inserted, the rest cut off, a byte lost
    h_c26_damaged |kind, op, from, n| {
        match kind { 0 => { let mut ix = Index::new(&["b"]); ix.add_doc("1", &["xq xé"]); damaged(&ix, op, from, n) } 1 => damaged(&{ let mut s = DocumentStore::new(true); s.add_field_length("é", "t", 12); s.add_doc("é", Default::default()); s }, op, from, n), 2 => damaged(&an_inverted("é"), op, from, n),
            _ => { let mut o = SearchOptions::default(); o.fields.insert("é".into(), SearchOptionsField { boost: Some(200), bool: Some(SearchBool::And), expand: Some(false) }); damaged(&o, op, from, n) } }
    }
}
