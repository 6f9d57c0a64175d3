//! What an index must look like, written down independently of the implementation.
use crate::api::*;
use crate::json::*;

#[derive(Default)]
pub struct Node { docs: Vec<(String, f64)>, children: Vec<(char, Node)> }
impl Node {
    fn child(&mut self, c: char) -> &mut Node {
        let mut i = 0;
        while i < self.children.len() && self.children[i].0 < c { i += 1 }
        if i == self.children.len() || self.children[i].0 != c { self.children.insert(i, (c, Node::default())) }
        &mut self.children[i].1
    }
    pub fn add(&mut self, token: &str, doc: &str, w: f64) {
        let mut n = self;
        for c in token.chars() { n = n.child(c) }
        let mut i = 0;
        while i < n.docs.len() && n.docs[i].0.as_str() < doc { i += 1 }
        if i < n.docs.len() && n.docs[i].0 == doc { n.docs[i].1 = w } else { n.docs.insert(i, (doc.to_string(), w)) }
    }
    pub fn write(&self, o: &mut String) {
        o.push_str("{\"docs\":{");
        for (i, (d, w)) in self.docs.iter().enumerate() {
            if i > 0 { o.push(',') }
            quote(o, d);
            o.push_str(":{\"tf\":");
            o.push_str(&number(*w));
            o.push('}')
        }
        o.push_str("},\"df\":");
        o.push_str(&self.docs.len().to_string());
        for (c, n) in &self.children {
            o.push(',');
            let mut k = String::new();
            k.push(*c);
            quote(o, &k);
            o.push(':');
            n.write(o)
        }
        o.push('}')
    }
}
pub fn number(w: f64) -> String { let mut s = w.to_string(); if !s.contains('.') { s.push_str(".0") } s }
fn object(o: &mut String, m: &[(String, String)]) {
    let mut v: Vec<&(String, String)> = Vec::new();
    for x in m { let mut i = 0; while i < v.len() && v[i].0 < x.0 { i += 1 } v.insert(i, x) }
    o.push('{');
    for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } quote(o, &x.0); o.push(':'); o.push_str(&x.1) }
    o.push('}')
}
fn q(s: &str) -> String { let mut o = String::new(); quote(&mut o, s); o }

pub struct Model { pub fields: Vec<String>, pub stages: Vec<String>, pub refname: String, pub save: bool, pub lang: String, pub docs: Vec<Doc> }
/// A document: for each of the first fields, its text and the tokens that text gives.
pub struct Doc { pub r: String, pub values: Vec<(String, Vec<String>)> }
impl Model {
    pub fn root(&self, f: usize) -> Node {
        let mut root = Node::default();
        for d in &self.docs { if f < d.values.len() && self.fields[f] != self.refname {
            let mut seen: Vec<(&str, u64)> = Vec::new();
            'tok: for t in &d.values[f].1 {
                if t.is_empty() { continue }
                for s in &mut seen { if s.0 == t { s.1 += 1; continue 'tok } }
                seen.push((t, 1))
            }
            for (t, n) in seen { root.add(t, &d.r, (n as f64).sqrt()) }
        } }
        root
    }
    /// The serialized index.
    pub fn json(&self) -> String {
        let mut o = String::from("{\"fields\":[");
        for (i, f) in self.fields.iter().enumerate() { if i > 0 { o.push(',') } quote(&mut o, f) }
        o.push_str("],\"pipeline\":[");
        for (i, f) in self.stages.iter().enumerate() { if i > 0 { o.push(',') } quote(&mut o, f) }
        o.push_str("],\"ref\":");
        quote(&mut o, &self.refname);
        o.push_str(",\"version\":\"0.9.5\",\"index\":");
        let roots: Vec<(String, String)> = (0..self.fields.len()).map(|i| { let mut r = String::from("{\"root\":"); self.root(i).write(&mut r); r.push('}'); (self.fields[i].clone(), r) }).collect();
        object(&mut o, &roots);
        o.push_str(",\"documentStore\":{\"save\":");
        o.push_str(if self.save { "true" } else { "false" });
        o.push_str(",\"docs\":");
        // a reference used again replaces the stored document
        let last: Vec<&Doc> = self.docs.iter().enumerate().filter(|(i, d)| self.docs[i + 1..].iter().all(|e| e.r != d.r)).map(|x| x.1).collect();
        let docs: Vec<(String, String)> = last.iter().map(|d| {
            let mut m = Vec::new();
            if self.save { m.push((self.refname.clone(), q(&d.r))); for (i, v) in d.values.iter().enumerate() { if self.fields[i] != self.refname { m.push((self.fields[i].clone(), q(&v.0))) } } }
            let mut r = String::new();
            object(&mut r, &m);
            (d.r.clone(), r)
        }).collect();
        object(&mut o, &docs);
        o.push_str(",\"docInfo\":");
        let info: Vec<(String, String)> = last.iter().filter_map(|d| {
            let mut m: Vec<(String, String)> = Vec::new();
            for (i, f) in self.fields.iter().enumerate() { if *f != self.refname { if let Some(x) = self.docs.iter().filter(|e| e.r == d.r && e.values.len() > i).last() { m.push((f.clone(), x.values[i].1.len().to_string())) } } }
            if m.is_empty() { return None }
            let mut r = String::new();
            object(&mut r, &m);
            Some((d.r.clone(), r))
        }).collect();
        object(&mut o, &info);
        o.push_str(",\"length\":");
        o.push_str(&last.len().to_string());
        o.push_str("},\"lang\":");
        quote(&mut o, &self.lang);
        o.push('}');
        o
    }
}
/// The same text, or (members in another order) the same value.
pub fn check_json(got: &str, want: &str, msg: &str) {
    if got == want { return }
    match (parse(got), parse(want)) { (Some(a), Some(b)) => check(same(&a, &b), msg), _ => check(false, msg) }
}
