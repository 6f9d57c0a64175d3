//! Pipeline::run with arbitrary stages.
use crate::api::*;
use crate::util::*;
use elasticlunr::pipeline::{FnWrapper, Pipeline, PipelineFn};
use std::cell::RefCell;
use std::rc::Rc;

/// What a stage does to a token depends on the token's first character only, in an arbitrary way.
#[derive(Clone, Copy)]
struct Act(u8);
fn act(a: Act, t: &str) -> Option<String> {
    match a.0 {
        0 => Some(t.to_string()),
        1 => None,
        2 => { let mut s = t.to_string(); s.push('x'); Some(s) }
        3 => { let mut s = String::from("b"); s.push_str(t); Some(s) }
        4 => Some(String::new()),
        _ => { let mut s = String::from("a"); s.push_str(t); Some(s) }
    }
}
const ACTS: u64 = 6;
struct Stage { id: usize, a: Act, b: Act, log: Rc<RefCell<Vec<(usize, String)>>> }
impl Stage { fn apply(&self, t: &str) -> Option<String> { act(if t.starts_with('a') { self.a } else { self.b }, t) } }
impl PipelineFn for Stage {
    fn name(&self) -> String { String::from("s") }
    fn filter(&self, token: String) -> Option<String> {
        self.log.borrow_mut().push((self.id, token.clone()));
        self.apply(&token)
    }
}
fn reference(stages: &[(Act, Act)], tokens: &[String]) -> (Vec<String>, Vec<(usize, String)>) {
    let mut out = Vec::new();
    let mut log = Vec::new();
    for t in tokens {
        let mut cur = Some(t.clone());
        for (i, (a, b)) in stages.iter().enumerate() {
            if let Some(t) = &cur {
                log.push((i, t.clone()));
                let n = act(if t.starts_with('a') { *a } else { *b }, t);
                cur = n;
            }
        }
        if let Some(t) = cur { out.push(t) }
    }
    (out, log)
}
fn run(stages: Vec<(Act, Act)>, tokens: Vec<String>, with_log: bool) {
    let log = Rc::new(RefCell::new(Vec::new()));
    let queue: Vec<Box<dyn PipelineFn>> = stages.iter().enumerate().map(|(id, (a, b))| Box::new(Stage { id, a: *a, b: *b, log: log.clone() }) as Box<dyn PipelineFn>).collect();
    let (want, wlog) = reference(&stages, &tokens);
    let r = Pipeline { queue }.run(tokens);
    observe_all(&r);
    reach(want.len().min(5) as u32);
    check_list(&r, &want, "the pipeline returns the surviving tokens, fully processed, in order");
    if with_log {
        // calls per token must come in stage order; tokens are independent of each other
        let got = log.borrow();
        check(got.len() == wlog.len(), "each stage is called once per surviving token and never for a dropped one");
        for id in 0..stages.len() {
            let a: Vec<&String> = got.iter().filter(|x| x.0 == id).map(|x| &x.1).collect();
            let b: Vec<&String> = wlog.iter().filter(|x| x.0 == id).map(|x| &x.1).collect();
            check(a.len() == b.len(), "each stage sees exactly the tokens that reach it");
            if a.len() == b.len() { for i in 0..a.len() { check(a[i] == b[i], "each stage sees the tokens as the earlier stages left them") } }
        }
    }
}
fn any_act(n: u64) -> Act { Act(concrete(range(n)) as u8) }
fn up(t: String) -> Option<String> { if t.len() > 2 { None } else { let mut s = t; s.push('u'); Some(s) } }
fn id(t: String) -> Option<String> { Some(t) }
harnesses! {
    // k stages, n tokens; every stage does anything to tokens that start with a and anything to the others
    h_c05_run |k, n, acts, d| {
        let mut st = Vec::new();
        for _ in 0..k { st.push((any_act(acts), any_act(acts))) }
        let mut toks = Vec::new();
        for _ in 0..n { let mut s = String::new(); if flag() { s.push(one_of(&['a', 'b', 'é'])) } toks.push(s) }
        run(st, toks, true)
    }
    // many stages, few tokens
    h_c05_deep |k, n, special, d| {
        let mut st = Vec::new();
        let at = if d == 0 { between(0, k - 1) } else { [0, k / 2, k - 1][concrete(range(3)) as usize] };
        for i in 0..k { st.push(if i == at { (any_act(ACTS), any_act(ACTS)) } else { (Act(0), Act((special % 2 * 2) as u8)) }) }
        let mut toks = Vec::new();
        for _ in 0..n { toks.push(word(&['a', 'b'], 1)) }
        run(st, toks, true)
    }
    // many tokens, few stages: one arbitrary token among n
    h_c05_wide |n, k, c, d| {
        let mut st = Vec::new();
        for i in 0..k { st.push(if i == 0 { (any_act(ACTS), Act(0)) } else { (Act(0), any_act(3)) }) }
        let at = between(0, 3) * (n - 1) / 3;
        let mut toks = Vec::new();
        for i in 0..n { let mut s = String::new(); s.push(if i == at { one_of(&['a', 'b', 'c']) } else { 'b' }); s.push((b'0' + (i % 10) as u8) as char); toks.push(s) }
        run(st, toks, false)
    }
    // plain functions as stages, and the empty pipeline
    h_c05_fn |n, len, c, d| {
        let q = concrete(range(4));
        let mut queue: Vec<Box<dyn PipelineFn>> = Vec::new();
        if q & 1 != 0 { queue.push(Box::new(FnWrapper("up".into(), up))) }
        if q & 2 != 0 { queue.push(Box::new(FnWrapper("id".into(), id))); queue.push(Box::new(FnWrapper("up".into(), up))) }
        let mut toks = Vec::new();
        let mut want = Vec::new();
        for _ in 0..n {
            let l = between(0, len);
            let t = word(&['a', 'é', '😀'], l);
            let mut cur = Some(t.clone());
            if q & 1 != 0 { cur = cur.and_then(up) }
            if q & 2 != 0 { cur = cur.and_then(up) }
            if let Some(x) = cur { want.push(x) }
            toks.push(t);
        }
        let r = Pipeline { queue }.run(toks);
        observe_all(&r);
        reach(6);
        check_list(&r, &want, "function stages are applied in order");
    }
    // tokens of arbitrary characters: n of them from the block hi, between two others
    h_c05_token |n, hi, c, d| {
        let st = vec![(Act(0), Act(2)), (any_act(ACTS), Act(if flag() { 2 } else { 1 }))];
        let st = if flag() { st } else { st.into_iter().rev().collect() };
        let mut t = String::new();
        for _ in 0..n { t.push(if n == 1 { block_char(hi as u32) } else { one_of(&[' ', '\0', '\t', '\n', '-', '0', 'A', 'z', '_', '\u{feff}', '\u{a0}', '字']) }) }
        run(st, vec![String::from("b"), t, String::from("c")], true)
    }
}
