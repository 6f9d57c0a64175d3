//! Search configurations.
use crate::api::*;
use crate::json::quote;
use crate::util::*;
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use std::collections::BTreeMap;

fn any_bool() -> SearchBool { if flag() { SearchBool::And } else { SearchBool::Or } }
fn any_field() -> SearchOptionsField {
    SearchOptionsField { boost: if flag() { Some(range(256) as u8) } else { None }, bool: if flag() { Some(any_bool()) } else { None }, expand: if flag() { Some(flag()) } else { None } }
}
fn b(x: SearchBool) -> &'static str { match x { SearchBool::Or => "\"OR\"", SearchBool::And => "\"AND\"" } }
fn t(x: bool) -> &'static str { if x { "true" } else { "false" } }
fn write(o: &SearchOptions) -> String {
    let mut s = String::from("{\"bool\":");
    s.push_str(b(o.bool));
    s.push_str(",\"expand\":");
    s.push_str(t(o.expand));
    s.push_str(",\"fields\":{");
    for (i, (k, f)) in o.fields.iter().enumerate() {
        if i > 0 { s.push(',') }
        quote(&mut s, k);
        s.push_str(":{");
        let mut first = true;
        let mut put = |k: &str, v: &str, s: &mut String| { if !first { s.push(',') } first = false; quote(s, k); s.push(':'); s.push_str(v) };
        if let Some(x) = f.boost { let v = x; let mut d = String::new(); if v >= 100 { d.push((b'0' + v / 100) as char) } if v >= 10 { d.push((b'0' + v / 10 % 10) as char) } d.push((b'0' + v % 10) as char); put("boost", &d, &mut s) }
        if let Some(x) = f.bool { put("bool", b(x), &mut s) }
        if let Some(x) = f.expand { put("expand", t(x), &mut s) }
        s.push('}')
    }
    s.push_str("}}");
    s
}
fn case(o: SearchOptions) {
    match serde_json::to_string(&o) {
        Ok(s) => {
            observe_str(&s);
            crate::model::check_json(&s, &write(&o), "a configuration serializes to exactly the options that are set");
            match serde_json::from_str::<SearchOptions>(&s) { Ok(back) => check(back == o, "parsing gives back an equal configuration"), Err(_) => check(false, "the serialized configuration parses") }
            if let Ok(s) = serde_json::to_string_pretty(&o) { match serde_json::from_str::<SearchOptions>(&s) { Ok(back) => check(back == o, "parsing gives back an equal configuration"), Err(_) => check(false, "the serialized configuration parses") } }
        }
        Err(_) => check(false, "every configuration serializes"),
    }
}
harnesses! {
    // k fields; the options the first of them sets are given by `set` (8: any)
    h_c18_fields |k, set, c, d| {
        let mut fields = BTreeMap::new();
        for i in 0..k {
            let f = any_field();
            if i == 0 && set < 8 { assume(f.boost.is_some() == (set & 1 != 0) && f.bool.is_some() == (set & 2 != 0) && f.expand.is_some() == (set & 4 != 0)) }
            fields.insert(["title", "body", "x"][i as usize].to_string(), f);
        }
        if k == 0 { reach(1) } else { reach(2) }
        case(SearchOptions { bool: any_bool(), expand: flag(), fields })
    }
    h_c18_names |n, k, c, d| {
        let mut fields = BTreeMap::new();
        for i in 0..k {
            let n = between(0, n);
            let w = word(&['"', '\\', '\n', '\0', 'a', 'é', '/', '😀'], n);
            fields.insert(w, SearchOptionsField { boost: Some(i as u8), ..Default::default() });
        }
        case(SearchOptions { fields, ..Default::default() })
    }
    h_c18_char |from, n, c, d| {
        let x: String = ['x', any_char(from, n)].iter().collect();
        let mut fields = BTreeMap::new();
        fields.insert(x, SearchOptionsField { expand: Some(flag()), ..Default::default() });
        case(SearchOptions { fields, ..Default::default() })
    }
    h_c18_defaults |a, b, c, d| {
        let o = SearchOptions::default();
        check(o.bool == SearchBool::Or && !o.expand && o.fields.is_empty(), "defaults are OR, not expanded, no field");
        check(SearchBool::default() == SearchBool::Or, "the default is OR");
        let f = SearchOptionsField::default();
        check(f.boost.is_none() && f.bool.is_none() && f.expand.is_none(), "nothing is set by default");
        let x = any_field();
        let text = serde_json::to_string(&x).unwrap();
        observe_str(&text);
        check(serde_json::from_str::<SearchOptionsField>(&text).ok() == Some(x), "a field's options survive the round trip");
        let y = any_bool();
        check(serde_json::to_string(&y).unwrap() == super::c18::b(y), "OR or AND");
        reach(3);
    }
    // many fields
    h_c18_many |n, b, c, d| {
        let mut fields = BTreeMap::new();
        for i in 0..n { fields.insert(format!("f{}", i), if i == n / 2 && n < 256 { any_field() } else { SearchOptionsField { boost: Some(i as u8), bool: if i % 2 == 0 { Some(SearchBool::And) } else { None }, expand: if i % 3 == 0 { Some(i % 2 == 1) } else { None } } }); }
        case(SearchOptions { bool: any_bool(), expand: flag(), fields })
    }
}
