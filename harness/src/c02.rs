//! English processing of arbitrary Unicode: no panic, well-formed results.
use crate::api::*;
use crate::tables::*;
use crate::util::*;
use elasticlunr::{lang, Language, Pipeline};

const TAILS: &[&str] = &["", "s", "es", "sses", "ies", "eed", "ed", "ing", "ion", "sion", "y", "e", "ll", "ational", "izer", "eli", "ness", "ement", "ate", "ed ing", "bled", "ated", "ized", "tion", "er", "ical"];

fn stage() -> Pipeline { lang::English::new().make_pipeline() }
fn stem_stage(p: &Pipeline, w: String) {
    let r = p.queue[2].filter(w.clone());
    observe_opt(&r);
    match r {
        None => check(false, "stemming keeps the token"),
        Some(r) => {
            check(std::str::from_utf8(r.as_bytes()).is_ok(), "the stem is well-formed UTF-8");
            check(w.is_empty() || !r.is_empty(), "the stem of a non-empty token is not empty");
            let mut src = w.chars().filter(|c| !c.is_ascii());
            for c in r.chars() { if !c.is_ascii() { match src.next() { Some(d) => check(c == d, "the stem's non-ASCII characters are a prefix of the token's"), None => check(false, "the stem has no new non-ASCII character") } } }
            reach(1);
        }
    }
}
fn text(p: &Pipeline, t: &str) {
    let l = lang::English::new();
    let out = p.run(l.tokenize(t));
    for s in &out {
        check(!s.is_empty(), "no empty token comes out of the pipeline");
        check(std::str::from_utf8(s.as_bytes()).is_ok(), "every token is well-formed UTF-8");
        reach(2);
    }
    observe_all(&out);
}
harnesses! {
    // n characters of the mixed alphabet and a suffix: the stemming stage alone
    h_c02_stem |n, from, cnt, d| { let p = stage();
        let k = from + concrete(range(cnt));
        let mut w = word(&MIXED_EN, n);
        w.push_str(TAILS[k as usize]);
        stem_stage(&p, w)
    }
    h_c02_stem_small |n, from, cnt, d| { let p = stage();
        let k = from + concrete(range(cnt));
        let mut w = word(&MIXED_SMALL, n);
        w.push_str(TAILS[k as usize]);
        stem_stage(&p, w)
    }
    // text of n characters, tokenized and run through the whole pipeline
    h_c02_text |n, tail, c, d| { let p = stage();
        let mut w = word(&MIXED_EN, n);
        w.push_str(TAILS[tail as usize]);
        text(&p, &w)
    }
    // every Unicode character around English suffixes
    h_c02_char |from, n, shape, d| { let p = stage();
        let c = any_char(from, n);
        let k = concrete(range(TAILS.len() as u64)) as usize;
        let mut w = String::new();
        match shape { 0 => { w.push(c) } 1 => { w.push('a'); w.push(c) } 2 => { w.push('o'); w.push(c); w.push(c) } _ => { w.push('s'); w.push(c); w.push('a'); } }
        w.push_str(TAILS[k]);
        if d == 0 { stem_stage(&p, w) } else { text(&p, &w) }
    }
    // a token of `from` to `from + n` bytes around an offset: a run of a, é, 中 or 😀, then a tail and perhaps a letter
    h_c02_size |from, n, c, d| { let p = stage();
        let len = (from + concrete(range(n))) as usize;
        let mut w = "abcd"[..concrete(range(4)) as usize].to_string();
        let fill = ['a', 'b', 'é', '中', '😀'][concrete(range(5)) as usize];
        while w.len() + fill.len_utf8() <= len { w.push(fill) }
        w.push_str(["", "y", "eed", "ied", "ying", "ational", "sses", "éa", "ééa"][concrete(range(9)) as usize]);
        if d == 0 { stem_stage(&p, w) } else { text(&p, &w) }
    }
    // a very long run of one letter (deep recursion, quadratic copies)
    h_c02_long |n, b, c, d| { let p = stage();
        let mut w = String::new();
        w.push(one_of(&['a', 'b']));
        for _ in 0..n { w.push('y') }
        w.push_str("ed");
        stem_stage(&p, w)
    }
}
