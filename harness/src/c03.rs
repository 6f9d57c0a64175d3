//! English trimmer and stop words.
use crate::api::*;
use crate::tables::*;
use crate::util::*;
use elasticlunr::{lang, Language, Pipeline};

/// The English stop words of elasticlunr.js 0.9.5.
pub const STOP: &[&str] = &[
    "", "a", "able", "about", "across", "after", "all", "almost", "also", "am", "among", "an", "and", "any", "are", "as",
    "at", "be", "because", "been", "but", "by", "can", "cannot", "could", "dear", "did", "do", "does", "either", "else", "ever",
    "every", "for", "from", "get", "got", "had", "has", "have", "he", "her", "hers", "him", "his", "how", "however", "i",
    "if", "in", "into", "is", "it", "its", "just", "least", "let", "like", "likely", "may", "me", "might", "most", "must",
    "my", "neither", "no", "nor", "not", "of", "off", "often", "on", "only", "or", "other", "our", "own", "rather", "said",
    "say", "says", "she", "should", "since", "so", "some", "than", "that", "the", "their", "them", "then", "there", "these", "they",
    "this", "tis", "to", "too", "twas", "us", "wants", "was", "we", "were", "what", "when", "where", "which", "while", "who",
    "whom", "why", "will", "with", "would", "yet", "you", "your",
];
fn word_char(c: char) -> bool { matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_') }
/// The token without the non-word characters at its ends.
fn trim(w: &[char]) -> String {
    let mut a = 0;
    let mut b = w.len();
    while a < b && !word_char(w[a]) { a += 1 }
    while b > a && !word_char(w[b - 1]) { b -= 1 }
    w[a..b].iter().collect()
}
fn is_stop(w: &str) -> bool { STOP.iter().any(|s| *s == w) }
fn two_stages() -> Pipeline { let mut p = lang::English::new().make_pipeline(); p.queue.truncate(2); p }
fn trim_case(p: &Pipeline, w: &[char]) {
    let s: String = w.iter().collect();
    let r = p.queue[0].filter(s);
    let e = trim(w);
    observe_opt(&r);
    reach(if e.is_empty() { 1 } else if e.len() == w.len() { 2 } else { 3 });
    check_opt(&r, &Some(e), "the trimmer removes exactly the characters outside [A-Za-z0-9_] at both ends");
}
fn stop_case(p: &Pipeline, s: String) {
    let r = p.queue[1].filter(s.clone());
    observe_opt(&r);
    let stop = is_stop(&s);
    reach(if stop { 4 } else { 5 });
    check_opt(&r, &if stop { None } else { Some(s) }, "exactly the stop words are dropped and other tokens are unchanged");
}
const MIX: [char; 24] = ['a', 'Z', 'm', '0', '9', '_', '.', '!', '-', '/', ':', '@', '[', '`', '{', '\u{7f}', 'é', 'ª', 'K', '٣', 'त', '１', '😀', '\u{1d7d8}'];
harnesses! {
    // every token of n characters of the mixed alphabet
    h_c03_trim |n, b, c, d| {
        let p = lang::English::new().make_pipeline();
        let mut w = Vec::new();
        for _ in 0..n { w.push(one_of(&MIX)) }
        trim_case(&p, &w)
    }
    // every Unicode character at the start, at the end and inside a token
    h_c03_char |from, n, c, d| {
        let p = lang::English::new().make_pipeline();
        let x = any_char(from, n);
        match concrete(range(6)) {
            0 => trim_case(&p, &[x]),
            1 => trim_case(&p, &[x, 'a']),
            2 => trim_case(&p, &['a', x]),
            3 => trim_case(&p, &['.', x, 'a', x, 'b', x, '.']),
            4 => trim_case(&p, &['.', x, '.']),
            _ => trim_case(&p, &['_', x, '0']),
        }
    }
    // long tokens: n junk, n word and n junk characters around arbitrary ones
    h_c03_trim_long |n, b, c, d| {
        let p = lang::English::new().make_pipeline();
        let mut w = Vec::new();
        for _ in 0..n { w.push('é') }
        w.push(one_of(&MIX));
        for _ in 0..n { w.push('.') }
        w.push(one_of(&MIX));
        for _ in 0..n { w.push('!') }
        trim_case(&p, &w)
    }
    // the stop-word stage on every ASCII token of n characters
    h_c03_stop |n, b, c, d| {
        let p = lang::English::new().make_pipeline();
        stop_case(&p, word(&ASCII, n))
    }
    // one arbitrary Unicode character in every position of every stop word, replacing or inserted
    h_c03_near |from, n, c, d| {
        let p = lang::English::new().make_pipeline();
        let w = STOP[concrete(range(STOP.len() as u64)) as usize];
        let x = any_char(from, n);
        let at = between(0, w.len() as u64) as usize;
        let mut s = w[..at].to_string();
        s.push(x);
        let skip = concrete(range(2)) as usize;
        if at + skip <= w.len() { s.push_str(&w[at + skip..]) }
        stop_case(&p, s)
    }
    // both stages on a list of tokens: order kept, nothing merged or duplicated
    h_c03_list |n, len, c, d| {
        let p = two_stages();
        let mut input = Vec::new();
        let mut want = Vec::new();
        for _ in 0..n {
            let l = between(0, len);
            let mut w = Vec::new();
            for _ in 0..l { w.push(one_of(&['a', 's', 'n', '.', 'é', 'o'])) }
            let t = trim(&w);
            if !is_stop(&t) { want.push(t) }
            input.push(w.iter().collect::<String>());
        }
        let r = p.run(input);
        observe_all(&r);
        reach(6);
        check_list(&r, &want, "the stages map the token list one by one, in order");
    }
}
