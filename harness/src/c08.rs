//! The Snowball languages: stage names, stemming, composition.
use crate::api::*;
use crate::c06::{alpha, in_ranges, trim, warmed, Ch};
use crate::langs::*;
use crate::util::*;
use rust_stemmers::Stemmer;

fn stems(l: &Lang) -> Stemmer { Stemmer::create(match l.algo { Some(a) => a, None => panic!("not a Snowball language") }) }
/// Letters that matter for the language's suffixes, and strangers.
fn alphabet(l: &Lang) -> Vec<char> {
    let s = match l.code {
        "da" => "aeiourstdnkglmøåæ", "du" => "aeioudtnsgkjhbrlèë", "fi" => "aeiounstklmjvhdäö", "fr" => "aeiouyntsmrxlqéèêç",
        "de" => "aeiousntrmhcgdkßäöü", "hu" => "aeiountlkbzvgsáéíóöőúü", "it" => "aeiourtnmlgsozcvàèìòù", "no" => "aeiourtsdnkglmvjøå",
        "pt" => "aeiousrmndtlçgvzãõáéíóêú", "ro" => "aeiulrtsmnzcvpăâîșțşţ", "ru" => "аеиоуыэюяьйщшнвлмтсё", "es" => "aeiousrndtmlzyáéíóúñü",
        "sv" => "aeiourstdnkglmhåäö", _ => "aeiıuüoölrnmdktyşçğbcps",
    };
    let mut v: Vec<char> = s.chars().collect();
    for c in ['x', 'A', '\'', '7', '中', '😀'] { v.push(c) }
    v
}
fn suffixes(l: &Lang) -> &'static [&'static str] {
    match l.code {
        "da" => &["", "erendes", "ethed", "elser", "ernes", "løst", "igst", "s"], "du" => &["", "heden", "lijk", "ingen", "baar", "ene", "isme"], "fi" => &["", "issa", "llansa", "taan", "immat", "eiden", "kaan", "seen"],
        "fr" => &["", "issements", "amment", "euses", "ives", "ation", "èrent", "ité", "eaux"], "de" => &["", "heiten", "ungen", "erisch", "lichkeit", "em", "st"], "hu" => &["", "okkal", "képpen", "ként", "eitek", "ába", "szal"],
        "it" => &["", "amente", "azione", "ivamente", "gliela", "ando", "issimo", "ità"], "no" => &["", "hetene", "ertes", "endes", "elovets", "legst"], "pt" => &["", "amente", "adoras", "ência", "ivas", "ássemos", "logías"],
        "ro" => &["", "abilitate", "ațiune", "urilor", "ească", "ivitate", "iilor"], "ru" => &["", "ностью", "вшись", "ейшая", "ться", "остью", "ывшие"], "es" => &["", "amientos", "aciones", "ándosela", "mente", "íamos", "yeron"],
        "sv" => &["", "heterna", "andes", "löst", "fullt", "ornas", "lig"], _ => &["", "larımız", "ndaki", "cesine", "lerdir", "nınki", "yken"],
    }
}
fn names(l: &Lang, p: &elasticlunr::Pipeline) {
    check(p.queue.len() == 3, "three stages");
    if p.queue.len() == 3 {
        check(p.queue[0].name() == format!("trimmer-{}", l.code), "the first stage is trimmer-xx");
        check(p.queue[1].name() == format!("stopWordFilter-{}", l.code), "the second stage is stopWordFilter-xx");
        check(p.queue[2].name() == format!("stemmer-{}", l.code), "the third stage is stemmer-xx");
    }
}
harnesses! {
    h_c08_stem |li, n, sfx, d| {
        let l = &LANGS[li as usize];
        let p = elasticlunr::lang::from_code(l.code).unwrap().make_pipeline();
        names(l, &p);
        let st = stems(l);
        let a = alphabet(l);
        let mut w = String::new();
        if d == 0 { w = word(&a, n) }
        if sfx != 0 { let k = concrete(range(suffixes(l).len() as u64)); w.push_str(suffixes(l)[k as usize]) }
        if d != 0 { w.push_str(&word(&a, n)) }
        let e = st.stem(&w).to_string();
        let r = p.queue[2].filter(w.clone());
        observe_opt(&r);
        reach(if e == w { 1 } else { 2 });
        check_opt(&r, &if e.is_empty() { None } else { Some(e) }, "the stemming stage returns the Snowball stem");
    }
    // the whole pipeline is trimming, then stop words, then stemming
    h_c08_all |li, n, sfx, d| {
        let l = &LANGS[li as usize];
        let t: [char; 7] = ['e', 's', '.', '7', 'é', 'и', 'н'];
        let p = warmed(l, &t);
        let st = stems(l);
        let a = alpha(l, &t);
        let mut toks = Vec::new();
        let mut want = Vec::new();
        for i in 0..2 {
            let mut w: Vec<Ch> = Vec::new();
            let g = |c: char| Ch { c, word: in_ranges(l.scripts, c as u32) };
            if i == 1 { w.push(g('.')) ; for c in "destи".chars() { w.push(g(c)) } }
            for _ in 0..(if i == 0 { n } else { d }) { w.push(a.any()) }
            toks.push(w.iter().map(|x| x.c).collect::<String>());
            if let Some(x) = trim(&w) {
                if !l.stop.iter().any(|s| *s == x) { let e = st.stem(&x).to_string(); if !e.is_empty() { want.push(e) } }
            }
        }
        let r = p.run(toks);
        observe_all(&r);
        reach(3);
        check_list(&r, &want, "the pipeline trims, drops stop words and stems, in this order");
    }
    // every Unicode character in a token: no stage panics
    h_c08_char |li, from, n, d| {
        let l = &LANGS[li as usize];
        let p = elasticlunr::lang::from_code(l.code).unwrap().make_pipeline();
        let st = stems(l);
        let x = any_char(from, n);
        let mut w = String::new();
        match d { 0 => { w.push(x) } 1 => { w.push('a'); w.push(x); w.push_str("es") } _ => { w.push_str("ва"); w.push(x); w.push(x); } }
        let e = st.stem(&w).to_string();
        let r = p.queue[2].filter(w);
        observe_opt(&r);
        reach(4);
        check_opt(&r, &if e.is_empty() { None } else { Some(e) }, "the stemming stage returns the Snowball stem");
    }
}
