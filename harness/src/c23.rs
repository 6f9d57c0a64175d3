//! Chinese and Japanese: tokens from any segmentation, trimmers, stop words.
use crate::api::*;
use crate::c06::{alpha, case, char_case, in_ranges, trim, warmed, Alpha, Ch};
use crate::c12::{add, lang_model, strings};
use crate::langs::*;
use crate::model::Doc;
use crate::util::*;
use elasticlunr::{lang, Index, Language};

const ASCII_AN: &[(u32, u32)] = &[(0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a)];
const TWO: [Lang; 2] = [
    Lang { code: "zh", name: "Chinese", scripts: &[UNIFIED_IDEOGRAPH, LATIN], stop: &["的", "了"], algo: None },
    Lang { code: "ja", name: "Japanese", scripts: &[ASCII_AN, HIRAGANA, KATAKANA, UNIFIED_IDEOGRAPH], stop: &[], algo: None },
];
const MIX: [char; 28] = ['a', 'Z', 'é', '7', '中', '〇', '々', '〆', 'ー', 'あ', 'ゝ', 'ア', 'ｱ', '・', '。', '的', '了', '한', '.', '😀', '\u{20000}', '㐀', '豈', '﨎', 'Ａ', '゛', '\u{323af}', '𛀀'];
const SHORT: [char; 8] = ['a', '7', '的', '了', 'あ', '。', ' ', '㐀'];
/// Drops what the segmenter says is a particle, an auxiliary verb, a symbol or unknown.
fn kept(d: &[String]) -> bool { match d.first() { Some(f) => !(f == "助詞" || f == "助動詞" || f == "記号" || f == "UNK"), None => true } }
fn stop(l: &Lang, t: &str) -> bool { l.stop.iter().any(|s| *s == t) }
/// What the pipeline makes of tokens.
fn piped(l: &Lang, toks: &[Vec<Ch>]) -> Vec<String> { toks.iter().filter_map(|t| trim(t)).filter(|t| !stop(l, t)).collect() }
/// Any `m` pieces of a text: byte ranges between characters, and the pieces.
fn pieces(text: &[Ch], m: u64) -> (Vec<(usize, usize)>, Vec<Vec<Ch>>) {
    let mut at = vec![0];
    for c in text { at.push(at[at.len() - 1] + c.c.len_utf8()) }
    let (mut p, mut t) = (Vec::new(), Vec::new());
    for _ in 0..m {
        let a = between(0, text.len() as u64) as usize;
        let b = between(a as u64, text.len() as u64) as usize;
        p.push((at[a], at[b]));
        t.push(text[a..b].to_vec())
    }
    (p, t)
}
fn plan(li: u64, p: &[(usize, usize)], details: &[Vec<String>]) {
    jieba_rs::plan(None);
    lindera::tokenizer::plan(None);
    if li == 0 { jieba_rs::plan(Some(p.to_vec())) } else { lindera::tokenizer::plan(Some(p.iter().zip(details).map(|(x, d)| (x.0, x.1, d.clone())).collect())) }
}
fn string(t: &[Ch]) -> String { t.iter().map(|c| c.c).collect() }
fn any(a: &Alpha, n: u64) -> Vec<Ch> { let mut w = Vec::new(); for _ in 0..n { w.push(a.any()) } w }
/// Some details a token may have; the first one is the part of speech.
fn details() -> Vec<String> {
    strings([&[][..], &["助詞", "格助詞"], &["助動詞"], &["記号", "句点"], &["UNK"], &["名詞", "助詞"], &["助詞類接続"], &["接続詞", "UNK"], &["unk"], &[""]][concrete(range(10)) as usize])
}
fn language(li: u64) -> Box<dyn Language> { lang::from_code(TWO[li as usize].code).unwrap() }
harnesses! {
    h_c23_trim |li, n, c, d| {
        let l = &TWO[li as usize];
        let a = alpha(l, &MIX);
        let p = warmed(l, &MIX);
        case(&p, &any(&a, n))
    }
    h_c23_short |li, n, c, d| {
        let l = &TWO[li as usize];
        let a = alpha(l, &SHORT);
        let p = warmed(l, &SHORT);
        case(&p, &any(&a, n))
    }
    h_c23_char |from, n, li, d| { char_case(&TWO[li as usize], from, n, d) }
    // the stop-word stage: exactly the two words
    h_c23_stop |n, c, d, e| {
        let p = language(0).make_pipeline();
        let t = ['的', '了', '\u{7683}', '\u{4e87}', '人', 'a', '白', '勺', ' '];
        let s = word(&t, n);
        let r = p.queue[1].filter(s.clone());
        observe_opt(&r);
        let drop = stop(&TWO[0], &s);
        reach(if drop { 4 } else { 5 });
        check_opt(&r, &if drop { None } else { Some(s) }, "exactly the two stop words are dropped");
    }
    h_c23_stopchar |from, n, c, d| {
        let p = language(0).make_pipeline();
        let s: String = [any_char(from, n)].iter().collect();
        let r = p.queue[1].filter(s.clone());
        observe_opt(&r);
        check_opt(&r, &if stop(&TWO[0], &s) { None } else { Some(s) }, "exactly the two stop words are dropped");
    }
    // the last stage changes nothing
    h_c23_last |from, n, li, d| {
        let p = language(li).make_pipeline();
        let x = any_char(from, n);
        let s: String = ['a', x, '。', x].iter().collect();
        let r = p.queue[p.queue.len() - 1].filter(s.clone());
        observe_opt(&r);
        check_opt(&r, &Some(s), "the last stage changes nothing");
    }
    // the whole pipeline on several tokens
    h_c23_pipe |li, n, k, d| {
        let l = &TWO[li as usize];
        let a = alpha(l, &SHORT);
        let p = warmed(l, &SHORT);
        let toks: Vec<Vec<Ch>> = (0..k).map(|_| { let n = between(0, n); any(&a, n) }).collect();
        let got = p.run(toks.iter().map(|t| string(t)).collect());
        observe_all(&got);
        reach(6);
        check_list(&got, &piped(l, &toks), "trimmed tokens are kept in order, without emptied ones and stop words");
    }
    // any text of n characters and any m pieces of it
    h_c23_tokens |li, n, m, d| {
        let l = &TWO[li as usize];
        let a = alpha(l, &['A', 'é', '的', 'あ', ' ', '😀', '。', '-']);
        let text = any(&a, n);
        let (p, t) = pieces(&text, m);
        let ds: Vec<Vec<String>> = (0..m).map(|_| if li == 0 { vec![] } else { details() }).collect();
        plan(li, &p, &ds);
        let got = language(li).tokenize(&string(&text));
        observe_all(&got);
        let want: Vec<String> = (0..m as usize).filter(|&i| li == 0 || kept(&ds[i])).map(|i| string(&t[i])).collect();
        reach(if want.len() < m as usize { 7 } else { 8 });
        check_list(&got, &want, "the tokens are the segmenter's, in order and unchanged, without the dropped parts of speech");
        plan(li, &[], &[]);
        check(language(li).tokenize(&string(&text)).is_empty(), "no pieces, no tokens");
    }
    // a part of speech of n arbitrary characters
    h_c23_pos |n, c, d, e| {
        let s = word(&['助', '詞', '動', '記', '号', 'U', 'N', 'K', ' ', '名'], n);
        let other = if flag() { "助詞" } else { "名詞" };
        let ds = vec![s, other.to_string()];
        plan(1, &[(0, 3)], &[ds.clone()]);
        let got = language(1).tokenize("あい");
        observe_all(&got);
        reach(if kept(&ds) { 9 } else { 10 });
        check_list(&got, &if kept(&ds) { strings(&["あ"]) } else { vec![] }, "exactly particles, auxiliary verbs, symbols and unknown words are dropped");
    }
    // the whole index
    h_c23_index |li, n, m, d| {
        let l = &TWO[li as usize];
        let a = alpha(l, &SHORT);
        warmed(l, &SHORT);
        let mut ix = Index::with_language(language(li), &["t"]);
        let text = any(&a, n);
        let (p, t) = pieces(&text, m);
        let ds: Vec<Vec<String>> = (0..m).map(|_| if li == 0 { vec![] } else { details() }).collect();
        plan(li, &p, &ds);
        let t: Vec<Vec<Ch>> = (0..m as usize).filter(|&i| li == 0 || kept(&ds[i])).map(|i| t[i].clone()).collect();
        let doc = Doc { r: "1".into(), values: vec![(string(&text), piped(l, &t))] };
        let mut model = lang_model(&*language(li), &["t"]);
        add(&mut ix, &doc);
        model.docs.push(doc);
        reach(11);
        let got = ix.to_json();
        observe_str(&got);
        crate::model::check_json(&got, &model.json(), "the index holds exactly the kept tokens");
    }
    // the scripts of the trimmers
    h_c23_names |a, b, c, d| {
        let k = concrete(range(2));
        let names: Vec<String> = language(k).make_pipeline().queue.iter().map(|s| s.name()).collect();
        check_list(&names, &if k == 0 { strings(&["trimmer-zh", "stopWordFilter-zh", "stemmer-zh"]) } else { strings(&["trimmer-ja", "stemmer-ja"]) }, "the stages are the language's");
        check(in_ranges(TWO[0].scripts, '中' as u32), "tables");
    }
}
