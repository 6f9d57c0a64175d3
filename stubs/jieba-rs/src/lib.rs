//! Stands for jieba-rs while the crate under test is checked: any segmentation is possible.  `PLAN` (set by a
//! harness) lists the pieces search mode without the hidden Markov model finds in any text, as byte ranges.  Every
//! other mode gives the whole text, so that taking another one shows.
use std::io::BufRead;
pub static mut PLAN: Option<Vec<(usize, usize)>> = None;
pub fn plan(p: Option<Vec<(usize, usize)>>) { unsafe { PLAN = p } }
fn pieces<'a>(s: &'a str, hit: bool) -> Vec<&'a str> {
    let p = std::ptr::addr_of!(PLAN);
    match unsafe { &*p } { Some(v) if hit => v.iter().map(|&(a, b)| &s[a..b]).collect(), _ => if s.is_empty() { vec![] } else { vec![s] } }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("error") } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TokenizeMode { Default, Search }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Token<'a> { pub word: &'a str, pub start: usize, pub end: usize }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Tag<'a> { pub word: &'a str, pub tag: &'a str }
/// A dictionary other than the default one finds nothing.
#[derive(Debug, Clone)]
pub struct Jieba { default: bool }
impl Default for Jieba { fn default() -> Self { Jieba { default: true } } }
impl Jieba {
    pub fn empty() -> Self { Jieba { default: false } }
    pub fn new() -> Self { Jieba { default: true } }
    pub fn with_dict<R: BufRead>(_: &mut R) -> Result<Self, Error> { Ok(Self::empty()) }
    pub fn add_word(&mut self, _: &str, freq: Option<usize>, _: Option<&str>) -> usize { self.default = false; freq.unwrap_or(1) }
    pub fn load_dict<R: BufRead>(&mut self, _: &mut R) -> Result<(), Error> { self.default = false; Ok(()) }
    pub fn suggest_freq(&self, _: &str) -> usize { 1 }
    pub fn cut<'a>(&self, s: &'a str, _: bool) -> Vec<&'a str> { pieces(s, false) }
    pub fn cut_all<'a>(&self, s: &'a str) -> Vec<&'a str> { pieces(s, false) }
    pub fn cut_for_search<'a>(&self, s: &'a str, hmm: bool) -> Vec<&'a str> { pieces(s, self.default && !hmm) }
    pub fn tokenize<'a>(&self, s: &'a str, mode: TokenizeMode, hmm: bool) -> Vec<Token<'a>> {
        pieces(s, self.default && mode == TokenizeMode::Search && !hmm).into_iter().map(|word| { let a = word.as_ptr() as usize - s.as_ptr() as usize; let start = s[..a].chars().count(); Token { word, start, end: start + word.chars().count() } }).collect()
    }
    pub fn tag<'a>(&'a self, s: &'a str, _: bool) -> Vec<Tag<'a>> { pieces(s, false).into_iter().map(|word| Tag { word, tag: "x" }).collect() }
}
