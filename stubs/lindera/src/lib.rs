//! Stands for lindera while the crate under test is checked: any segmentation and any details are possible.
//! `PLAN` (set by a harness) lists what the decomposing mode with its default penalties finds in any text: byte
//! ranges and details.  Other configurations give the whole text as a noun, so that taking another one shows.
pub mod error { pub use lindera_core::error::*; }
pub mod mode { pub use lindera_core::viterbi::{Mode, Penalty}; }
pub type LinderaResult<T> = Result<T, error::LinderaError>;
pub mod tokenizer {
    use crate::{error::*, mode::*, LinderaResult};
    use std::path::PathBuf;
    pub static mut PLAN: Option<Vec<(usize, usize, Vec<String>)>> = None;
    pub fn plan(p: Option<Vec<(usize, usize, Vec<String>)>>) { unsafe { PLAN = p } }
    #[derive(Debug, Clone, PartialEq)]
    pub enum DictionaryKind { IPADIC }
    impl std::str::FromStr for DictionaryKind { type Err = LinderaError; fn from_str(s: &str) -> Result<Self, LinderaError> { if s == "ipadic" { Ok(DictionaryKind::IPADIC) } else { Err(LinderaError) } } }
    #[derive(Debug, Clone, PartialEq)]
    pub enum DictionarySourceType { Csv, Binary }
    #[derive(Debug, Clone, PartialEq)]
    pub struct DictionaryConfig { pub kind: DictionaryKind, pub path: Option<PathBuf> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct UserDictionaryConfig { pub kind: DictionaryKind, pub source_type: DictionarySourceType, pub path: PathBuf }
    pub const SUPPORTED_DICTIONARY_KIND: &[&str] = &["ipadic"];
    pub const DEFAULT_DICTIONARY_KIND: &str = "ipadic";
    #[derive(Clone, Debug)]
    pub struct Token<'a> { pub text: &'a str, pub detail: Vec<String> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct TokenizerConfig { pub dictionary: DictionaryConfig, pub user_dictionary: Option<UserDictionaryConfig>, pub mode: Mode }
    impl Default for TokenizerConfig { fn default() -> Self { TokenizerConfig { dictionary: DictionaryConfig { kind: DictionaryKind::IPADIC, path: None }, user_dictionary: None, mode: Mode::Normal } } }
    #[derive(Clone)]
    pub struct Tokenizer { expected: bool }
    impl Tokenizer {
        pub fn with_config(c: TokenizerConfig) -> LinderaResult<Tokenizer> { Ok(Tokenizer { expected: c == TokenizerConfig { mode: Mode::Decompose(Default::default()), ..Default::default() } }) }
        pub fn tokenize<'a>(&self, text: &'a str) -> LinderaResult<Vec<Token<'a>>> {
            let p = std::ptr::addr_of!(PLAN);
            Ok(match unsafe { &*p } {
                Some(v) if self.expected => v.iter().map(|(a, b, d)| Token { text: &text[*a..*b], detail: d.clone() }).collect(),
                _ => if text.is_empty() { vec![] } else { vec![Token { text, detail: vec!["名詞".into()] }] },
            })
        }
        pub fn tokenize_str<'a>(&self, text: &'a str) -> LinderaResult<Vec<&'a str>> { Ok(self.tokenize(text)?.into_iter().map(|t| t.text).collect()) }
    }
}
