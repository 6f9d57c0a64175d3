//! The part of lindera-core the crate under test uses.
pub mod error {
    #[derive(Debug)]
    pub struct LinderaError;
    impl std::fmt::Display for LinderaError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("error") } }
    impl std::error::Error for LinderaError {}
    pub type LinderaErrorKind = LinderaError;
}
pub type LinderaResult<T> = Result<T, error::LinderaError>;
pub mod viterbi {
    #[derive(Clone, Debug, PartialEq)]
    pub struct Penalty { pub kanji_penalty_length_threshold: usize, pub kanji_penalty_length_penalty: i32, pub other_penalty_length_threshold: usize, pub other_penalty_length_penalty: i32 }
    impl Default for Penalty { fn default() -> Self { Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 3000, other_penalty_length_threshold: 7, other_penalty_length_penalty: 1700 } } }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Mode { Normal, Decompose(Penalty) }
    impl Mode { pub fn is_search(&self) -> bool { matches!(self, Mode::Decompose(_)) } }
    impl std::str::FromStr for Mode { type Err = crate::error::LinderaError; fn from_str(s: &str) -> Result<Self, Self::Err> { match s { "normal" => Ok(Mode::Normal), "decompose" => Ok(Mode::Decompose(Penalty::default())), _ => Err(crate::error::LinderaError) } } }
}
