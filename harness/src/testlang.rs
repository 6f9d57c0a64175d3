//! A language whose tokens the harness can steer: every character of the text is a token.
use elasticlunr::pipeline::FnWrapper;
use elasticlunr::{Language, Pipeline};

pub struct TestLang;
fn drop_d(t: String) -> Option<String> { if t == "d" { None } else { Some(t) } }
fn map_e(t: String) -> Option<String> { Some(if t == "e" { "ab".to_string() } else { t }) }
impl Language for TestLang {
    fn name(&self) -> String { "Test \"language\"".into() }
    fn code(&self) -> String { "xx".into() }
    /// A space is an empty token, "+" the two-character token "ab".
    fn tokenize(&self, text: &str) -> Vec<String> { text.chars().map(|c| if c == ' ' { String::new() } else if c == '+' { "ab".to_string() } else { c.to_string() }).collect() }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(FnWrapper("drop-d".into(), drop_d)), Box::new(FnWrapper("map\\e".into(), map_e))] } }
}
pub fn stages() -> Vec<String> { vec!["drop-d".to_string(), "map\\e".to_string()] }
pub const NAME: &str = "Test \"language\"";
/// The tokens of a text after the pipeline.
pub fn tokens(text: &str) -> Vec<String> { finish(TestLang.tokenize(text)) }
pub fn finish(raw: Vec<String>) -> Vec<String> { raw.into_iter().filter(|t| t != "d").map(|t| if t == "e" { "ab".to_string() } else { t }).collect() }
