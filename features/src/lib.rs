//! The crate under different sets of cargo features, side by side.
#![allow(clippy::all)]
#[path = "../../harness/src/api.rs"]
pub mod api;
#[macro_use]
#[path = "../../harness/src/util.rs"]
pub mod util;
use api::*;
use util::*;

/// Code and name of every language but English; number k + 1 decides the sets it is in.
pub const LANGUAGES: [(&str, &str); 18] = [("ar", "Arabic"), ("zh", "Chinese"), ("da", "Danish"), ("du", "Dutch"), ("fi", "Finnish"), ("fr", "French"), ("de", "German"), ("hu", "Hungarian"), ("it", "Italian"), ("ja", "Japanese"),
    ("ko", "Korean"), ("no", "Norwegian"), ("pt", "Portuguese"), ("ro", "Romanian"), ("ru", "Russian"), ("es", "Spanish"), ("sv", "Swedish"), ("tr", "Turkish")];
fn enabled(set: u64, k: usize) -> bool {
    if cfg!(not(feature = "cjk")) && (LANGUAGES[k].0 == "zh" || LANGUAGES[k].0 == "ja") { return false }
    match set { 0 => false, 1..=5 => (k + 1) >> (set - 1) & 1 == 1, 6..=10 => (k + 1) >> (set - 6) & 1 == 0, _ => true }
}
type Made = (Vec<String>, Box<dyn Fn(&str) -> Vec<String>>);
/// What one build of the crate says.
pub struct Build {
    by_code: fn(&str) -> Option<(String, String)>,
    by_name: fn(&str) -> Option<(String, String)>,
    all: fn() -> Vec<(String, String)>,
    /// the language's stages, and what gives the tokens of a text
    make: fn(&str) -> Option<Made>,
    /// the index, without its version, of one document and the text's tokens
    index: fn(Option<&str>, &str) -> String,
    filter: fn(u64, &str) -> Option<String>,
}
macro_rules! builds {
    ($($e:ident)*) => {
        $(mod $e {
            use ::$e::lang::{self, Language, common::{RegexTrimmer, StopWordFilter}};
            use ::$e::pipeline::PipelineFn;
            pub fn by_code(c: &str) -> Option<(String, String)> { lang::from_code(c).map(|l| (l.code(), l.name())) }
            pub fn by_name(c: &str) -> Option<(String, String)> { lang::from_name(c).map(|l| (l.code(), l.name())) }
            pub fn all() -> Vec<(String, String)> { lang::languages().iter().map(|l| (l.code(), l.name())).collect() }
            pub fn make(code: &str) -> Option<super::Made> {
                let l = lang::from_code(code)?;
                let p = l.make_pipeline();
                Some((p.queue.iter().map(|f| f.name()).collect(), Box::new(move |t| p.run(l.tokenize(t)))))
            }
            pub fn index(code: Option<&str>, t: &str) -> String {
                let mut ix = match code { None => ::$e::Index::new(&["a", "b"]), Some(c) => ::$e::Index::with_language(lang::from_code(c).unwrap(), &["a", "b"]) };
                ix.add_doc("1", &[t, "Two words"]);
                ix.add_doc("2", &["zebra", t]);
                ix.to_json()
            }
            pub fn filter(kind: u64, t: &str) -> Option<String> {
                if kind == 0 { RegexTrimmer::new("t", "a-z").filter(t.into()) } else { StopWordFilter::new("s", &["ab", "b"]).filter(t.into()) }
            }
            pub const BUILD: super::Build = super::Build { by_code, by_name, all, make, index, filter };
        })*
        pub static BUILDS: [Build; 13] = [$($e::BUILD),*];
    };
}
builds! { e0 e1 e2 e3 e4 e5 e6 e7 e8 e9 e10 e11 e12 }
const LETTERS: [char; 24] = ['a', 'd', 'e', 'f', 'h', 'i', 'j', 'k', 'n', 'o', 'p', 'r', 's', 't', 'u', 'v', 'z', 'w', 'N', 'E', 'b', 'l', 'g', 'c'];
fn pair(p: &(String, String), want: (&str, &str)) -> bool { p.0 == want.0 && p.1 == want.1 }
fn alphabet(code: &str) -> [char; 8] {
    match code {
        "ru" => ['н', 'О', 'ы', ' ', '-', 'а', 'е', '.'], "ar" => ['\u{622}', '\u{628}', '\u{650}', ' ', 'ا', 'ل', 'a', '.'], "ko" => ['한', '글', ' ', 'a', '은', '이', '.', '-'],
        "tr" => ['ı', 'e', 'l', 'İ', ' ', '.', 'r', 'ş'], "hu" => ['ő', 'a', 'z', 'é', ' ', '.', 'n', 'K'], _ => ['e', 'n', 's', 'R', ' ', '-', '.', 'É'],
    }
}
/// The same language in the build `set` and in the one with everything, both warmed up.
fn both(code: &str, set: u64) -> (Made, Made) {
    let (a, b) = ((BUILDS[set as usize].make)(code).unwrap(), (BUILDS[11].make)(code).unwrap());
    for c in alphabet(code) { for x in ["", "a", "é"] { for y in ["", "a", "é"] { let t = format!("{}{}{}", x, c, y); (a.1)(&t); (b.1)(&t); } } }
    (a, b)
}
macro_rules! harnesses {
    ($($name:ident |$a:ident, $b:ident, $c:ident, $d:ident| $body:block)*) => {
        $(#[allow(unused_variables)]
        pub fn $name($a: u64, $b: u64, $c: u64, $d: u64) $body)*
        #[cfg(feature = "sym")]
        mod exported { $(#[no_mangle] pub extern "C" fn $name(a: u64, b: u64, c: u64, d: u64) { super::$name(a, b, c, d) })* }
        #[cfg(not(feature = "sym"))]
        pub fn lookup(name: &str) -> Option<fn(u64, u64, u64, u64)> { $(if name == stringify!($name) { return Some($name) })* None }
    };
}
harnesses! {
    // a code of n arbitrary letters
    h_c25_code |set, n, c, d| {
        let s = word(&LETTERS, n);
        let low = s.to_ascii_lowercase();
        let got = (BUILDS[set as usize].by_code)(&s);
        let mut want = if low == "en" { Some(("en", "English")) } else { None };
        for k in 0..18 { if low == LANGUAGES[k].0 && enabled(set, k) { want = Some(LANGUAGES[k]) } }
        reach(if want.is_some() { 1 } else { 2 });
        match (got, want) {
            (Some(g), Some(w)) => check(pair(&g, w), "the code gives its language"),
            (None, None) => {}
            (None, _) => check(false, "a language whose feature is on is found by its code"),
            _ => check(false, "a language whose feature is off is not found by its code"),
        }
    }
    h_c25_name |set, c, d, e| {
        let k = concrete(range(19)) as usize;
        let (l, on) = if k == 18 { (("en", "English"), true) } else { (LANGUAGES[k], enabled(set, k)) };
        for (f, s) in [(BUILDS[set as usize].by_code, l.0), (BUILDS[set as usize].by_name, l.1)] {
            let got = f(s);
            check(got.is_some() == on, "a language is found exactly when its feature is on");
            if let Some(g) = got { check(pair(&g, l), "the name gives its language") }
        }
        let all = (BUILDS[set as usize].all)();
        let times = all.iter().filter(|g| pair(g, l)).count();
        check(times == on as usize, "a language is listed exactly when its feature is on");
        check(all.len() == 1 + (0..18).filter(|&k| enabled(set, k)).count(), "no other languages are listed");
        reach(3);
    }
    // an index in English
    h_c25_english |set, n, how, d| {
        let c = if how == 0 { None } else { Some("en") };
        let t = word(&['t', 'h', 'e', 'S', ' ', '-', '.', 'É'], n);
        let a = (BUILDS[set as usize].index)(c, &t);
        let b = (BUILDS[11].index)(c, &t);
        observe_str(&a);
        check_eq(&a, &b, "an index in English is the same whatever features are on");
        reach(4);
    }
    // every character in English
    h_c25_char |set, from, n, d| {
        let c = any_char(from, n);
        let (x, y) = ((BUILDS[set as usize].make)("en").unwrap(), (BUILDS[11].make)("en").unwrap());
        for v in [vec![c, 'q'], vec!['q', c, 's', ' ', c]] {
            let t: String = v.into_iter().collect();
            let a = (x.1)(&t);
            observe_all(&a);
            check_list(&a, &(y.1)(&t), "an English text has the same tokens whatever features are on");
        }
    }
    // an index in another language
    h_c25_lang |set, k, n, d| {
        let code = LANGUAGES[k as usize].0;
        let (x, y) = both(code, set);
        let t = word(&alphabet(code), n);
        let (a, b) = ((x.1)(&t), (y.1)(&t));
        observe_all(&a);
        check_list(&x.0, &y.0, "a language's stages are the same whatever other features are on");
        check_list(&a, &b, "a language's tokens are the same whatever other features are on");
        if d == 1 { check_eq(&(BUILDS[set as usize].index)(Some(code), &t), &(BUILDS[11].index)(Some(code), &t), "an index is the same whatever other features are on") }
        reach(5);
    }
    // the building blocks
    h_c25_blocks |set, n, c, d| {
        let b = &BUILDS[set as usize];
        for c in ['a', 'b', '.', 'A'] { for x in ["", "a", ".", ".a", "a."] { for y in ["", "a", ".", ".a", "a."] { (b.filter)(0, &format!("{}{}{}", x, c, y)); (BUILDS[11].filter)(0, &format!("{}{}{}", x, c, y)); } } }
        let t = word(&['a', 'b', '.', 'A'], n);
        for k in 0..2 { check_opt(&(b.filter)(k, &t), &(BUILDS[11].filter)(k, &t), "trimmers and stop-word filters are the same whatever features are on") }
        reach(6);
    }
}
