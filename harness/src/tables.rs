//! Character tables used as input alphabets.
/// Printable ASCII without upper-case letters.
pub const PRINT_LOWER: [char; 69] = {
    let mut t = ['a'; 69];
    let mut i = 0;
    let mut c = 0x20u8;
    while c < 0x7f { if !(c >= b'A' && c <= b'Z') { t[i] = c as char; i += 1 } c += 1 }
    t
};
pub const ASCII: [char; 128] = {
    let mut t = ['a'; 128];
    let mut c = 0u8;
    while c < 128 { t[c as usize] = c as char; c += 1 }
    t
};
pub const LOWER: [char; 26] = {
    let mut t = ['a'; 26];
    let mut c = 0u8;
    while c < 26 { t[c as usize] = (b'a' + c) as char; c += 1 }
    t
};
/// Letters the English stemmer treats specially, other ASCII, and characters of every UTF-8 width: among them
/// characters whose last bytes are equal, the first and last of each width, and ones whose case mapping is special.
pub const MIXED_EN: [char; 46] = ['a', 'b', 'c', 'd', 'e', 'g', 'i', 'k', 'l', 'm', 'n', 'o', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '_', '-', ' ', '\'', '!', 'A', 'S', 'Z', '\0',
    '\u{7f}', '\u{80}', 'é', 'ß', 'İ', 'Σ', '\u{7ff}', '\u{800}', 'त', '\u{2003}', 'ﬁ', '\u{ffff}', '\u{10000}', '😀', '\u{1f40}', '\u{10ffff}'];
/// A smaller selection of the same.
pub const MIXED_SMALL: [char; 16] = ['a', 'e', 'i', 'l', 's', 't', 'y', 'b', '_', 'S', 'é', 'त', '\u{800}', '😀', '\u{10ffff}', '\u{7ff}'];
