//! Small-scope enumeration below the level of tokens: every character, pair of characters, short name, damaged keyword.
use crate::reflex::{KEYWORDS, OPERATORS};

pub struct Family { pub n: u64, f: fn(u64) -> String, pub what: &'static str }

const NAME: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
const SEPS: [&str; 12] = ["", " ", "\t", "_", ".", "(", "\\\n", "\n", "#c\n", ",", "1", "'"];
const NUMBERS: [&str; 22] = ["1", "0", "00", "9_9", "1.", "0.", ".5", "1.5", "1.5_5", "1e5", "1E", "1e-", "1.e5", "0x1", "0xf_", "0X", "0b1", "0b", "0o7", "0o", "1j", "1_"];
const FRAMES: [(&str, &str); 12] = [("'", "'"), ("\"", "\""), ("'''", "'''"), ("\"\"\"", "\"\"\""), ("'\\", "'"), ("'''\\", "'''"), ("r'\\", "'"), ("b'a", "c' d"), ("f'", "'"), ("'", "\n"), ("'''", "''"), ("x'", "'y")];
const AROUND: [(&str, &str); 8] = [("a #", "\nb"), ("#", ""), ("# type:", "\n"), ("(a #", "\n)"), ("if a: #", "\n b\n"), ("a = b # type: ", "\nc"), ("\n  #", "\na"), ("a \\\n #", "\n")];
const BLANK: [&str; 14] = [" ", "\t", "\n", "\r", "\r\n", "\\\n", "\\\r\n", "\\\r", "#c", "# type: d", "a", "(", ")", "\x0c"];

const TOKENS: [&str; 12] = ["a", "1", "0x1", ".5", "'s'", "r'''s'''", "# type: t", "match", "_", "1.5e3j", "\n", "é"];
const BEFORE: [&str; 6] = ["", "a", "a\n", "(", "{[", "if a:\n  b"];
const TRIVIA: [&str; 8] = [" ", "\t", "  ", "\\\n", "\\\r\n", "\\\r", "#c\n", "\n"];
const INSIDE: [&str; 8] = ["(", "[", "{", "((", "[{(", "a\n", "a\n  ", "([{(("];
/// every token behind up to three trivia
fn behind(i: u64) -> String {
    let (k, i) = ((i % 95) as usize, i / 95);
    let tok = if k < 48 { OPERATORS[k].0 } else if k < 83 { KEYWORDS[k - 48].0 } else { TOKENS[k - 83] };
    let (b, i) = (BEFORE[(i % 6) as usize], i / 6);
    let w = if i < 8 { TRIVIA[i as usize].to_string() } else if i < 72 { let i = i - 8; format!("{}{}", TRIVIA[(i % 8) as usize], TRIVIA[(i / 8) as usize]) }
        else { let i = i - 72; format!("{}{}{}", TRIVIA[(i % 8) as usize], TRIVIA[(i / 8 % 8) as usize], TRIVIA[(i / 64) as usize]) };
    format!("{}{}{}", b, w, tok)
}
const BEHIND: u64 = 95 * 6 * 584;
fn every(i: u64) -> String { char::from_u32(i as u32).unwrap_or('\u{fffd}').to_string() }
fn named(mut i: u64) -> String {
    let (a, b) = (53u64, 63u64);
    let mut n = 0;
    while i >= a * b.pow(n) { i -= a * b.pow(n); n += 1 }
    let mut o = vec![NAME[(i % a) as usize]];
    i /= a;
    for _ in 0..n { o.push(NAME[(i % b) as usize]); i /= b }
    String::from_utf8(o).unwrap()
}
/// a keyword with one character put in, replaced, left out, doubled or in the other case
fn damaged(i: u64) -> String {
    let k: Vec<char> = KEYWORDS[(i / 1280) as usize].0.chars().collect();
    let (p, c) = (((i % 1280) / 64) as usize, (i % 64) as usize);
    let ch = if c < 63 { NAME[c] as char } else { 'é' };
    let mut o = k.clone();
    if p <= 9 { if p <= k.len() { o.insert(p, ch) } }
    else { let p = p - 10; if p < k.len() { match c { 60 => { o.remove(p); } 61 => { o[p] = o[p].to_ascii_uppercase() } 62 => { o.insert(p, k[p]) } _ => o[p] = ch } } }
    let t: String = o.into_iter().collect();
    format!("{} {}(a", t, t)
}
fn latin(i: u64) -> (char, char) { (char::from_u32((i % 256) as u32).unwrap(), char::from_u32((i / 256 % 256) as u32).unwrap()) }
fn ascii(i: u64) -> (char, char) { (((i % 128) as u8) as char, ((i / 128 % 128) as u8) as char) }

pub fn families(id: &str) -> Vec<Family> {
    let f = |n: u64, f: fn(u64) -> String, what: &'static str| Family { n, f, what };
    match id {
        "C01" => vec![
            f(0x110000, every, "every Unicode character alone"),
            f(0x110000, |i| format!("a{}1", every(i)), "every Unicode character inside a name"),
            f(53 + 53 * 63 + 53 * 63 * 63, named, "every ASCII name of up to three characters"),
            f(35 * 1280, damaged, "every keyword with one character changed"),
            f(35 * 35 * 12, |i| format!("{}{}{}", KEYWORDS[(i % 35) as usize].0, SEPS[(i / 35 % 12) as usize], KEYWORDS[(i / 420) as usize].0), "every pair of keywords"),
            f(48 * 48 * 12, |i| format!("{}{}{}", OPERATORS[(i % 48) as usize].0, SEPS[(i / 48 % 12) as usize], OPERATORS[(i / 576) as usize].0), "every pair of operators"),
            f(48 * 128 * 128, |i| { let (x, y) = ascii(i / 48); format!("{}{}{}", OPERATORS[(i % 48) as usize].0, x, y) }, "every operator before two ASCII characters"),
            f(48 * 48 * 48, |i| format!("{}{}{}", OPERATORS[(i % 48) as usize].0, OPERATORS[(i / 48 % 48) as usize].0, OPERATORS[(i / 2304) as usize].0), "every three operators"),
            f(48 * 48 * 8, |i| format!("{}{}{}", INSIDE[(i % 8) as usize], OPERATORS[(i / 8 % 48) as usize].0, OPERATORS[(i / 384) as usize].0), "every pair of operators in brackets or at the beginning of a line"),
            f(35 * 35 * 8, |i| format!("{}{} {}.{}", INSIDE[(i % 8) as usize], KEYWORDS[(i / 8 % 35) as usize].0, KEYWORDS[(i / 280) as usize].0, KEYWORDS[(i / 280) as usize].0), "every pair of keywords in brackets or at the beginning of a line"),
            f(35 * 128 * 2, |i| { let c = ((i / 35 % 128) as u8) as char; let k = KEYWORDS[(i % 35) as usize].0; if i / 35 / 128 == 0 { format!("{}{}", k, c) } else { format!("{}{}", c, k) } }, "every keyword beside an ASCII character"),
        ],
        "C06" => vec![
            f(22 * 128 * 128, |i| { let (x, y) = ascii(i / 22); format!("{}{}{}", NUMBERS[(i % 22) as usize], x, y) }, "a number or beginning of one before two ASCII characters"),
            f(22 * 128, |i| { let c = ((i / 22 % 128) as u8) as char; format!("{}{}", c, NUMBERS[(i % 22) as usize]) }, "an ASCII character before a number"),
            f(22 * 0x3000, |i| { let c = char::from_u32((i / 22) as u32).unwrap(); format!("{}{}", NUMBERS[(i % 22) as usize], c) }, "a number before a character"),
            f(22 * 22 * 12, |i| format!("{}{}{}", NUMBERS[(i % 22) as usize], SEPS[(i / 22 % 12) as usize], NUMBERS[(i / 264) as usize]), "every pair of numbers"),
        ],
        "C07" => vec![
            f(12 * 65536, |i| { let (x, y) = latin(i / 12); let (a, b) = FRAMES[(i % 12) as usize]; format!("{}{}{}{}", a, x, y, b) }, "two Latin-1 characters in a literal"),
            f(12 * 0x3000, |i| { let c = char::from_u32((i / 12) as u32).unwrap(); let (a, b) = FRAMES[(i % 12) as usize]; format!("{}{}{}", a, c, b) }, "a character in a literal"),
            f(0x110000, |i| format!("'{}'", every(i)), "every Unicode character in a literal"),
            f(4 * 15 * 15 * 15, |i| { const P: &[u8] = b"rRbBuUfFtTxXn_1"; let w = |k: u64| P[(k % 15) as usize] as char; format!("{}{}{}{}", w(i / 4), w(i / 60), w(i / 900), ["'a'", "\"a\"", "'''a'''", "''"][(i % 4) as usize]) }, "three characters before a literal"),
            f(4 * 128 * 128, |i| { let (x, y) = ascii(i / 4); format!("{}{}{}", x, y, ["'a'", "\"a\"", "'''a'''", "\"\"\"a\"\"\""][(i % 4) as usize]) }, "two ASCII characters before a literal"),
        ],
        "C08" => vec![
            f(BEHIND, behind, "every token behind up to three blanks, continuations, line ends or comments"),
            f(8 * 65536, |i| { let (x, y) = latin(i / 8); let (a, b) = AROUND[(i % 8) as usize]; format!("{}{}{}{}", a, x, y, b) }, "two Latin-1 characters in a comment"),
            f(0x110000, |i| format!("a #{}\nb", every(i)), "every Unicode character in a comment"),
            f(0x110000, |i| format!("a{} b", every(i)), "every Unicode character behind a name"),
            f(14 * 14 * 14 * 14, |i| format!("a{}{}{}{}b", BLANK[(i % 14) as usize], BLANK[(i / 14 % 14) as usize], BLANK[(i / 196 % 14) as usize], BLANK[(i / 2744) as usize]), "four blanks, line ends, continuations or comments"),
            f(14 * 14 * 14 * 14, |i| format!("(a{}{}{}{}\nb\n)", BLANK[(i % 14) as usize], BLANK[(i / 14 % 14) as usize], BLANK[(i / 196 % 14) as usize], BLANK[(i / 2744) as usize]), "the same in brackets"),
        ],
        "C02" => vec![
            f(BEHIND, behind, "every token behind up to three blanks, continuations, line ends or comments"),
            f(8 * 65536, |i| { let (x, y) = latin(i / 8); let (a, b) = AROUND[(i % 8) as usize]; format!("{}{}{}{}", a, x, y, b) }, "two Latin-1 characters in a comment"),
            f(0x110000, |i| format!("a '{}' # {}\n", every(i), every(i)), "every Unicode character in a literal and a comment"),
            f(14 * 14 * 14 * 14, |i| format!("a{}{}{}{}b", BLANK[(i % 14) as usize], BLANK[(i / 14 % 14) as usize], BLANK[(i / 196 % 14) as usize], BLANK[(i / 2744) as usize]), "four blanks, line ends, continuations or comments"),
        ],
        "C03" => vec![
            f(14 * 14 * 14 * 14, |i| format!("if a:\n  b\n{}{}{}{}c\n", BLANK[(i % 14) as usize], BLANK[(i / 14 % 14) as usize], BLANK[(i / 196 % 14) as usize], BLANK[(i / 2744) as usize]), "four blanks, line ends, continuations or comments at the start of a line"),
            f(0x3000, |i| format!("if a:\n  b\n {} c\n", every(i)), "a character in the indentation"),
        ],
        "C28" => vec![
            f(65536, |i| { let (x, y) = latin(i); format!("a = b #{}type:{}c\n", x, y) }, "characters around the words of a type comment"),
            f(65536, |i| { let (x, y) = latin(i); format!("a = b # type:{}{}\nc\n", x, y) }, "two Latin-1 characters in a type comment"),
            f(9 * 128, |i| { let t: Vec<char> = "# type: x".chars().collect(); let p = (i / 128) as usize; let c = ((i % 128) as u8) as char; format!("a = b {}{}{}\n", t[..p].iter().collect::<String>(), c, t[p..].iter().collect::<String>()) }, "a character put into a type comment"),
            f(9 * 128, |i| { let t: Vec<char> = "# type: x".chars().collect(); let p = (i / 128) as usize; let c = ((i % 128) as u8) as char; format!("a = b {}{}{}\n", t[..p].iter().collect::<String>(), c, t[p + 1..].iter().collect::<String>()) }, "a character of a type comment replaced"),
        ],
        "C10" => vec![
            f(0x110000, every, "every Unicode character alone"),
            f(65536, |i| { let (x, y) = latin(i); format!("{}{}", x, y) }, "every pair of Latin-1 characters"),
        ],
        "C25" => vec![],
        _ => vec![],
    }
}
pub fn at(v: &[Family], mut i: u64) -> Option<String> {
    for x in v { if i < x.n { return Some((x.f)(i)) } i -= x.n }
    None
}
