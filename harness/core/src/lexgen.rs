//! Generators below the level of the grammar: characters and lexemes.
use crate::reflex::{KEYWORDS, OPERATORS, PREFIXES};
use crate::src::Src;

pub const UNI: [char; 14] = ['é', 'Ω', '变', '量', '€', '😀', '\u{301}', '²', 'ſ', '\u{a0}', '\u{feff}', '\u{2028}', 'ª', '٣'];

/// Characters that code is tempted to treat specially: blanks, invisible and control characters, look-alikes of
/// ASCII digits and punctuation, the ends of ranges.
pub const ODD: [char; 84] = [
    '\u{0}', '\u{1}', '\u{2}', '\u{4}', '\u{7}', '\u{8}', '\u{b}', '\u{e}', '\u{f}', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{7f}',
    '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{ad}', '\u{b0}', '\u{b2}', '\u{b5}', '\u{b7}', '\u{bd}', '\u{d7}', '\u{df}', '\u{ff}', '\u{100}', '\u{130}', '\u{131}', '\u{17f}', '\u{2bc}',
    '\u{300}', '\u{301}', '\u{37e}', '\u{387}', '\u{5be}', '\u{61b}', '\u{660}', '\u{663}', '\u{966}', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{2009}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{2013}', '\u{2018}', '\u{2019}', '\u{201c}', '\u{201d}', '\u{2026}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{202f}', '\u{203f}', '\u{205f}', '\u{2060}', '\u{2118}', '\u{212a}', '\u{2160}', '\u{3000}', '\u{3001}', '\u{d7ff}',
    '\u{e000}', '\u{fe4d}', '\u{feff}', '\u{ff08}', '\u{ff0c}', '\u{ff11}', '\u{ff1a}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1d7d8}', '\u{10ffff}',
];
/// An odd character, one of the first ones, or any at all.
pub fn odd(s: &mut Src) -> char {
    match s.below(4) { 0 | 1 => *s.pick(&ODD), 2 => char::from_u32(s.below(0x3100)).unwrap_or('\u{fffd}'), _ => char::from_u32(s.below(0x110000)).unwrap_or('\u{fffd}') }
}

pub fn ident(s: &mut Src) -> String {
    match s.below(6) {
        0 => s.pick(&KEYWORDS).0.to_string(),
        1 => {
            // a keyword with something before, after or changed
            let k = s.pick(&KEYWORDS).0;
            match s.below(7) {
                0 => format!("{}{}", k, s.pick(&["_", "1", "x", "s", "é"])),
                1 => format!("{}{}", s.pick(&["_", "x", "n", "is"]), k),
                2 => k.to_uppercase(),
                3 => k[..k.len() - 1].to_string(),
                4 => { let mut c: Vec<char> = k.chars().collect(); c[0] = if c[0].is_uppercase() { c[0].to_ascii_lowercase() } else { c[0].to_ascii_uppercase() }; c.into_iter().collect() }
                5 => { let mut c: Vec<char> = k.chars().collect(); let i = s.below(c.len() as u32) as usize; c[i] = *s.pick(&['a', 'e', 'n', 'r', 'z', '_']); c.into_iter().collect() }
                _ => format!("{}{}", k, s.pick(&KEYWORDS).0),
            }
        }
        2 => {
            let n = 1 + s.count(7, 120);
            let mut o = String::new();
            for i in 0..n { o.push(ident_char(s, i == 0)) }
            o
        }
        3 => s.pick(&["_", "__", "match", "case", "type", "print", "exec", "soft", "r", "b", "u", "f", "br", "e1", "j", "x0", "_0", "o7"]).to_string(),
        _ => { let n = 1 + s.below(4); (0..n).map(|i| ident_char(s, i == 0)).collect() }
    }
}
fn ident_char(s: &mut Src, first: bool) -> char {
    match s.below(if first { 10 } else { 14 }) {
        0..=5 => (b'a' + s.below(26) as u8) as char,
        6 | 7 => (b'A' + s.below(26) as u8) as char,
        8 => '_',
        9 => *s.pick(&['é', 'Ω', '变', 'ñ', 'ſ', 'ª']),
        _ => (b'0' + s.below(10) as u8) as char,
    }
}
pub fn operator(s: &mut Src) -> &'static str { OPERATORS[s.below(48) as usize].0 }

fn digits(s: &mut Src, set: &[char], n: u32) -> String { (0..n).map(|_| *s.pick(set)).collect() }
const DEC: [char; 10] = ['1', '0', '2', '3', '4', '5', '6', '7', '8', '9'];
const HEX: [char; 22] = ['1', '0', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F'];
/// digit runs joined by underscores, now and then wrongly
fn drun(s: &mut Src, set: &[char], bad: u32) -> String {
    let mut o = String::new();
    let n = 1 + s.count(2, 20);
    for i in 0..n {
        if i > 0 { o.push('_'); if s.pct(bad) { o.push('_') } }
        let k = 1 + s.count(3, 40);
        o.push_str(&digits(s, set, k));
    }
    if s.pct(bad) { o.push('_') }
    o
}
pub fn number(s: &mut Src) -> String {
    let bad = if s.pct(25) { 15 } else { 0 };
    match s.below(9) {
        0 => { let mut o = String::from(*s.pick(&["0x", "0X"])); if s.pct(20) { o.push('_') } if !s.pct(bad) { o.push_str(&drun(s, &HEX, bad)) } o }
        1 => { let mut o = String::from(*s.pick(&["0o", "0O"])); if s.pct(20) { o.push('_') } if !s.pct(bad) { let k = if s.pct(bad) { 10 } else { 8 }; o.push_str(&drun(s, &DEC[..k], bad)) } o }
        2 => { let mut o = String::from(*s.pick(&["0b", "0B"])); if s.pct(20) { o.push('_') } if !s.pct(bad) { let k = if s.pct(bad) { 3 } else { 2 }; o.push_str(&drun(s, &DEC[..k], bad)) } o }
        3 => { let k = 1 + s.below(3); let mut o = digits(s, &['0'], k); if s.pct(30) { o.push_str("_0") } if s.pct(30) { o.push_str(&drun(s, &DEC, bad)) } o.push_str(&tail(s, bad)); o }
        4 => { let mut o = drun(s, &DEC, bad); o.push_str(&tail(s, bad)); o }
        5 => { let mut o = drun(s, &DEC, bad); o.push('.'); if s.pct(65) { o.push_str(&drun(s, &DEC, bad)) } o.push_str(&tail(s, bad)); o }
        6 => { let mut o = String::from("."); if s.pct(bad) { o.push('_') } o.push_str(&drun(s, &DEC, bad)); o.push_str(&tail(s, bad)); o }
        7 => { let mut o = drun(s, &DEC, bad); o.push_str(&exp(s, bad)); if s.pct(30) { o.push(*s.pick(&['j', 'J'])) } o }
        _ => { let k = 1 + s.count(3, 30); digits(s, &DEC, k) }
    }
}
fn exp(s: &mut Src, bad: u32) -> String {
    let mut o = String::from(*s.pick(&["e", "E"]));
    o.push_str(*s.pick(&["", "+", "-"]));
    if s.pct(bad) { if s.pct(50) { o.push('_') } else { return o } }
    o.push_str(&drun(s, &DEC, bad));
    o
}
fn tail(s: &mut Src, bad: u32) -> String {
    match s.below(6) { 0 => exp(s, bad), 1 => s.pick(&["j", "J"]).to_string(), 2 => { let mut o = exp(s, bad); o.push(*s.pick(&['j', 'J'])); o } _ => String::new() }
}
/// what may stand right behind a number or string
pub fn after(s: &mut Src) -> String {
    match s.below(12) {
        0 => String::new(), 1 => " ".into(), 2 => "+".into(), 3 => ")".into(), 4 => ".x".into(), 5 => ".".into(), 6 => "..".into(),
        7 => s.pick(&["if", "or", "in", "e", "E+", "e-", "x", "j", "_", "_1", "L", "é", "and ", "else", "is", "0", "8", "g", "a9"]).to_string(),
        8 => operator(s).to_string(), 9 => "\n".into(), 10 => number(s), _ => s.pick(&[":", ",", "]", "'", "\"", "#c", "\\\n", "-1", "**2"]).to_string(),
    }
}

pub fn string(s: &mut Src) -> String {
    let q = *s.pick(&['\'', '"']);
    let o = if q == '\'' { '"' } else { '\'' };
    let triple = s.pct(35);
    let mut t = String::new();
    if s.pct(50) { t.push_str(s.pick(&PREFIXES)) } else if s.pct(15) { t.push_str(s.pick(&["bu", "ur", "rr", "fb", "bf", "uR", "x", "rbr", "k", "If", "é"])) }
    for _ in 0..if triple { 3 } else { 1 } { t.push(q) }
    let n = s.count(7, 200);
    for _ in 0..n {
        match s.below(22) {
            0..=6 => t.push(*s.pick(&['a', 'b', 'r', '{', '}', '#', ' ', '(', ')', '1'])),
            7 => t.push(o),
            8 => { t.push(o); t.push(o); if s.pct(50) { t.push(o) } }
            9 => { t.push('\\'); t.push(q) }
            10 => { t.push('\\'); t.push(o) }
            11 => t.push_str("\\\\"),
            12 => t.push_str("\\n"),
            13 => { let c = if s.pct(50) { odd(s) } else { UNI[s.below(14) as usize] }; t.push(c) }
            14 => if triple || s.pct(8) { t.push_str(s.pick(&["\n", "\r", "\r\n"])) } else { t.push('-') },
            15 => if triple { t.push(q); if s.pct(50) { t.push(q) } t.push(*s.pick(&['a', ' ', '\\'])); if t.ends_with('\\') { t.push(q) } } else { t.push('+') },
            16 => t.push_str(s.pick(&["\\\n", "\\\r\n", "\\\r"])),
            17 => t.push_str(s.pick(&["\\x41", "\\u00e9", "\\N{DASH}", "\\07", "\\é"])),
            18 => t.push('\t'),
            19 => { let k = 1 + s.below(4); for _ in 0..k { t.push('\\') } if s.pct(50) { t.push(q) } }
            20 => t.push('\u{0c}'),
            _ => t.push((b' ' + s.below(95) as u8) as char),
        }
    }
    if !s.pct(5) { for _ in 0..if triple { if s.pct(4) { 2 } else { 3 } } else { 1 } { t.push(q) } }
    t
}

pub fn newline(s: &mut Src) -> &'static str { *s.pick(&["\n", "\n", "\r\n", "\r"]) }
/// appends a line end so that a CR before it stays a line end of its own
pub fn push_nl(o: &mut String, s: &mut Src) { let n = newline(s); if n == "\n" && o.ends_with('\r') { o.push(' ') } o.push_str(n) }

pub fn comment(s: &mut Src) -> String {
    let mut o = String::from("#");
    let n = s.count(8, 100);
    for _ in 0..n { match s.below(12) { 0 => { let c = if s.pct(50) { odd(s) } else { UNI[s.below(14) as usize] }; if c != '\0' { o.push(c) } } 1 => o.push('\t'), 2 => o.push('\\'), 3 => o.push('\''), 4 => o.push('('), 5 => o.push('#'), 6 => o.push_str("type:"), 7 => o.push(' '), _ => o.push((b' ' + s.below(95) as u8) as char) } }
    o
}

/// Random text of fragments: mostly lexically interesting, seldom valid.
pub fn soup(s: &mut Src, max: u32) -> String {
    let mut o = String::new();
    let n = s.count(max, max * 8);
    for _ in 0..n { o.push_str(&fragment(s)) }
    o
}
pub fn fragment(s: &mut Src) -> String {
    match s.below(30) {
        0 | 1 => ident(s),
        2 | 3 | 4 => operator(s).to_string(),
        5 => number(s),
        6 => string(s),
        7 | 8 => newline(s).to_string(),
        9 | 10 => " ".repeat(1 + s.below(5) as usize),
        11 => "\t".repeat(1 + s.below(2) as usize),
        12 => comment(s),
        13 => "# type: int".into(),
        14 => s.pick(&["\\\n", "\\\r\n", "\\\r", "\\", "\\x"]).to_string(),
        15 | 16 => s.pick(&["(", "[", "{"]).to_string(),
        17 | 18 => s.pick(&[")", "]", "}"]).to_string(),
        19 => UNI[s.below(14) as usize].to_string(),
        20 => s.pick(&["$", "?", "`", "!", "\0", "\u{c}", "\u{1}", "\u{7f}", "\u{85}", "\u{b}"]).to_string(),
        21 => s.pick(&[":\n  ", ":\n    ", ":\r\n\t", "\n\n", "\n  ", "\n    "]).to_string(),
        22 => s.pick(&["'", "\"", "'''", "\"\"\"", "f'", "rb\""]).to_string(),
        23 => s.pick(&["if x:", "def f():", "class C:", "for x in y:", "try:", "except:", "else:", "while 1:", "with a as b:", "lambda:", "match x:", "return", "@a\n", "async "]).to_string(),
        24 => s.pick(&["0x", "0b", "0o", "1_", "1e", "1.", ".", "..", "...", "0_", "1__0", "0777", "00", "1e+", "1j"]).to_string(),
        25 => odd(s).to_string(),
        _ => s.pick(&["a", "b", "1", ",", ":", "=", "\n", " ", "(", ")"]).to_string(),
    }
}
