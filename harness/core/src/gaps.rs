//! Small-scope enumeration of layout: each of the short programs of `edits` with each of a set of layouts in every single
//! place between two of its tokens and with one layout in all such places, and with other words in place of its names.
use crate::edits::BASES;
use crate::engine::Case;
use crate::reflex;

/// between two tokens of a line, and behind the last
const INSIDE: &[&str] = &[
    "", " ", "  ", "   ", "         ", "                                 ", "                                                                                 ", "\t", "\t\t", " \t ", "\t \t ", "\\\n", " \\\n ", "\\\r\n", "\\\r", " \\\r\n\t", "\\\n\\\n", " \\\n \\\r\n \\\r ",
    "# c\n", "#\n", " # a comment that is rather longer than others, with 'quotes' and (brackets\n", "# c\r\n", " #\u{e4}\r", "\n", "\r\n", "\r", "\n\n\n", " \n\t# x\r\n#\r ", "#  type: x\n ", "\n \\\n", "# a\n# b\n# c\n# d\n",
    " # d", "# a comment that is rather longer than others, with 'quotes' and (brackets", "#", " #\t", "\t\t\t\t\t# type : x", "\u{c}", "\u{a0}",
];
/// lines before a line
const BEFORE: &[&str] = &[
    "", "\n", "\r\n", "\r", "\n\n\n\n", "# c\n", "#\n", "# a comment that is rather longer than others, with 'quotes' and (brackets\n", "# c\r\n", "# c\r", " # c\n", "  # c\n", "\t# c\n", "         # c\n", "  \n", "\t\n", "\t \t\r\n", "                                 \n", "# a\n# b\n# c\n# d\n", "# a\n\n  # b\r\n\t\r#\n",
    "#  type: x\n", "# 'a\n", "# \"\"\"\n", "# (\n", "# )\n", "# \\\n", "#!a\n", "# if a:\n", "\\\n", " \\\n", "\\\r\n\n", "\u{c}\n", ";\n", "  # a\n # b\n", "\n# a\n\n# b\n\n", "\t\t# c\r\n",
    include_str!("long_comment.txt"), include_str!("many_lines.txt"),
];
pub const PER: u64 = if INSIDE.len() > BEFORE.len() { INSIDE.len() as u64 } else { BEFORE.len() as u64 };

/// in place of each name
const WORDS: &[&str] = &[
    "match", "case", "type", "_", "print", "exec", "self", "cls", "async_", "awaitable", "iff", "is_", "notx", "inn", "or_", "andy", "None_", "none", "true", "false", "False1", "nonlocals", "globals", "format", "from_", "import1", "asa", "asserts", "dels", "definition", "classes", "lambda_", "yields", "returned", "passed", "trying",
    "__init__", "__", "_1", "a1", "A", "B", "Z", "z", "f", "b", "r", "u", "rb", "fr", "F", "BR", "e", "E1", "e10", "j", "J", "x", "xF", "o7", "b1", "l", "O", "\u{e4}", "\u{3b1}\u{3b2}", "x\u{301}", "\u{4e2d}\u{6587}", "\u{10400}", "\u{aa}", "a\u{b2}", "name", "Exception", "int", "aVeryLongNameThatGoesOnAndOnForMoreThanSixtyFourCharactersInTotal_0123456789",
    "0", "00", "0x1F", "0XaB", "0o17", "0b10", "1_000", "1.5", ".5", "1.", "0.", "1e5", "1E-5", "2.5e+3", "1j", "0j", ".5J", "1e3j", "123456789012345678901234567890", "''", "\"\"", "'a'", "\"a'b\"", "'''a'''", "\"\"\"a\n\"b\n\"\"\"", "r'a\\b'", "Rb\"a\"", "f'{a}'", "U'a'", "'\\''", "'\\\n'", "'\u{e9}'", "'#'", "'a' 'b'", "'# type: a'", "...", "None", "True", "False",
];
/// (from, to, first of its line) of each place, in characters
fn places(text: &str) -> Vec<(usize, usize, bool)> {
    let l = reflex::lex(text);
    let (mut v, mut end, mut first) = (vec![], 0, true);
    for t in &l.toks {
        if matches!(t.kind, "Indent" | "Dedent") { continue }
        let (s, e) = (t.s as usize, t.e as usize);
        if s > l.chars.len() || s < end { continue }
        if first {
            let mut at = s;
            while at > end && matches!(l.chars[at - 1], ' ' | '\t') { at -= 1 }
            v.push((at, at, true));
        } else { v.push((end, s, false)) }
        first = t.kind == "Newline";
        end = e;
    }
    v
}
fn change(text: &str, which: &[(usize, usize, bool)], n: usize) -> String {
    let ch: Vec<char> = text.chars().collect();
    let (mut o, mut at) = (String::new(), 0);
    for (a, b, first) in which {
        let with = if *first { BEFORE } else { INSIDE };
        o.extend(&ch[at..*a]);
        match with.get(n) { Some(x) => o.push_str(x), None => o.extend(&ch[*a..*b]) }
        at = *b;
    }
    o.extend(&ch[at..]);
    o
}

/// The names of a text, in characters.
fn names(text: &str) -> Vec<(usize, usize)> { reflex::lex(text).toks.iter().filter(|t| t.kind == "AtomName").map(|t| (t.s as usize, t.e as usize)).collect() }

pub struct Gaps { of: Vec<(u16, u64)>, words: Vec<(u16, u64)>, n: u64, w: u64, pairs: bool }
pub fn plan(id: &str, every: bool) -> Gaps {
    let mut of = vec![];
    for (i, b) in BASES.iter().enumerate() { if every || b.0 == id { of.push((i as u16, (1 + places(b.2).len() as u64) * PER)) } }
    let mut words = vec![];
    // each name on its own, and all of them
    if id != "C19" { for (i, _) in &of { let n = names(BASES[*i as usize].2).len() as u64; if n > 0 { words.push((*i, (n + 1) * WORDS.len() as u64)) } } }
    Gaps { n: of.iter().map(|x| x.1).sum(), w: words.iter().map(|x| x.1).sum(), of, words, pairs: id == "C19" }
}
impl Gaps {
    pub fn count(&self) -> u64 { self.n + self.w }
    pub fn describe(&self) -> Option<String> {
        if self.n == 0 { return None }
        Some(format!("{} short programs with each of {} layouts in each single place between tokens and in all of them: {}; with each of {} words and literals in place of each name and of all names: {}", self.of.len(), PER, self.n, WORDS.len(), self.w))
    }
    pub fn at(&self, mut i: u64) -> Option<Case> {
        for (b, n) in &self.of {
            if i >= *n { i -= n; continue }
            let (_, e, t) = BASES[*b as usize];
            let p = places(t);
            let (k, w) = ((i / PER) as usize, (i % PER) as usize);
            let x = if k < p.len() { change(t, &p[k..=k], w) } else {
                // in all places: a line end only where it does not end the statement, that is, in brackets
                change(t, &p, w)
            };
            let mut c = Case::entry(x, e);
            if self.pairs { c.texts.insert(0, t.to_string()) }
            return Some(c);
        }
        for (b, n) in &self.words {
            if i >= *n { i -= n; continue }
            let (_, e, t) = BASES[*b as usize];
            let p = names(t);
            let (k, w) = ((i / WORDS.len() as u64) as usize, WORDS[(i % WORDS.len() as u64) as usize]);
            let ch: Vec<char> = t.chars().collect();
            let (mut o, mut at) = (String::new(), 0);
            for (j, (a, z)) in p.iter().enumerate() { if j == k || k == p.len() { o.extend(&ch[at..*a]); o.push_str(w); at = *z } }
            o.extend(&ch[at..]);
            return Some(Case::entry(o, e));
        }
        None
    }
}
