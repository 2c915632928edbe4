//! Small-scope enumeration for C21 and C25 over the short programs of `edits`: every two of them one behind the other, each in
//! brackets and in blocks; and each with a lexical error in each place.
use crate::edits::BASES;
use crate::engine::Case;
use crate::reflex;
use crate::types::Entry;

const OPEN: [&str; 7] = ["(", "[", "{", "f(", "a[", "(1,", "x+("];
const DEEP: [usize; 10] = [1, 2, 3, 4, 5, 8, 9, 17, 33, 65];
const HEADS: [&str; 15] = ["if x:", "while x:", "for x in y:", "def f():", "class C:", "try:\n pass\nfinally:", "with a:", "try:\n pass\nexcept:", "try:\n pass\nexcept* E:", "async def f():", "@d\nclass C:", "if x:\n pass\nelse:", "if x: pass\nelif y:", "while x: pass\nelse:", "class C:\n def f():\n  pass\n async def g():"];
const BAD: [&str; 26] = ["$", "?", "`", "!", "'", "\"", "'''", "0x", "1__0", "07", "\\ ", ")", "]", "}", "\u{1}", "\u{20ac}", "'a\n'", "\"\"\"a\"\"", "0b2_", "\\x", "b'", "0_", "\u{200b}", "\u{feff}", "0o8", "1_"];

pub struct Pairs { file: Vec<u16>, eval: Vec<u16>, bad: Vec<(u16, u64)>, n: u64 }
pub fn plan(id: &str) -> Pairs {
    let mut p = Pairs { file: vec![], eval: vec![], bad: vec![], n: 0 };
    for (i, b) in BASES.iter().enumerate() {
        match id {
            "C21" => match b.1 { Entry::File => p.file.push(i as u16), Entry::Eval if !list(b.2) => p.eval.push(i as u16), _ => {} },
            "C25" => p.bad.push((i as u16, spots(b.2).len() as u64 * BAD.len() as u64 * 3)),
            _ => {}
        }
    }
    p.n = (p.file.len() * p.file.len() + p.file.len() * HEADS.len() + p.eval.len() * OPEN.len() * DEEP.len()) as u64 + p.bad.iter().map(|x| x.1).sum::<u64>();
    p
}
/// A comma outside brackets: not an expression that can be put in brackets as it is.
fn list(t: &str) -> bool {
    let mut d = 0;
    reflex::lex(t).toks.iter().any(|x| { match x.kind { "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly" => d += 1, "PyRightParen" | "PyRightBracket" | "PyRightCurly" => d -= 1, _ => {} } d == 0 && x.kind == "PyComa" })
}
fn spots(t: &str) -> Vec<usize> {
    let mut v: Vec<usize> = reflex::lex(t).toks.iter().filter(|x| !matches!(x.kind, "Indent" | "Dedent")).flat_map(|x| [x.s as usize, x.e as usize]).filter(|x| *x <= t.chars().count()).collect();
    v.sort();
    v.dedup();
    v
}
fn line(i: u16) -> String { let t = BASES[i as usize].2; if t.ends_with('\n') { t.into() } else { format!("{}\n", t) } }
impl Pairs {
    pub fn count(&self) -> u64 { self.n }
    pub fn describe(&self) -> Option<String> {
        if self.n == 0 { return None }
        Some(if self.bad.is_empty() { format!("every two of {} short programs one behind the other, each under {} block headers, and {} expressions in up to {} of {} kinds of brackets: {}", self.file.len(), HEADS.len(), self.eval.len(), DEEP[DEEP.len() - 1], OPEN.len(), self.n) }
            else { format!("{} short programs with each of {} lexical errors in each place: {}", self.bad.len(), BAD.len(), self.n) })
    }
    pub fn at(&self, i: u64) -> Option<Case> {
        if !self.bad.is_empty() {
            let mut i = i;
            for (b, n) in &self.bad {
                if i >= *n { i -= n; continue }
                let (_, e, t) = BASES[*b as usize];
                let ch: Vec<char> = t.chars().collect();
                let at = spots(t)[(i / (3 * BAD.len() as u64)) as usize];
                let (x, w) = (BAD[(i % BAD.len() as u64) as usize], i / BAD.len() as u64 % 3);
                let (l, r) = [("", ""), (" ", ""), (" ", " ")][w as usize];
                return Some(Case::entry(format!("{}{}{}{}{}", ch[..at].iter().collect::<String>(), l, x, r, ch[at..].iter().collect::<String>()), e));
            }
            return None;
        }
        let (mut i, f) = (i as usize, self.file.len());
        if i < f * f { return Some(Case { texts: vec![line(self.file[i / f]), line(self.file[i % f])], args: vec!["join".into()] }) }
        i -= f * f;
        if i < f * HEADS.len() {
            let (t, h) = (line(self.file[i % f]), HEADS[i / f]);
            // lines of a string are not to be moved
            if t.contains("\"\"\"") || t.contains("'''") || t.contains("\\\n") { return Some(Case { texts: vec![t.clone(), t], args: vec!["join".into()] }) }
            let pad = " ".repeat(2 + h.lines().last().unwrap_or("").chars().take_while(|c| *c == ' ').count());
            let b: String = t.split_inclusive('\n').map(|l| if l == "\n" { l.to_string() } else { format!("{}{}", pad, l) }).collect();
            return Some(Case { texts: vec![t, format!("{}\n{}", h, b)], args: vec!["block".into()] });
        }
        i -= f * HEADS.len();
        let m = OPEN.len() * DEEP.len();
        let t = BASES[*self.eval.get(i / m)? as usize].2.trim_end_matches('\n');
        Some(Case { texts: vec![t.into()], args: vec!["bracket".into(), OPEN[i % m % OPEN.len()].repeat(DEEP[i % m / OPEN.len()])] })
    }
}
