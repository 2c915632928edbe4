//! Small-scope enumeration of repetition and nesting: each of the short programs of `edits` repeated, and put into blocks
//! and brackets, a number of times.
use crate::edits::BASES;
use crate::engine::Case;
use crate::types::Entry;

const TIMES: [usize; 26] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 32, 33, 50, 64, 65];
const DEPTHS: usize = 14;
const HEADS: [&str; 6] = ["if x:\n", "while x:\n", "def x():\n", "class x:\n", "try:\n", "for x in y:\n"];
const BETWEEN: [&str; 5] = [", ", " + ", " and ", " if x else ", " := "];
const ROUND: [(&str, &str); 10] = [("(", ")"), ("[", "]"), ("{", "}"), ("f(", ")"), ("a[", "]"), ("{x: ", "}"), ("(x, ", ",)"), ("-", ""), ("not ", ""), ("lambda: ", "")];

fn per(e: Entry) -> u64 { match e { Entry::File => (TIMES.len() + HEADS.len() * DEPTHS) as u64, Entry::Eval => (BETWEEN.len() * TIMES.len() + ROUND.len() * DEPTHS) as u64, _ => 0 } }

pub struct Many { of: Vec<(u16, u64)>, n: u64 }
pub fn plan(id: &str, every: bool) -> Many {
    let of: Vec<(u16, u64)> = BASES.iter().enumerate().filter(|(_, b)| (every || b.0 == id) && per(b.1) > 0).map(|(i, b)| (i as u16, per(b.1))).collect();
    Many { n: of.iter().map(|x| x.1).sum(), of }
}
impl Many {
    pub fn count(&self) -> u64 { self.n }
    pub fn describe(&self) -> Option<String> {
        if self.n == 0 { return None }
        Some(format!("{} short programs repeated up to {} times, in up to {} blocks or brackets: {}", self.of.len(), TIMES[TIMES.len() - 1], DEPTHS, self.n))
    }
    pub fn at(&self, mut i: u64) -> Option<Case> {
        for (b, n) in &self.of {
            if i >= *n { i -= n; continue }
            let (_, e, t) = BASES[*b as usize];
            let i = i as usize;
            if e == Entry::File {
                let t = if t.ends_with('\n') { t.to_string() } else { format!("{}\n", t) };
                if i < TIMES.len() { return Some(Case::entry(t.repeat(TIMES[i]), e)) }
                let (h, d) = (HEADS[(i - TIMES.len()) % HEADS.len()], 1 + (i - TIMES.len()) / HEADS.len());
                let mut o = t;
                for _ in 0..d {
                    o = format!("{}{}", h, o.split_inclusive('\n').map(|l| if l == "\n" { l.to_string() } else { format!(" {}", l) }).collect::<String>());
                    if h == "try:\n" { o.push_str("finally: y\n") }
                }
                return Some(Case::entry(o, e));
            }
            let t = t.trim_end_matches('\n');
            let m = BETWEEN.len() * TIMES.len();
            if i < m { return Some(Case::entry(vec![t; TIMES[i / BETWEEN.len()]].join(BETWEEN[i % BETWEEN.len()]), e)) }
            let ((a, z), d) = (ROUND[(i - m) % ROUND.len()], 1 + (i - m) / ROUND.len());
            return Some(Case::entry(format!("{}{}{}", a.repeat(d), t, z.repeat(d)), e));
        }
        None
    }
}
