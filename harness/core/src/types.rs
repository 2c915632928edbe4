//! Neutral values both the subject (through its adapter) and the reference implementations produce.
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tr {
    Ws(u32, u32, char),
    Nl(u32, u32, char, char),
    Cont(u32, u32, char, char, char),
    Comment(u32, u32, String),
}
impl Tr {
    pub fn span(&self) -> (u32, u32) {
        match self { Tr::Ws(a, b, _) | Tr::Nl(a, b, _, _) | Tr::Cont(a, b, _, _, _) | Tr::Comment(a, b, _) => (*a, *b) }
    }
}

/// Position of tokens that carry none (Indent, Dedent).
pub const NOPOS: u32 = u32::MAX;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Tok {
    pub kind: &'static str,
    pub s: u32,
    pub e: u32,
    pub text: String,
    pub prefix: Option<String>,
    pub nl: (char, char),
    pub tr: Option<Vec<Tr>>,
}
impl Tok {
    pub fn is(&self, k: &str) -> bool { self.kind == k }
    pub fn structural(&self) -> bool { self.kind == "Indent" || self.kind == "Dedent" }
    /// kind and text only
    pub fn ident(&self) -> (&'static str, &str, Option<&str>) { (self.kind, &self.text, self.prefix.as_deref()) }
    pub fn show(&self) -> String {
        let mut o = String::new();
        let _ = write!(o, "{}", self.kind);
        if self.s != NOPOS { let _ = write!(o, "[{}..{}]", self.s, self.e); }
        if !self.text.is_empty() { let _ = write!(o, " {:?}", self.text); }
        if let Some(p) = &self.prefix { let _ = write!(o, " prefix {:?}", p); }
        if self.kind == "Newline" { let _ = write!(o, " {:?}", self.nl); }
        if let Some(t) = &self.tr { let _ = write!(o, " trivia {:?}", t); }
        o
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kid { T(Tok), N(Node), L(Vec<Kid>), None }

#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub kind: &'static str,
    pub s: u32,
    pub e: u32,
    /// Reference trees only: smallest acceptable end (differs from `e` when the following token has no position).
    pub e_lo: u32,
    pub kids: Vec<Kid>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry { File, Single, Eval, FuncType }
pub const ENTRIES: [Entry; 4] = [Entry::File, Entry::Single, Entry::Eval, Entry::FuncType];

/// Rules of the grammar that can be asked for on their own.
pub const RULES: [&str; 18] = ["atom", "atom_expr", "power", "factor", "term", "arith", "shift", "and_expr", "xor_expr", "expr", "star_expr", "comparison", "not_test", "and_test", "or_test", "test", "named_expression", "stmt"];

#[derive(Clone, Debug, PartialEq)]
pub struct LexOut {
    pub toks: Vec<Tok>,
    /// An error was returned after `toks`.
    pub err: bool,
    /// Neither an error nor the end marker within the token budget.
    pub runaway: bool,
    /// Tokens (or None for an error) of additional requests after the end marker or error.
    pub extra: Vec<Option<Tok>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BufOp { Char, Peek, Pos, Count, Advance }
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum BufRes { Char(char), Peek(char, char, char), Num(u32), Unit }

/// The code under test, as plain functions.
#[derive(Clone, Copy)]
pub struct Subject {
    pub lex: fn(&str, usize) -> LexOut,
    pub parse: fn(&str, Entry) -> Result<Node, String>,
    pub buffer: fn(&str, &[BufOp]) -> Vec<BufRes>,
    /// One parser, standing at the first token, and a sequence of rules, "advance" and "file"; the answers of all but "advance", up to the first error.
    pub rules: fn(&str, &[&str]) -> Vec<Option<Node>>,
}

impl Node {
    pub fn dump(&self) -> String { let mut o = String::new(); self.dump_to(&mut o, 0, true); o }
    pub fn dump_nopos(&self) -> String { let mut o = String::new(); self.dump_to(&mut o, 0, false); o }
    fn dump_to(&self, o: &mut String, d: usize, pos: bool) {
        let pad = "  ".repeat(d);
        if pos { let _ = writeln!(o, "{}{} [{}..{}]", pad, self.kind, self.s, self.e); } else { let _ = writeln!(o, "{}{}", pad, self.kind); }
        for k in &self.kids { k.dump_to(o, d + 1, pos) }
    }
    /// tokens in stored order (depth first)
    pub fn tokens<'a>(&'a self, out: &mut Vec<&'a Tok>) { for k in &self.kids { k.tokens(out) } }
    pub fn nodes<'a>(&'a self, out: &mut Vec<&'a Node>) { out.push(self); for k in &self.kids { k.nodes(out) } }
    pub fn depth(&self) -> usize { 1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0) }
}
impl Kid {
    fn dump_to(&self, o: &mut String, d: usize, pos: bool) {
        let pad = "  ".repeat(d);
        match self {
            Kid::T(t) => { if pos { let _ = writeln!(o, "{}{}", pad, t.show()); } else { let _ = writeln!(o, "{}{} {:?} {:?}", pad, t.kind, t.text, t.prefix); } }
            Kid::N(n) => n.dump_to(o, d, pos),
            Kid::L(l) => { let _ = writeln!(o, "{}(list", pad); for k in l { k.dump_to(o, d + 1, pos) } let _ = writeln!(o, "{})", pad); }
            Kid::None => { let _ = writeln!(o, "{}-", pad); }
        }
    }
    pub fn tokens<'a>(&'a self, out: &mut Vec<&'a Tok>) {
        match self { Kid::T(t) => out.push(t), Kid::N(n) => n.tokens(out), Kid::L(l) => for k in l { k.tokens(out) }, Kid::None => {} }
    }
    pub fn nodes<'a>(&'a self, out: &mut Vec<&'a Node>) {
        match self { Kid::N(n) => n.nodes(out), Kid::L(l) => for k in l { k.nodes(out) }, _ => {} }
    }
    fn depth(&self) -> usize {
        match self { Kid::N(n) => n.depth(), Kid::L(l) => l.iter().map(|k| k.depth()).max().unwrap_or(0), _ => 0 }
    }
}

/// What of two trees is compared.
#[derive(Clone, Copy, PartialEq)]
pub enum Aspect { Structure, Spans, Trivia }

/// First difference between an expected and an actual tree, None if equal in the given aspect.
pub fn diff(exp: &Node, act: &Node, asp: Aspect) -> Option<String> {
    if exp.kind != act.kind { return Some(format!("expected node {} but found {} (expected source span {}..{})", exp.kind, act.kind, exp.s, exp.e)); }
    if asp == Aspect::Spans && (exp.s != act.s || act.e < exp.e_lo || act.e > exp.e) {
        return Some(format!("node {} should span {}..{} but spans {}..{}", exp.kind, exp.s, exp.e, act.s, act.e));
    }
    if exp.kids.len() != act.kids.len() { return Some(format!("node {} has {} parts instead of {}", exp.kind, act.kids.len(), exp.kids.len())); }
    for (i, (a, b)) in exp.kids.iter().zip(&act.kids).enumerate() {
        if let Some(d) = diff_kid(a, b, asp, exp, i) { return Some(d); }
    }
    None
}
/// As diff(.., Structure), and the tokens stand in the same order in the source as those expected.
pub fn diff_tree(exp: &Node, act: &Node) -> Option<String> {
    if let Some(d) = diff(exp, act, Aspect::Structure) { return Some(d) }
    let (mut x, mut y) = (vec![], vec![]);
    exp.tokens(&mut x);
    act.tokens(&mut y);
    let mut v: Vec<(u32, u32, &Tok, &Tok)> = x.iter().zip(&y).filter(|(a, b)| !a.structural() && a.s < a.e && b.s < b.e).map(|(a, b)| (a.s, b.s, *a, *b)).collect();
    v.sort_by_key(|p| p.0);
    for w in v.windows(2) {
        if (w[0].0 < w[1].0) != (w[0].1 < w[1].1) { return Some(format!("tokens exchanged: {} is {} and {} is {}", w[0].2.show(), w[0].3.show(), w[1].2.show(), w[1].3.show())) }
    }
    None
}
fn kname(k: &Kid) -> String {
    match k { Kid::T(t) => format!("token {}", t.show()), Kid::N(n) => format!("node {}", n.kind), Kid::L(l) => format!("list of {}", l.len()), Kid::None => "nothing".into() }
}
fn diff_kid(a: &Kid, b: &Kid, asp: Aspect, p: &Node, i: usize) -> Option<String> {
    match (a, b) {
        (Kid::T(x), Kid::T(y)) => {
            let same = match asp { Aspect::Structure => x.ident() == y.ident(), Aspect::Spans => x.kind == y.kind && tokpos(x, y), Aspect::Trivia => x.kind == y.kind && tokpos(x, y) && x.tr == y.tr };
            if same { None } else { Some(format!("part {} of {} should be token {} but is {}", i, p.kind, x.show(), y.show())) }
        }
        (Kid::N(x), Kid::N(y)) => diff(x, y, asp),
        (Kid::L(x), Kid::L(y)) => {
            if x.len() != y.len() { return Some(format!("part {} of {} should hold {} entries but holds {}", i, p.kind, x.len(), y.len())); }
            for (m, n) in x.iter().zip(y) { if let Some(d) = diff_kid(m, n, asp, p, i) { return Some(d); } }
            None
        }
        (Kid::None, Kid::None) => None,
        _ => Some(format!("part {} of {} should be {} but is {}", i, p.kind, kname(a), kname(b))),
    }
}
fn tokpos(x: &Tok, y: &Tok) -> bool { x.structural() || (x.s == y.s && x.e == y.e) }
