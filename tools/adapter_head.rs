// Written by tools/gen_adapter.py. Turns the values of the code under test into neutral ones.
#![allow(unreachable_patterns)]
use pcr_core::types::{BufOp, BufRes, Entry, Kid, LexOut, Node, Tok, Tr, NOPOS};
use crate::parser::blocks::Blocks;
use crate::parser::expressions::Expressions;
use crate::parser::nodes::ASTNode;
use crate::parser::parser::{Parser, PythonCoreParser};
use crate::parser::statements::Statements;
use crate::parser::source_buffer::{SourceBuffer, SourceBufferFunctionality};
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::parser::tokens::Token;
use crate::parser::trivias::Trivia;

type Trivs = Option<Box<Vec<Box<Trivia>>>>;

fn triv(t: &Trivs) -> Option<Vec<Tr>> {
    t.as_ref().map(|v| v.iter().map(|x| match &**x {
        Trivia::WhiteSpace(s, e, c) => Tr::Ws(*s, *e, *c),
        Trivia::Newline(s, e, a, b) => Tr::Nl(*s, *e, *a, *b),
        Trivia::LineContinuation(s, e, a, b, c) => Tr::Cont(*s, *e, *a, *b, *c),
        Trivia::Comment(s, e, t) => Tr::Comment(*s, *e, t.to_string()),
    }).collect())
}

pub fn tok(t: &Token) -> Tok {
    let mut nl = (' ', ' ');
    let mut text = String::new();
    let mut prefix = None;
    let (kind, s, e, tr): (&'static str, u32, u32, &Trivs) = match t {
/*TOKENS*/
        Token::AtomName(s, e, t, x) => { text = x.to_string(); ("AtomName", *s, *e, t) }
        Token::AtomNumber(s, e, t, x) => { text = x.to_string(); ("AtomNumber", *s, *e, t) }
        Token::AtomString(s, e, t, x, p) => { text = x.to_string(); prefix = p.clone(); ("AtomString", *s, *e, t) }
        Token::TypeComment(s, e, t, x) => { text = x.to_string(); ("TypeComment", *s, *e, t) }
        Token::Newline(s, e, t, a, b) => { nl = (*a, *b); ("Newline", *s, *e, t) }
        Token::Indent(t) => ("Indent", NOPOS, NOPOS, t),
        Token::Dedent(t) => ("Dedent", NOPOS, NOPOS, t),
        Token::EOF(p, t) => ("EOF", *p, *p, t),
        _ => return Tok { kind: "?", s: 0, e: 0, text, prefix, nl, tr: None },
    };
    Tok { kind, s, e, text, prefix, nl, tr: triv(tr) }
}

trait Conv { fn kid(&self) -> Kid; }
impl Conv for Token { fn kid(&self) -> Kid { Kid::T(tok(self)) } }
impl Conv for ASTNode { fn kid(&self) -> Kid { Kid::N(node(self)) } }
impl<T: Conv + ?Sized> Conv for Box<T> { fn kid(&self) -> Kid { (**self).kid() } }
impl<T: Conv> Conv for Vec<T> { fn kid(&self) -> Kid { Kid::L(self.iter().map(|x| x.kid()).collect()) } }
impl<T: Conv> Conv for Option<T> { fn kid(&self) -> Kid { match self { Some(x) => x.kid(), None => Kid::None } } }
impl<A: Conv, B: Conv> Conv for (A, B) { fn kid(&self) -> Kid { Kid::L(vec![self.0.kid(), self.1.kid()]) } }

pub fn node(n: &ASTNode) -> Node {
    let (kind, s, e, kids): (&'static str, u32, u32, Vec<Kid>) = match n {
/*NODES*/
        _ => ("?", 0, 0, vec![]),
    };
    Node { kind, s, e, e_lo: e, kids }
}

/// Tokenizes until the end marker or the first error, then asks `extra` times more.
pub fn lex(src: &str, extra: usize) -> LexOut {
    let mut l = PythonCoreTokenizer::new(src.to_string());
    let mut out = LexOut { toks: vec![], err: false, runaway: false, extra: vec![] };
    let limit = 2 * src.chars().count() + 16;
    loop {
        match l.get_symbol() {
            Ok(t) => { let t = tok(&t); let end = t.kind == "EOF"; out.toks.push(t); if end { break } }
            Err(_) => { out.err = true; break }
        }
        if out.toks.len() > limit { out.runaway = true; return out }
    }
    for _ in 0..extra { out.extra.push(match l.get_symbol() { Ok(t) => Some(tok(&t)), Err(_) => None }) }
    out
}

pub fn parse(src: &str, entry: Entry) -> Result<Node, String> {
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(src.to_string())));
    let r = match entry {
        Entry::File => p.parse_blocks_file_input(),
        Entry::Single => p.parse_blocks_single_input(),
        Entry::Eval => p.parse_blocks_eval_input(),
        Entry::FuncType => p.parse_blocks_func_type_input(),
    };
    r.map(|n| node(&n))
}

pub fn buffer(src: &str, ops: &[BufOp]) -> Vec<BufRes> {
    let mut b: SourceBuffer = <SourceBuffer as SourceBufferFunctionality>::new(src.to_string());
    ops.iter().map(|o| match o {
        BufOp::Char => BufRes::Char(b.get_char()),
        BufOp::Peek => { let (x, y, z) = b.peek_three_chars(); BufRes::Peek(x, y, z) }
        BufOp::Pos => BufRes::Num(b.get_position()),
        BufOp::Count => BufRes::Num(b.count()),
        BufOp::Advance => { b.advance(); BufRes::Unit }
    }).collect()
}

/// See Subject::rules.
pub fn rules(src: &str, ops: &[&str]) -> Vec<Option<Node>> {
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(src.to_string())));
    p.advance();
    let mut out = vec![];
    for o in ops {
        let r = match *o {
            "advance" => { p.advance(); continue }
            "file" => p.parse_blocks_file_input(),
            "atom" => p.parse_expressions_atom(),
            "atom_expr" => p.parse_expressions_atom_expr(),
            "power" => p.parse_expressions_power(),
            "factor" => p.parse_expressions_factor(),
            "term" => p.parse_expressions_term(),
            "arith" => p.parse_expressions_arith(),
            "shift" => p.parse_expressions_shift(),
            "and_expr" => p.parse_expressions_and_expr(),
            "xor_expr" => p.parse_expressions_xor_expr(),
            "expr" => p.parse_expressions_expr(),
            "star_expr" => p.parse_expressions_star_expr(),
            "comparison" => p.parse_expressions_comparison(),
            "not_test" => p.parse_expressions_not_test(),
            "and_test" => p.parse_expressions_and_test(),
            "or_test" => p.parse_expressions_or_test(),
            "test" => p.parse_expressions_test(),
            "named_expression" => p.parse_expressions_named_expression(),
            _ => p.parse_statements_stmt(),
        };
        out.push(r.ok().map(|n| node(&n)));
        if let Some(None) = out.last() { break }
    }
    out
}
