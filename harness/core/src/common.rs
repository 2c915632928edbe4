//! Judging one text against the reference implementations.
use crate::engine::Cx;
use crate::refparse::{self, Ref};
use crate::reflex::{self, RefLex};
use crate::types::*;

pub struct Reference { pub lex: RefLex, pub out: Ref }

pub fn reference(text: &str, entry: Entry) -> Reference {
    let l = reflex::lex(text);
    let out = if l.unknown.is_some() { Ref::Unknown("not claimed by the tokenizer") }
        else { refparse::parse(&l.toks, l.err.is_some(), l.chars.len() as u32, entry) };
    Reference { lex: l, out }
}

// Known finding K6: after a CRLF at the very end of the source the subject's positions are one too large.
fn limit_of(text: &str) -> Option<u32> { if text.ends_with("\r\n") { Some(text.chars().count() as u32) } else { None } }
fn clamp_tok(t: &mut Tok, n: u32) {
    if t.s == n + 1 { t.s = n }
    if t.e == n + 1 { t.e = n }
    if let Some(v) = &mut t.tr { for x in v { match x { Tr::Ws(a, b, _) | Tr::Nl(a, b, _, _) | Tr::Cont(a, b, _, _, _) | Tr::Comment(a, b, _) => { if *a == n + 1 { *a = n } if *b == n + 1 { *b = n } } } } }
}
fn clamp_kid(k: &mut Kid, n: u32) {
    match k { Kid::T(t) => clamp_tok(t, n), Kid::N(x) => clamp_node(x, n), Kid::L(v) => for y in v { clamp_kid(y, n) }, Kid::None => {} }
}
fn clamp_node(x: &mut Node, n: u32) {
    if x.s == n + 1 { x.s = n }
    if x.e == n + 1 { x.e = n; x.e_lo = n }
    for k in &mut x.kids { clamp_kid(k, n) }
}

pub fn sub_lex(sub: &Subject, text: &str, extra: usize) -> LexOut {
    let mut o = (sub.lex)(text, extra);
    if let Some(n) = limit_of(text) {
        for t in &mut o.toks { clamp_tok(t, n) }
        for t in o.extra.iter_mut().flatten() { clamp_tok(t, n) }
    }
    o
}
pub fn sub_parse(sub: &Subject, text: &str, entry: Entry) -> Result<Node, String> {
    let mut r = (sub.parse)(text, entry);
    if let (Some(n), Ok(x)) = (limit_of(text), &mut r) { clamp_node(x, n) }
    r
}

pub fn sub_rules(sub: &Subject, text: &str, ops: &[&str]) -> Vec<Option<Node>> {
    let mut r = (sub.rules)(text, ops);
    if let Some(n) = limit_of(text) { for x in r.iter_mut().flatten() { clamp_node(x, n) } }
    r
}

pub const STRUCT: u32 = 1;
pub const SPANS: u32 = 2;
pub const TRIVIA: u32 = 4;
/// valid text must be accepted
pub const ACCEPT: u32 = 8;
/// invalid text must be rejected
pub const REJECT: u32 = 16;

/// Compares the subject's answer with the reference's. Returns the accepted reference tree, if any.
pub fn judge(text: &str, entry: Entry, what: u32, sub: &Subject, cx: &mut Cx) -> Result<Option<Node>, String> {
    let r = reference(text, entry);
    match r.out {
        Ref::Unknown(_) => { cx.tag("not judged"); let _ = sub_parse(sub, text, entry); Ok(None) }
        Ref::Accept(exp) => {
            cx.tag("valid");
            match sub_parse(sub, text, entry) {
                Err(m) => if what & ACCEPT != 0 { Err(format!("valid input rejected: {}", m)) } else { Ok(None) },
                Ok(act) => {
                    let d = if what & STRUCT != 0 { diff_tree(&exp, &act) } else { diff(&exp, &act, Aspect::Structure) };
                    if what & STRUCT != 0 { if let Some(d) = d { return Err(trees(cx, format!("wrong tree: {}", d), &exp, &act)) } }
                    else if d.is_some() { return Ok(None) }
                    if what & SPANS != 0 { if let Some(d) = diff(&exp, &act, Aspect::Spans) { return Err(trees(cx, format!("wrong span: {}", d), &exp, &act)) } }
                    if what & TRIVIA != 0 { if let Some(d) = diff(&exp, &act, Aspect::Trivia) { return Err(trees(cx, format!("wrong token in tree: {}", d), &exp, &act)) } }
                    Ok(Some(exp))
                }
            }
        }
        Ref::Reject(at) => {
            cx.tag("invalid");
            match sub_parse(sub, text, entry) {
                Err(_) => Ok(None),
                Ok(t) => if what & REJECT != 0 {
                    let where_ = r.lex.toks.get(at).map(|t| t.show()).unwrap_or_else(|| "its end".into());
                    let mut m = format!("invalid input accepted as {} (no valid text continues with {})", entry_label(entry), where_);
                    if cx.verbose { m.push_str(&format!("\ntree:\n{}", t.dump())) }
                    Err(m)
                } else { Ok(None) },
            }
        }
    }
}
fn trees(cx: &Cx, m: String, e: &Node, a: &Node) -> String { if cx.verbose { format!("{}\nexpected:\n{}actual:\n{}", m, e.dump(), a.dump()) } else { m } }
pub fn entry_label(e: Entry) -> &'static str { match e { Entry::File => "a file", Entry::Single => "interactive input", Entry::Eval => "an expression", Entry::FuncType => "a function type" } }

/// Compares token streams by a projection; the reference's prefix before an unclaimed place counts only.
pub fn judge_tokens<T: PartialEq>(text: &str, sub: &Subject, cx: &mut Cx, proj: fn(&Tok) -> T, show: fn(&Tok) -> String) -> Result<RefLex, String> {
    let r = reflex::lex(text);
    let o = sub_lex(sub, text, 0);
    let open = r.unknown.is_some();
    if open { cx.tag("partly not judged") }
    if r.err.is_some() { cx.tag("lexical error") } else if !open { cx.tag("tokenizes") }
    for (i, e) in r.toks.iter().enumerate() {
        match o.toks.get(i) {
            None => return Err(if o.err { format!("token {} should be {} but is an error", i, show(e)) } else { format!("token {} should be {} but the stream ends", i, show(e)) }),
            Some(a) => if proj(e) != proj(a) { return Err(format!("token {} should be {} but is {}", i, show(e), show(a))) },
        }
    }
    if !open {
        if r.err.is_some() && (!o.err || o.toks.len() > r.toks.len()) {
            return Err(format!("an error is due after {} tokens (at character {}) but {} follows", r.toks.len(), r.err.unwrap(), o.toks.get(r.toks.len()).map(|t| show(t)).unwrap_or("nothing".into())));
        }
        if r.err.is_none() && o.toks.len() > r.toks.len() { return Err(format!("surplus token {}", show(&o.toks[r.toks.len()]))) }
        if o.runaway { return Err("the token stream does not end".into()) }
    }
    Ok(r)
}

pub fn has_kind(n: &Node, kinds: &[&str]) -> bool { let mut v = vec![]; n.nodes(&mut v); v.iter().any(|x| kinds.contains(&x.kind)) }
pub fn count_kind(n: &Node, kinds: &[&str]) -> usize { let mut v = vec![]; n.nodes(&mut v); v.iter().filter(|x| kinds.contains(&x.kind)).count() }
