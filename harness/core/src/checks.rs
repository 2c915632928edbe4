//! One check per property.
use crate::common::*;
use crate::engine::{entry_of, Case, Check, Cx};
use crate::gen::{self, Gen, Prof, EXPR, TINY};
use crate::layout::{self, It, Style, PLAIN};
use crate::lexgen as lg;
use crate::refparse::{self, Ref};
use crate::reflex;
use crate::src::Src;
use crate::types::*;

fn none() -> Vec<Case> { vec![] }
fn files(v: &[&str]) -> Vec<Case> { v.iter().map(|t| Case::entry(*t, Entry::File)).collect() }
fn evals(v: &[&str]) -> Vec<Case> { v.iter().map(|t| Case::entry(*t, Entry::Eval)).collect() }
fn texts(v: &[&str]) -> Vec<Case> { v.iter().map(|t| Case::text(*t)).collect() }
fn plus(mut a: Vec<Case>, b: Vec<Case>) -> Vec<Case> { a.extend(b); a }

/// Renders and makes sure that the layout kept the lexemes (a fault of the harness otherwise).
fn text_of(items: &[It], st: &Style, s: &mut Src) -> String {
    let t = layout::render(items, st, s);
    if !layout::same_tokens(items, &t) && std::env::var("PCR_STRICT").is_ok() { panic!("HARNESS: layout changed the tokens: {:?}", t) }
    t
}

/// Judges a parse and sets `nontrivial` for accepted inputs with one of the given nodes and for rejected ones.
fn focus(c: &Case, sub: &Subject, cx: &mut Cx, what: u32, kinds: &[&'static str]) -> Result<(), String> {
    let e = entry_of(&c.args[0]);
    match judge(&c.texts[0], e, what, sub, cx)? {
        Some(n) => { let mut v = vec![]; n.nodes(&mut v); for x in v { if kinds.contains(&x.kind) { cx.nontrivial = true; cx.tag(x.kind) } } }
        None => if cx.tags.contains(&"invalid") { cx.nontrivial = true }
    }
    Ok(())
}
const ALL: u32 = STRUCT | ACCEPT | REJECT;

/// An expression (File or Eval), a profile, a chance of mutation.
fn expr_case(s: &mut Src, p: Prof, mutated: u32, make: fn(&mut Gen)) -> Case {
    let entry = match s.weighted(&[70, 30]) { 0 => Entry::Eval, _ => Entry::File };
    let mut g = Gen::new(s, p);
    make(&mut g);
    if entry == Entry::File || g.s.pct(60) { g.o.push(It::Nl) }
    let mut items = std::mem::take(&mut g.o);
    if s.pct(mutated) { gen::mutate(&mut items, s) }
    let st = layout::style(s);
    Case::entry(text_of(&items, &st, s), entry)
}
fn stmt_case(s: &mut Src, p: Prof, mutated: u32, make: fn(&mut Gen)) -> Case {
    let mut g = Gen::new(s, p);
    make(&mut g);
    let mut items = std::mem::take(&mut g.o);
    if s.pct(mutated) { gen::mutate(&mut items, s) }
    let st = layout::style(s);
    let entry = if s.pct(8) { Entry::Single } else { Entry::File };
    Case::entry(text_of(&items, &st, s), entry)
}

// ================================================================ tokens
fn ident_of(t: &Tok) -> (&'static str, String, Option<String>) { (t.kind, t.text.clone(), t.prefix.clone()) }
fn full(t: &Tok) -> (&'static str, u32, u32, String, Option<String>, (char, char)) { (t.kind, t.s, t.e, t.text.clone(), t.prefix.clone(), t.nl) }
fn show_plain(t: &Tok) -> String { let mut u = t.clone(); u.tr = None; u.show() }
fn show_all(t: &Tok) -> String { t.show() }

fn c01_corpus() -> Vec<Case> {
    let mut v = one_char(&[("a ", " b"), ("a", "b"), ("", "1")]);
    v.extend(odd_beside(&crate::reflex::OPERATORS.iter().map(|o| o.0).chain(crate::reflex::KEYWORDS.iter().map(|k| k.0)).chain(["_", "a1", "A_", "'s'", "1", "!", "\\", " ", "\t"]).collect::<Vec<_>>()));
    // every text of up to three characters over the operator alphabet
    let al: Vec<char> = "*/%+-<>=!&|^~@:.,;a1 ".chars().collect();
    for a in &al { v.push(Case::text(a.to_string())); for b in &al { v.push(Case::text(format!("{}{}", a, b))); for c in &al { v.push(Case::text(format!("{}{}{}", a, b, c))); for d in "=>.*a".chars() { v.push(Case::text(format!("{}{}{}{}", a, b, c, d))) } } } }
    v
}
fn c01_gen(s: &mut Src) -> Case {
    let mut o = String::new();
    let n = 1 + s.count(7, 80);
    for _ in 0..n {
        match s.below(10) {
            0..=2 => o.push_str(&lg::ident(s)),
            3..=6 => { let op = lg::operator(s); if !"()[]{}".contains(op) { o.push_str(op) } }
            7 => o.push_str(s.pick(&["1", "'s'", "()", "[]", "{}", ".5", "1."])),
            8 => o.push(' '),
            _ => { let k = s.below(3); for _ in 0..=k { o.push_str(s.pick(&["*", "/", "<", ">", "=", ".", "+", "-", "!=", ":", "|", "&", "^", "%", "@", "~", ",", ";"])) } }
        }
        if s.pct(25) { o.push(' ') }
    }
    Case::text(o)
}
fn c01(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let r = judge_tokens(&c.texts[0], sub, cx, full, show_plain)?;
    cx.nontrivial = r.toks.len() >= 3;
    for t in &r.toks { cx.tag(t.kind) }
    Ok(())
}

fn any_text(s: &mut Src) -> String {
    match s.below(10) {
        0..=2 => lg::soup(s, 14),
        3..=5 => lines(s),
        _ => {
            let p = Prof { rich: true, tcomment: 8, depth: 2, ..EXPR };
            let mut g = Gen::new(s, p);
            g.file();
            let items = std::mem::take(&mut g.o);
            let st = if s.pct(70) { layout::wild(s) } else { layout::style(s) };
            text_of(&items, &st, s)
        }
    }
}
/// lines of tokens without grammar, indented at random but usually consistently
fn lines(s: &mut Src) -> String {
    let mut o = String::new();
    let tabs = s.pct(25);
    let n = 1 + s.count(6, 40);
    let mut depth: Vec<u32> = vec![0];
    for i in 0..n {
        match s.below(8) {
            0 => { ws(s, &mut o); }
            1 => { ws(s, &mut o); o.push_str(&lg::comment(s)) }
            _ => {
                let top = *depth.last().unwrap();
                match s.below(5) { 0 => { let k = top + 1 + s.below(4); depth.push(k) } 1 => { let k = s.below(depth.len() as u32) as usize; depth.truncate(k + 1) } _ => {} }
                let mut col = *depth.last().unwrap();
                if s.pct(4) { col = s.below(12) }
                for _ in 0..col { o.push(if tabs { '\t' } else { ' ' }) }
                let k = 1 + s.below(5);
                for j in 0..k {
                    if j > 0 && s.pct(50) { ws(s, &mut o) }
                    match s.below(14) {
                        0..=2 => { if o.ends_with(|c: char| c.is_alphanumeric() || c == '_') { o.push(' ') } o.push_str(&lg::ident(s)) }
                        3..=5 => { let op = lg::operator(s); if !"()[]{}".contains(op) { o.push_str(op) } else { o.push(',') } }
                        6 => { o.push(' '); let t = lg::number(s); o.push_str(&t); o.push(' ') }
                        7 => { o.push(' '); let t = lg::string(s); o.push_str(&t) }
                        8 => { o.push('\\'); o.push_str(lg::newline(s)); if s.pct(50) { ws(s, &mut o) } o.push('z') }
                        9 | 10 => { let b = *s.pick(&["(", "[", "{"]); o.push_str(b); inner(s, &mut o, 2); o.push_str(match b { "(" => ")", "[" => "]", _ => "}" }) }
                        11 => o.push_str(s.pick(&["a", "b", ":", ";", "x"])),
                        _ => o.push_str(s.pick(&["a ", "1 ", "b.c", ": "])),
                    }
                }
                if s.pct(15) { ws(s, &mut o) }
                if s.pct(15) { if s.pct(30) { o.push_str("# type: int") } else { o.push_str(&lg::comment(s)) } }
            }
        }
        if i + 1 < n || s.pct(70) { lg::push_nl(&mut o, s) }
    }
    if s.pct(10) { ws(s, &mut o) }
    o
}
fn inner(s: &mut Src, o: &mut String, d: u32) {
    let n = s.below(5);
    for _ in 0..n {
        match s.below(8) {
            0 | 1 => lg::push_nl(o, s),
            2 => ws(s, o),
            3 => { o.push_str(&lg::comment(s)); lg::push_nl(o, s) }
            4 if d > 0 => { let b = *s.pick(&["(", "[", "{"]); o.push_str(b); inner(s, o, d - 1); o.push_str(match b { "(" => ")", "[" => "]", _ => "}" }) }
            5 => { o.push('\\'); o.push_str(lg::newline(s)); if s.pct(50) { ws(s, o) } o.push('w') }
            _ => { if o.ends_with(|c: char| c.is_alphanumeric()) { o.push(' ') } o.push_str(s.pick(&["a", "1", ",", "if", ":", "b", "'s'"])) }
        }
    }
}
fn ws(s: &mut Src, o: &mut String) { let n = 1 + s.count(2, 30); for _ in 0..n { o.push(if s.pct(25) { '\t' } else { ' ' }) } }

fn c02(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let text = &c.texts[0];
    let chars: Vec<char> = text.chars().collect();
    let n = chars.len();
    let r = reflex::lex(text);
    let o = sub_lex(sub, text, 0);
    if o.err || o.runaway || r.unknown.is_some() { return Ok(()) }
    let at = |a: u32, b: u32| -> Option<String> { if a <= b && b as usize <= n { Some(chars[a as usize..b as usize].iter().collect()) } else { None } };
    let mut pos = 0u32;
    let mut bol = true;
    let mut pieces = 0;
    let mut step = |s: u32, e: u32, what: String, nl: bool, content: Option<String>| -> Result<(), String> {
        if s < pos || e < s || e as usize > n { return Err(format!("{} lies at {}..{} but everything up to {} is already covered and the source has {} characters", what, s, e, pos, n)) }
        if s > pos {
            let gap = at(pos, s).unwrap();
            if !bol || !gap.chars().all(|x| x == ' ' || x == '\t') { return Err(format!("the characters {:?} at {}..{} belong to no token and no trivia", gap, pos, s)) }
        }
        if let Some(x) = content { let got = at(s, e).unwrap(); if got != x { return Err(format!("{} records {:?} but the source has {:?} at {}..{}", what, x, got, s, e)) } }
        if e > s || nl { bol = nl }
        pos = e;
        Ok(())
    };
    for t in &o.toks {
        for x in t.tr.iter().flatten().rev() {
            pieces += 1;
            let (s, e) = x.span();
            let content = match x {
                Tr::Ws(a, b, c) => c.to_string().repeat(b.saturating_sub(*a) as usize),
                Tr::Nl(_, _, a, b) => two(*a, *b),
                Tr::Cont(_, _, a, b, c) => format!("{}{}", a, two(*b, *c)),
                Tr::Comment(_, _, t) => t.clone(),
            };
            if s == e { return Err(format!("empty trivia {:?}", x)) }
            step(s, e, format!("trivia {:?}", x), matches!(x, Tr::Nl(..) | Tr::Cont(..)), Some(content))?;
        }
        if t.structural() { continue }
        pieces += 1;
        let content = match t.kind {
            "Newline" => if t.s == t.e { None } else { Some(two(t.nl.0, t.nl.1)) },
            "EOF" => None,
            "AtomString" => Some(format!("{}{}", t.prefix.clone().unwrap_or_default(), t.text)),
            "AtomName" | "AtomNumber" | "TypeComment" => Some(t.text.clone()),
            "PyNotEqual" => at(t.s, t.e).filter(|x| x == "<>").or(Some("!=".into())),
            k => reflex::kind_text(k).map(|x| x.to_string()),
        };
        if t.s == t.e && !matches!(t.kind, "Newline" | "EOF") { return Err(format!("empty token {}", t.show())) }
        if t.kind == "Newline" && t.s == t.e && t.s as usize != n { return Err("an empty newline token before the end of the source".into()) }
        step(t.s, t.e, format!("token {}", t.show()), t.kind == "Newline", content)?;
    }
    match o.toks.last() { Some(t) if t.kind == "EOF" => {} _ => return Err("no end marker".into()) }
    if pos as usize != n { return Err(format!("the end marker stands at {} but the source has {} characters", pos, n)) }
    cx.nontrivial = pieces >= 5;
    if o.toks.iter().any(|t| t.tr.is_some()) { cx.tag("with trivia") }
    if o.toks.iter().any(|t| t.structural()) { cx.tag("with blocks") }
    Ok(())
}
fn two(a: char, b: char) -> String { if b == ' ' { a.to_string() } else { format!("{}{}", a, b) } }
fn text_case(s: &mut Src) -> Case { Case::text(any_text(s)) }

fn c03_gen(s: &mut Src) -> Case {
    if s.pct(30) { return Case::text(lines(s)) }
    // lines whose only interest is their indentation
    let mut o = String::new();
    let unit = match s.below(3) { 0 => "\t".to_string(), 1 => " ".to_string(), _ => " ".repeat(1 + s.below(9) as usize) };
    let mixed = s.pct(30);
    let unit = if mixed { " ".to_string() } else { unit };
    let mut stack = vec![0u32];
    let n = 1 + s.count(9, 80);
    for i in 0..n {
        match s.below(9) {
            0 => { let k = s.below(5); o.push_str(&unit.repeat(k as usize)) } // blank
            1 => { let k = s.below(5); o.push_str(&unit.repeat(k as usize)); o.push_str("# c") }
            k => {
                let top = *stack.last().unwrap();
                match s.below(6) {
                    0 | 1 => stack.push(top + 1 + s.count(1, 12)),
                    2 => { let j = s.below(stack.len() as u32) as usize; stack.truncate(j + 1) }
                    3 => { stack.pop(); if stack.is_empty() { stack.push(0) } }
                    _ => {}
                }
                let mut lvl = *stack.last().unwrap();
                if s.permille(25) { lvl = s.below(top + 3) }
                if mixed { let w = layout::mix(s, lvl); o.push_str(&w) } else { o.push_str(&unit.repeat(lvl as usize)) }
                match k {
                    2 => { o.push_str("(a,"); lg::push_nl(&mut o, s); let j = s.below(4); o.push_str(&unit.repeat(j as usize)); o.push_str("b)") }
                    3 => { o.push_str("a \\"); o.push_str(lg::newline(s)); let j = s.below(4); o.push_str(&unit.repeat(j as usize)); o.push('b') }
                    4 => { o.push_str("if x:"); if s.pct(30) { o.push_str(" # h") } }
                    5 => { o.push_str("'''t"); lg::push_nl(&mut o, s); o.push_str("  u'''") }
                    6 => { o.push_str("[ # c"); lg::push_nl(&mut o, s); if s.pct(50) { lg::push_nl(&mut o, s) } o.push_str("{x"); lg::push_nl(&mut o, s); o.push_str("}] ") }
                    _ => o.push_str("x"),
                }
            }
        }
        if i + 1 < n || s.pct(60) { lg::push_nl(&mut o, s) }
    }
    if s.pct(15) { o.push_str(&unit) }
    Case::text(o)
}
fn c03(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    fn proj(t: &Tok) -> &'static str { match t.kind { "Indent" => "Indent", "Dedent" => "Dedent", "Newline" => "Newline", "EOF" => "EOF", _ => "other" } }
    let r = judge_tokens(&c.texts[0], sub, cx, proj, show_plain)?;
    cx.nontrivial = r.toks.iter().any(|t| t.structural()) || r.err.is_some();
    for t in &r.toks { if t.structural() { cx.tag(t.kind) } }
    Ok(())
}

fn c04_gen(s: &mut Src) -> Case {
    let mut o = String::new();
    let mut open: Vec<char> = vec![];
    let n = 1 + s.count(14, 160);
    let keep = s.pct(70);
    for _ in 0..n {
        match s.below(9) {
            0..=2 => { let k = s.below(3) as usize; o.push(['(', '[', '{'][k]); open.push([')', ']', '}'][k]) }
            3 | 4 => {
                if keep && !s.permille(15) { if let Some(x) = open.pop() { o.push(x) } }
                else { let x = *s.pick(&[')', ']', '}']); if open.last() == Some(&x) { open.pop(); } o.push(x) }
            }
            5 => { lg::push_nl(&mut o, s); if s.pct(40) { ws(s, &mut o) } if open.is_empty() { while o.ends_with([' ', '\t']) { o.pop(); } } }
            6 => o.push_str(s.pick(&["'('", "\")\"", "'''\n]'''", "#(]\n", "# )\r\n"])),
            7 => o.push_str(s.pick(&["a", ",", ":", "+", "1 ", "if "])),
            _ => o.push(' '),
        }
    }
    while o.ends_with([' ', '\t']) { o.pop(); }
    if s.pct(60) { while let Some(x) = open.pop() { o.push(x) } o.push_str("\nx\n") }
    Case::text(o)
}
fn c04(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    fn proj(t: &Tok) -> (&'static str, bool) { (t.kind, t.tr.iter().flatten().any(|x| matches!(x, Tr::Nl(..)))) }
    let r = judge_tokens(&c.texts[0], sub, cx, proj, show_all)?;
    let b = r.toks.iter().filter(|t| matches!(t.kind, "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly")).count();
    cx.nontrivial = b >= 1 || r.err.is_some();
    if b >= 8 { cx.tag("eight brackets or more") }
    if r.toks.iter().any(|t| proj(t).1) && b > 0 { cx.tag("line end inside brackets") }
    Ok(())
}

fn c05_gen(s: &mut Src) -> Case {
    let p = Prof { depth: 2, stmts: 2, rich: s.pct(30), tcomment: 5, ..EXPR };
    let mut g = Gen::new(s, p);
    g.file();
    let mut items = std::mem::take(&mut g.o);
    if s.pct(10) { gen::mutate(&mut items, s) }
    let mut st = layout::wild(s);
    st.nl = 4;
    let t = text_of(&items, &st, s);
    let a = t.replace(layout::NLMARK, "\n");
    let mode = s.below(4);
    let mut b = String::new();
    for c in t.chars() {
        if c != layout::NLMARK {
            if c == '\n' && b.ends_with('\r') { b.push(' ') } // unreachable in practice: a string literal cannot start with a line end
            b.push(c);
            continue;
        }
        match if mode < 3 { mode } else { s.below(3) } {
            0 => b.push_str("\r\n"),
            1 => b.push('\r'),
            _ => if b.ends_with('\r') { b.push_str("\r\n") } else { b.push('\n') },
        }
    }
    Case { texts: vec![a, b], args: vec![] }
}
fn strip_nl(toks: &[Tok]) -> Vec<(&'static str, String, Option<String>, Vec<String>)> {
    toks.iter().map(|t| (t.kind, t.text.clone(), t.prefix.clone(), t.tr.iter().flatten().map(|x| match x { Tr::Ws(a, b, c) => format!("{}{}", c, b - a), Tr::Nl(..) => "nl".into(), Tr::Cont(..) => "cont".into(), Tr::Comment(_, _, t) => t.clone() }).collect())).collect()
}
fn c05(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let (a, b) = (&c.texts[0], &c.texts[1]);
    let r = reflex::lex(a);
    if r.unknown.is_some() || reflex::lex(b).unknown.is_some() { cx.tag("not judged"); return Ok(()) }
    let (x, y) = (sub_lex(sub, a, 0), sub_lex(sub, b, 0));
    if x.err != y.err { return Err(format!("changing line ends changes whether the source tokenizes (with LF: error {}, otherwise: error {})", x.err, y.err)) }
    let (p, q) = (strip_nl(&x.toks), strip_nl(&y.toks));
    for i in 0..p.len().max(q.len()) { if p.get(i) != q.get(i) { return Err(format!("changing line ends changes token {}: {:?} becomes {:?}", i, p.get(i), q.get(i))) } }
    // each line end records its characters
    let chars: Vec<char> = b.chars().collect();
    for t in &y.toks { if t.kind == "Newline" && t.s < t.e {
        let got: String = chars.get(t.s as usize..t.e as usize).map(|v| v.iter().collect()).unwrap_or_default();
        if two(t.nl.0, t.nl.1) != got { return Err(format!("the newline at {}..{} is written {:?} but records {:?}", t.s, t.e, got, t.nl)) }
    } }
    match (sub_parse(sub, a, Entry::File), sub_parse(sub, b, Entry::File)) {
        (Ok(m), Ok(n)) => { if let Some(d) = diff_tree(&m, &n) { return Err(format!("changing line ends changes the tree: {}", d)) } cx.tag("parses") }
        (Err(_), Err(_)) => {}
        (m, _) => return Err(format!("changing line ends changes acceptance (with LF: {})", if m.is_ok() { "accepted" } else { "rejected" })),
    }
    cx.nontrivial = a != b;
    Ok(())
}
fn c05_corpus() -> Vec<Case> {
    ["x\ny", "if a:\n  b\nc", "(\na\n)", "a\\\nb", "# c\nx", "\n\nx\n\n", "if a:\n\n  # c\n  b\n\n# d\nc\n", "x = '''\n'''\ny\n"].iter().flat_map(|t| {
        ["\r\n", "\r"].iter().map(move |n| Case { texts: vec![t.to_string(), t.replace("'''\n'''", "'''@'''").replace('\n', n).replace("'''@'''", "'''\n'''")], args: vec![] })
    }).collect()
}

fn c06_gen(s: &mut Src) -> Case {
    let mut o = String::new();
    match s.below(6) { 0 => o.push_str(s.pick(&["a ", "-", "(", "[", "x=", "\t", "a.", "a", "1 ", "..", "~", "if "])), _ => {} }
    o.push_str(&lg::number(s));
    let a = lg::after(s);
    o.push_str(&a);
    if s.pct(25) { o.push_str(&lg::number(s)); o.push_str(&lg::after(s)) }
    Case::text(o)
}
fn c06(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let r = judge_tokens(&c.texts[0], sub, cx, full, show_plain)?;
    cx.nontrivial = r.toks.iter().any(|t| t.kind == "AtomNumber") || r.err.is_some();
    for t in &r.toks { if t.kind == "AtomNumber" {
        let l = t.text.to_ascii_lowercase();
        cx.tag(if l.starts_with("0x") { "hexadecimal" } else if l.starts_with("0o") { "octal" } else if l.starts_with("0b") { "binary" } else if l.ends_with('j') { "imaginary" } else if l.contains('e') { "exponent" } else if l.contains('.') { "fraction" } else { "integer" });
    } }
    Ok(())
}
/// every text over a small number alphabet up to a length, by index
fn c06_corpus() -> Vec<Case> {
    let mut v = texts(&["1e", "1e+", "1e-x", "1.e5", "1._5", "0_7", "07", "00", "0_0", "08.5", "09e1", "07j", "0x", "0x_", "0xg", "0b2", "0o8", "0b1_", "1__0", "1_", "1_.5", "1_e5", "1e_5", "1e5_", "1e5_0", ".5e1j", "1.j", "1..real", "1.real", "1if x else y", "0xfor x", "1_000.000_1e1_0J", "0X_1F", "0B_1", "0O_7", "1e5.5", "1.5.5", "1jj", "1e1e1"]);
    v.extend(odd_beside(&["0", "00", "1", "12", "0_", "1_", "1_0", "1.", "0.", ".", "..", ".5", "1.5", "1e", "0e", "1e+", "1e5", ".5e-", "1E-1", "1.5e3", "0x", "0x_", "0xf", "0X_1", "0b", "0b1", "0B_", "0o", "0o7", "0O_", "1j", "1.j", "0J", "1.5_", "1e5_", "00_"]));
    let abc = ['0', '1', '8', '_', '.', 'e', '+', 'j', 'x', 'b'];
    for n in 1..=4u32 {
        for k in 0..10u32.pow(n) {
            let mut x = k;
            let t: String = (0..n).map(|_| { let c = abc[(x % 10) as usize]; x /= 10; c }).collect();
            if t.starts_with(['0', '1', '8', '.']) { v.push(Case::text(t)) }
        }
    }
    v
}

fn c07_gen(s: &mut Src) -> Case {
    let mut o = String::new();
    if s.pct(25) { o.push_str(s.pick(&["a ", "(", "x=", "f(", "1,", "'a'", "\"b\"", "r ", "if "])) }
    o.push_str(&lg::string(s));
    match s.below(6) { 0 => {} 1 => o.push_str(&lg::string(s)), 2 => { o.push(' '); o.push_str(&lg::string(s)) } 3 => o.push_str(&lg::after(s)), 4 => { o.push('\n'); o.push_str(&lg::ident(s)) } _ => o.push_str(s.pick(&["#'", "\n", " ", "\\\n'a'", ")", "\"", "'", "''"])) }
    Case::text(o)
}
fn c07(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let r = judge_tokens(&c.texts[0], sub, cx, full, show_plain)?;
    cx.nontrivial = r.toks.iter().any(|t| t.kind == "AtomString") || r.err.is_some();
    for t in &r.toks { if t.kind == "AtomString" {
        cx.tag(if t.text.starts_with("'''") { "triple '" } else if t.text.starts_with("\"\"\"") { "triple \"" } else if t.text.starts_with('\'') { "single '" } else { "single \"" });
        if t.prefix.is_some() { cx.tag("prefix") }
        if t.text.contains('\\') { cx.tag("backslash") }
        if t.text.contains(['\n', '\r']) { cx.tag("line end inside") }
    } }
    Ok(())
}
fn c07_corpus() -> Vec<Case> {
    let mut v = texts(&["'\\\\'", "'\\''", "'a\\\nb'", "'a\\\r\nb'", "'a\\\rb'", "'''a\\'''b'''", "'''a''b'c'''", "''''a'''", "'''a''''", "\"\"\"a\\\"\"\"\"", "''", "\"\"", "''''''", "'", "'''", "'a\nb'", "'a", "'\\", "'''\\", "'''a''", "u8'x'", "''''", "'''''"]);
    for p in reflex::PREFIXES { for q in ["'x'", "\"x\"", "'''x'''", "\"\"\"\nx\"\"\""] { v.push(Case::text(format!("{}{}", p, q))) } }
    for p in ["br", "rb", "fr", "rf", "u", "ub", "bu", "ur", "ru", "uf", "fu", "bf", "fb", "rr", "bb", "brr", "x", "t"] { v.push(Case::text(format!("{}'x'", p))) }
    let abc = ['\'', '"', '\\', 'a', '\n'];
    for n in 1..=6u32 { for k in 0..5u32.pow(n) { let mut x = k; let t: String = (0..n).map(|_| { let c = abc[(x % 5) as usize]; x /= 5; c }).collect(); if t.starts_with('\'') { v.push(Case::text(t)) } } }
    v
}

fn c08(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    fn proj(t: &Tok) -> (&'static str, Option<Vec<Tr>>) { (t.kind, t.tr.clone().filter(|v| !v.is_empty())) }
    let r = judge_tokens(&c.texts[0], sub, cx, proj, show_all)?;
    let mut comments = 0;
    for t in &r.toks { for x in t.tr.iter().flatten() { cx.tag(match x { Tr::Ws(_, _, ' ') => "spaces", Tr::Ws(..) => "tab", Tr::Nl(..) => "line end", Tr::Cont(..) => "continuation", Tr::Comment(..) => { comments += 1; "comment" } }); cx.nontrivial = true } }
    if comments > 1 { cx.tag("several comments") }
    Ok(())
}
fn trivia_gen(s: &mut Src) -> Case {
    if s.pct(50) { return Case::text(lines(s)) }
    let p = Prof { depth: 2, tcomment: 5, ..EXPR };
    let mut g = Gen::new(s, p);
    g.file();
    let items = std::mem::take(&mut g.o);
    let st = layout::wild(s);
    Case::text(text_of(&items, &st, s))
}

fn c09_gen(s: &mut Src) -> Case {
    let n = s.count(9, 400);
    let mut t = String::new();
    for _ in 0..n { match s.below(6) { 0 => t.push(*s.pick(&lg::ODD)), 1 => t.push(*s.pick(&['\n', '\r', '\t', ' '])), 2 => t.push(char::from_u32(s.below(0x110000)).unwrap_or('?')), _ => t.push((b'a' + s.below(26) as u8) as char) } }
    let k = 1 + s.count(30, 900);
    let mut ops = String::new();
    for _ in 0..k { ops.push(*s.pick(&['a', 'a', 'c', 'k', 'p', 'n'])) }
    Case { texts: vec![t], args: vec![ops] }
}
fn c09(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let chars: Vec<char> = c.texts[0].chars().collect();
    let ops: Vec<BufOp> = c.args[0].chars().map(|x| match x { 'a' => BufOp::Advance, 'c' => BufOp::Char, 'k' => BufOp::Peek, 'p' => BufOp::Pos, _ => BufOp::Count }).collect();
    let got = (sub.buffer)(&c.texts[0], &ops);
    let at = |i: usize| chars.get(i).copied().unwrap_or('\0');
    let mut pos = 0usize;
    for (i, o) in ops.iter().enumerate() {
        let want = match o {
            BufOp::Char => BufRes::Char(at(pos)),
            BufOp::Peek => BufRes::Peek(at(pos), at(pos + 1), at(pos + 2)),
            // past the end the position may stay or run on; it is not asserted there
            BufOp::Pos => if pos > chars.len() { continue } else { BufRes::Num(pos as u32) },
            BufOp::Count => BufRes::Num(chars.len() as u32),
            BufOp::Advance => { pos += 1; BufRes::Unit }
        };
        if got.get(i) != Some(&want) { return Err(format!("operation {} ({:?}) at position {} of {} should give {:?} but gives {:?}", i, o, pos, chars.len(), want, got.get(i))) }
    }
    cx.nontrivial = pos > 0 && ops.len() > 3;
    if pos > chars.len() { cx.tag("advanced past the end") }
    if c.texts[0].len() > chars.len() { cx.tag("multi-byte characters") }
    Ok(())
}

// ================================================================ any input
fn c10_gen(s: &mut Src) -> Case {
    let t = match s.below(12) {
        0..=4 => lg::soup(s, 12),
        5 | 6 => lines(s),
        7 => { let n = s.count(40, 1500); let mut o = String::new(); for _ in 0..n { o.push_str(&match s.below(3) { 0 => s.pick(&["(", "[", "{", "\n", " ", ")", ":"]).to_string(), 1 => s.pick(&["a", "1", "'", "if ", "not ", "-", "lambda:", "*", "yield ", "await "]).to_string(), _ => char::from_u32(s.below(256)).unwrap_or('?').to_string() }) } o }
        8 => { let (w, k) = (*s.pick(&["(", "[", "{", "-", "not ", "a.", "a+", "if a:\n", "a(", "a[", "lambda:", "'", "(a,", "a if a else ", "*", "@a\n", "~", "async ", "await ", "**", "a,", "a=", "for a in ", "\n", " ", "\\\n", "#\n", ";"]), s.range(2, 120)); w.repeat(k as usize) }
        _ => {
            let p = Prof { depth: 2, rich: true, tcomment: 6, ..EXPR };
            let mut g = Gen::new(s, p);
            g.file();
            let mut items = std::mem::take(&mut g.o);
            let k = s.below(4);
            for _ in 0..k { gen::mutate(&mut items, s) }
            let st = layout::wild(s);
            let t = layout::render(&items, &st, s);
            if s.pct(40) {
                // cut or damage the text anywhere
                let mut ch: Vec<char> = t.chars().collect();
                let m = 1 + s.below(3);
                for _ in 0..m { if ch.is_empty() { break } let i = s.below(ch.len() as u32) as usize; match s.below(4) { 0 => ch.truncate(i), 1 => { ch.remove(i); } 2 => { let f = lg::fragment(s); for c in f.chars().rev() { ch.insert(i, c) } } _ => { ch.drain(..i); } } }
                ch.into_iter().collect()
            } else { t }
        }
    };
    Case::text(t)
}
fn c10(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let t = &c.texts[0];
    let o = sub_lex(sub, t, 3);
    if o.runaway { return Err("the token stream does not end".into()) }
    if !o.err {
        let end = match o.toks.last() { Some(t) if t.kind == "EOF" => t.clone(), _ => return Err("the token stream ended without an end marker".into()) };
        cx.tag("tokenizes");
        for x in &o.extra { match x {
            Some(y) if y.kind == "EOF" && y.s == end.s => {}
            Some(y) => return Err(format!("after the end marker at {} another request delivers {}", end.s, y.show())),
            None => return Err("after the end marker another request delivers an error".into()),
        } }
    } else { cx.tag("lexical error") }
    for e in ENTRIES { match (sub.parse)(t, e) { Ok(_) => cx.tag("accepted"), Err(_) => cx.tag("rejected") } }
    cx.nontrivial = t.chars().count() >= 3;
    Ok(())
}
fn c10_corpus() -> Vec<Case> {
    texts(&["", "\n", "\r", "\r\n", " ", "\t", "\\", "\\\n", "\0", "\u{feff}", "'", "\"\"\"", "(", ")", "0x", "match x:\n  case 1:\n    pass\n", "match", "match x", "match x:", "import", "import a", "import ,", "from", "from .", "from . import", "from . import (", "def f(a", "def f(a):\n  pass\n", "class", "@", "@a", "async", "with", "with (", "try", "try:", "try:\n", "if x:\n", "if x:\n ", "x\n  y\n z", "{", "{}", "{a", "{a:", "{**", "[x for", "lambda", "lambda *", "lambda *,", "f(", "f(*", "f(**", "f(a=", "a[", "a[:", "a[::", "yield", "yield from", "(yield", "await", "not", "-", "a if", "a if b", "a if b else", "x:", "x: int =", "x =", "x +=", "del", "global", "assert", "raise", "raise x from", "return", "#", "# type:", "x # type: int", "() -> int", "() ->", "(", "(*", "(**", "(int, *", "\n\n\n", "if x: # c\n\n # d\n", "if x:\n y\n\\", "x\\", "é", "😀", "0777", "1e", "1_", "f\"{", "b'é'"])
}

// ================================================================ expressions
const OPK: [&str; 31] = ["OrTest", "AndTest", "NotTest", "LessComparison", "LessEqualComparison", "EqualComparison", "GreaterComparison", "GreaterEqualComparison", "NotEqualComparison", "InComparison", "IsComparison", "NotInComparison", "IsNotComparison", "Expr", "XorExpr", "AndExpr", "ShiftLeftExpr", "ShiftRightExpr", "PlusArithExpr", "MinusArithExpr", "MulTerm", "DivTerm", "FloorDivTerm", "ModuloTerm", "MatriceTerm", "UnaryPlus", "UnaryMinus", "UnaryInvert", "PowerExpr", "Test", "AtomExpr"];
fn c11_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { strcat: 0, tuple: 0, list: 0, dict: 0, set: 0, paren: 4, lambda: 0, cond: 0, compr: 0, named: 0, star: 0, call: 1, index: 0, attr: 1, await_: 3, unary: 4, bin: 8, boolop: 5, notop: 3, cmp: 5, depth: 4, ..EXPR };
    fn soup(g: &mut Gen) {
        // operands and operators of every level in any order, with the precedences left to the parser
        let n = 1 + g.s.count(7, 40);
        for i in 0..n {
            if i > 0 {
                let op = match g.s.below(5) { 0 => *g.s.pick(&["and", "or"]), 1 => *g.s.pick(&gen::CMPOPS), 2 => "**", 3 if g.s.pct(20) => "^", _ => *g.s.pick(&gen::BINOPS) };
                g.t(op);
                if matches!(op, "and" | "or") && g.s.pct(25) { g.t("not") }
            } else if g.s.pct(12) { g.t("not") }
            let u = if g.s.pct(20) { 1 + g.s.below(3) } else { 0 };
            for _ in 0..u { let x = *g.s.pick(&["-", "+", "~"]); g.t(x) }
            if g.s.pct(8) { g.t("("); g.or(2); g.t(")") } else { let d = if g.s.pct(15) { 1 } else { 0 }; g.atom(d) }
        }
    }
    expr_case(s, P, 12, if s.exhausted() { soup } else { [soup as fn(&mut Gen), |g| g.or(4)][0] })
}
fn c11(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &OPK[..29]) }
fn c11_corpus() -> Vec<Case> {
    let ops: Vec<&str> = gen::BINOPS.iter().chain(gen::CMPOPS.iter()).copied().chain(["^", "and", "or"]).collect();
    let mut v = vec![];
    for a in &ops { for b in &ops {
        v.push(Case::entry(format!("x {} y {} z", a, b), Entry::Eval));
        v.push(Case::entry(format!("-x {} ~y {} +z\n", a, b), Entry::Eval));
    } v.push(Case::entry(format!("not x {} y", a), Entry::Eval)); v.push(Case::entry(format!("x {} y {} z {} w", a, a, a), Entry::Eval)); v.push(Case::entry(format!("x {} not y", a), Entry::Eval)); }
    plus(v, evals(&["-x**-y", "await x**y", "-await x**2", "not not x", "x not y", "x is not not y", "x not not in y", "x is in y", "~-+x"]))
}

const ATOMK: [&str; 11] = ["AtomName", "AtomNumber", "AtomString", "AtomTrue", "AtomFalse", "AtomNone", "AtomElipsis", "AtomTuple", "AtomList", "TestListComp", "StarExpr"];
fn c12_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { name: 6, num: 3, str_: 2, konst: 3, strcat: 3, paren: 4, tuple: 8, list: 8, dict: 1, set: 1, compr: 3, named: 12, star: 12, unary: 1, bin: 1, boolop: 1, notop: 1, cmp: 1, cond: 2, lambda: 1, call: 1, index: 1, attr: 1, items: 5, depth: 4, ..EXPR };
    expr_case(s, P, 18, |g| if g.s.pct(80) { let d = g.p.depth; match g.s.below(4) { 0 => g.atom(d), 1 => g.display("[", "]", d), _ => g.display("(", ")", d) } } else { g.star_list(3, false) })
}
fn c12(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &ATOMK) }
fn c12_corpus() -> Vec<Case> { evals(&["()", "[]", "(a,)", "[a,]", "(a)", "(a, b,)", "[a, b, c, d,]", "(*a, b)", "[*a]", "(a := 1, b)", "[a := 1]", "'a' 'b' r'c'", "(,)", "[,]", "(a,,)", "[a b]", "(a", "a)", "...", "(yield)", "((((a))))", "[[[]], ()]"]) }

const C13K: [&str; 6] = ["Test", "NamedExpr", "StarExpr", "Lambda", "YieldExpr", "YieldFromExpr"];
fn c13_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { cond: 10, lambda: 8, named: 25, star: 15, yieldp: 6, paren: 5, tuple: 3, list: 2, dict: 1, set: 1, compr: 3, strcat: 0, unary: 1, bin: 2, boolop: 2, notop: 1, cmp: 1, call: 2, index: 1, attr: 1, depth: 4, ..EXPR };
    if s.pct(35) {
        const Q: Prof = Prof { s_yield: 8, s_expr: 6, s_return: 2, s_assign: 3, s_aug: 1, s_ann: 1, s_flow: 0, s_raise: 1, s_global: 0, s_del: 0, s_assert: 1, s_import: 0, s_from: 0, compound: 20, c_if: 4, c_while: 3, c_for: 0, c_try: 0, c_with: 0, c_def: 1, c_class: 0, c_deco: 0, c_async: 0, ..P };
        return stmt_case(s, Q, 15, |g| { let b = g.p.blocks; g.stmt(b) });
    }
    expr_case(s, P, 18, |g| { let d = g.p.depth; g.test(d) })
}
fn c13(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C13K) }
fn c13_corpus() -> Vec<Case> {
    plus(evals(&["a if b else c if d else e", "a if b if c else d else e", "lambda: a if b else c", "lambda: lambda: x", "(a := b if c else d)", "(a := lambda: x)", "a := b", "(lambda: a := b)", "[*a | b]", "[*a or b]", "(yield a)", "(yield a, b)", "(yield from a)", "(yield from a, b)", "a if b", "a if else c", "lambda x: (yield x)", "a if lambda: b else c", "(a := b := c)", "[a for x in y if lambda: z]", "[a for x in y if lambda: z if w]", "[a for x in y if lambda z: w or v]", "[i for i in x if lambda: lambda: y]"]),
        files(&["yield a\n", "yield a, *b\n", "yield from a\n", "x = yield a\n", "x += yield from a\n", "*a, b\n", "if a := b: pass\n", "while a := b: pass\n", "if a: pass\nelif b := c: pass\n", "a := b\n", "return *a, b\n", "x = lambda: (yield a)\n"]))
}

// ================================================================ simple statements
const C14K: [&str; 12] = ["PassStmt", "BreakStmt", "ContinueStmt", "ReturnStmt", "RaiseStmt", "GlobalStmt", "NonLocalStmt", "DelStmt", "AssertStmt", "TestListStarExpr", "StarExpr", "ExprList"];
fn c14_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 2, s_expr: 3, s_flow: 3, s_return: 4, s_raise: 4, s_global: 4, s_del: 4, s_assert: 4, s_assign: 0, s_aug: 0, s_ann: 0, s_import: 0, s_from: 0, s_yield: 1, semi: 45, compound: 4, c_if: 1, c_while: 0, c_for: 0, c_try: 0, c_with: 0, c_def: 1, c_class: 0, c_deco: 0, c_async: 0, lambda: 0, compr: 2, star: 10, stmts: 2, ..EXPR };
    stmt_case(s, P, 20, |g| g.file())
}
fn c14(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C14K) }
fn c14_corpus() -> Vec<Case> {
    files(&["pass\n", "pass;\n", "pass; pass\n", "pass; break; continue;\n", ";\n", "pass;;\n", "return\n", "return;\n", "return a,\n", "return *a, b\n", "raise\n", "raise a\n", "raise a from b\n", "raise from b\n", "raise a,\n", "global a\n", "global a, b\n", "global a,\n", "nonlocal a, b, c\n", "nonlocal\n", "del a\n", "del a, b\n", "del a,\n", "del (a, b), c[0]\n", "del\n", "assert a\n", "assert a, b\n", "assert a, b, c\n", "assert\n", "a, b\n", "a,\n", "*a, b\n", "a\n", "a; b", "pass pass\n", "a; return b; raise c; global d; del e; assert f\n", "return (yield a)\n"])
}

// ================================================================ compound statements
const C15K: [&str; 7] = ["IfStmt", "ElifStmt", "ElseStmt", "WhileStmt", "ForStmt", "WithStmt", "WithItem"];
fn c15_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 2, items: 2, c_if: 6, c_while: 4, c_for: 5, c_with: 5, c_try: 1, c_def: 1, c_class: 0, c_deco: 0, c_async: 2, compound: 55, named: 12, stmts: 2, semi: 8, lambda: 0, dict: 0, set: 0, ..EXPR };
    stmt_case(s, P, 18, |g| { let b = g.p.blocks; g.compound(b); if g.s.pct(40) { g.stmt(b) } })
}
fn c15(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C15K) }
fn c15_corpus() -> Vec<Case> {
    files(&["if a: pass\n", "if a: pass\nelse: pass\n", "if a:\n  pass\nelif b:\n  pass\nelif c: pass\nelse:\n  pass\n", "if a:\n if b: pass\nelse: pass\n", "if a:\n if b: pass\n else: pass\n", "if a: pass\nelse: pass\nelse: pass\n", "if a: pass\nelse: pass\nelif b: pass\n", "elif a: pass\n", "else: pass\n", "while a: pass\nelse: pass\n", "for a in b: pass\nelse: pass\n", "for a, b in c, d: pass\n", "for a, in b,: pass\n", "for a in b, c,: pass\n", "for (a, b) in c: pass\n", "for *a, b in c: pass\n", "for a.b in c: pass\n", "for a[0] in c: pass\n", "for in b: pass\n", "for a b: pass\n", "for a in: pass\n", "with a: pass\n", "with a as b: pass\n", "with a as b, c as d: pass\n", "with (a as b): pass\n", "with (a as b, c as d,): pass\n", "with (a, b): pass\n", "with a, : pass\n", "with : pass\n", "with a as b c: pass\n", "with a() as b.c: pass\n", "with a as (b, c): pass\n", "async for a in b: pass\n", "async with a as b: pass\n", "async if a: pass\n", "async while a: pass\n", "while a := b: pass\n", "if a := b: pass\nelif c := d: pass\n", "if a, b: pass\n", "while: pass\n", "if: pass\n", "if a:\n", "if a\n  pass\n", "for x in y:\n  break\nelse:\n  pass\nz\n", "with (yield a): pass\n"])
}

/// puts a character that cannot stand in a program somewhere in the text
fn foreign(t: &mut String, s: &mut Src) {
    let mut c: Vec<char> = t.chars().collect();
    let i = if s.pct(30) { c.len() } else { s.below(c.len() as u32 + 1) as usize };
    c.insert(i, *s.pick(&['\0', '\0', '$', '?', '`', '!', '\u{1}', '\u{7f}', '€', '\u{a0}', '\\']));
    *t = c.into_iter().collect();
}
fn c16_gen(s: &mut Src) -> Case {
    let mut p = Prof { depth: 2, items: 2, stmts: 2, ..EXPR };
    let entry = *s.pick(&ENTRIES);
    if s.pct(30) { p = Prof { depth: 1, ..TINY } }
    let mut g = Gen::new(s, p);
    match entry {
        Entry::File => { let n = g.s.below(3); for _ in 0..n { g.o.push(It::Nl) } g.file() }
        Entry::Single => { if g.s.pct(50) { g.simple() } else { g.compound(2) } if g.s.pct(30) { g.stmt(1) } }
        Entry::Eval => { g.star_list(2, false); if g.s.pct(70) { g.o.push(It::Nl) } if g.s.pct(25) { g.stmt(1) } }
        Entry::FuncType => { func_type(&mut g); if g.s.pct(70) { g.o.push(It::Nl) } if g.s.pct(25) { g.stmt(1) } }
    }
    let mut items = std::mem::take(&mut g.o);
    if s.pct(15) { gen::mutate(&mut items, s) }
    if s.pct(15) { let x = gen::random_item(s); items.push(x) }
    let st = layout::style(s);
    let mut t = text_of(&items, &st, s);
    if s.pct(3) { foreign(&mut t, s) }
    // any text through any entry
    let entry = if s.pct(20) { *s.pick(&ENTRIES) } else { entry };
    Case::entry(t, entry)
}
fn c16(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let e = entry_of(&c.args[0]);
    let n = judge(&c.texts[0], e, ACCEPT | REJECT, sub, cx)?;
    if let (Some(exp), Ok(act)) = (&n, sub_parse(sub, &c.texts[0], e)) {
        // the root and how many parts it has; what the parts are is judged elsewhere
        fn shape(k: &Kid) -> String { match k { Kid::T(t) => t.kind.to_string(), Kid::N(n) => n.kind.to_string(), Kid::L(v) => format!("[{}]", v.iter().map(shape).collect::<Vec<_>>().join(" ")), Kid::None => "-".into() } }
        let f = |n: &Node| format!("{} {}", n.kind, n.kids.iter().map(shape).collect::<Vec<_>>().join(" "));
        if f(exp) != f(&act) { return Err(format!("the root should be '{}' but is '{}'", f(exp), f(&act))) }
        // the parts come last first
        for k in &act.kids { if let Kid::L(v) = k {
            let at: Vec<u32> = v.iter().filter_map(first_char).collect();
            if at.windows(2).any(|w| w[0] < w[1]) { return Err(format!("the parts of the root should come last first but begin at {:?}", at)) }
        } }
    }
    cx.nontrivial = cx.tags.contains(&"valid") || cx.tags.contains(&"invalid");
    cx.tag(match e { Entry::File => "file", Entry::Single => "interactive", Entry::Eval => "expression", Entry::FuncType => "function type" });
    Ok(())
}
fn c16_corpus() -> Vec<Case> {
    let mut v = vec![];
    for t in ["", "\n", "\n\n", "a", "a\n", "a\n\n\n", "a\nb\n", "a b", "a)", "a;", "a; b\n", "if a: pass\n", "if a: pass\n\n", "if a:\n  b\n", "if a:\n  b\n\n", "if a: pass\nb\n", "() -> a", "() -> a\n\n", "(a, b) -> c\nd\n", "() -> a b", "a,\n", "a, b", "pass\n", "# c", "  ", "a # c", "\na\n", "def f(): pass\n", "@a\ndef f(): pass\n", "class A: pass\n", "try: pass\nfinally: pass\n", "\0", "a\0", "a\0b", "a\n\0", "a\n\0b\n", "() -> a\0", "() -> a\n\0", "pass\0\n", "if a: pass\n\0", "# \0", "a # \0", "'\0'", "a \0", "  \0\n", "(\0)", "a $\n", "a\n$"] { for e in ENTRIES { v.push(Case::entry(t, e)) } }
    v
}

fn func_type(g: &mut Gen) {
    g.t("(");
    let n = g.s.count(3, 30);
    let mut first = true;
    for _ in 0..n { if !first { g.t(",") } first = false; g.test(2) }
    if g.s.pct(30) { if !first { g.t(",") } first = false; g.t("*"); g.test(1); if g.s.pct(30) { let k = 1 + g.s.below(2); for _ in 0..k { g.t(","); g.test(1) } } }
    if g.s.pct(30) { if !first { g.t(",") } g.t("**"); g.test(1) }
    g.t(")");
    g.t("->");
    g.test(2);
}
const C32K: [&str; 2] = ["FuncType", "TypeList"];
fn c32_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 2, items: 2, call: 1, index: 5, attr: 3, lambda: 1, cond: 1, bin: 2, ..EXPR };
    let mut g = Gen::new(s, P);
    func_type(&mut g);
    let k = g.s.below(4);
    for _ in 0..k { g.o.push(It::Nl) }
    let mut items = std::mem::take(&mut g.o);
    if s.pct(30) { gen::mutate(&mut items, s) }
    let st = layout::style(s);
    Case::entry(text_of(&items, &st, s), Entry::FuncType)
}
fn c32(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C32K) }
fn c32_corpus() -> Vec<Case> {
    ["() -> a", "(a) -> b", "(a, b, c) -> d\n", "(*a) -> b", "(**a) -> b", "(*a, **b) -> c", "(a, *b, **c) -> d\n\n", "(a, **b) -> c", "(a, *b) -> c", "(a, *b, c) -> d", "(a, **b, c) -> d", "(a, *b, *c) -> d", "(**b, *c) -> d", "(a b) -> c", "(a,, b) -> c", "(,) -> c", "() -> ", "()", "() a", "a -> b", "( -> b", ") -> b", "() -> a, b", "() -> a b", "() - > a", "(a := b) -> c", "(a if b else c) -> lambda: d"].iter().map(|t| Case::entry(*t, Entry::FuncType)).collect()
}

// ================================================================ trees as a whole
fn whole_prog(s: &mut Src) -> Case {
    let entry = match s.weighted(&[70, 12, 12, 6]) { 0 => Entry::File, 1 => Entry::Single, 2 => Entry::Eval, _ => Entry::FuncType };
    let p = Prof { depth: 3, rich: s.pct(40), tcomment: if s.pct(20) { 15 } else { 0 }, yieldp: 1, await_: 2, ..EXPR };
    let p = if s.pct(30) { Prof { depth: 1, compound: 60, blocks: 4, ..p } } else { p };
    let mut g = Gen::new(s, p);
    match entry {
        Entry::File => g.file(),
        Entry::Single => if g.s.pct(50) { g.simple() } else { g.compound(3) },
        Entry::Eval => { g.star_list(4, false); if g.s.pct(70) { g.o.push(It::Nl) } }
        Entry::FuncType => { func_type(&mut g); if g.s.pct(70) { g.o.push(It::Nl) } }
    }
    let items = std::mem::take(&mut g.o);
    let st = if s.pct(60) { layout::wild(s) } else { layout::style(s) };
    Case::entry(text_of(&items, &st, s), entry)
}
/// Only what the reference accepts counts, so that the tokens can be read from the subject itself.
fn accepted(c: &Case, sub: &Subject, cx: &mut Cx) -> Option<(Node, Node, Vec<Tok>)> {
    let e = entry_of(&c.args[0]);
    let Ref::Accept(exp) = reference(&c.texts[0], e).out else { cx.tag("not judged"); return None };
    let Ok(act) = sub_parse(sub, &c.texts[0], e) else { cx.tag("rejected"); return None };
    Some((exp, act, sub_lex(sub, &c.texts[0], 0).toks))
}
fn c17(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let Some((exp, act, lexed)) = accepted(c, sub, cx) else { return Ok(()) };
    cx.tag("valid");
    let mut have = vec![];
    act.tokens(&mut have);
    // in source order; the tokens without a position keep their number
    let mut pos: Vec<&Tok> = have.iter().copied().filter(|t| !t.structural()).collect();
    pos.sort_by_key(|t| (t.s, t.e, t.kind == "EOF"));
    let mut want: Vec<&Tok> = lexed.iter().filter(|t| !t.structural()).collect();
    if c.args[0] == "single" { // one statement is read; what follows it, and the end of input, have no place in the tree
        let mut v = vec![];
        exp.tokens(&mut v);
        want.truncate(v.iter().filter(|t| !t.structural()).count());
    }
    for i in 0..pos.len().max(want.len()) {
        match (want.get(i), pos.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (a, b) => return Err(format!("token {} of the source is {} but the tree has {}", i, a.map(|x| x.show()).unwrap_or("nothing".into()), b.map(|x| x.show()).unwrap_or("nothing".into()))),
        }
    }
    for k in ["Indent", "Dedent"] {
        let sig = |t: &&Tok| format!("{:?}", t.tr);
        let mut all: Vec<&Tok> = lexed.iter().collect();
        if c.args[0] == "single" { all.clear(); exp.tokens(&mut all); }
        let mut a: Vec<String> = all.iter().filter(|t| t.kind == k).map(sig).collect();
        let mut b: Vec<String> = have.iter().filter(|t| t.kind == k).map(|t| sig(t)).collect();
        a.sort();
        b.sort();
        if a != b { return Err(format!("the source has {} {} tokens and the tree has {}, or their trivia differ", a.len(), k, b.len())) }
    }
    // each at its own place
    if diff(&exp, &act, Aspect::Structure).is_none() { if let Some(d) = diff(&exp, &act, Aspect::Trivia) { return Err(format!("wrong token in tree: {}", d)) } }
    cx.nontrivial = lexed.len() >= 6;
    for t in &lexed { cx.tag(t.kind) }
    Ok(())
}
fn c18(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let Some((exp, act, lexed)) = accepted(c, sub, cx) else { return Ok(()) };
    cx.tag("valid");
    let pos: Vec<&Tok> = lexed.iter().filter(|t| !t.structural()).collect();
    spans(&act, &pos, c.texts[0].chars().count() as u32)?;
    if diff(&exp, &act, Aspect::Structure).is_none() { if let Some(d) = diff(&exp, &act, Aspect::Spans) { return Err(format!("wrong span: {}", d)) } }
    let mut v = vec![];
    act.nodes(&mut v);
    cx.nontrivial = v.len() >= 4;
    for x in v { cx.tag(x.kind) }
    Ok(())
}
/// Checks a node and those below it from its own tokens; gives the first and last position its tokens cover.
fn spans(n: &Node, lexed: &[&Tok], len: u32) -> Result<(u32, u32), String> {
    let (mut lo, mut hi) = (u32::MAX, 0u32);
    let mut children: Vec<(u32, u32, &'static str)> = vec![];
    fn walk<'a>(k: &'a Kid, lexed: &[&Tok], len: u32, lo: &mut u32, hi: &mut u32, ch: &mut Vec<(u32, u32, &'static str)>) -> Result<(), String> {
        match k {
            Kid::T(t) => if !t.structural() { *lo = (*lo).min(t.s); *hi = (*hi).max(t.e) },
            Kid::N(m) => { let (a, b) = spans(m, lexed, len)?; *lo = (*lo).min(a); *hi = (*hi).max(b); ch.push((m.s, m.e, m.kind)) }
            Kid::L(v) => for x in v { walk(x, lexed, len, lo, hi, ch)? },
            Kid::None => {}
        }
        Ok(())
    }
    for k in &n.kids { walk(k, lexed, len, &mut lo, &mut hi, &mut children)? }
    if lo == u32::MAX { return Ok((n.s, n.e)) }
    if n.s != lo { return Err(format!("node {} starts at {} but its first token at {}", n.kind, n.s, lo)) }
    // the token after the last one: the first that starts at or after `hi` and is not one of this node's own
    let next = lexed.get(lexed.partition_point(|t| t.s < hi)).map(|t| t.s).unwrap_or(len);
    if n.e < hi || n.e > next.max(hi) { return Err(format!("node {} ends at {} but its last token ends at {} and the next one starts at {}", n.kind, n.e, hi, next)) }
    for (a, b, k) in &children { if *a < n.s || *b > n.e { return Err(format!("{} at {}..{} lies outside its parent {} at {}..{}", k, a, b, n.kind, n.s, n.e)) } }
    children.sort();
    for w in children.windows(2) { if w[0].1 > w[1].0 && w[0].0 < w[1].1 { return Err(format!("{} at {}..{} overlaps {} at {}..{}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)) } }
    Ok((lo, hi))
}

fn c19_gen(s: &mut Src) -> Case {
    let p = Prof { depth: 2, rich: s.pct(30), yieldp: 1, ..EXPR };
    let mut g = Gen::new(s, p);
    let entry = if g.s.pct(80) { Entry::File } else { Entry::Eval };
    if entry == Entry::File { g.file() } else { g.star_list(3, false); g.o.push(It::Nl) }
    let mut items = std::mem::take(&mut g.o);
    if s.pct(10) { gen::mutate(&mut items, s) }
    let a = text_of(&items, &PLAIN, s);
    let st = layout::wild(s);
    let b = text_of(&items, &st, s);
    Case { texts: vec![a, b], args: vec![crate::engine::entry_name(entry).into()] }
}
fn c19(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let e = entry_of(&c.args[0]);
    let (a, b) = (&c.texts[0], &c.texts[1]);
    // both must be layouts of one token sequence (a mutation may have made brackets unbalanced)
    let (p, q) = (reflex::lex(a), reflex::lex(b));
    if p.err.is_some() || q.err.is_some() || p.unknown.is_some() || q.unknown.is_some() || p.toks.len() != q.toks.len() || p.toks.iter().zip(&q.toks).any(|(x, y)| x.ident() != y.ident()) { cx.tag("not judged"); return Ok(()) }
    match (sub_parse(sub, a, e), sub_parse(sub, b, e)) {
        (Ok(m), Ok(n)) => { if let Some(d) = diff_tree(&m, &n) { return Err(format!("the two layouts parse differently: {}", d)) } cx.tag("accepted") }
        (Err(_), Err(_)) => cx.tag("rejected"),
        (m, n) => return Err(format!("the first layout is {} and the second {}", if m.is_ok() { "accepted" } else { "rejected" }, if n.is_ok() { "accepted".to_string() } else { format!("rejected: {}", n.err().unwrap()) })),
    }
    cx.nontrivial = a != b;
    Ok(())
}
fn c19_corpus() -> Vec<Case> {
    [("if a:\n    b\n", "if a:\n\n  # c\n b # d\n\n"), ("x = (a, b)\n", "x = ( # c\n\n a,\n b\n )\n"), ("a + b\n", "a \\\n  + \\\r\n b"), ("if a:\n    b\nc\n", "if a:\n\tb\n    # at another level\nc"), ("if a:\n    b\nelse:\n    c\n", "if a:\n b\n# x\n\n   # y\nelse:\n        c"), ("a\n", "\n\n# c\n a".trim_start_matches(' ')), ("@a\ndef f(): pass\n", "@a # c\n\n# d\ndef f ( ) : pass"), ("x\n", "x # c"), ("x\n", "x\n# c"), ("x\n", "x\n   "), ("if a:\n    b\n", "if a:\n  b\n    "), ("a\nb\n", "a\n   \nb\n"), ("a\nb\n", "a\n   # c\nb\n")]
        .iter().map(|(a, b)| Case { texts: vec![a.to_string(), b.trim_start_matches("\n\n# c\n a").to_string()], args: vec!["file".into()] }).filter(|c| !c.texts[1].is_empty()).collect()
}

fn c20_gen(s: &mut Src) -> Case {
    let mut t;
    let entry = match s.weighted(&[60, 10, 25, 5]) { 0 => Entry::File, 1 => Entry::Single, 2 => Entry::Eval, _ => Entry::FuncType };
    match s.below(10) {
        0..=3 => {
            // a short sequence of any tokens
            let n = 1 + s.count(7, 20);
            let mut items: Vec<It> = (0..n).map(|_| gen::random_item(s)).collect();
            if s.pct(80) { items.push(It::Nl) }
            t = layout::render(&items, &PLAIN, s);
        }
        _ => {
            let p = if s.pct(50) { Prof { depth: 1, items: 2, stmts: 1, ..EXPR } } else { Prof { depth: 2, items: 2, stmts: 2, yieldp: 1, tcomment: 4, ..EXPR } };
            let mut g = Gen::new(s, p);
            match entry {
                Entry::Eval => { g.star_list(3, false); g.o.push(It::Nl) }
                Entry::FuncType => { func_type(&mut g); g.o.push(It::Nl) }
                Entry::Single => if g.s.pct(50) { g.simple() } else { g.compound(2) },
                Entry::File => g.file(),
            }
            let mut items = std::mem::take(&mut g.o);
            gen::mutate(&mut items, s);
            let st = if s.pct(70) { PLAIN } else { layout::style(s) };
            t = layout::render(&items, &st, s);
            if s.pct(4) { foreign(&mut t, s) }
        }
    }
    Case::entry(t, entry)
}
fn c20(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    judge(&c.texts[0], entry_of(&c.args[0]), REJECT, sub, cx)?;
    cx.nontrivial = cx.tags.contains(&"invalid");
    Ok(())
}
fn c20_corpus() -> Vec<Case> {
    // every sequence of up to three tokens from a small vocabulary, as a statement
    const V: [&str; 26] = ["a", "1", ",", ":", "(", ")", "[", "]", "{", "}", "=", ".", "*", "for", "in", "if", "else", "not", "lambda", ";", "-", "yield", "from", ":=", "import", "async"];
    let mut v = vec![];
    for a in V { v.push(Case::entry(format!("{}\n", a), Entry::File)); for b in V { v.push(Case::entry(format!("{} {}\n", a, b), Entry::File)); v.push(Case::entry(format!("{} {}", a, b), Entry::Eval)); for c in V { v.push(Case::entry(format!("{} {} {}\n", a, b, c), Entry::File)); v.push(Case::entry(format!("a {} {} {}\n", a, b, c), Entry::File)) } } }
    plus(v, evals(&["a[b c]", "f(a b)", "{a: b c: d}", "{a: b, c}", "{a, b: c}", "(a for b in c, d)", "[a, b for c in d]", "f(a for b in c, d)x", "a[]", "a.1", "a..b", "f(a=)", "f(=a)", "lambda x, x y: z", "{**a: b}", "{*a: b}", "{a: *b}", "(*a for b in c)", "a[b:c:d:e]", "lambda (a): b", "f(**)", "a if b else", "[for a in b]", "(a for b c)", "(a for in b)", "{a: b for}", "not", "a not b", "a is is b", "()(", "a;"]))
}

// ---------------------------------------------------------------- C21
/// args[0]: join | bracket | block
fn c21_gen(s: &mut Src) -> Case {
    let p = Prof { depth: 2, stmts: 2, items: 2, tcomment: 3, yieldp: 1, rich: s.pct(20), ..EXPR };
    match s.below(4) {
        0 | 1 => {
            let mut out = vec![];
            for _ in 0..2 {
                let mut g = Gen::new(s, p);
                g.file();
                let items = std::mem::take(&mut g.o);
                let mut st = layout::style(s);
                st.no_final = 0;
                let mut t = text_of(&items, &st, s);
                if !t.ends_with(['\n', '\r']) { t.push('\n') }
                if t.ends_with('\r') { t.push('\n') }
                out.push(t);
            }
            if s.pct(10) { let k = s.below(2) as usize; let ch: Vec<char> = out[k].chars().collect(); let i = s.below(ch.len() as u32) as usize; out[k] = ch[..i].iter().chain(ch[i + 1..].iter()).collect() }
            Case { texts: out, args: vec!["join".into()] }
        }
        2 => {
            let mut g = Gen::new(s, Prof { depth: 3, ..p });
            g.test(3);
            let items = std::mem::take(&mut g.o);
            let st = layout::style(s);
            let a = text_of(&items, &Style { comments: 0, blank: 0, ..st }, s);
            let b = *s.pick(&["(", "[", "{", "f(", "a[", "(1,", "x+("]);
            let n = 1 + s.count(3, 150);
            Case { texts: vec![a], args: vec!["bracket".into(), b.repeat(n as usize)] }
        }
        _ => {
            let mut g = Gen::new(s, p);
            g.file();
            let items = std::mem::take(&mut g.o);
            let (a, hd) = (text_of(&items, &PLAIN, s), *s.pick(&["if x:", "while x:", "for x in y:", "def f():", "class C:", "try:\n    pass\nfinally:", "with a:", "try:\n    pass\nexcept:", "try:\n    pass\nexcept* E:", "async def f():", "@d\nclass C:", "if x:\n    pass\nelse:"]));
            let mut v: Vec<It> = vec![It::Lex("@@".into()), It::Nl, It::In];
            v.extend(items);
            v.push(It::De);
            let t = layout::render(&v, &PLAIN, s);
            let b = t.replacen("@@", hd, 1);
            Case { texts: vec![a, b], args: vec!["block".into()] }
        }
    }
}
fn stmts(n: &Node) -> Option<&Vec<Kid>> { match n.kids.first() { Some(Kid::L(v)) => Some(v), _ => None } }
fn same_nodes(a: &Kid, b: &Kid) -> Option<String> {
    match (a, b) { (Kid::N(x), Kid::N(y)) => diff_tree(x, y), _ => Some("not nodes".into()) }
}
fn c21(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    for t in &c.texts { for e in [Entry::File, Entry::Eval] {
        let (x, y) = (sub_parse(sub, t, e), sub_parse(sub, t, e));
        match (&x, &y) { (Ok(m), Ok(n)) if m == n => {} (Err(_), Err(_)) => {} _ => return Err("parsing the same text twice gives two results".into()) }
    } }
    match c.args[0].as_str() {
        "join" => {
            let (a, b) = (&c.texts[0], &c.texts[1]);
            let j = format!("{}{}", a, b);
            if !a.ends_with(['\n', '\r']) { cx.tag("not judged"); return Ok(()) } // the next program starts on its own line
            for t in [a, b, &j] { if matches!(reference(t, Entry::File).out, Ref::Unknown(_)) || reflex::lex(t).err.is_some() { cx.tag("not judged"); return Ok(()) } }
            match (sub_parse(sub, a, Entry::File), sub_parse(sub, b, Entry::File), sub_parse(sub, &j, Entry::File)) {
                (Ok(x), Ok(y), z) => {
                    let z = z.map_err(|m| format!("both programs parse alone but not joined: {}", m))?;
                    let (Some(p), Some(q), Some(r)) = (stmts(&x), stmts(&y), stmts(&z)) else { return Err("a file input without a statement list".into()) };
                    let want: Vec<&Kid> = q.iter().chain(p.iter()).collect(); // last first
                    if want.len() != r.len() { return Err(format!("{} and {} statements alone but {} joined", p.len(), q.len(), r.len())) }
                    for (i, (m, n)) in want.iter().zip(r).enumerate() { if let Some(d) = same_nodes(m, n) { return Err(format!("statement {} from the end parses differently when the programs are joined: {}", i, d)) } }
                    cx.nontrivial = true;
                    cx.tag("joined");
                }
                (x, _, z) => {
                    // an error in the first program stays an error (nothing in the second can repair a complete line)
                    if x.is_err() && z.is_ok() && matches!(reference(&j, Entry::File).out, Ref::Reject(_)) { return Err("joining makes an invalid program valid".into()) }
                }
            }
        }
        "bracket" => {
            let a = &c.texts[0];
            let open = &c.args[1];
            let close: String = open.chars().rev().filter_map(|x| match x { '(' => Some(')'), '[' => Some(']'), '{' => Some('}'), _ => None }).collect();
            let w = format!("{}{}{}", open, a, close);
            for t in [a, &w] { if !matches!(reference(t, Entry::Eval).out, Ref::Accept(_)) { cx.tag("not judged"); return Ok(()) } }
            let (Ok(x), Ok(y)) = (sub_parse(sub, a, Entry::Eval), sub_parse(sub, &w, Entry::Eval)) else { return Err("an expression is accepted alone or bracketed but not both".into()) };
            let Some(Kid::N(e)) = x.kids.first() else { return Err("an expression input without an expression".into()) };
            let mut v = vec![];
            y.nodes(&mut v);
            let at = open.chars().count() as u32;
            if !v.iter().any(|n| n.kind == e.kind && n.s == e.s + at && diff_tree(e, n).is_none()) { return Err(format!("the tree of the bracketed expression does not contain the tree of the expression alone ({})", e.kind)) }
            cx.nontrivial = true;
            cx.tag("bracketed");
        }
        _ => {
            let (a, b) = (&c.texts[0], &c.texts[1]);
            for t in [a, b] { if !matches!(reference(t, Entry::File).out, Ref::Accept(_)) { cx.tag("not judged"); return Ok(()) } }
            let (Ok(x), Ok(y)) = (sub_parse(sub, a, Entry::File), sub_parse(sub, b, Entry::File)) else { return Err("a program is accepted alone or as a block but not both".into()) };
            let Some(p) = stmts(&x) else { return Err("a file input without a statement list".into()) };
            let mut v = vec![];
            y.nodes(&mut v);
            let lists: Vec<&Vec<Kid>> = v.iter().filter(|n| matches!(n.kind, "SuiteStmt" | "FuncBodySuite")).flat_map(|n| n.kids.iter().filter_map(|k| if let Kid::L(l) = k { Some(l) } else { None })).collect();
            if !lists.iter().any(|l| l.len() == p.len() && l.iter().zip(p).all(|(m, n)| same_nodes(n, m).is_none())) { return Err("no block of the wrapped program holds the statements of the program alone".into()) }
            cx.nontrivial = true;
            cx.tag("as a block");
        }
    }
    Ok(())
}
fn c21_corpus() -> Vec<Case> {
    let try1 = "try:\n    pass\nexcept* E:\n    pass\n";
    let try2 = "try:\n    pass\nexcept E:\n    pass\n";
    let mut v = vec![];
    for a in [try1, try2, "if a:\n  b\n", "x = (1,\n2)\n", "@a\nclass C: pass\n"] { for b in [try1, try2, "try:\n    pass\nfinally:\n    pass\n", "else_ = 1\n", "pass\n"] { v.push(Case { texts: vec![a.into(), b.into()], args: vec!["join".into()] }) } }
    for a in ["a", "a + b", "(a)", "[a, b]", "{a: b}", "a(b)[c]", "a if b else c", "lambda a: b"] { for b in ["(", "[", "{", "f(", "a[", "(1,", "x+(", "-(", "{1:"] { for n in [2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 66, 99, 100, 101, 120] { v.push(Case { texts: vec![a.into()], args: vec!["bracket".into(), b.repeat(n)] }) } } }
    v
}

// ---------------------------------------------------------------- C34
const BEHIND: [&str; 8] = ["", " , z\n", " ; z = y\n", "\nz\n", " z\n", " : z\n", " ) z\n", " := z\nw\n"];
/// args: a sequence of rules, "advance" and "file", or an entry point (every rule, each on the text with something behind it)
fn c34_gen(s: &mut Src) -> Case {
    let p = Prof { depth: 2, items: 2, stmts: 1, named: 10, yieldp: 1, await_: 2, rich: s.pct(15), ..EXPR };
    let (mut ops, n) = (vec![], 1 + s.count(3, 30));
    let mut g = Gen::new(s, p);
    for i in 0..n {
        let r = g.s.below(RULES.len() as u32) as usize;
        ops.push(RULES[r].to_string());
        match RULES[r] {
            "atom" => g.atom(2),
            "atom_expr" => { g.atom(2); for _ in 0..g.s.below(3) { g.trailer(2) } }
            "power" | "factor" | "term" | "arith" | "shift" | "and_expr" | "xor_expr" | "expr" => g.bits(3),
            "star_expr" => { g.t("*"); g.bits(2) }
            "comparison" => g.cmp(3),
            "not_test" | "and_test" | "or_test" => g.or(3),
            "test" => g.test(3),
            "named_expression" => { if g.s.pct(30) { g.name(); g.t(":=") } g.test(2) }
            _ => { let b = g.s.below(3); g.stmt(b) }
        }
        if RULES[r] == "stmt" { if g.s.pct(30) { ops.push("advance".into()) } continue }
        match g.s.below(8) {
            0 => {}
            1 => { g.o.push(It::Nl); ops.push("advance".into()) }
            2 => { let x = *g.s.pick(&[":", ";", "=", "as", "else", "->", "**", "*", "not", "+=", ".", "for", "if", ":="]); g.t(x); ops.push("advance".into()) }
            _ => { g.t(","); ops.push("advance".into()) }
        }
        if i + 1 < n && g.s.pct(8) { ops.push("advance".into()) }
    }
    if g.s.pct(60) { ops.push("file".into()); if g.s.pct(50) { g.o.push(It::Nl); g.simple() } }
    let mut items = std::mem::take(&mut g.o);
    if s.pct(25) { gen::mutate(&mut items, s) }
    let st = if s.pct(50) { PLAIN } else { layout::style(s) };
    Case { texts: vec![text_of(&items, &st, s)], args: ops }
}
fn rules_on(text: &str, l: &reflex::RefLex, ops: &[&str], sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let want = refparse::rules(&l.toks, l.err.is_some(), l.chars.len() as u32, ops);
    let have = sub_rules(sub, text, ops);
    let asked: Vec<&&str> = ops.iter().filter(|o| **o != "advance").collect();
    for (i, (w, lexerr)) in want.iter().enumerate() {
        match (w, have.get(i)) {
            (Ref::Unknown(_), _) => { cx.tag("not judged"); return Ok(()) }
            (Ref::Reject(_), None | Some(None)) => { cx.tag("rejected"); cx.nontrivial = true; return Ok(()) }
            (Ref::Reject(_), Some(Some(n))) => return Err(format!("no {} stands there but answer {} to {:?} is {}", asked[i], i, ops, n.kind)),
            (Ref::Accept(_), None | Some(None)) if *lexerr => { cx.tag("error behind"); return Ok(()) }
            (Ref::Accept(x), None | Some(None)) => return Err(format!("answer {} to {:?} should be {} but is an error", i, ops, x.kind)),
            (Ref::Accept(x), Some(Some(y))) => {
                if let Some(d) = diff_tree(x, y) { return Err(format!("answer {} to {:?} is wrong: {}", i, ops, d)) }
                if let Some(d) = diff(x, y, Aspect::Spans) { return Err(format!("answer {} to {:?} has a wrong span: {}", i, ops, d)) }
                cx.tag("accepted");
                cx.nontrivial = true;
            }
        }
    }
    if have.len() > want.len() { return Err("surplus answers".into()) }
    if want.len() > 2 { cx.tag("several rules") }
    Ok(())
}
fn c34_corpus() -> Vec<Case> {
    let mut v = vec![];
    for r in RULES { for t in ["a", "a.b(c)[d]", "-a ** -b ** c", "a * b + c << d & e ^ f | g , h", "*a", "*a | b, c", "not a < b", "a < b and c or d", "a if b else c if d else e", "a := b", "a := b := c", "lambda: a, b",
        "__init__", "a = b ; c = d\ne", "if a: b\nc", "pass\npass\n", "", ")", "(a) b", "[a] [b] {c} (d)", "'a' 'b' c 1", "...", "await a ** b", "a not in b is not c", "a if b", "a not b", "~a b", "yield a", "(yield a) b"] {
        v.push(Case { texts: vec![t.to_string()], args: vec![r.to_string()] });
        v.push(Case { texts: vec![t.to_string()], args: vec![r.to_string(), "file".to_string()] });
        v.push(Case { texts: vec![t.to_string()], args: vec![r.to_string(), "advance".to_string(), r.to_string(), r.to_string()] });
    } }
    // every sequence of three calls and steps
    let ops: Vec<&str> = RULES.into_iter().chain(["advance", "file"]).collect();
    for t in ["a b c d", "a\nb\nc\n", "a, b, c\n", "not a < b * -c ** d | e\nf\n", "* a * b\n", "if a: b\nelse: c\nd\n", "if a:\n  b\n  c\nd\n", "a if b else c := d", "'a' 'b'\n'c'\n", "(a, b) [c] {d} 1 ...", "await a.b ** c; d", "lambda a: b, c"] {
        for x in &ops { for y in &ops { for z in &ops {
            v.push(Case { texts: vec![t.to_string()], args: vec![x.to_string(), y.to_string(), z.to_string()] });
        } } }
    }
    v
}
fn c34(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let ops: Vec<&str> = c.args.iter().map(|x| x.as_str()).collect();
    let t = &c.texts[0];
    if !matches!(ops.first(), Some(&"single" | &"eval" | &"functype")) && ops != ["file"] {
        let l = reflex::lex(t);
        if l.unknown.is_some() { cx.tag("not judged"); return Ok(()) }
        return rules_on(t, &l, &ops, sub, cx)
    }
    // something behind it, chosen by the text alone
    let h = t.bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
    let t = format!("{}{}", t, BEHIND[(h >> 5) as usize % BEHIND.len()]);
    let l = reflex::lex(&t);
    if l.unknown.is_some() { cx.tag("not judged"); return Ok(()) }
    let some: &[&str] = if ops == ["eval"] { &RULES } else { &["stmt", "test", "expr", "named_expression"] };
    for r in some { rules_on(&t, &l, &[r, "file"], sub, cx)? }
    if ops == ["file"] { rules_on(&t, &l, &["stmt", "stmt", "stmt", "file"], sub, cx)? }
    Ok(())
}

const C22K: [&str; 4] = ["TryStmt", "ExceptStmt", "ExceptClauseStmt", "FinallyStmt"];
fn c22_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 1, items: 2, c_try: 12, c_if: 1, c_while: 1, c_for: 1, c_with: 0, c_def: 1, c_class: 1, c_deco: 0, c_async: 0, compound: 40, inline: 35, blocks: 4, stmts: 2, lambda: 0, ..EXPR };
    const Q: Prof = Prof { s_expr: 2, s_flow: 6, s_assign: 0, s_aug: 0, s_ann: 0, s_import: 0, s_from: 0, s_yield: 0, s_raise: 2, ..P };
    stmt_case(s, Q, 25, |g| { let b = g.p.blocks; g.try_(b); if g.s.pct(40) { g.stmt(b) } })
}
fn c22(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C22K) }
fn c22_corpus() -> Vec<Case> {
    let mut v = files(&["try: pass\n", "try: pass\nelse: pass\n", "try: pass\nfinally: pass\n", "try: pass\nexcept: pass\n", "try: pass\nexcept a: pass\n", "try: pass\nexcept a as b: pass\n", "try: pass\nexcept* a: pass\n", "try: pass\nexcept* a as b: pass\n", "try: pass\nexcept*: pass\n", "try: pass\nexcept* a: pass\nexcept b: pass\n", "try: pass\nexcept a: pass\nexcept* b: pass\n", "try: pass\nexcept a: pass\nelse: pass\nfinally: pass\n", "try: pass\nelse: pass\nfinally: pass\n", "try: pass\nfinally: pass\nelse: pass\n", "try: pass\nexcept a: pass\nfinally: pass\nelse: pass\n", "try: pass\nfinally: pass\nexcept a: pass\n", "except: pass\n", "finally: pass\n", "try: pass\nexcept a as b.c: pass\n", "try: pass\nexcept a as: pass\n", "try: pass\nexcept as b: pass\n", "try: pass\nexcept a: pass\nelse: pass\nexcept b: pass\n", "try: pass\nexcept a: pass\nelse: pass\nelse: pass\n"]);
    // nesting of kinds in each place
    for outer in ["", "*"] { for inner in ["", "*"] { for place in 0..4 {
        let t = |star: &str, ind: &str| format!("{0}try:\n{0} a\n{0}except{1} E:\n{0} b\n{0}except{1} F:\n{0} c\n", ind, star);
        let nested = t(inner, " ");
        let body = |k: usize| if k == place { nested.clone() } else { " pass\n".to_string() };
        v.push(Case::entry(format!("try:\n{}except{} A:\n{}except{} B:\n{}finally:\n{}", body(0), outer, body(1), outer, body(2), body(3)), Entry::File));
        v.push(Case::entry(format!("{}{}", t(outer, ""), t(inner, "")), Entry::File));
    } } }
    v
}

const C23K: [&str; 8] = ["FuncDef", "FuncBodySuite", "Parameter", "ClassDef", "Decorator", "Decorators", "Decorated", "AsyncStmt"];
fn c23_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 2, items: 2, c_try: 0, c_if: 1, c_while: 0, c_for: 1, c_with: 1, c_def: 6, c_class: 6, c_deco: 8, c_async: 5, compound: 50, blocks: 3, stmts: 2, lambda: 1, ..EXPR };
    stmt_case(s, P, 20, |g| { let b = g.p.blocks; g.compound(b); if g.s.pct(50) { g.stmt(b) } })
}
fn c23(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C23K) }
fn c23_corpus() -> Vec<Case> {
    files(&["def f(): pass\n", "def f() -> a: pass\n", "def f():\n  pass\n", "def f: pass\n", "def (): pass\n", "def f() a: pass\n", "def f() ->: pass\n", "class A: pass\n", "class A(): pass\n", "class A(b): pass\n", "class A(b, c=d, *e, **f): pass\n", "class A(b,): pass\n", "class A\n", "class (b): pass\n", "@a\ndef f(): pass\n", "@a.b.c\nclass A: pass\n", "@a()\ndef f(): pass\n", "@a(b, c=d)\n@e\n@f.g(*h)\ndef i(): pass\n", "@a\nasync def f(): pass\n", "@a\nasync for x in y: pass\n", "@a\nasync with x: pass\n", "@a def f(): pass\n", "@a\npass\n", "@a\n@b\n", "@a\n\n\ndef f(): pass\n", "@a # c\n# d\ndef f(): pass\n", "@\ndef f(): pass\n", "async def f(): pass\n", "async def f() -> x:\n  pass\n", "async class A: pass\n", "async pass\n", "async\n", "async async def f(): pass\n", "@a\ndef f(): pass\ndef g(): pass\n", "class A:\n @b\n def f(): pass\n @c\n @d\n class E: pass\n", "@a.b c\ndef f(): pass\n", "@a(b)(c)\n", "@a\nif x: pass\n", "def f(): return; pass\n"])
}

const C24K: [&str; 7] = ["ImportNameStmt", "ImportFromStmt", "DottedAsNamesStmt", "DottedAsNameStmt", "DottedNameStmt", "ImportAsNamesStmt", "ImportAsName"];
fn c24_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 1, items: 3, s_import: 6, s_from: 10, s_flow: 1, s_expr: 0, s_return: 0, s_raise: 0, s_global: 0, s_del: 0, s_assert: 0, s_assign: 0, s_aug: 0, s_ann: 0, s_yield: 0, compound: 3, semi: 20, stmts: 2, ..EXPR };
    stmt_case(s, P, 25, |g| g.file())
}
fn c24(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C24K) }
fn c24_corpus() -> Vec<Case> {
    files(&["import a\n", "import a.b.c\n", "import a as b\n", "import a.b as c, d, e.f\n", "import\n", "import a,\n", "import a.\n", "import .a\n", "import a as b.c\n", "import *\n", "import a b\n", "import (a)\n", "from a import b\n", "from a.b import c as d, e\n", "from . import a\n", "from .. import a\n", "from ... import a\n", "from .... import a\n", "from ...... import a\n", "from .a import b\n", "from ...a.b import (c)\n", "from . .. ... a import b\n", "from a import *\n", "from . import *\n", "from a import (b)\n", "from a import (b,)\n", "from a import (b as c, d)\n", "from a import (b, c as d,)\n", "from a import b,\n", "from a import (b,,)\n", "from a import ()\n", "from a import (*)\n", "from a import * as b\n", "from a import b.c\n", "from a import b as c.d\n", "from a import\n", "from import a\n", "from a b\n", "from a. import b\n", "from a import (b\n", "from a import b as\n", "from a import as b\n", "from a import *, b\n", "from a import b, *\n", "import a; from b import c; import d\n", "from .import a\n", "from.a import(b)\n"])
}

fn c25_gen(s: &mut Src) -> Case {
    let p = Prof { depth: 2, items: 2, stmts: 2, ..EXPR };
    let entry = match s.weighted(&[60, 15, 25, 8]) { 0 => Entry::File, 1 => Entry::Single, 2 => Entry::Eval, _ => Entry::FuncType };
    let mut g = Gen::new(s, p);
    match entry {
        Entry::File => g.file(),
        Entry::Single => if g.s.pct(50) { g.simple() } else { g.compound(2) },
        Entry::Eval => { g.star_list(3, false); g.o.push(It::Nl) }
        Entry::FuncType => { func_type(&mut g); g.o.push(It::Nl) }
    }
    let items = std::mem::take(&mut g.o);
    let st = layout::style(s);
    let t = text_of(&items, &st, s);
    // put something no token starts with before or after some token, or break an indentation
    let r = reflex::lex(&t);
    let mut at: Vec<u32> = r.toks.iter().filter(|x| !x.structural()).flat_map(|x| [x.s, x.e]).collect();
    at.dedup();
    let ch: Vec<char> = t.chars().collect();
    let i = at[s.below(at.len() as u32) as usize].min(ch.len() as u32) as usize;
    let bad = *s.pick(&["$", "?", "`", "!", "'", "\"", "'''", "0x", "1__0", " 07 ", "\\ ", ")", "]", "}", "\u{1}", "€", "'a\n'", "\"\"\"a\"\"", "0b2_", "\\x", "b'", " 0_ "]);
    let mut o: String = ch[..i].iter().collect();
    if s.pct(12) && t.contains('\n') {
        // another indentation for one line
        let lines: Vec<&str> = t.split('\n').collect();
        let k = s.below(lines.len() as u32) as usize;
        let mut v: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
        let w = s.below(7) as usize;
        v[k] = format!("{}{}", " ".repeat(w), v[k].trim_start_matches([' ', '\t']));
        return Case::entry(v.join("\n"), entry);
    }
    if s.pct(50) { o.push(' ') }
    if s.pct(30) { o.push(lg::odd(s)) } else { o.push_str(bad) }
    if s.pct(50) { o.push(' ') }
    o.extend(&ch[i..]);
    Case::entry(o, entry)
}
/// Every character of the first planes alone and between tokens.
fn one_char(wrap: &[(&str, &str)]) -> Vec<Case> {
    let mut v = vec![];
    for u in (1..0x3100u32).chain(0xa000..0xa100).chain(0xd700..0xe100).chain(0xfb00..0x10100).chain(0x1d400..0x1d800).chain(0x1f600..0x1f650).chain(0x10fff0..0x110000) {
        let Some(c) = char::from_u32(u) else { continue };
        for (a, b) in wrap { v.push(Case::entry(format!("{}{}{}", a, c, b), Entry::File)) }
    }
    v
}
/// Where the first token of a part begins.
fn first_char(k: &Kid) -> Option<u32> {
    match k {
        Kid::T(t) => (t.s != crate::types::NOPOS).then_some(t.s),
        Kid::N(n) => n.kids.iter().filter_map(first_char).min(),
        Kid::L(v) => v.iter().filter_map(first_char).min(),
        Kid::None => None,
    }
}
/// Each odd character right behind, and right before, each of some texts.
fn odd_beside(parts: &[&str]) -> Vec<Case> {
    let mut v = vec![];
    for p in parts { for c in lg::ODD.iter().chain(lg::UNI.iter()) { v.push(Case::text(format!("{}{}", p, c))); v.push(Case::text(format!("{}{}2 a", p, c))); v.push(Case::text(format!("{}{}", c, p))) } }
    v
}
fn c25(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    let e = entry_of(&c.args[0]);
    let r = reference(&c.texts[0], e);
    let err = r.lex.err.is_some();
    if !err { cx.tag("no lexical error"); return Ok(()) }
    match r.out {
        // rejected at or before the error: reading past it was needed
        Ref::Reject(at) => {
            cx.nontrivial = true;
            if at >= r.lex.toks.len() { cx.tag("error is what makes it invalid") }
            if sub_parse(sub, &c.texts[0], e).is_ok() { return Err(format!("accepted although a lexical error stands at character {}", r.lex.err.unwrap())) }
            let o = sub_lex(sub, &c.texts[0], 0);
            if !o.err { return Err(format!("the tokenizer passes over the lexical error at character {}", r.lex.err.unwrap())) }
        }
        Ref::Accept(_) => cx.tag("error lies beyond what is read"),
        Ref::Unknown(_) => cx.tag("not judged"),
    }
    Ok(())
}
fn c25_corpus() -> Vec<Case> {
    let mut v = one_char(&[("a ", " b\n"), ("a ", "\n"), ("a = (b,", ")\n"), ("a\n", "")]);
    for t in ["a $", "a\n$", "a\n'b", "a\n\n\n?", "a 'b", "(a", "a)", "a\n)", "a = 1\n0x\n", "if a:\n  b\n c\n", "if a:\n    b\n  c\nd\n", "a\n\\x", "a \\ \n", "07", "1_", "'''", "a\n'''b", "() -> a $", "() -> a\n$", "a;$\n", "pass\n!", "if a: pass\n$", "if a:\n  pass\n$\n", "@a\n$", "x = $", "f($)", "[a, $]", "{a: $}", "a if $ else b", "lambda $: a", "a + $", "not $", "import $", "from a import $", "try: pass\n$", "try: pass\nexcept: pass\n$", "with a as $: pass\n", "for a in $: pass\n", "return $", "yield $", "a[$]", "a[1:$]", "raise $", "global $", "del $", "assert a, $", "class $: pass\n", "def $(): pass\n", "a.$", "a := $", "*$", "# type: x\n$", "a: $", "a: b = $", "a += $"] { for e in ENTRIES { v.push(Case::entry(t, e)) } }
    v
}

const C26K: [&str; 15] = ["AssignmentStmt", "AnnAssignStmt", "PlusAssignStmt", "MinusAssignStmt", "MulAssignStmt", "DivAssignStmt", "FloorDivAssignStmt", "ModuloAssignStmt", "MatriceAssignStmt", "PowerAssignStmt", "ShiftLeftAssignStmt", "ShiftRightAssignStmt", "BitAndAssignStmt", "BitOrAssignStmt", "BitXorAssignStmt"];
fn c26_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 2, items: 2, s_assign: 8, s_aug: 8, s_ann: 5, s_flow: 0, s_expr: 1, s_return: 0, s_raise: 0, s_global: 0, s_del: 0, s_assert: 0, s_import: 0, s_from: 0, s_yield: 1, compound: 4, semi: 15, stmts: 2, star: 6, ..EXPR };
    stmt_case(s, P, 20, |g| g.file())
}
fn c26(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C26K) }
fn c26_corpus() -> Vec<Case> {
    let mut v = files(&["a = b\n", "a = b = c\n", "a = b = c = d, e\n", "a, b = c\n", "a, = b,\n", "*a, b = c\n", "a = yield b\n", "a = b = yield c\n", "a = yield from b\n", "a: b\n", "a: b = c\n", "a: b = yield c\n", "a: b = c, d\n", "a: b = c = d\n", "a: b: c\n", "a: b += c\n", "a.b: c = d\n", "a[0]: b\n", "(a): b\n", "a = b += c\n", "a += b = c\n", "a += b += c\n", "a =\n", "= a\n", "a = = b\n", "a +=\n", "a: = b\n", "a: \n", "a = b; c = d; e += f; g: h = i\n", "a = b # type: int\n", "a := b\n", "a = (b := c)\n", "a = b if c else d\n", "a = lambda: b\n", "a = b: c\n", "a =- b\n", "a = *b\n"]);
    for o in gen::AUGOPS { for r in ["b", "b, c", "b,", "yield b", "yield from b", "", "b = c", "(b)"] { v.push(Case::entry(format!("a {} {}\n", o, r), Entry::File)) } v.push(Case::entry(format!("a, b {} c\n", o), Entry::File)); v.push(Case::entry(format!("a.b[c] {} d; e {} f\n", o, o), Entry::File)) }
    v
}

const C27K: [&str; 4] = ["Lambda", "VarArgsList", "VFPDef", "VFPAssign"];
fn c27_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 2, items: 2, lambda: 3, cond: 1, compr: 2, ..EXPR };
    if s.pct(45) {
        // any sequence of parameter-like tokens
        return expr_case(s, P, 0, |g| {
            g.t("lambda");
            let n = g.s.count(5, 14);
            for i in 0..n {
                if i > 0 && !g.s.pct(3) { g.t(",") }
                match g.s.below(12) { 0 | 1 => g.t("/"), 2 => g.t("*"), 3 | 4 => { g.t("*"); g.name() } 5 | 6 => { g.t("**"); g.name() } 7 | 8 => { g.name(); g.t("="); g.test(1) } _ => g.name() }
                if g.s.pct(2) { g.t("="); g.test(1) }
            }
            if g.s.pct(15) { g.t(",") }
            g.t(":");
            g.test(1)
        })
    }
    expr_case(s, P, 20, |g| g.lambda(2))
}
fn c27(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C27K) }
fn c27_corpus() -> Vec<Case> {
    // every sequence of up to four parameter items
    const I: [&str; 7] = ["a", "b=1", "/", "*", "*c", "**d", ""];
    let mut v = vec![];
    for n in 1..=4u32 { for k in 0..7u32.pow(n) { let mut x = k; let p: Vec<&str> = (0..n).map(|_| { let i = I[(x % 7) as usize]; x /= 7; i }).collect(); v.push(Case::entry(format!("lambda {}: x", p.join(", ")), Entry::Eval)) } }
    plus(v, evals(&["lambda: x", "lambda a: x", "lambda *a=1: x", "lambda **a=1: x", "lambda a: int: x", "lambda (a): x", "lambda a b: x", "lambda a=: x", "lambda a", "lambda a, b=c if d else e, /, f, *g, h=lambda: i, j, **k,: l", "lambda *: x", "lambda *a, *b: x", "lambda **a, b: x", "lambda a=lambda: x: y"]))
}

// ---------------------------------------------------------------- type comments
fn c28_gen(s: &mut Src) -> Case {
    if s.pct(45) {
        // tokens only
        let mut o = String::new();
        let n = 1 + s.count(4, 20);
        for _ in 0..n {
            if s.pct(50) { o.push_str(s.pick(&["x", "x = 1", "a,", "for x in y:", "def f():", "(a,", ")", "pass", "[", "]", "if x: y"])) }
            if s.pct(40) { ws(s, &mut o) }
            if s.pct(80) {
                o.push_str(s.pick(&["# type:", "# type: int", "# type:int", "#type: int", "#  type: int", "# type : int", "# Type: int", "# TYPE: x", "# typ: x", "# types: x", "## type: x", "# type", "#\ttype: x", "# type: ignore", "# type:\tx", "# a # type: x", "#", "# type:é"]));
                if s.pct(40) { o.push_str(lg::comment(s).as_str()) }
                if s.pct(20) { o.push_str(s.pick(&[" ", "  ", "\t"])) }
            }
            lg::push_nl(&mut o, s);
            if o.ends_with('\n') || o.ends_with('\r') { /* next line starts at the margin */ }
        }
        return Case { texts: vec![o], args: vec![] };
    }
    const P: Prof = Prof { depth: 1, items: 2, tcomment: 60, s_assign: 12, c_for: 6, c_def: 6, c_async: 2, c_deco: 1, c_if: 1, c_while: 0, c_try: 0, c_with: 0, c_class: 1, compound: 45, stmts: 2, blocks: 3, semi: 0, inline: 10, ..EXPR };
    let mut g = Gen::new(s, P);
    g.file();
    let mut items = std::mem::take(&mut g.o);
    if s.pct(10) { gen::mutate(&mut items, s) }
    let st = layout::style(s);
    Case::entry(layout::render(&items, &st, s), Entry::File)
}
fn c28(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    fn proj(t: &Tok) -> (&'static str, u32, u32, String, bool) { if t.kind == "TypeComment" { (t.kind, t.s, t.e, t.text.clone(), false) } else { (t.kind, 0, 0, String::new(), t.tr.iter().flatten().any(|x| matches!(x, Tr::Comment(..)))) } }
    let r = judge_tokens(&c.texts[0], sub, cx, proj, show_all)?;
    if r.toks.iter().any(|t| t.kind == "TypeComment") { cx.tag("type comment"); cx.nontrivial = true }
    if r.toks.iter().any(|t| t.tr.iter().flatten().any(|x| matches!(x, Tr::Comment(..)))) { cx.tag("ordinary comment"); cx.nontrivial = true }
    if !c.args.is_empty() {
        if let Some(n) = judge(&c.texts[0], Entry::File, STRUCT | ACCEPT, sub, cx)? {
            let mut v = vec![];
            n.nodes(&mut v);
            for x in v { if matches!(x.kind, "AssignmentStmt" | "ForStmt" | "FuncDef" | "FuncBodySuite") && x.kids.iter().any(|k| matches!(k, Kid::T(t) if t.kind == "TypeComment")) { cx.tag(match x.kind { "AssignmentStmt" => "after an assignment", "ForStmt" => "after a for header", "FuncDef" => "after a def header", _ => "first line of a function" }) } }
        }
    }
    Ok(())
}
fn c28_corpus() -> Vec<Case> { plus(files(&["x = 1 # type: int\n", "x = y = 1 # type: int\n", "x = 1 # type: int", "for x in y: # type: int\n  pass\n", "def f():\n  # type: () -> int\n  pass\n", "def f(): # type: () -> int\n  pass\n", "x = 1 # types\n", "x = 1 #type: int\n"]), texts(&["# type: x\ny", "# type:", "#type: x", "x # type: y\r\nz", "x # type: y\rz"])) }

const C29K: [&str; 7] = ["AtomDictionary", "AtomSet", "DictionaryContainer", "SetContainer", "DictionaryEntry", "PowerDictionary", "MulSet"];
fn c29_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 3, items: 4, dict: 10, set: 10, paren: 1, tuple: 1, list: 1, lambda: 1, cond: 1, star: 12, compr: 6, ..EXPR };
    if s.pct(20) {
        return expr_case(s, P, 0, |g| {
            g.t("{");
            let n = 1 + g.s.count(5, 40);
            let kind = g.s.below(3);
            for i in 0..n {
                if i > 0 { g.t(",") }
                match if g.s.pct(10) { g.s.below(4) } else if kind == 2 { g.s.below(4) } else { kind + 2 * g.s.below(2) } { 0 => { g.test(1); g.t(":"); g.test(1) } 1 => g.test(1), 2 => { g.t("**"); g.bits(1) } _ => { g.t("*"); g.bits(1) } }
            }
            if g.s.pct(30) { g.t(",") }
            g.t("}")
        })
    }
    expr_case(s, P, 20, |g| { let d = g.p.depth; if g.s.pct(50) { g.dict(d) } else { g.set(d) } })
}
fn c29(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C29K) }
fn c29_corpus() -> Vec<Case> {
    const I: [&str; 5] = ["a", "b: c", "*d", "**e", ""];
    let mut v = vec![];
    for n in 1..=4u32 { for k in 0..5u32.pow(n) { let mut x = k; let p: Vec<&str> = (0..n).map(|_| { let i = I[(x % 5) as usize]; x /= 5; i }).collect(); v.push(Case::entry(format!("{{{}}}", p.join(", ")), Entry::Eval)) } }
    plus(v, evals(&["{}", "{ }", "{a b}", "{a: b c: d}", "{a:}", "{:b}", "{a: b: c}", "{lambda: x: y}", "{a if b else c: d}", "{*a | b, c}", "{**a | b}", "{**a or b}", "{{a}: {b: c}}", "{a: {b: {c: d}}}", "{(a): [b]}", "{a = b}"]))
}

const C30K: [&str; 9] = ["AtomExpr", "CallTrailer", "IndexTrailer", "DotNameTrailer", "ArgList", "Argument", "SubscriptList", "Subscript", "TestListComp"];
fn c30_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 3, items: 3, call: 14, index: 14, attr: 8, await_: 8, compr: 8, named: 12, star: 10, paren: 1, tuple: 1, list: 1, dict: 1, set: 0, lambda: 1, cond: 1, strcat: 0, ..EXPR };
    expr_case(s, P, 22, |g| { if g.s.pct(15) { g.t("await") } g.atom(0); let n = 1 + g.s.count(3, 25); for _ in 0..n { g.trailer(2) } })
}
fn c30(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C30K[..8]) }
fn c30_corpus() -> Vec<Case> {
    let mut v = evals(&["f()", "f(a)", "f(a, b)", "f(a,)", "f(a=b)", "f(a := b)", "f(*a)", "f(**a)", "f(a, *b, c=d, **e)", "f(*a, *b, **c, **d)", "f(a for b in c)", "f(a for b in c if d)", "f(,)", "f(a,,b)", "f(a b)", "a.b", "a.b.c", "a.", "a.1", "a.if", "a[b]", "a[b, c]", "a[b,]", "a[]", "a[,]", "await a", "await a.b(c)[d]", "await", "await await a", "f(a)(b)[c].d(e)", "a.b.c.d.e.f.g", "a[b][c][d]", "f(a=b=c)", "f(a.b=c)", "f(*)", "f(yield a)", "f(lambda: a, b)", "f(a if b else c)", "a[b if c else d]", "a[lambda: b]", "'s'.join(a)", "1 .real", "(a)(b)", "[a][0]", "{}[a]", "...[a]", "None.a", "a[b:c, d]", "a[b:c,]", "a[:, :]", "a[::]", "a[b:c:d]", "a[::b, c::]"]);
    // every slice form
    for lo in ["", "x"] { for c1 in ["", ":"] { for up in ["", "y"] { for c2 in ["", ":"] { for st in ["", "z"] { for tail in ["", ",", ", w", ", :"] { v.push(Case::entry(format!("a[{}{}{}{}{}{}]", lo, c1, up, c2, st, tail), Entry::Eval)) } } } } } }
    v
}

const C31K: [&str; 3] = ["SyncCompForComprehension", "CompForComprehension", "CompIfComprehension"];
fn c31_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 3, items: 2, compr: 60, paren: 1, tuple: 4, list: 4, dict: 4, set: 4, call: 4, lambda: 2, cond: 2, named: 8, star: 6, strcat: 0, ..EXPR };
    expr_case(s, P, 22, |g| { let d = g.p.depth; match g.s.below(5) { 0 => g.dict(d), 1 => g.set(d), 2 => g.display("[", "]", d), 3 => g.display("(", ")", d), _ => { g.name(); g.t("("); g.arglist(d); g.t(")") } } })
}
fn c31(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> { focus(c, sub, cx, ALL, &C31K) }
fn c31_corpus() -> Vec<Case> {
    let mut v = vec![];
    for (a, b) in [("[", "]"), ("(", ")"), ("{", "}"), ("f(", ")"), ("{k: ", "}"), ("a[", "]"), ("", "")] {
        for t in ["x for y in z", "x for y in z if w", "x for y in z if w if v", "x for y in z for w in v", "x for y in z if a for w in v if b", "x async for y in z", "x for y in z async for w in v", "x for y, w in z", "x for y, in z", "x for y, *w in z", "x for (y, w) in z", "x for y in z, w", "x for y in z if a else b", "x for y in (z if a else b)", "x for y in lambda: z", "x for y in z if lambda: w", "x if a else b for y in z", "x, w for y in z", "*x for y in z", "x for y in z,", "x for y z", "x for in z", "x for y in", "for y in z", "x if y", "x async y in z", "x for y in z or w", "x for y in z if not w", "x := 1 for y in z", "x for y.a in z", "x for y[0] in z", "x for y in z if (w := v)", "x for y in z if w := v"] { v.push(Case::entry(format!("{}{}{}", a, t, b), Entry::Eval)) }
    }
    v
}

const C33K: [&str; 2] = ["SuiteStmt", "FuncBodySuite"];
fn c33_gen(s: &mut Src) -> Case {
    const P: Prof = Prof { depth: 0, items: 1, compound: 60, inline: 12, blocks: 7, stmts: 2, c_if: 4, c_while: 2, c_for: 2, c_try: 3, c_with: 1, c_def: 2, c_class: 2, c_deco: 1, c_async: 1, s_flow: 6, s_expr: 4, s_assign: 1, s_return: 1, s_raise: 0, s_global: 0, s_del: 0, s_assert: 0, s_aug: 0, s_ann: 0, s_import: 0, s_from: 0, s_yield: 0, semi: 5, ..EXPR };
    let mut g = Gen::new(s, P);
    g.compound(7);
    if g.s.pct(60) { g.stmt(6) }
    let mut items = std::mem::take(&mut g.o);
    if s.pct(15) {
        // displace, drop or add a level
        let marks: Vec<usize> = (0..items.len()).filter(|i| matches!(items[*i], It::In | It::De)).collect();
        if !marks.is_empty() {
            let i = *s.pick(&marks);
            match s.below(4) { 0 => { items.remove(i); } 1 => { let x = items[i].clone(); items.insert(i, x) } 2 => { let j = s.below(items.len() as u32) as usize; let x = items.remove(i); items.insert(j.min(items.len()), x) } _ => { let j = s.below(items.len() as u32) as usize; items.insert(j, if s.pct(50) { It::In } else { It::De }) } }
        }
    }
    let st = if s.pct(70) { layout::wild(s) } else { layout::style(s) };
    Case::entry(layout::render(&items, &st, s), Entry::File)
}
fn c33(c: &Case, sub: &Subject, cx: &mut Cx) -> Result<(), String> {
    focus(c, sub, cx, ALL, &C33K)?;
    if let Ref::Accept(n) = reference(&c.texts[0], Entry::File).out { let k = count_kind(&n, &C33K); if k >= 4 { cx.tag("four blocks or more") } cx.nontrivial = k > 0; }
    Ok(())
}
fn c33_corpus() -> Vec<Case> {
    files(&["if a:\n  b\n  c\nd\n", "if a:\n  if b:\n    if c:\n      d\ne\n", "if a:\n  if b:\n    c\n  d\ne\n", "  a\n", "a\n  b\n", "if a:\nb\n", "if a:\n", "if a:", "if a:\n  b\n    c\n", "if a:\n    b\n  c\n", "if a: b\n  c\n", "if a:\n  b\n\n\n  # x\n c\n", "if a:\n  b\n# x\n  c\n", "if a:\n  (b,\nc)\n  d\n", "if a:\n  b \\\nc\n", "class A:\n def f():\n  if x:\n   y\n  z\n w\nv\n", "if a:\n\tb\n\tif c:\n\t\td\n\te\nf\n", "if a:\n  '''\nx\n'''\n  b\n", "if a:\n  b\n ", "if a:\n  b\n  ", "if a:\n  b\n      ", "if a:\n  b\n      # c", "if a:\n  b\n# c"])
}

// ================================================================ the list
pub fn all() -> Vec<Check> {
    macro_rules! ck { ($id:expr, $n:expr, $gen:expr, $check:expr, $corpus:expr, $free:expr, $see:expr, $rule:expr) => { Check { id: $id, rule: $rule, cases: $n, gen: $gen, check: $check, corpus: $corpus, free_text: $free, must_see: $see } } }
    vec![
        ck!("C01", 4_000_000, c01_gen, c01, c01_corpus, true, &["PyPowerAssign", "PyElipsis", "PyNotEqual", "PyArrow", "PyYield", "PyNonLocal", "AtomName", "lexical error"], "Texts of random operators, keywords, near-keywords and identifiers run together or spaced; every token (kind, span, text) is compared with the reference tokenizer. Non-trivial: at least three tokens."),
        ck!("C02", 350_000, text_case, c02, none, true, &["with trivia", "with blocks"], "Character soups, unstructured lines and laid-out programs that tokenize; spans of tokens and trivia must tile the source and record its text. Non-trivial: at least five pieces."),
        ck!("C03", 3_000_000, c03_gen, c03, none, true, &["Indent", "Dedent", "lexical error"], "Lines at random indentations with blank, comment, bracketed and continued lines; the sequence of indent, dedent, newline, end and other tokens is compared with the reference. Non-trivial: an indent, a dedent or an error."),
        ck!("C04", 4_000_000, c04_gen, c04, none, true, &["eight brackets or more", "line end inside brackets", "lexical error", "tokenizes"], "Random bracket sequences with line ends, strings, comments and other tokens between; token kinds and where line ends go are compared with the reference. Non-trivial: a bracket or an error."),
        ck!("C05", 120_000, c05_gen, c05, c05_corpus, false, &["parses"], "A laid-out program with LF and the same with every line end outside strings rewritten as CRLF, CR or a mixture; tokens, trivia and trees must agree up to position. Non-trivial: the two texts differ."),
        ck!("C06", 5_000_000, c06_gen, c06, c06_corpus, true, &["hexadecimal", "octal", "binary", "imaginary", "exponent", "fraction", "integer", "lexical error"], "Random well- and ill-formed numbers with random neighbours, and every text of up to four characters over a small number alphabet; tokens are compared with the reference. Non-trivial: a number token or an error."),
        ck!("C07", 5_000_000, c07_gen, c07, c07_corpus, true, &["triple '", "triple \"", "single '", "single \"", "prefix", "backslash", "line end inside", "lexical error"], "Random string literals of every prefix and quote with escapes, line ends and quotes inside, and every text of up to six characters over a small string alphabet; tokens are compared with the reference. Non-trivial: a string token or an error."),
        ck!("C08", 400_000, trivia_gen, c08, none, true, &["spaces", "tab", "line end", "continuation", "comment", "several comments"], "Unstructured lines and programs in wild layouts; each token's trivia (order, text, span) is compared with the reference. Non-trivial: some trivia."),
        ck!("C09", 3_000_000, c09_gen, c09, none, false, &["advanced past the end", "multi-byte characters"], "Random sequences of operations on the character buffer over random Unicode text, compared step by step with an array and an index. Non-trivial: at least one advance and four operations."),
        ck!("C10", 400_000, c10_gen, c10, c10_corpus, true, &["tokenizes", "lexical error", "accepted", "rejected"], "Character soups, unstructured lines, repeated fragments and damaged programs, tokenized to the end (and beyond) and parsed through all four entry points. Non-trivial: three characters or more."),
        ck!("C11", 600_000, c11_gen, c11, c11_corpus, true, &OPK[..29], "Random operator sequences over every operator, and all pairs of binary operators; the tree is compared with the reference parser's. Non-trivial: accepted with an operator node, or rejected."),
        ck!("C12", 200_000, c12_gen, c12, c12_corpus, true, &ATOMK, "Random atoms and nested tuple, group and list displays, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with an atom or display node, or rejected."),
        ck!("C13", 200_000, c13_gen, c13, c13_corpus, true, &C13K, "Random nestings of conditional, named, starred, lambda and yield expressions, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with such a node, or rejected."),
        ck!("C14", 350_000, c14_gen, c14, c14_corpus, true, &C14K, "Random lines of simple statements with semicolons, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with such a statement, or rejected."),
        ck!("C15", 150_000, c15_gen, c15, c15_corpus, true, &C15K, "Random nested if, while, for and with statements, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with such a statement, or rejected."),
        ck!("C16", 250_000, c16_gen, c16, c16_corpus, true, &["file", "interactive", "expression", "function type", "valid", "invalid"], "Random inputs for each entry point, many with text left over or missing, some through another entry; acceptance and the shape of the root are compared with the reference. Non-trivial: the reference has a verdict."),
        ck!("C17", 150_000, whole_prog, c17, none, true, &["Indent", "Dedent", "AtomString", "PyColonAssign", "PyNotEqual", "EOF"], "Random valid programs in wild layouts; the tokens of the tree are compared with the tokens of the source, one by one with span, text and trivia. Non-trivial: at least six tokens."),
        ck!("C18", 150_000, whole_prog, c18, none, true, &["FileInput", "EvalInput", "SingleInput", "FuncTypeInput", "SuiteStmt", "TryStmt", "Lambda", "Subscript"], "Random valid programs in wild layouts; every node's span is checked against its tokens, its parent, its siblings and the reference tree. Non-trivial: at least four nodes."),
        ck!("C19", 120_000, c19_gen, c19, c19_corpus, false, &["accepted", "rejected"], "One token sequence in two layouts; both must be accepted with the same tree or both rejected. Non-trivial: the texts differ."),
        ck!("C20", 1_000_000, c20_gen, c20, c20_corpus, true, &["invalid"], "Short random token sequences, all sequences of up to three tokens from a small vocabulary, and valid programs with one or two edits; whatever the reference rejects must be rejected. Non-trivial: the reference rejects."),
        ck!("C21", 80_000, c21_gen, c21, c21_corpus, false, &["joined", "bracketed", "as a block"], "Pairs of programs alone and joined, expressions alone and in brackets, programs alone and as a block; the parts must have the same trees in both. Non-trivial: both sides are accepted and compared."),
        ck!("C22", 200_000, c22_gen, c22, c22_corpus, true, &C22K, "Random nested try statements of both kinds, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with a try statement, or rejected."),
        ck!("C23", 150_000, c23_gen, c23, c23_corpus, true, &C23K, "Random functions, classes, decorators and async forms, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with such a node, or rejected."),
        ck!("C24", 500_000, c24_gen, c24, c24_corpus, true, &C24K, "Random import statements, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with an import node, or rejected."),
        ck!("C25", 350_000, c25_gen, c25, c25_corpus, true, &["error is what makes it invalid"], "Valid programs with one lexical error put between two tokens; every entry that must read past it has to reject. Non-trivial: the reference finds a lexical error it has to read."),
        ck!("C26", 250_000, c26_gen, c26, c26_corpus, true, &C26K, "Random assignments of all kinds, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with an assignment, or rejected."),
        ck!("C27", 700_000, c27_gen, c27, c27_corpus, true, &C27K, "Random lambda parameter lists, valid and not, and all lists of up to four items; the tree is compared with the reference parser's. Non-trivial: accepted with a lambda, or rejected."),
        ck!("C28", 200_000, c28_gen, c28, c28_corpus, true, &["type comment", "ordinary comment", "after an assignment", "after a for header", "after a def header", "first line of a function"], "Random comments that begin, nearly begin or do not begin a type comment, and programs with type comments in their places; tokens and trees are compared with the references. Non-trivial: a comment of either kind."),
        ck!("C29", 200_000, c29_gen, c29, c29_corpus, true, &C29K, "Random dictionary and set displays, pure and mixed, and all displays of up to four entries; the tree is compared with the reference parser's. Non-trivial: accepted with such a display, or rejected."),
        ck!("C30", 200_000, c30_gen, c30, c30_corpus, true, &C30K[..8], "Random chains of calls, subscripts and attributes, all slice forms, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with a trailer, or rejected."),
        ck!("C31", 150_000, c31_gen, c31, c31_corpus, true, &C31K, "Random comprehensions in every bracket, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted with a comprehension, or rejected."),
        ck!("C32", 300_000, c32_gen, c32, c32_corpus, true, &C32K, "Random function signatures, a part of them damaged; the tree is compared with the reference parser's. Non-trivial: accepted, or rejected."),
        ck!("C33", 150_000, c33_gen, c33, c33_corpus, true, &C33K, "Deeply nested blocks in wild layouts, some with an indentation displaced; the tree is compared with the reference parser's. Non-trivial: accepted with a block."),
        ck!("C34", 200_000, c34_gen, c34, c34_corpus, true, &["accepted", "rejected", "several rules"], "Random sequences of rules asked of one parser, with single tokens skipped between and the rest read as a file, over texts made of such constructs, a part of them damaged; each answer is compared with the reference parser's in tree and spans. Non-trivial: an answer was compared."),
    ]
}
#[allow(dead_code)]
fn _unused() { let _ = ident_of; let _ = has_kind; }
