//! Reference parser: a recursive-descent reading of Python's LL(1) grammar (3.8 grammar with 3.11 `except*`
//! and parenthesised with-items), producing the expected full-fidelity tree.
//! `Unknown` marks inputs at which no property claims anything (known findings, points the grammar of the
//! project and CPython's grammar disagree on).
use crate::types::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop { Reject(usize), Unknown(&'static str) }
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum ExceptKind { Unset, Plain, Star }

pub struct P<'a> { t: &'a [Tok], i: usize, exc: ExceptKind, depth: usize, strict: bool, n: u32 }

/// Outcome for a whole input.
pub enum Ref { Accept(Node), Reject(usize), Unknown(&'static str) }

/// `lexed` are the tokens up to the end marker, or up to a lexical error (`err`).
pub fn parse(toks: &[Tok], err: bool, n: u32, entry: Entry) -> Ref {
    // a lexical error is a token no production accepts
    let mut v;
    let toks = if err {
        v = toks.to_vec();
        v.push(Tok { kind: "LexError", s: n, e: n, text: String::new(), prefix: None, nl: (' ', ' '), tr: None });
        &v[..]
    } else { toks };
    let mut p = P { t: toks, i: 0, exc: ExceptKind::Unset, depth: 0, strict: true, n };
    let r = match entry { Entry::File => p.file_input(), Entry::Single => p.single_input(), Entry::Eval => p.eval_input(), Entry::FuncType => p.func_type_input() };
    match r { Ok(x) => Ref::Accept(x), Err(Stop::Reject(i)) => Ref::Reject(i), Err(Stop::Unknown(w)) => Ref::Unknown(w) }
}

/// The answers due to a sequence of rules, "advance" and "file" (all but for "advance"), up to the first that is not an acceptance,
/// and whether a lexical error stands next after each.
pub fn rules(toks: &[Tok], err: bool, n: u32, ops: &[&str]) -> Vec<(Ref, bool)> {
    let mut v = toks.to_vec();
    if err { v.push(Tok { kind: "LexError", s: n, e: n, text: String::new(), prefix: None, nl: (' ', ' '), tr: None }) }
    let mut p = P { t: &v, i: 0, exc: ExceptKind::Unset, depth: 0, strict: true, n };
    let mut out = vec![];
    for o in ops {
        // what follows an error is not specified
        if matches!(*o, "advance" | "file") && p.at("LexError") { out.push((Ref::Unknown("after a lexical error"), true)); return out }
        if *o == "advance" { p.take(); continue }
        let r = match *o {
            "file" => { p.take(); p.file_input() }
            "atom" => p.atom(), "atom_expr" => p.atom_expr(), "power" => p.power(), "factor" => p.factor(), "comparison" => p.comparison(),
            "term" => p.binary(9), "arith" => p.binary(8), "shift" => p.binary(7), "and_expr" => p.binary(6), "xor_expr" => p.binary(5), "expr" => p.binary(4),
            "not_test" => p.binary(2), "and_test" => p.binary(1), "or_test" => p.binary(0), "test" => p.test(), "named_expression" => p.namedexpr(),
            "star_expr" => if p.at("PyMul") { p.star_expr() } else { p.rej() },
            _ => p.stmt(),
        };
        let next = p.at("LexError");
        out.push((match r { Ok(x) => Ref::Accept(x), Err(Stop::Reject(i)) => Ref::Reject(i), Err(Stop::Unknown(w)) => Ref::Unknown(w) }, next));
        if !matches!(out.last(), Some((Ref::Accept(_), _))) { return out }
    }
    out
}

const MAXDEPTH: usize = 3000;

fn k(n: Node) -> Kid { Kid::N(n) }
fn opt(n: Option<Node>) -> Kid { match n { Some(x) => Kid::N(x), None => Kid::None } }
fn optk(n: Option<Kid>) -> Kid { n.unwrap_or(Kid::None) }
fn lst(v: Vec<Kid>) -> Kid { Kid::L(v) }
fn rev(mut v: Vec<Kid>) -> Kid { v.reverse(); Kid::L(v) }

const AUG: [(&str, &str); 13] = [
    ("PyPlusAssign", "PlusAssignStmt"), ("PyMinusAssign", "MinusAssignStmt"), ("PyMulAssign", "MulAssignStmt"), ("PyDivAssign", "DivAssignStmt"),
    ("PyFloorDivAssign", "FloorDivAssignStmt"), ("PyModuloAssign", "ModuloAssignStmt"), ("PyMatriceAssign", "MatriceAssignStmt"),
    ("PyPowerAssign", "PowerAssignStmt"), ("PyShiftLeftAssign", "ShiftLeftAssignStmt"), ("PyShiftRightAssign", "ShiftRightAssignStmt"),
    ("PyBitOrAssign", "BitOrAssignStmt"), ("PyBitXorAssign", "BitXorAssignStmt"), ("PyBitAndAssign", "BitAndAssignStmt"),
];

impl<'a> P<'a> {
    fn kind(&self) -> &'static str { self.t.get(self.i).map(|x| x.kind).unwrap_or("EOF") }
    fn at(&self, x: &str) -> bool { self.kind() == x }
    fn any(&self, xs: &[&str]) -> bool { xs.contains(&self.kind()) }
    fn text(&self) -> &str { self.t.get(self.i).map(|x| x.text.as_str()).unwrap_or("") }
    fn take(&mut self) -> Kid { let x = self.t[self.i].clone(); if self.i + 1 < self.t.len() { self.i += 1 } Kid::T(x) }
    fn rej<T>(&self) -> R<T> { Err(Stop::Reject(self.i)) }
    fn need(&mut self, x: &str) -> R<Kid> { if self.at(x) { Ok(self.take()) } else { self.rej() } }
    fn node(&self, kind: &'static str, start: usize, kids: Vec<Kid>) -> Node {
        let s = self.startpos(start);
        let (lo, hi) = self.endpos();
        Node { kind, s, e: hi, e_lo: lo, kids }
    }
    fn startpos(&self, i: usize) -> u32 { self.t[i].s }
    fn endpos(&self) -> (u32, u32) {
        let t = &self.t[self.i];
        // where an error is noticed is not specified
        if t.is("LexError") { return (self.t[..self.i].iter().rev().find(|x| !x.structural()).map(|x| x.e).unwrap_or(0), self.n) }
        if !t.structural() { return (t.s, t.s) }
        let hi = self.t[self.i..].iter().find(|x| !x.structural()).map(|x| x.s).unwrap_or(self.n);
        let lo = self.t[..self.i].iter().rev().find(|x| !x.structural()).map(|x| x.e).unwrap_or(0);
        (lo, hi)
    }
    fn deeper(&mut self) -> R<()> { self.depth += 1; if self.depth > MAXDEPTH { Err(Stop::Unknown("nesting depth")) } else { Ok(()) } }

    // ------------------------------------------------------------------ entry points
    fn file_input(&mut self) -> R<Node> {
        let s = self.i;
        let (mut st, mut nl) = (vec![], vec![]);
        while !self.at("EOF") {
            if self.at("Newline") { nl.push(self.take()) } else { st.push(k(self.stmt()?)) }
        }
        let eof = Kid::T(self.t[self.i].clone());
        Ok(self.node("FileInput", s, vec![rev(st), rev(nl), eof]))
    }
    fn single_input(&mut self) -> R<Node> {
        let s = self.i;
        if self.at("Newline") { let t = self.take(); return Ok(self.node("SingleInput", s, vec![Kid::None, t])) }
        if self.compound_start() {
            let c = self.compound()?;
            let t = if self.at("Newline") { Kid::T(self.t[self.i].clone()) } else if self.at("EOF") { Kid::None } else { return self.rej() };
            return Ok(self.node("SingleInput", s, vec![k(c), t]));
        }
        let c = self.simple_stmt()?;
        Ok(self.node("SingleInput", s, vec![k(c), Kid::None]))
    }
    fn eval_input(&mut self) -> R<Node> {
        let s = self.i;
        let e = self.testlist()?;
        let mut nl = vec![];
        while self.at("Newline") { nl.push(self.take()) }
        if !self.at("EOF") { return self.rej() }
        let eof = Kid::T(self.t[self.i].clone());
        Ok(self.node("EvalInput", s, vec![k(e), rev(nl), eof]))
    }
    fn func_type_input(&mut self) -> R<Node> {
        let s = self.i;
        let e = self.func_type()?;
        let mut nl = vec![];
        while self.at("Newline") { nl.push(self.take()) }
        if !self.at("EOF") { return self.rej() }
        let eof = Kid::T(self.t[self.i].clone());
        Ok(self.node("FuncTypeInput", s, vec![k(e), rev(nl), eof]))
    }
    fn func_type(&mut self) -> R<Node> {
        let s = self.i;
        let l = self.need("PyLeftParen")?;
        let types = if self.at("PyRightParen") { Kid::None } else { k(self.typelist()?) };
        let r = self.need("PyRightParen")?;
        let a = self.need("PyArrow")?;
        let t = self.test()?;
        Ok(self.node("FuncType", s, vec![l, types, r, a, k(t)]))
    }
    // typelist: test (',' test)* [',' ['*' [test] (',' test)* [',' '**' test] | '**' test]]
    //         | '*' [test] (',' test)* [',' '**' test] | '**' test
    fn typelist(&mut self) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        let (mut ms, mut mn, mut ps, mut pn) = (None, None, None, None);
        loop {
            if self.at("PyPower") { ps = Some(self.take()); pn = Some(k(self.test()?)); break }
            if self.at("PyMul") {
                if ms.is_some() { return self.rej() }
                ms = Some(self.take());
                if self.any(&["PyComa", "PyRightParen"]) { return Err(Stop::Unknown("bare star in a function type")) }
                mn = Some(k(self.test()?));
            } else { n.push(k(self.test()?)); }
            if !self.at("PyComa") { break }
            c.push(self.take());
            if self.at("PyRightParen") { return Err(Stop::Unknown("trailing comma in a function type")) }
        }
        Ok(self.node("TypeList", s, vec![rev(n), rev(c), optk(ms), optk(mn), optk(ps), optk(pn)]))
    }

    // ------------------------------------------------------------------ statements
    fn compound_start(&self) -> bool { self.any(&["PyIf", "PyWhile", "PyFor", "PyTry", "PyWith", "PyDef", "PyClass", "PyMatrice", "PyAsync"]) }
    fn stmt(&mut self) -> R<Node> {
        if self.compound_start() { self.compound() } else { self.simple_stmt() }
    }
    fn simple_stmt(&mut self) -> R<Node> {
        let s = self.i;
        if self.at("AtomName") && self.text() == "match" { return Err(Stop::Unknown("statement starting with the name match")) }
        let (mut n, mut c) = (vec![k(self.small_stmt()?)], vec![]);
        while self.at("PySemiColon") {
            c.push(self.take());
            if self.at("Newline") { break }
            n.push(k(self.small_stmt()?));
        }
        let nl = self.need("Newline")?;
        Ok(self.node("SimpleStmtList", s, vec![rev(n), rev(c), nl]))
    }
    fn small_stmt(&mut self) -> R<Node> {
        let s = self.i;
        match self.kind() {
            "PyDel" => { let t = self.take(); let e = self.exprlist(&["Newline", "PySemiColon"])?; Ok(self.node("DelStmt", s, vec![t, k(e)])) }
            "PyPass" => { let t = self.take(); Ok(self.node("PassStmt", s, vec![t])) }
            "PyBreak" => { let t = self.take(); Ok(self.node("BreakStmt", s, vec![t])) }
            "PyContinue" => { let t = self.take(); Ok(self.node("ContinueStmt", s, vec![t])) }
            "PyReturn" => {
                let t = self.take();
                let v = if self.any(&["Newline", "PySemiColon"]) { None } else { Some(self.testlist_star_expr()?) };
                Ok(self.node("ReturnStmt", s, vec![t, opt(v)]))
            }
            "PyRaise" => {
                let t = self.take();
                if self.any(&["Newline", "PySemiColon"]) { return Ok(self.node("RaiseStmt", s, vec![t, Kid::None])) }
                let a = k(self.test()?);
                let b = if self.at("PyFrom") { let f = self.take(); let e = self.test()?; lst(vec![f, k(e)]) } else { Kid::None };
                Ok(self.node("RaiseStmt", s, vec![t, lst(vec![a, b])]))
            }
            "PyYield" => self.yield_expr(),
            "PyImport" => { let t = self.take(); let d = self.dotted_as_names()?; Ok(self.node("ImportNameStmt", s, vec![t, k(d)])) }
            "PyFrom" => self.import_from(),
            "PyGlobal" | "PyNonLocal" => {
                let kind = if self.at("PyGlobal") { "GlobalStmt" } else { "NonLocalStmt" };
                let t = self.take();
                let (mut n, mut c) = (vec![self.need("AtomName")?], vec![]);
                while self.at("PyComa") { c.push(self.take()); n.push(self.need("AtomName")?) }
                Ok(self.node(kind, s, vec![t, rev(n), rev(c)]))
            }
            "PyAssert" => {
                let t = self.take();
                let a = k(self.test()?);
                let b = if self.at("PyComa") { let c = self.take(); let e = self.test()?; lst(vec![c, k(e)]) } else { Kid::None };
                Ok(self.node("AssertStmt", s, vec![t, a, b]))
            }
            _ => self.expr_stmt(),
        }
    }
    fn expr_stmt(&mut self) -> R<Node> {
        let s = self.i;
        let left = self.testlist_star_expr()?;
        let kd = self.kind();
        if kd == "PyColon" {
            let c = self.take();
            let ann = self.test()?;
            let val = if self.at("PyAssign") { let a = self.take(); let v = self.rhs()?; lst(vec![a, k(v)]) } else { Kid::None };
            return Ok(self.node("AnnAssignStmt", s, vec![k(left), c, k(ann), val]));
        }
        if let Some((_, name)) = AUG.iter().find(|(a, _)| *a == kd) {
            let t = self.take();
            let v = self.rhs()?;
            return Ok(self.node(name, s, vec![k(left), t, k(v)]));
        }
        if kd == "PyAssign" {
            let mut v = vec![];
            while self.at("PyAssign") { let a = self.take(); let r = self.rhs()?; v.push(lst(vec![a, k(r)])) }
            let tc = if self.at("TypeComment") { self.take() } else { Kid::None };
            return Ok(self.node("AssignmentStmt", s, vec![k(left), lst(v), tc]));
        }
        Ok(left)
    }
    fn rhs(&mut self) -> R<Node> {
        if self.at("PyYield") { return self.yield_expr() }
        let st = self.i;
        if self.at("PyMul") { return Err(Stop::Unknown("starred value")) }
        let r = self.testlist();
        // a starred element later in the list is the same known limitation
        if let Err(Stop::Reject(j)) = r { if j > st && self.t[j].is("PyMul") && self.t[j - 1].is("PyComa") { return Err(Stop::Unknown("starred value")) } }
        r
    }
    fn dotted_name(&mut self) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![self.need("AtomName")?], vec![]);
        while self.at("PyDot") { c.push(self.take()); n.push(self.need("AtomName")?) }
        Ok(self.node("DottedNameStmt", s, vec![rev(n), rev(c)]))
    }
    fn dotted_as_names(&mut self) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            let s2 = self.i;
            let d = self.dotted_name()?;
            let a = if self.at("PyAs") { let a = self.take(); lst(vec![a, self.need("AtomName")?]) } else { Kid::None };
            n.push(k(self.node("DottedAsNameStmt", s2, vec![k(d), a])));
            if !self.at("PyComa") { break }
            c.push(self.take());
        }
        Ok(self.node("DottedAsNamesStmt", s, vec![rev(n), rev(c)]))
    }
    fn import_from(&mut self) -> R<Node> {
        let s = self.i;
        let from = self.take();
        let mut dots = vec![];
        while self.any(&["PyDot", "PyElipsis"]) { dots.push(self.take()) }
        let module = if self.at("PyImport") { if dots.is_empty() { return self.rej() } None } else { Some(self.dotted_name()?) };
        let imp = self.need("PyImport")?;
        let (mut a, mut names, mut b) = (Kid::None, Kid::None, Kid::None);
        if self.at("PyMul") { a = self.take(); }
        else if self.at("PyLeftParen") { a = self.take(); names = k(self.import_as_names(true)?); b = self.need("PyRightParen")?; }
        else { names = k(self.import_as_names(false)?); }
        Ok(self.node("ImportFromStmt", s, vec![from, rev(dots), opt(module), imp, a, names, b]))
    }
    fn import_as_names(&mut self, paren: bool) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            let s2 = self.i;
            let d = self.need("AtomName")?;
            let a = if self.at("PyAs") { let a = self.take(); lst(vec![a, self.need("AtomName")?]) } else { Kid::None };
            n.push(k(self.node("ImportAsName", s2, vec![d, a])));
            if !self.at("PyComa") { break }
            c.push(self.take());
            if paren && self.at("PyRightParen") { break }
        }
        Ok(self.node("ImportAsNamesStmt", s, vec![rev(n), rev(c)]))
    }

    fn compound(&mut self) -> R<Node> {
        self.deeper()?;
        let r = self.compound_();
        self.depth -= 1;
        r
    }
    fn compound_(&mut self) -> R<Node> {
        let s = self.i;
        match self.kind() {
            "PyIf" => {
                let t = self.take();
                let c = k(self.namedexpr()?);
                let co = self.need("PyColon")?;
                let b = k(self.suite()?);
                let mut el = vec![];
                while self.at("PyElif") {
                    let s2 = self.i;
                    let t = self.take();
                    let c = k(self.namedexpr()?);
                    let co = self.need("PyColon")?;
                    let b = k(self.suite()?);
                    el.push(k(self.node("ElifStmt", s2, vec![t, c, co, b])));
                }
                let e = self.else_part()?;
                Ok(self.node("IfStmt", s, vec![t, c, co, b, rev(el), e]))
            }
            "PyWhile" => {
                let t = self.take();
                let c = k(self.namedexpr()?);
                let co = self.need("PyColon")?;
                let b = k(self.suite()?);
                let e = self.else_part()?;
                Ok(self.node("WhileStmt", s, vec![t, c, co, b, e]))
            }
            "PyFor" => {
                let t = self.take();
                let x = k(self.exprlist(&["PyIn"])?);
                let i = self.need("PyIn")?;
                let st = self.i;
                if self.at("PyMul") { return Err(Stop::Unknown("starred value")) }
                let y = match self.testlist() {
                    Err(Stop::Reject(j)) if j > st && self.t[j].is("PyMul") && self.t[j - 1].is("PyComa") => return Err(Stop::Unknown("starred value")),
                    r => k(r?),
                };
                let co = self.need("PyColon")?;
                let tc = if self.at("TypeComment") { self.take() } else { Kid::None };
                let b = k(self.suite()?);
                let e = self.else_part()?;
                Ok(self.node("ForStmt", s, vec![t, x, i, y, co, tc, b, e]))
            }
            "PyTry" => self.try_stmt(),
            "PyWith" => self.with_stmt(),
            "PyDef" => self.funcdef(),
            "PyClass" => {
                let t = self.take();
                let n = self.need("AtomName")?;
                let (mut l, mut a, mut r) = (Kid::None, Kid::None, Kid::None);
                if self.at("PyLeftParen") {
                    l = self.take();
                    if !self.at("PyRightParen") { a = k(self.arglist()?) }
                    r = self.need("PyRightParen")?;
                }
                let co = self.need("PyColon")?;
                let b = k(self.suite()?);
                Ok(self.node("ClassDef", s, vec![t, n, l, a, r, co, b]))
            }
            "PyAsync" => {
                let t = self.take();
                let b = match self.kind() { "PyDef" | "PyWith" | "PyFor" => k(self.compound_()?), _ => return self.rej() };
                Ok(self.node("AsyncStmt", s, vec![t, b]))
            }
            "PyMatrice" => {
                let mut d = vec![];
                while self.at("PyMatrice") { d.push(k(self.decorator()?)) }
                let ds = k(self.node("Decorators", s, vec![rev(d)]));
                let b = match self.kind() {
                    "PyClass" | "PyDef" => k(self.compound_()?),
                    "PyAsync" => {
                        let s2 = self.i;
                        let t = self.take();
                        if !self.at("PyDef") { return self.rej() }
                        let f = k(self.compound_()?);
                        k(self.node("AsyncStmt", s2, vec![t, f]))
                    }
                    _ => return self.rej(),
                };
                Ok(self.node("Decorated", s, vec![ds, b]))
            }
            _ => self.rej(),
        }
    }
    fn else_part(&mut self) -> R<Kid> {
        if !self.at("PyElse") { return Ok(Kid::None) }
        let s = self.i;
        let t = self.take();
        let c = self.need("PyColon")?;
        let b = k(self.suite()?);
        Ok(k(self.node("ElseStmt", s, vec![t, c, b])))
    }
    fn try_stmt(&mut self) -> R<Node> {
        let s = self.i;
        let t = self.take();
        let c = self.need("PyColon")?;
        let outer = self.exc;
        let b = k(self.suite()?);
        self.exc = ExceptKind::Unset;
        let mut ex = vec![];
        while self.at("PyExcept") { ex.push(k(self.except_stmt()?)) }
        self.exc = outer;
        if ex.is_empty() {
            if !self.at("PyFinally") { return self.rej() }
            let f = self.finally()?;
            return Ok(self.node("TryStmt", s, vec![t, c, b, Kid::None, Kid::None, f]));
        }
        let e = self.else_part()?;
        let f = if self.at("PyFinally") { self.finally()? } else { Kid::None };
        Ok(self.node("TryStmt", s, vec![t, c, b, rev(ex), e, f]))
    }
    fn finally(&mut self) -> R<Kid> {
        let s = self.i;
        let t = self.take();
        let c = self.need("PyColon")?;
        let b = k(self.suite()?);
        Ok(k(self.node("FinallyStmt", s, vec![t, c, b])))
    }
    fn except_stmt(&mut self) -> R<Node> {
        let s = self.i;
        let t = self.take();
        let star = if self.at("PyMul") { self.take() } else { Kid::None };
        let this = if star == Kid::None { ExceptKind::Plain } else { ExceptKind::Star };
        if self.exc == ExceptKind::Unset { self.exc = this } else if self.exc != this { return self.rej() }
        let v = if self.at("PyColon") {
            if this == ExceptKind::Star { return self.rej() }
            Kid::None
        } else {
            let e = k(self.test()?);
            let a = if self.at("PyAs") { let a = self.take(); lst(vec![a, self.need("AtomName")?]) } else { Kid::None };
            lst(vec![e, a])
        };
        let cl = k(self.node("ExceptClauseStmt", s, vec![t, star, v]));
        let c = self.need("PyColon")?;
        let saved = self.exc;
        let b = k(self.suite()?);
        self.exc = saved;
        Ok(self.node("ExceptStmt", s, vec![cl, c, b]))
    }
    fn with_stmt(&mut self) -> R<Node> {
        let s = self.i;
        let t = self.take();
        let (mut l, mut r) = (Kid::None, Kid::None);
        let (mut n, mut c) = (vec![], vec![]);
        if self.at("PyLeftParen") {
            const U: Stop = Stop::Unknown("with statement whose first item is parenthesised");
            l = self.take();
            loop {
                match self.with_item() { Ok(x) => n.push(k(x)), Err(_) => return Err(U) }
                if !self.at("PyComa") { break }
                c.push(self.take());
                if self.at("PyRightParen") { break }
            }
            match self.need("PyRightParen") { Ok(x) => r = x, Err(_) => return Err(U) }
            if !self.at("PyColon") { return Err(U) }
        } else {
            loop {
                n.push(k(self.with_item()?));
                if !self.at("PyComa") { break }
                c.push(self.take());
            }
        }
        let co = self.need("PyColon")?;
        if self.at("TypeComment") { return Err(Stop::Unknown("type comment of a with statement")) }
        let b = k(self.suite()?);
        Ok(self.node("WithStmt", s, vec![t, l, rev(n), rev(c), r, co, b]))
    }
    fn with_item(&mut self) -> R<Node> {
        let s = self.i;
        let e = k(self.test()?);
        let a = if self.at("PyAs") { let a = self.take(); let x = self.expr()?; lst(vec![a, k(x)]) } else { Kid::None };
        Ok(self.node("WithItem", s, vec![e, a]))
    }
    fn decorator(&mut self) -> R<Node> {
        let s = self.i;
        let at = self.take();
        if !self.at("AtomName") { return Err(Stop::Unknown("decorator that is not a dotted name")) }
        let n = k(self.dotted_name()?);
        let (mut l, mut a, mut r) = (Kid::None, Kid::None, Kid::None);
        if self.at("PyLeftParen") {
            l = self.take();
            if !self.at("PyRightParen") { a = k(self.arglist()?) }
            r = self.need("PyRightParen")?;
        }
        if !self.at("Newline") {
            if self.any(&["PyClass", "PyDef", "PyAsync", "EOF", "LexError", "Indent", "Dedent", "PyMatrice"]) && self.kind() != "PyMatrice" { return self.rej() }
            return Err(Stop::Unknown("decorator that is not a dotted name"));
        }
        let nl = self.take();
        Ok(self.node("Decorator", s, vec![at, n, l, a, r, nl]))
    }
    fn funcdef(&mut self) -> R<Node> {
        let s = self.i;
        let d = self.take();
        let n = self.need("AtomName")?;
        let sp = self.i;
        let l = self.need("PyLeftParen")?;
        if !self.at("PyRightParen") { return Err(Stop::Unknown("function with parameters")) }
        let r = self.take();
        let par = k(self.node("Parameter", sp, vec![l, Kid::None, r]));
        let ret = if self.at("PyArrow") { let a = self.take(); let t = self.test()?; lst(vec![a, k(t)]) } else { Kid::None };
        let c = self.need("PyColon")?;
        let tc = if self.at("TypeComment") { self.take() } else { Kid::None };
        let b = k(self.func_body()?);
        Ok(self.node("FuncDef", s, vec![d, n, par, ret, c, tc, b]))
    }
    fn func_body(&mut self) -> R<Node> {
        if !self.at("Newline") { return self.simple_stmt() }
        let s = self.i;
        let nl = self.take();
        let (mut tc, mut tn) = (Kid::None, Kid::None);
        if self.at("TypeComment") { tc = self.take(); tn = self.need("Newline")?; }
        let (i, st, d) = self.block()?;
        Ok(self.node("FuncBodySuite", s, vec![nl, tc, tn, i, st, d]))
    }
    fn suite(&mut self) -> R<Node> {
        if !self.at("Newline") { return self.simple_stmt() }
        let s = self.i;
        let nl = self.take();
        let (i, st, d) = self.block()?;
        Ok(self.node("SuiteStmt", s, vec![nl, i, st, d]))
    }
    fn block(&mut self) -> R<(Kid, Kid, Kid)> {
        let i = self.need("Indent")?;
        let mut st = vec![];
        loop { st.push(k(self.stmt()?)); if self.at("Dedent") { break } }
        Ok((i, rev(st), self.take()))
    }

    // ------------------------------------------------------------------ expressions
    fn namedexpr(&mut self) -> R<Node> {
        let s = self.i;
        let l = self.test()?;
        if self.at("PyColonAssign") { let t = self.take(); let r = self.test()?; return Ok(self.node("NamedExpr", s, vec![k(l), t, k(r)])) }
        Ok(l)
    }
    fn test(&mut self) -> R<Node> {
        self.deeper()?;
        let r = self.test_();
        self.depth -= 1;
        r
    }
    fn test_(&mut self) -> R<Node> {
        let s = self.i;
        if self.at("PyLambda") { return self.lambda(true) }
        let l = self.binary(0)?;
        if self.at("PyIf") {
            let a = self.take();
            let c = self.binary(0)?;
            let b = self.need("PyElse")?;
            let e = self.test()?;
            return Ok(self.node("Test", s, vec![k(l), a, k(c), b, k(e)]));
        }
        Ok(l)
    }
    fn test_nocond(&mut self) -> R<Node> {
        self.deeper()?;
        let r = if self.at("PyLambda") { self.lambda(false) } else { self.binary(0) };
        self.depth -= 1;
        r
    }
    fn lambda(&mut self, cond: bool) -> R<Node> {
        let s = self.i;
        let t = self.take();
        let v = if self.at("PyColon") { Kid::None } else { k(self.varargslist()?) };
        let c = self.need("PyColon")?;
        let b = if cond { self.test()? } else { self.test_nocond()? };
        Ok(self.node("Lambda", s, vec![t, v, c, k(b)]))
    }
    // one pass over the comma separated items; `state` enforces the order of roles
    fn varargslist(&mut self) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        let (mut ms, mut mn, mut ps, mut pn, mut dv) = (None, None, None, None, None);
        let mut items = 0;
        loop {
            match self.kind() {
                "PyPower" => { ps = Some(self.take()); pn = Some(k(self.vfpdef()?)); if self.at("PyComa") { c.push(self.take()) } break }
                "PyMul" => {
                    if ms.is_some() { return self.rej() }
                    ms = Some(self.take());
                    if self.at("PyComa") {
                        // bare star: must be followed by a named parameter
                        let nx = self.t.get(self.i + 1).map(|x| x.kind).unwrap_or("EOF");
                        if matches!(nx, "PyColon" | "PyPower") { return Err(Stop::Unknown("bare star without a parameter")) }
                    } else { mn = Some(k(self.vfpdef()?)); }
                }
                "PyDiv" => {
                    if dv.is_some() || ms.is_some() || items == 0 { return self.rej() }
                    dv = Some(self.take());
                }
                _ => {
                    let s2 = self.i;
                    let d = self.vfpdef()?;
                    if self.at("PyAssign") { let a = self.take(); let e = self.test()?; n.push(k(self.node("VFPAssign", s2, vec![k(d), a, k(e)]))) } else { n.push(k(d)) }
                }
            }
            items += 1;
            if !self.at("PyComa") { break }
            c.push(self.take());
            if self.at("PyColon") { break }
        }
        let _ = self.strict;
        Ok(self.node("VarArgsList", s, vec![rev(n), rev(c), optk(ms), optk(mn), optk(ps), optk(pn), optk(dv)]))
    }
    fn vfpdef(&mut self) -> R<Node> {
        let s = self.i;
        let n = self.need("AtomName")?;
        Ok(self.node("VFPDef", s, vec![n]))
    }
    /// level 0 = or ... 10 = power
    fn binary(&mut self, level: u32) -> R<Node> {
        let s = self.i;
        let table: &[(&str, &'static str)] = match level {
            0 => &[("PyOr", "OrTest")],
            1 => &[("PyAnd", "AndTest")],
            2 => {
                if self.at("PyNot") {
                    self.deeper()?;
                    let t = self.take();
                    let r = self.binary(2)?;
                    self.depth -= 1;
                    return Ok(self.node("NotTest", s, vec![t, k(r)]));
                }
                return self.comparison();
            }
            4 => &[("PyBitOr", "Expr")],
            5 => &[("PyBitXor", "XorExpr")],
            6 => &[("PyBitAnd", "AndExpr")],
            7 => &[("PyShiftLeft", "ShiftLeftExpr"), ("PyShiftRight", "ShiftRightExpr")],
            8 => &[("PyPlus", "PlusArithExpr"), ("PyMinus", "MinusArithExpr")],
            9 => &[("PyMul", "MulTerm"), ("PyDiv", "DivTerm"), ("PyFloorDiv", "FloorDivTerm"), ("PyModulo", "ModuloTerm"), ("PyMatrice", "MatriceTerm")],
            _ => return self.factor(),
        };
        let next = if level == 1 { 2 } else { level + 1 };
        let mut l = self.binary(next)?;
        while let Some((_, name)) = table.iter().find(|(a, _)| self.at(a)) {
            let t = self.take();
            let r = self.binary(next)?;
            l = self.node(name, s, vec![k(l), t, k(r)]);
        }
        Ok(l)
    }
    fn comparison(&mut self) -> R<Node> {
        let s = self.i;
        let mut l = self.expr()?;
        loop {
            let name = match self.kind() {
                "PyLess" => "LessComparison", "PyLessEqual" => "LessEqualComparison", "PyEqual" => "EqualComparison", "PyGreater" => "GreaterComparison",
                "PyGreaterEqual" => "GreaterEqualComparison", "PyNotEqual" => "NotEqualComparison", "PyIn" => "InComparison",
                "PyIs" => "IsComparison", "PyNot" => "NotInComparison", _ => return Ok(l),
            };
            let t = self.take();
            if name == "NotInComparison" {
                let u = self.need("PyIn")?;
                let r = self.expr()?;
                l = self.node(name, s, vec![k(l), t, u, k(r)]);
            } else if name == "IsComparison" && self.at("PyNot") {
                let u = self.take();
                let r = self.expr()?;
                l = self.node("IsNotComparison", s, vec![k(l), t, u, k(r)]);
            } else {
                let r = self.expr()?;
                l = self.node(name, s, vec![k(l), t, k(r)]);
            }
        }
    }
    fn expr(&mut self) -> R<Node> { self.binary(4) }
    fn star_expr(&mut self) -> R<Node> {
        let s = self.i;
        let t = self.take();
        let e = self.expr()?;
        Ok(self.node("StarExpr", s, vec![t, k(e)]))
    }
    fn factor(&mut self) -> R<Node> {
        let s = self.i;
        let name = match self.kind() { "PyPlus" => "UnaryPlus", "PyMinus" => "UnaryMinus", "PyBitInvert" => "UnaryInvert", _ => return self.power() };
        self.deeper()?;
        let t = self.take();
        let e = self.factor()?;
        self.depth -= 1;
        Ok(self.node(name, s, vec![t, k(e)]))
    }
    fn power(&mut self) -> R<Node> {
        let s = self.i;
        let l = self.atom_expr()?;
        if self.at("PyPower") {
            self.deeper()?;
            let t = self.take();
            let r = self.factor()?;
            self.depth -= 1;
            return Ok(self.node("PowerExpr", s, vec![k(l), t, k(r)]));
        }
        Ok(l)
    }
    fn atom_expr(&mut self) -> R<Node> {
        let s = self.i;
        let aw = if self.at("PyAwait") { Some(self.take()) } else { None };
        let a = self.atom()?;
        let mut tr = vec![];
        loop {
            let s2 = self.i;
            match self.kind() {
                "PyLeftParen" => {
                    let l = self.take();
                    let a = if self.at("PyRightParen") { Kid::None } else { k(self.arglist()?) };
                    let r = self.need("PyRightParen")?;
                    tr.push(k(self.node("CallTrailer", s2, vec![l, a, r])));
                }
                "PyLeftBracket" => {
                    let l = self.take();
                    let a = k(self.subscriptlist()?);
                    let r = self.need("PyRightBracket")?;
                    tr.push(k(self.node("IndexTrailer", s2, vec![l, a, r])));
                }
                "PyDot" => {
                    let d = self.take();
                    let n = self.need("AtomName")?;
                    tr.push(k(self.node("DotNameTrailer", s2, vec![d, n])));
                }
                _ => break,
            }
        }
        if aw.is_none() && tr.is_empty() { return Ok(a) }
        Ok(self.node("AtomExpr", s, vec![optk(aw), k(a), lst(tr)]))
    }
    fn atom(&mut self) -> R<Node> {
        let s = self.i;
        let simple = match self.kind() {
            "PyElipsis" => "AtomElipsis", "PyFalse" => "AtomFalse", "PyNone" => "AtomNone", "PyTrue" => "AtomTrue",
            "AtomName" => "AtomName", "AtomNumber" => "AtomNumber", _ => "",
        };
        if !simple.is_empty() { let t = self.take(); return Ok(self.node(simple, s, vec![t])) }
        match self.kind() {
            "AtomString" => {
                let mut v = vec![];
                while self.at("AtomString") { v.push(self.take()) }
                Ok(self.node("AtomString", s, vec![lst(v)]))
            }
            "PyLeftParen" => {
                let l = self.take();
                let b = match self.kind() { "PyRightParen" => Kid::None, "PyYield" => k(self.yield_expr()?), _ => k(self.testlist_comp("PyRightParen")?) };
                let r = self.need("PyRightParen")?;
                Ok(self.node("AtomTuple", s, vec![l, b, r]))
            }
            "PyLeftBracket" => {
                let l = self.take();
                let b = if self.at("PyRightBracket") { Kid::None } else { k(self.testlist_comp("PyRightBracket")?) };
                let r = self.need("PyRightBracket")?;
                Ok(self.node("AtomList", s, vec![l, b, r]))
            }
            "PyLeftCurly" => {
                let l = self.take();
                let b = if self.at("PyRightCurly") { None } else { Some(self.dictorset()?) };
                let r = self.need("PyRightCurly")?;
                let name = match &b { Some(x) if x.kind == "SetContainer" => "AtomSet", _ => "AtomDictionary" };
                Ok(self.node(name, s, vec![l, opt(b), r]))
            }
            _ => self.rej(),
        }
    }
    fn element(&mut self) -> R<Node> { if self.at("PyMul") { self.star_expr() } else { self.namedexpr() } }
    fn testlist_comp(&mut self, close: &str) -> R<Node> {
        self.deeper()?;
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        n.push(k(self.element()?));
        if self.any(&["PyFor", "PyAsync"]) { n.push(k(self.comp_for()?)); }
        else {
            while self.at("PyComa") {
                c.push(self.take());
                if self.at(close) { break }
                n.push(k(self.element()?));
            }
        }
        self.depth -= 1;
        Ok(self.node("TestListComp", s, vec![rev(n), rev(c)]))
    }
    fn dict_or_set_entry(&mut self) -> R<(Node, bool)> {
        let s = self.i;
        match self.kind() {
            "PyMul" => { let t = self.take(); let e = self.expr()?; Ok((self.node("MulSet", s, vec![t, k(e)]), false)) }
            "PyPower" => { let t = self.take(); let e = self.expr()?; Ok((self.node("PowerDictionary", s, vec![t, k(e)]), true)) }
            _ => {
                let e = self.test()?;
                if self.at("PyColonAssign") { return Err(Stop::Unknown("named expression in a set")) }
                if self.at("PyColon") { let c = self.take(); let v = self.test()?; return Ok((self.node("DictionaryEntry", s, vec![k(e), c, k(v)]), true)) }
                Ok((e, false))
            }
        }
    }
    fn dictorset(&mut self) -> R<Node> {
        self.deeper()?;
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        let (e, dict) = self.dict_or_set_entry()?;
        n.push(k(e));
        if self.any(&["PyFor", "PyAsync"]) { n.push(k(self.comp_for()?)); }
        else {
            while self.at("PyComa") {
                c.push(self.take());
                if self.at("PyRightCurly") { break }
                let at = self.i;
                let (e, d) = self.dict_or_set_entry()?;
                if d != dict { return Err(Stop::Reject(at)) }
                n.push(k(e));
            }
        }
        self.depth -= 1;
        Ok(self.node(if dict { "DictionaryContainer" } else { "SetContainer" }, s, vec![rev(n), rev(c)]))
    }
    fn arglist(&mut self) -> R<Node> {
        self.deeper()?;
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(k(self.argument()?));
            if !self.at("PyComa") { break }
            c.push(self.take());
            if self.at("PyRightParen") { break }
        }
        self.depth -= 1;
        Ok(self.node("ArgList", s, vec![rev(n), rev(c)]))
    }
    fn argument(&mut self) -> R<Node> {
        let s = self.i;
        if self.any(&["PyMul", "PyPower"]) { let t = self.take(); let e = self.test()?; return Ok(self.node("Argument", s, vec![Kid::None, t, k(e)])) }
        let l = k(self.test()?);
        if self.any(&["PyFor", "PyAsync"]) { let f = self.comp_for()?; return Ok(self.node("Argument", s, vec![l, Kid::None, k(f)])) }
        if self.any(&["PyAssign", "PyColonAssign"]) { let t = self.take(); let e = self.test()?; return Ok(self.node("Argument", s, vec![l, t, k(e)])) }
        Ok(self.node("Argument", s, vec![l, Kid::None, Kid::None]))
    }
    fn subscriptlist(&mut self) -> R<Node> {
        self.deeper()?;
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(k(self.subscript()?));
            if !self.at("PyComa") { break }
            c.push(self.take());
            if self.at("PyRightBracket") { break }
        }
        self.depth -= 1;
        Ok(self.node("SubscriptList", s, vec![rev(n), rev(c)]))
    }
    fn subscript(&mut self) -> R<Node> {
        let s = self.i;
        if self.at("PyMul") { return Err(Stop::Unknown("starred subscript")) }
        let ends = ["PyColon", "PyComa", "PyRightBracket"];
        let a = if self.at("PyColon") { None } else { Some(self.test()?) };
        if self.at("PyColonAssign") { return Err(Stop::Unknown("named expression in a subscript")) }
        let (mut c1, mut b, mut c2, mut d) = (Kid::None, None, Kid::None, None);
        if self.at("PyColon") {
            c1 = self.take();
            if !self.any(&ends) { b = Some(self.test()?) }
            if self.at("PyColon") {
                c2 = self.take();
                if !self.any(&ends) { d = Some(self.test()?) }
            }
        }
        Ok(self.node("Subscript", s, vec![opt(a), c1, opt(b), c2, opt(d)]))
    }
    fn comp_for(&mut self) -> R<Node> {
        let s = self.i;
        if self.at("PyAsync") { let t = self.take(); if !self.at("PyFor") { return self.rej() } let f = self.comp_for()?; return Ok(self.node("CompForComprehension", s, vec![t, k(f)])) }
        let t = self.need("PyFor")?;
        let x = k(self.exprlist(&["PyIn"])?);
        let i = self.need("PyIn")?;
        let y = k(self.binary(0)?);
        let nx = self.comp_iter()?;
        Ok(self.node("SyncCompForComprehension", s, vec![t, x, i, y, nx]))
    }
    fn comp_iter(&mut self) -> R<Kid> {
        match self.kind() {
            "PyFor" | "PyAsync" => { self.deeper()?; let r = k(self.comp_for()?); self.depth -= 1; Ok(r) }
            "PyIf" => {
                self.deeper()?;
                let s = self.i;
                let t = self.take();
                let c = k(self.test_nocond()?);
                let nx = self.comp_iter()?;
                self.depth -= 1;
                Ok(k(self.node("CompIfComprehension", s, vec![t, c, nx])))
            }
            _ => Ok(Kid::None),
        }
    }
    /// `ends`: tokens that may follow a trailing comma here
    fn exprlist(&mut self, ends: &[&str]) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(if self.at("PyMul") { self.star_expr()? } else { self.expr()? });
            if !self.at("PyComa") { break }
            c.push(self.take());
            if self.any(ends) { break }
        }
        if c.is_empty() { return Ok(n.pop().unwrap()) }
        let n = n.into_iter().map(k).collect();
        Ok(self.node("ExprList", s, vec![lst(n), lst(c)]))
    }
    fn testlist(&mut self) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(self.test()?);
            if !self.at("PyComa") { break }
            c.push(self.take());
            if self.any(&["PyAssign", "PyColon", "TypeComment", "Newline", "PySemiColon", "EOF"]) { break }
        }
        if c.is_empty() { return Ok(n.pop().unwrap()) }
        let n = n.into_iter().map(k).collect();
        Ok(self.node("TestList", s, vec![lst(n), lst(c)]))
    }
    fn testlist_star_expr(&mut self) -> R<Node> {
        let s = self.i;
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(if self.at("PyMul") { self.star_expr()? } else { self.test()? });
            if !self.at("PyComa") { break }
            c.push(self.take());
            if self.any(&["PyAssign", "PyColon", "TypeComment", "Newline", "PySemiColon", "EOF", "PyRightParen"]) || AUG.iter().any(|(a, _)| self.at(a)) { break }
        }
        if c.is_empty() { return Ok(n.pop().unwrap()) }
        Ok(self.node("TestListStarExpr", s, vec![rev(n.into_iter().map(k).collect()), rev(c)]))
    }
    fn yield_expr(&mut self) -> R<Node> {
        let s = self.i;
        let y = self.take();
        if self.at("PyFrom") { let f = self.take(); let e = self.test()?; return Ok(self.node("YieldFromExpr", s, vec![y, f, k(e)])) }
        if self.any(&["Newline", "PySemiColon", "PyRightParen", "PyAssign", "EOF"]) { return Err(Stop::Unknown("yield without a value")) }
        let e = self.testlist_star_expr()?;
        Ok(self.node("YieldExpr", s, vec![y, k(e)]))
    }
}
