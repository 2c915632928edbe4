//! Reference tokenizer, written from the Python language reference (lexical analysis), independent of the subject.
//! It stops with `unknown` where no property claims anything.
use crate::types::*;

pub struct RefLex {
    pub toks: Vec<Tok>,
    /// position at which a lexical error is found (tokens before it are in `toks`)
    pub err: Option<usize>,
    /// position from which on nothing is claimed
    pub unknown: Option<usize>,
    pub chars: Vec<char>,
}

pub const KEYWORDS: [(&str, &str); 35] = [
    ("False", "PyFalse"), ("None", "PyNone"), ("True", "PyTrue"), ("and", "PyAnd"), ("as", "PyAs"), ("assert", "PyAssert"),
    ("async", "PyAsync"), ("await", "PyAwait"), ("break", "PyBreak"), ("class", "PyClass"), ("continue", "PyContinue"),
    ("def", "PyDef"), ("del", "PyDel"), ("elif", "PyElif"), ("else", "PyElse"), ("except", "PyExcept"), ("finally", "PyFinally"),
    ("for", "PyFor"), ("from", "PyFrom"), ("global", "PyGlobal"), ("if", "PyIf"), ("import", "PyImport"), ("in", "PyIn"),
    ("is", "PyIs"), ("lambda", "PyLambda"), ("nonlocal", "PyNonLocal"), ("not", "PyNot"), ("or", "PyOr"), ("pass", "PyPass"),
    ("raise", "PyRaise"), ("return", "PyReturn"), ("try", "PyTry"), ("while", "PyWhile"), ("with", "PyWith"), ("yield", "PyYield"),
];
/// longest first
pub const OPERATORS: [(&str, &str); 48] = [
    ("**=", "PyPowerAssign"), ("//=", "PyFloorDivAssign"), ("<<=", "PyShiftLeftAssign"), (">>=", "PyShiftRightAssign"), ("...", "PyElipsis"),
    ("**", "PyPower"), ("*=", "PyMulAssign"), ("//", "PyFloorDiv"), ("/=", "PyDivAssign"), ("<<", "PyShiftLeft"), ("<=", "PyLessEqual"),
    ("<>", "PyNotEqual"), (">>", "PyShiftRight"), (">=", "PyGreaterEqual"), ("+=", "PyPlusAssign"), ("-=", "PyMinusAssign"), ("->", "PyArrow"),
    ("%=", "PyModuloAssign"), ("@=", "PyMatriceAssign"), (":=", "PyColonAssign"), ("&=", "PyBitAndAssign"), ("|=", "PyBitOrAssign"),
    ("^=", "PyBitXorAssign"), ("==", "PyEqual"), ("!=", "PyNotEqual"),
    ("*", "PyMul"), ("/", "PyDiv"), ("<", "PyLess"), (">", "PyGreater"), (".", "PyDot"), ("+", "PyPlus"), ("-", "PyMinus"), ("%", "PyModulo"),
    ("@", "PyMatrice"), (":", "PyColon"), ("&", "PyBitAnd"), ("|", "PyBitOr"), ("^", "PyBitXor"), ("~", "PyBitInvert"), (";", "PySemiColon"),
    (",", "PyComa"), ("=", "PyAssign"), ("(", "PyLeftParen"), ("[", "PyLeftBracket"), ("{", "PyLeftCurly"), (")", "PyRightParen"),
    ("]", "PyRightBracket"), ("}", "PyRightCurly"),
];
pub const PREFIXES: [&str; 24] = ["r", "u", "R", "U", "f", "F", "fr", "Fr", "fR", "FR", "rf", "rF", "Rf", "RF", "b", "B", "br", "Br", "bR", "BR", "rb", "rB", "Rb", "RB"];

pub fn keyword_kind(w: &str) -> Option<&'static str> { KEYWORDS.iter().find(|(k, _)| *k == w).map(|(_, v)| *v) }
pub fn kind_text(kind: &str) -> Option<&'static str> {
    KEYWORDS.iter().find(|(_, k)| *k == kind).map(|(t, _)| *t)
        .or_else(|| if kind == "PyNotEqual" { Some("!=") } else { OPERATORS.iter().find(|(_, k)| *k == kind).map(|(t, _)| *t) })
}

fn at(c: &[char], i: usize) -> char { if i < c.len() { c[i] } else { '\0' } }
fn dec(x: char) -> bool { x.is_ascii_digit() }

/// digits with single underscores between them, starting at i where a digit stands; Err = position of the fault
fn run(c: &[char], mut i: usize, ok: fn(char) -> bool) -> Result<usize, usize> {
    loop {
        while i < c.len() && ok(c[i]) { i += 1 }
        if at(c, i) == '_' { if i + 1 < c.len() && ok(c[i + 1]) { i += 1 } else { return Err(i) } } else { return Ok(i) }
    }
}
fn exponent(c: &[char], i: usize) -> Result<usize, usize> {
    if matches!(at(c, i), 'e' | 'E') {
        if dec(at(c, i + 1)) { return run(c, i + 1, dec) }
        if matches!(at(c, i + 1), '+' | '-') && dec(at(c, i + 2)) { return run(c, i + 2, dec) }
    }
    Ok(i)
}
/// end of the number starting at i
pub fn number(c: &[char], i: usize) -> Result<usize, usize> {
    if at(c, i) == '0' {
        let ok: Option<fn(char) -> bool> = match at(c, i + 1) {
            'x' | 'X' => Some(|x| x.is_ascii_hexdigit()),
            'o' | 'O' => Some(|x| ('0'..='7').contains(&x)),
            'b' | 'B' => Some(|x| x == '0' || x == '1'),
            _ => None,
        };
        if let Some(ok) = ok {
            let mut j = i + 2;
            if at(c, j) == '_' { j += 1 }
            if !(j < c.len() && ok(c[j])) { return Err(j) }
            return run(c, j, ok);
        }
    }
    let mut j = i;
    let mut int_only = true;
    if dec(at(c, j)) { j = run(c, j, dec)?; }
    let int_end = j;
    if at(c, j) == '.' {
        int_only = false;
        j += 1;
        if at(c, j) == '_' { return Err(j) }
        if dec(at(c, j)) { j = run(c, j, dec)? }
    }
    let k = exponent(c, j)?;
    if k != j { int_only = false; j = k }
    if matches!(at(c, j), 'j' | 'J') { int_only = false; j += 1 }
    if int_only && c[i] == '0' && c[i..int_end].iter().any(|x| ('1'..='9').contains(x)) { return Err(int_end) }
    Ok(j)
}

/// end of the string whose opening quote stands at i
pub fn string_end(c: &[char], i: usize) -> Result<usize, usize> {
    let q = c[i];
    if at(c, i + 1) == q && at(c, i + 2) == q {
        let mut j = i + 3;
        loop {
            if j >= c.len() { return Err(j) }
            if c[j] == '\0' || (c[j] == '\\' && at(c, j + 1) == '\0') { return Err(j) }
            if c[j] == '\\' { j += 2; continue }
            if c[j] == q && at(c, j + 1) == q && at(c, j + 2) == q { return Ok(j + 3) }
            j += 1;
        }
    }
    let mut j = i + 1;
    loop {
        if j >= c.len() { return Err(j) }
        match c[j] {
            '\\' => {
                if at(c, j + 1) == '\0' { return Err(j + 1) }
                j += if c[j + 1] == '\r' && at(c, j + 2) == '\n' { 3 } else { 2 };
            }
            '\r' | '\n' | '\0' => return Err(j),
            x if x == q => return Ok(j + 1),
            _ => j += 1,
        }
    }
}

pub fn lex(src: &str) -> RefLex {
    let c: Vec<char> = src.chars().collect();
    let mut r = RefLex { toks: vec![], err: None, unknown: None, chars: vec![] };
    lex_chars(&c, &mut r);
    r.chars = c;
    r
}

fn lex_chars(c: &[char], r: &mut RefLex) {
    let n = c.len();
    let txt = |a: usize, b: usize| -> String { c[a..b].iter().collect() };
    let mut i = 0usize;
    let mut stack: Vec<usize> = vec![0];
    let mut br: Vec<char> = vec![];
    let mut tr: Vec<Tr> = vec![];
    let mut bol = true; // at the beginning of a physical line
    let mut open = false; // a logical line has begun
    let mut blank = false; // this physical line holds no token (so far)
    macro_rules! take { () => {{ if tr.is_empty() { None } else { let mut t = std::mem::take(&mut tr); t.reverse(); Some(t) } }} }
    macro_rules! push { ($k:expr, $s:expr, $e:expr, $t:expr, $p:expr, $nl:expr) => {{ let t = take!(); blank = false; r.toks.push(Tok { kind: $k, s: $s as u32, e: $e as u32, text: $t, prefix: $p, nl: $nl, tr: t }); }} }
    macro_rules! mark { ($k:expr) => {{ let t = take!(); r.toks.push(Tok { kind: $k, s: NOPOS, e: NOPOS, text: String::new(), prefix: None, nl: (' ', ' '), tr: t }); }} }
    loop {
        if bol {
            bol = false;
            if br.is_empty() { open = false }
            let (mut col, line0) = (0usize, i); // a tab goes to the next multiple of four columns
            while i < n && (c[i] == ' ' || c[i] == '\t') {
                if c[i] == ' ' { col += 1 } else { col = (col / 4 + 1) * 4 }
                i += 1;
            }
            blank = i >= n || matches!(c[i], '#' | '\r' | '\n' | '\0');
            if br.is_empty() {
                if at(c, i) == '\\' || at(c, i) == '\x0c' { r.unknown = Some(line0); return }
                if !blank {
                    let top = *stack.last().unwrap();
                    if col > top { stack.push(col); mark!("Indent"); }
                    else if col < top {
                        if !stack.contains(&col) { r.err = Some(i); return }
                        while *stack.last().unwrap() != col { stack.pop(); mark!("Dedent"); }
                    }
                }
            }
        }
        // between tokens
        if i < n && c[i] == ' ' {
            let s = i;
            while i < n && c[i] == ' ' { i += 1 }
            tr.push(Tr::Ws(s as u32, i as u32, ' '));
            continue;
        }
        if i < n && c[i] == '\t' { tr.push(Tr::Ws(i as u32, i as u32 + 1, '\t')); i += 1; continue }
        if i < n && c[i] == '#' {
            let s = i;
            while i < n && !matches!(c[i], '\r' | '\n' | '\0') { i += 1 }
            let t = txt(s, i);
            if t.starts_with("# type:") { push!("TypeComment", s, i, t, None, (' ', ' ')); open = true; }
            else { tr.push(Tr::Comment(s as u32, i as u32, t)); }
            continue;
        }
        if i >= n {
            if br.is_empty() {
                if open { push!("Newline", n, n, String::new(), None, (' ', ' ')); }
                while stack.len() > 1 { stack.pop(); mark!("Dedent"); }
            }
            push!("EOF", n, n, String::new(), None, (' ', ' '));
            return;
        }
        if c[i] == '\r' || c[i] == '\n' {
            let s = i;
            let nl = if c[i] == '\r' && at(c, i + 1) == '\n' { i += 2; ('\r', '\n') } else { i += 1; (c[i - 1], ' ') };
            bol = true;
            if blank || !br.is_empty() { tr.push(Tr::Nl(s as u32, i as u32, nl.0, nl.1)); }
            else { push!("Newline", s, i, String::new(), None, nl); }
            continue;
        }
        if c[i] == '\\' {
            let s = i;
            if at(c, i + 1) == '\r' && at(c, i + 2) == '\n' { i += 3; tr.push(Tr::Cont(s as u32, i as u32, '\\', '\r', '\n')); }
            else if i + 1 < n && (c[i + 1] == '\r' || c[i + 1] == '\n') { i += 2; tr.push(Tr::Cont(s as u32, i as u32, '\\', c[i - 1], ' ')); }
            else { r.err = Some(i); return }
            if c[i..].iter().all(|x| *x == ' ' || *x == '\t') { r.unknown = Some(s); return } // continuation at the end of the source
            continue;
        }
        open = true;
        let s = i;
        if c[i].is_alphabetic() || c[i] == '_' {
            while i < n && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 }
            let w = txt(s, i);
            if let Some(k) = keyword_kind(&w) { push!(k, s, i, String::new(), None, (' ', ' ')); continue }
            if matches!(at(c, i), '"' | '\'') && PREFIXES.contains(&w.as_str()) {
                match string_end(c, i) {
                    Ok(e) => { let t = txt(i, e); i = e; push!("AtomString", s, e, t, Some(w), (' ', ' ')); }
                    Err(p) => { r.err = Some(p); return }
                }
                continue;
            }
            push!("AtomName", s, i, w, None, (' ', ' '));
            continue;
        }
        if dec(c[i]) || (c[i] == '.' && dec(at(c, i + 1))) {
            match number(c, i) {
                Ok(e) => { i = e; push!("AtomNumber", s, e, txt(s, e), None, (' ', ' ')); }
                Err(p) => { r.err = Some(p); return }
            }
            continue;
        }
        if c[i] == '"' || c[i] == '\'' {
            match string_end(c, i) {
                Ok(e) => { i = e; push!("AtomString", s, e, txt(s, e), None, (' ', ' ')); }
                Err(p) => { r.err = Some(p); return }
            }
            continue;
        }
        let mut found = None;
        for (t, k) in OPERATORS.iter() {
            if t.chars().enumerate().all(|(d, x)| at(c, i + d) == x) { found = Some((t.len(), *k)); break }
        }
        match found {
            None => { if c[i] == '\x0c' { r.unknown = Some(i) } else { r.err = Some(i) } return }
            Some((l, k)) => {
                match c[i] {
                    '(' => br.push(')'), '[' => br.push(']'), '{' => br.push('}'),
                    ')' | ']' | '}' => if br.last() == Some(&c[i]) { br.pop(); } else { r.err = Some(i); return },
                    _ => {}
                }
                i += l;
                push!(k, s, i, String::new(), None, (' ', ' '));
            }
        }
    }
}
