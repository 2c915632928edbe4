//! From a sequence of lexemes and structure marks to source text, in many layouts.
use crate::reflex;
use crate::src::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum It {
    Lex(String),
    /// end of a logical line
    Nl,
    In,
    De,
}
pub fn lex(s: &str) -> It { It::Lex(s.to_string()) }

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// 0 none where possible, 1 one space where usual, 2 any
    pub space: u8,
    pub comments: u32,
    pub blank: u32,
    pub cont: u32,
    pub brk: u32,
    /// 0 LF, 1 CRLF, 2 CR, 3 mixed, 4 placeholder
    pub nl: u8,
    /// 0: four spaces; 1: any number of spaces per block; 2: tabs; 3: any width, spaces and tabs mixed
    pub indent: u8,
    /// chance in percent that the last line end is left out
    pub no_final: u32,
}
pub const PLAIN: Style = Style { space: 1, comments: 0, blank: 0, cont: 0, brk: 0, nl: 0, indent: 0, no_final: 0 };
pub const NLMARK: char = '\u{E000}';

pub fn style(s: &mut Src) -> Style {
    match s.weighted(&[40, 15, 10, 35]) {
        0 => PLAIN,
        1 => Style { space: 0, no_final: 20, ..PLAIN },
        2 => Style { no_final: 30, indent: s.below(3) as u8, ..PLAIN },
        _ => wild(s),
    }
}
pub fn wild(s: &mut Src) -> Style {
    let p = [0u32, 4, 12, 30];
    Style { space: s.below(3) as u8, comments: *s.pick(&p), blank: *s.pick(&p), cont: *s.pick(&[0, 0, 3, 15]), brk: *s.pick(&p), nl: s.below(4) as u8, indent: s.below(4) as u8, no_final: 25 }
}

/// may b follow a without anything in between?
pub fn may_touch(a: &str, b: &str) -> bool {
    let (x, y) = (a.chars().last().unwrap_or(' '), b.chars().next().unwrap_or(' '));
    if a.starts_with("# type:") { return false }
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let num = |t: &str| t.starts_with(|c: char| c.is_ascii_digit()) || (t.starts_with('.') && t.len() > 1 && t.as_bytes()[1].is_ascii_digit());
    if num(a) && (word(y) || y == '.') { return false }
    if word(x) && word(y) { return false }
    if x == '.' && (y == '.' || y.is_ascii_digit()) { return false }
    let op = |c: char| "*/<>=+-%@:&|^!~.".contains(c);
    if op(x) && op(y) {
        let l = reflex::lex(&format!("{}{}", a, b));
        return l.toks.len() >= 2 && l.toks[0].e as usize == a.chars().count() && l.toks[1].e as usize == a.chars().count() + b.chars().count();
    }
    if y == '"' || y == '\'' {
        if x.is_alphanumeric() || x == '_' { return false }
        if x == y { return false }
    }
    true
}

const COMMENTS: [&str; 16] = ["# note", "#", "#x=1", "# type :int", "#type: int", "# Type: int", "#  type: x", "# 'quote", "# (((", "# ]})", "# \\", "# äöü €", "## # type:", "#!shebang", "# tab\there", "#: if x:"];
fn comment(s: &mut Src) -> &'static str { COMMENTS[s.below(16) as usize] }
fn nl(s: &mut Src, st: &Style, o: &mut String) {
    match st.nl {
        0 => o.push('\n'),
        1 => o.push_str("\r\n"),
        2 => { o.push('\r') }
        4 => o.push(NLMARK),
        _ => match s.below(3) { 0 => o.push('\n'), 1 => o.push_str("\r\n"), _ => {
            o.push('\r');
        } },
    }
}
fn blanks(s: &mut Src, o: &mut String, max: u32) {
    for _ in 0..s.below(max + 1) { match s.below(4) { 0 | 1 => o.push(' '), 2 => o.push_str("  "), _ => o.push('\t') } }
}

/// line ends: a lone CR directly followed by a LF would read as one line end
fn fix_crlf(o: &mut String, from: usize) {
    // a CR at `from - 1` that is to stay alone must not be followed by LF at `from`
    let b = o.as_bytes();
    if from > 0 && from < b.len() && b[from - 1] == b'\r' && b[from] == b'\n' { o.insert(from, ' ') }
}

/// Blanks and tabs that reach a column: a tab goes to the next multiple of four.
pub fn mix(s: &mut Src, col: u32) -> String {
    let mut o = String::new();
    let mut at = 0;
    while at < col {
        let stop = (at / 4 + 1) * 4;
        if stop <= col && s.pct(50) { o.push('\t'); at = stop } else { o.push(' '); at += 1 }
    }
    o
}
pub fn render(items: &[It], st: &Style, s: &mut Src) -> String {
    let mut o = String::new();
    let mut stack: Vec<String> = vec![String::new()];
    let mut depth = 0i32;
    let mut bol = true;
    let mut prev: Option<String> = None;
    let last_nl = items.iter().rposition(|x| !matches!(x, It::De)).filter(|i| items[*i] == It::Nl);
    let mut trailing_end = true;
    for (i, it) in items.iter().enumerate() {
        match it {
            It::In => {
                let cur = stack.last().unwrap().clone();
                let add = match st.indent { 0 => "    ".to_string(), 1 | 3 => " ".repeat(s.range(1, 9) as usize), _ => "\t".repeat(s.range(1, 2) as usize) };
                stack.push(format!("{}{}", cur, add));
            }
            It::De => { if stack.len() > 1 { stack.pop(); } }
            It::Nl => {
                let tc = prev.as_deref().map(|p| p.starts_with("# type:")).unwrap_or(false);
                if !tc && !bol {
                    if st.space == 2 && s.pct(20) { blanks(s, &mut o, 3) }
                    if s.pct(st.comments) { if !o.ends_with([' ', '\t']) && s.pct(70) { o.push_str("  ") } o.push_str(comment(s)) }
                }
                if Some(i) == last_nl && s.pct(st.no_final) { trailing_end = false; bol = true; prev = None; continue }
                let at = o.len();
                nl(s, st, &mut o);
                fix_crlf(&mut o, at);
                bol = true;
                prev = None;
            }
            It::Lex(t) => {
                if bol {
                    if st.blank > 0 || st.comments > 0 {
                        let mut guard = 0;
                        while s.pct((st.blank + st.comments) / 2) && guard < 6 {
                            guard += 1;
                            if s.pct(40) { blanks(s, &mut o, 4) }
                            if s.pct(st.comments * 3) { o.push_str(comment(s)) }
                            let at = o.len();
                            nl(s, st, &mut o);
                            fix_crlf(&mut o, at);
                        }
                    }
                    if st.indent == 3 { let w = mix(s, stack.last().unwrap().len() as u32); o.push_str(&w) } else { o.push_str(stack.last().unwrap()) }
                    bol = false;
                } else if let Some(p) = &prev {
                    let touch = may_touch(p, t);
                    let start = o.len();
                    match st.space {
                        0 => if !touch { o.push(' ') },
                        1 => {
                            let tight = touch && (matches!(p.as_str(), "(" | "[" | "{" | "." | "@" | "~") || matches!(t.as_str(), ")" | "]" | "}" | "," | ":" | "." | ";" | "(" | "["));
                            if !tight { o.push(' ') }
                        }
                        _ => { blanks(s, &mut o, 3); if o.len() == start && !touch { o.push(' ') } }
                    }
                    if st.cont > 0 && s.pct(st.cont) {
                        o.push('\\');
                        nl(s, st, &mut o);
                        if s.pct(50) { blanks(s, &mut o, 3) }
                    }
                    if depth > 0 && st.brk > 0 {
                        let mut guard = 0;
                        while s.pct(st.brk) && guard < 5 {
                            guard += 1;
                            if s.pct(st.comments * 2) { o.push_str(" "); o.push_str(comment(s)) }
                            let at = o.len();
                            nl(s, st, &mut o);
                            fix_crlf(&mut o, at);
                            if s.pct(60) { blanks(s, &mut o, 4) }
                        }
                    }
                }
                o.push_str(t);
                match t.as_str() { "(" | "[" | "{" => depth += 1, ")" | "]" | "}" => depth -= 1, _ => {} }
                prev = Some(t.clone());
            }
        }
    }
    if trailing_end && (st.blank > 0 || st.comments > 0) {
        let mut guard = 0;
        while s.pct((st.blank + st.comments) / 2) && guard < 4 {
            guard += 1;
            if s.pct(40) { blanks(s, &mut o, 4) }
            if s.pct(st.comments * 3) { o.push_str(comment(s)) }
            let at = o.len();
            nl(s, st, &mut o);
            fix_crlf(&mut o, at);
        }
        if s.pct(15) { blanks(s, &mut o, 4) }
        if s.pct(st.comments) { o.push_str(comment(s)) }
    }
    o
}

/// Lexeme texts of a token list, for checking that a layout kept them.
pub fn same_tokens(items: &[It], text: &str) -> bool {
    let l = reflex::lex(text);
    if l.err.is_some() || l.unknown.is_some() { return false }
    let mut want = items.iter().filter_map(|x| match x { It::Lex(t) => Some(t.as_str()), _ => None });
    for t in &l.toks {
        if t.structural() || t.is("Newline") || t.is("EOF") { continue }
        let shown: String = l.chars[t.s as usize..t.e as usize].iter().collect();
        match want.next() { Some(w) if w == shown => {} _ => return false }
    }
    want.next().is_none()
}
