//! Small-scope enumeration: every sequence of up to n pieces of a vocabulary, in a frame.
use crate::engine::Case;
use crate::layout::{self, It};
use crate::src::Src;
use crate::types::Entry;

/// (properties, entry, before, pieces, between, after)
pub struct T { ids: &'static str, e: Entry, a: &'static str, v: &'static [&'static str], sep: &'static str, z: &'static str }
const F: Entry = Entry::File;
const E: Entry = Entry::Eval;
const S: Entry = Entry::Single;
const FT: Entry = Entry::FuncType;
const fn t(ids: &'static str, e: Entry, a: &'static str, v: &'static [&'static str], sep: &'static str, z: &'static str) -> T { T { ids, e, a, v, sep, z } }

pub const TABLE: &[T] = &[
    // expressions
    t("C11", E, "", &["a", "+", "-", "**", "not", "in", "is", "and", "await", "<"], " ", ""),
    t("C11", E, "", &["a", "|", "^", "&", "<<", "//", "~", "==", "or", "@"], " ", ""),
    t("C11", E, "a", &["b", "<>", ">=", "<=", "!=", ">", ">>", "*", "/", "%", "(", ")"], " ", "c"),
    t("C12", E, "(", &["a", ",", "*", ":=", "(", ")", "'s'", "yield"], " ", ")"),
    t("C12", E, "[", &["a", ",", "*", ":=", "[", "]", "...", "None"], " ", "]"),
    t("C12", E, "", &["a", ",", "*", "1", "(", "]", "True", "'s'", ")"], " ", ""),
    t("C13", E, "(", &["a", "if", "else", "lambda", ":", ",", ":=", "*", "yield", "from"], " ", ")"),
    t("C13", E, "", &["a", "if", "else", "lambda", ":", "or", "not", ","], " ", ""),
    t("C13", F, "", &["a", "yield", "from", "=", ",", "(", ")", "if", "else"], " ", "\n"),
    t("C27", E, "lambda", &["a", ",", "*", "**", "/", "=", ":"], " ", "b"),
    t("C27", E, "lambda", &["a", "a=b", ",", "*", "*c", "**d", "/", ","], " ", ":e"),
    t("C29", E, "{", &["a", ",", ":", "**", "*", ":=", "{", "}"], " ", "}"),
    t("C29", E, "{", &["a", "b:c", ",", "**d", "*e", "for f in g", "if h"], " ", "}"),
    t("C30", E, "f(", &["a", ",", "*", "**", "=", ":=", "for b in c", ")", "("], " ", ")"),
    t("C30", E, "f(", &["a", "b=c", ",", "*d", "**e", "f:=g"], " ", ")"),
    t("C30", E, "a[", &["b", ",", ":", "...", "[", "]"], " ", "]"),
    t("C30", E, "a", &[".b", "(c)", "[d]", "()", ".", "[e:f]", "await", "**g", "1"], "", ""),
    t("C31", E, "[", &["a", ",", "for b in", "async for b in", "if", "else", "or", ":", "*", ":=", "lambda:"], " ", "]"),
    t("C31", E, "(", &["a", ",", "for b in", "for", "in", "if", "not", "lambda:"], " ", ")"),
    t("C31", E, "{", &["a", ",", "for b in", "async for b, in", ":", "if", "*", "**", "yield"], " ", "}"),
    t("C31", E, "f(", &["a", ",", "for b in c", "if", "b=", "*", "async"], " ", ")"),
    // statements
    t("C14", F, "", &["a", ";", "pass", "del", ",", "return", "raise", "from", "assert", "break"], " ", "\n"),
    t("C14", F, "", &["a", ",", "global", "nonlocal", ";", "continue", "*", "(", ")"], " ", "\n"),
    t("C26", F, "", &["a", ",", "*", "=", ":", "+=", "yield", "(", ")", ";"], " ", "\n"),
    t("C26", F, "a,", &["b", ",", "=", "-=", ":", "/=", "//=", "%=", "@="], " ", "\n"),
    t("C26", F, "a,", &["b", ",", "**=", "*=", "<<=", ">>=", "&=", "|=", "^=", ":="], " ", "\n"),
    t("C24", F, "from", &[".", "...", "a", "import", "*", "(", ")", ",", "as"], " ", "\n"),
    t("C24", F, "import", &["a", ".", ",", "as", ";", "b", "("], " ", "\n"),
    t("C22", F, "try: a\n", &["except: b\n", "except c: b\n", "except c as d: b\n", "except* c: b\n", "else: e\n", "finally: f\n", "g\n"], "", ""),
    t("C22", F, "try: a\nexcept", &["a", "as", "*", ",", ":", "b\n", "(", ")"], " ", ""),
    t("C15", F, "", &["if a: b\n", "elif a: b\n", "else: b\n", "while a: b\n", "for a in b: c\n", "with a: b\n", "a\n"], "", ""),
    t("C15", F, "if", &["a", ":", ":=", "b", "\n", ";", "else", "elif"], " ", "\n"),
    t("C15", F, "while", &["a", ":", ":=", "b", "\n", "else", ","], " ", "\n"),
    t("C15", F, "for", &["a", ",", "*", "in", ":", "(", ")", "not"], " ", "\n"),
    t("C15", F, "with", &["a", ",", "as", "b", ":", "*", "."], " ", "\n"),
    t("C23", F, "", &["@a\n", "@a.b()\n", "def f(): ", "class a: ", "class b(c): ", "async ", "d\n", "\n", "with e: "], "", ""),
    t("C23", F, "class a", &["(", ")", ",", "b", "=", "*", "**", ":"], " ", "c\n"),
    t("C23", F, "def f", &["(", ")", "->", "a", ":", ",", "# type: b\n"], " ", "c\n"),
    t("C23", F, "@", &["a", ".", "(", ")", ",", "\n", "@"], " ", "\ndef f(): b\n"),
    t("C32", FT, "", &["a", ",", "*", "**", "(", ")", "->", "[", "]"], " ", ""),
    t("C32", FT, "(", &["a", ",", "*b", "**c", ") -> d", "(", "\n"], " ", ""),
    t("C33", F, "", &["if a:\n", " if a:\n", "  if a:\n", "b\n", " b\n", "  b\n", "   b\n", "else:\n", " else:\n", "\n"], "", ""),
    t("C33", F, "if a:", &["\n", " b", "\n ", "\n  ", ";", "c", "# d", "\n if e:"], "", "\n"),
    t("C16", F, "", &["a", ";", "\n", " ", "if b:", "# c\n", "pass", "\r\n"], "", ""),
    t("C16", S, "", &["a", ";", "\n", " ", "if b:", "# c\n", "pass", "@d\n", "else:"], "", ""),
    t("C16", E, "", &["a", ",", "\n", " ", "# c\n", "=", "(", ")", "*"], "", ""),
    t("C16", FT, "", &["()", "->", "a", "\n", " ", "# c\n", "(", "b"], "", ""),
    t("C28", F, "", &["a = b", " # type: int", "\n", "\n ", "for c in d:", "def f():", " pass", "# e", "else:"], "", "\n"),
    t("C28", F, "", &["def f():\n", " # type: () -> a\n", " # type: b\n", " # c\n", " d\n", "for e in f: # type: g\n", "h = 1 # type: i\n", "\n"], "", ""),
    // characters
    t("C03 C33 C08", F, "", &[" ", "\t", "a", "\n", "#", "(", ")", "\\\n", "\r"], "", ""),
    t("C03", F, "a:\n  ", &["  b\n", " b\n", "\n", "\t", " ", "#c\n", "d", ")", "("], "", ""),
    t("C02 C08", F, "", &[" ", "\t", "a", "\n", "\r", "#", "\\", "(", "'"], "", ""),
    t("C04", F, "", &["(", ")", "[", "]", "{", "}", "\n", "a", "'", "#"], "", ""),
    t("C06", F, "", &["0", "1", "_", "x", "o", "b", "e", "j", ".", "+", "f"], "", ""),
    t("C06", F, "", &["0", "9", "E", "J", "X", "B", "O", "-", "8", "a"], "", ""),
    t("C07", F, "", &["'", "\"", "\\", "a", "\n", "r", "b", "f"], "", ""),
    t("C07", F, "", &["'", "\"", "R", "U", "B", "F", "\r", " "], "", ""),
    t("C01", F, "", &["<", ">", "=", "*", "/", "-", ".", "!", ":", "a", "1", "|"], "", ""),
    t("C01", F, "", &["a", "i", "n", "s", "o", "t", "r", "f", " ", "d"], "", ""),
];


/// Expression holes: a text is put for the `§`.
const HOLES: &[(&str, &str)] = &[
    ("", "§"),
    ("C30", "f(§)"), ("C30", "f(x, §)"), ("C30", "f(§, x)"), ("C30", "f(x=§)"), ("C30", "f(*§)"), ("C30", "f(**§)"), ("C30", "x[§]"), ("C30", "x[§:y]"), ("C30", "x[y:§]"), ("C30", "x[y:z:§]"), ("C30", "x[y, §]"), ("C30", "x[:§, y]"), ("C30", "§(x)"), ("C30", "§[x]"), ("C30", "§.x"), ("C30", "f(x)(§)"),
    ("C12", "[§]"), ("C12", "[x, §]"), ("C12", "[§, x]"), ("C12", "[*§]"), ("C12", "(§)"), ("C12", "(§,)"), ("C12", "(x, §)"), ("C12", "§, x"), ("C12", "x, §"), ("C12", "§,"), ("C12", "'s' §"),
    ("C29", "{§}"), ("C29", "{x, §}"), ("C29", "{§, x}"), ("C29", "{x: §}"), ("C29", "{§: x}"), ("C29", "{x: y, §: z}"), ("C29", "{x: y, z: §}"), ("C29", "{**§}"), ("C29", "{x: y, **§}"), ("C29", "{*§}"), ("C29", "{x, *§}"),
    ("C31", "[x for § in y]"), ("C31", "[x for y in §]"), ("C31", "(x for y in z if §)"), ("C31", "[§ for x in y]"), ("C31", "{§: x for y in z}"), ("C31", "{x: § for y in z}"), ("C31", "{§ for x in y}"), ("C31", "(§ for x in y)"), ("C31", "f(§ for x in y)"), ("C31", "[x for y in z for w in §]"), ("C31", "[x for y in z if w if §]"), ("C31", "[x async for y in § if w]"),
    ("C11", "not §"), ("C11", "-§"), ("C11", "~§"), ("C11", "await §"), ("C11", "x + §"), ("C11", "§ + x"), ("C11", "x * §"), ("C11", "§ * x"), ("C11", "x ** §"), ("C11", "§ ** x"), ("C11", "x < §"), ("C11", "§ is not x"), ("C11", "x not in §"), ("C11", "x and §"), ("C11", "§ or x"), ("C11", "x | §"), ("C11", "§ & x"), ("C11", "x ^ §"), ("C11", "§ << x"),
    ("C13", "x if § else y"), ("C13", "§ if x else y"), ("C13", "x if y else §"), ("C13", "(x := §)"), ("C13", "(yield §)"), ("C13", "(yield from §)"), ("C13", "*§"), ("C13", "lambda: §"), ("C27", "lambda x=§: y"), ("C27", "lambda x, *y, z=§, **w: v"), ("C27", "lambda *§: x"), ("C27", "lambda §: x"), ("C27", "lambda x, §: y"), ("C13", "lambda x: §"),
];
/// Statement holes.
const STATEMENTS: &[(&str, Entry, &str)] = &[
    ("C16", E, "§"), ("C16", S, "§\n"), ("C16", F, "§"), ("C16", FT, "(§) -> x"), ("C32", FT, "(x, §) -> y"), ("C32", FT, "() -> §"), ("C32", FT, "(*§) -> x"), ("C32", FT, "(**§) -> x"), ("C32", FT, "(x, *y, **§) -> z"), ("C32", FT, "(*§, **x) -> y\n"),
    ("C14", F, "§; x\n"), ("C14", F, "x; §\n"), ("C14", F, "§;\n"), ("C14", F, "del §\n"), ("C14", F, "return §\n"), ("C14", F, "raise §\n"), ("C14", F, "raise x from §\n"), ("C14", F, "raise § from x\n"), ("C14", F, "assert §\n"), ("C14", F, "assert x, §\n"), ("C14", F, "assert §, x\n"), ("C13", F, "yield §\n"), ("C13", F, "yield from §\n"), ("C14", F, "global §\n"), ("C24", F, "import §\n"), ("C24", F, "from § import x\n"), ("C24", F, "from x import §\n"), ("C24", F, "from .x import (§)\n"),
    ("C26", F, "§ = x\n"), ("C26", F, "x = §\n"), ("C26", F, "x = § = y\n"), ("C26", F, "§ += x\n"), ("C26", F, "x //= §\n"), ("C26", F, "x: §\n"), ("C26", F, "x: § = y\n"), ("C26", F, "x: y = §\n"), ("C26", F, "§: y\n"), ("C26", F, "x = yield §\n"), ("C26", F, "x, § = y\n"),
    ("C28", F, "x = § # type: int\n"), ("C28", F, "§ # e\n"), ("C28", F, "§ = y # type: int\n"), ("C28", F, "for x in §: # type: int\n y\n"), ("C28", F, "def f() -> §: # type: () -> x\n y\n"),
    ("C15", F, "if §: p\n"), ("C15", F, "if x: p\nelif §: q\nelse: r\n"), ("C15", F, "while §: p\n"), ("C15", F, "for § in x: p\n"), ("C15", F, "for x in §: p\n"), ("C15", F, "for x, § in y: p\nelse: q\n"), ("C15", F, "with §: p\n"), ("C15", F, "with § as x: p\n"), ("C15", F, "with x as §: p\n"), ("C15", F, "with x, §: p\n"), ("C15", F, "with x as y, § as z: p\n"), ("C23", F, "async for § in x: p\n"), ("C23", F, "async with §: p\n"),
    ("C22", F, "try: p\nexcept §: q\n"), ("C22", F, "try: p\nexcept § as x: q\n"), ("C22", F, "try: p\nexcept* §: q\nexcept* §: r\n"), ("C22", F, "try: §\nexcept: §\nelse: §\nfinally: §\n"),
    ("C23", F, "class A(§): p\n"), ("C23", F, "class A(x, §): p\n"), ("C23", F, "@x(§)\ndef f(): p\n"), ("C23", F, "@x.y(z, §)\nclass A: p\n"), ("C23", F, "def f() -> §: p\n"), ("C23", F, "async def f() -> §:\n p\n"), ("C23", F, "@§\ndef f(): p\n"),
    ("C33", F, "if x: §\n"), ("C33", F, "if x:\n §\n y\n"), ("C33", F, "while x:\n if y:\n  §\n z\n"), ("C33", F, "def f():\n §\n"), ("C33", F, "if x:\n §\nelse:\n §\n"),
];
const TEXTS: &[(&str, &str)] = &[
    ("", "a"), ("", "a b"), ("", ""), ("", "pass"), ("", "a)"), ("", "a = b"), ("", "a: b"), ("", "a; b"), ("", "a as b"), ("", "a.b"), ("", "return"), ("", "if"),
    ("C12", "1"), ("C12", "'s' 't'"), ("C12", "None"), ("C12", "..."), ("C12", "()"), ("C12", "(a)"), ("C12", "(a, b)"), ("C12", "[]"), ("C12", "[a,]"), ("C12", "a,"), ("C12", "a, b"), ("C12", "a, b,"), ("C12", "a, *b"),
    ("C29", "{}"), ("C29", "{a}"), ("C29", "{a: b}"), ("C29", "{**a}"), ("C30", "a[b]"), ("C30", "a[b:c]"), ("C30", "a[:]"), ("C30", "a()"), ("C30", "a(b, *c, d=e)"), ("C30", "b:c"), ("C30", ":"), ("C30", "b=c"), ("C30", "**c"),
    ("C31", "a for b in c"), ("C31", "[a for b in c if d]"), ("C31", "a async for b, in c"), ("C31", "a for b in c, d"),
    ("C11", "-a"), ("C11", "not a"), ("C11", "a + b"), ("C11", "a ** b"), ("C11", "a < b"), ("C11", "a in b"), ("C11", "a not in b"), ("C11", "a and b"), ("C11", "a or b"), ("C11", "await a"), ("C11", "a | b"),
    ("C13", "a if b else c"), ("C13", "lambda: a"), ("C13", "a := b"), ("C13", "*a"), ("C13", "*a, b"), ("C13", "yield a"), ("C13", "yield from a"), ("C13", "(yield a)"), ("C27", "lambda a, b=c, *d: e"), ("C27", "a, /"), ("C27", "a=b, *, c"),
];

fn thorough() -> bool { std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false) }
/// How long sequences of a table row may be for a property, or None.
fn reach(x: &T, id: &str) -> Option<u32> {
    let mine = x.ids.split(' ').any(|y| y == id);
    let tree = !matches!(x.ids, "C01" | "C02 C08" | "C03 C33 C08" | "C03" | "C04" | "C06" | "C07");
    // as long as the number of sequences allows
    let most: u64 = match id {
        _ if mine => if tree { 1_300_000 } else { 2_500_000 },
        // these are about every input, or every input of a kind
        "C10" => 120_000,
        "C20" | "C17" | "C18" if tree => 120_000,
        "C02" | "C08" if !tree => 120_000,
        "C19" if tree => 12_000,
        "C34" if tree && (x.e == E || x.e == F) => if x.e == E { 25_000 } else { 50_000 },
        "C05" if tree && x.e == F && x.v.iter().any(|y| y.contains('\n')) && !x.v.iter().any(|y| y.contains('\r')) => 40_000,
        _ => return None,
    };
    let most = most * if thorough() { 20 } else { 1 };
    let b = x.v.len() as u64;
    let mut n = 1;
    while b.pow(n + 1) <= most { n += 1 }
    Some(n)
}
pub struct Plan { layouts: bool, ends: bool, rows: Vec<(usize, u64)>, combos: Vec<(u16, u16, u16)>, edits: crate::edits::Edits, chars: Vec<crate::chars::Family>, gaps: crate::gaps::Gaps, many: crate::many::Many, pairs: crate::pairs::Pairs }
pub fn plan(id: &str) -> Plan {
    let rows = TABLE.iter().enumerate().filter_map(|(i, x)| reach(x, id).map(|n| (i, (0..=n).map(|k| (x.v.len() as u64).pow(k)).sum()))).collect();
    let mut combos = vec![];
    let every = matches!(id, "C10" | "C17" | "C18" | "C19" | "C20");
    for (i, s) in STATEMENTS.iter().enumerate() { for (j, h) in HOLES.iter().enumerate() { for (k, t) in TEXTS.iter().enumerate() {
        if every || s.0 == id || h.0 == id || t.0 == id { combos.push((i as u16, j as u16, k as u16)) }
    } } }
    let all = every || matches!(id, "C02" | "C03" | "C05" | "C08" | "C34");
    let own = !matches!(id, "C09" | "C21" | "C25");
    let edits = if own { crate::edits::plan(id, all, 150_000 * if thorough() { 40 } else { 1 }) } else { crate::edits::plan("-", false, 0) };
    let gaps = crate::gaps::plan(if own && id != "C05" { id } else { "-" }, own && all && id != "C05");
    let many = crate::many::plan(if own { id } else { "-" }, own && all);
    Plan { pairs: crate::pairs::plan(id), many, gaps, layouts: id == "C19", ends: id == "C05", rows, combos, edits, chars: crate::chars::families(id) }
}
impl Plan {
    /// What was enumerated, for the evidence.
    pub fn describe(&self) -> Vec<String> {
        let mut v: Vec<String> = self.rows.iter().map(|(row, n)| {
            let x = &TABLE[*row];
            let b = x.v.len() as u64;
            let (mut k, mut sum) = (0, 0);
            while sum < *n { sum += b.pow(k); k += 1 }
            format!("every sequence of up to {} of {:?} between {:?} and {:?}: {}", k - 1, x.v, x.a, x.z, n)
        }).collect();
        if !self.combos.is_empty() { v.push(format!("an expression or fragment in an expression context in a statement context: {}", self.combos.len())) }
        v.extend(self.edits.describe());
        v.extend(self.gaps.describe());
        v.extend(self.many.describe());
        v.extend(self.pairs.describe());
        v.extend(self.chars.iter().map(|x| format!("{}: {}", x.what, x.n)));
        v
    }
    pub fn count(&self) -> u64 { self.gaps.count() + self.many.count() + self.pairs.count() + self.rows.iter().map(|r| r.1).sum::<u64>() + self.combos.len() as u64 + self.edits.count() + self.chars.iter().map(|x| x.n).sum::<u64>() }
    pub fn at(&self, i: u64) -> Option<Case> {
        if i < self.gaps.count() { return self.gaps.at(i) }
        let c = self.text(i - self.gaps.count())?;
        if self.layouts { return Some(relayout(c, &mut Src::random(i))) }
        if self.ends { return Some(other_ends(c, &mut Src::random(i))) }
        Some(c)
    }
    fn text(&self, mut i: u64) -> Option<Case> {
        if let Some((s, h, t)) = self.combos.get(i as usize) {
            let (s, h, t) = (&STATEMENTS[*s as usize], &HOLES[*h as usize], &TEXTS[*t as usize]);
            return Some(Case::entry(s.2.replace('§', &h.1.replace('§', t.1)), s.1));
        }
        i -= self.combos.len() as u64;
        for (row, n) in &self.rows {
            if i >= *n { i -= n; continue }
            let x = &TABLE[*row];
            let b = x.v.len() as u64;
            let mut k = 0;
            while i >= b.pow(k) { i -= b.pow(k); k += 1 }
            let mut w = vec![];
            for _ in 0..k { w.push(x.v[(i % b) as usize]); i /= b }
            let mid = w.join(x.sep);
            let t = if mid.is_empty() { format!("{}{}", x.a, x.z) } else { [x.a, &mid, x.z].iter().filter(|y| !y.is_empty()).copied().collect::<Vec<_>>().join(x.sep) };
            return Some(Case::entry(t, x.e));
        }
        if i < self.many.count() { return self.many.at(i) }
        i -= self.many.count();
        if i < self.pairs.count() { return self.pairs.at(i) }
        i -= self.pairs.count();
        if i < self.edits.count() { return self.edits.at(i) }
        crate::chars::at(&self.chars, i - self.edits.count()).map(|t| Case::entry(t, F))
    }
}

/// The text and the same tokens in another layout.
fn relayout(c: Case, s: &mut Src) -> Case {
    let l = crate::reflex::lex(&c.texts[0]);
    let mut items = vec![];
    for t in &l.toks {
        match t.kind {
            "Indent" => items.push(It::In),
            "Dedent" => items.push(It::De),
            "Newline" => items.push(It::Nl),
            "EOF" => {}
            _ => items.push(It::Lex(l.chars[t.s as usize..t.e as usize].iter().collect())),
        }
    }
    let st = layout::wild(s);
    let b = if l.err.is_some() { c.texts[0].clone() } else { layout::render(&items, &st, s) };
    Case { texts: vec![c.texts[0].clone(), b], args: c.args }
}
/// The text and the same with other line ends.
fn other_ends(c: Case, s: &mut Src) -> Case {
    // line ends inside strings belong to the string
    if c.texts[0].contains("'''") || c.texts[0].contains("\"\"\"") { return Case { texts: vec![c.texts[0].clone(), c.texts[0].clone()], args: vec![] } }
    let k = s.below(4);
    let b: String = c.texts[0].chars().map(|x| if x != '\n' { x.to_string() } else { match if k < 3 { k } else { s.below(3) } { 0 => "\r\n", 1 => "\r", _ => if k == 2 { "\r\n" } else { "\n" } }.to_string() }).collect();
    // a carriage return and a line feed that stood for two line ends must not come together
    let b = if b.contains("\r\n") && k == 3 { c.texts[0].replace('\n', "\r") } else { b };
    Case { texts: vec![c.texts[0].clone(), b], args: vec![] }
}
