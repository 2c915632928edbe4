//! Inputs of graded size: one construct repeated or nested n times, for many n around the sizes at which limits,
//! counters and narrow integers give out.
use crate::engine::Case;
use crate::types::Entry;

/// (properties, entry, before, repeated before the middle, middle, repeated after the middle, after, largest n)
type T = (&'static str, Entry, &'static str, &'static str, &'static str, &'static str, &'static str, usize);
const F: Entry = Entry::File;
const E: Entry = Entry::Eval;
const FT: Entry = Entry::FuncType;

const FORMS: &[T] = &[
    // repeated side by side
    ("C30", E, "f(", "a,", "a", "", ")", 1100), ("C30", E, "f(", "a=b,", "**c", "", ")", 300), ("C30", E, "a", ".b", "", "", "", 1100), ("C30", E, "a", "[b]", "", "", "", 600), ("C30", E, "a", "(b)", "", "", "", 600),
    ("C30", E, "a[", "b:c,", "d", "", "]", 600), ("C30", E, "a", "(b)[c].d", "", "", "", 300),
    ("C12", E, "[", "a,", "", "", "]", 1100), ("C12", E, "(", "a,", "", "", ")", 1100), ("C12", E, "(", "*a,", "b", "", ")", 300), ("C12 C07", E, "", "'a' ", "", "", "", 600), ("C12", E, "[", "a:=b,", "c", "", "]", 300),
    ("C29", E, "{", "a:b,", "c:d", "", "}", 600), ("C29", E, "{", "a,", "b", "", "}", 1100), ("C29", E, "{", "**a,", "b:c", "", "}", 300), ("C29", E, "{", "*a,", "b", "", "}", 300),
    ("C11", E, "a", "+b", "", "", "", 300), ("C11", E, "a", "-b*c", "", "", "", 300), ("C11", E, "a", "//b", "", "", "", 300), ("C11", E, "a", "<<b", "", "", "", 300), ("C11", E, "a", "|b", "", "", "", 300), ("C11", E, "a", "^b", "", "", "", 300), ("C11", E, "a", "&b", "", "", "", 300),
    ("C11", E, "a", "<b", "", "", "", 300), ("C11", E, "a", " is not b", "", "", "", 300), ("C11", E, "a", " not in b", "", "", "", 300), ("C11", E, "a", " or b", "", "", "", 300), ("C11", E, "a", " and b", "", "", "", 300),
    ("C11", E, "", "not ", "a", "", "", 300), ("C11", E, "", "-", "a", "", "", 300), ("C11", E, "", "~", "a", "", "", 300), ("C11", E, "", "+", "a", "", "", 300), ("C11", E, "a", "**b", "", "", "", 300), ("C11", E, "a", "**-b", "", "", "", 200), ("C11", E, "", "a<b and ", "c", "", "", 300),
    ("C13", E, "", "a if b else ", "c", "", "", 260), ("C13", E, "", "lambda:", "a", "", "", 260), ("C13", E, "", "lambda a:", "a", "", "", 200), ("C13", E, "", "a if ", "b", " else c", "", 1),
    ("C27", E, "lambda ", "a,", "b", "", ":c", 300), ("C27", E, "lambda ", "a=b,", "*c", "", ":d", 300), ("C27", E, "lambda *a,", "b,", "**c", "", ":d", 300), ("C27", E, "lambda a,/,", "b=c,", "d=e", "", ":f", 300), ("C27", E, "lambda a,", "b,", "/", "", ":f", 300),
    ("C24", F, "import a", ".a", "\n", "", "", 600), ("C24", F, "import ", "a,", "a\n", "", "", 600), ("C24", F, "import ", "a as b,", "a\n", "", "", 300), ("C24", F, "import ", "a.b.c as d,", "a\n", "", "", 300), ("C24", F, "from ", ".", " import a\n", "", "", 600), ("C24", F, "from ", ".", "a import a\n", "", "", 600), ("C24", F, "from ", ". ", "a import a\n", "", "", 300),
    ("C24", F, "from a import ", "b,", "c\n", "", "", 600), ("C24", F, "from a import (", "b as c,", ")\n", "", "", 300), ("C24", F, "from a", ".a", " import *\n", "", "", 300),
    ("C14", F, "global a", ",b", "\n", "", "", 600), ("C14", F, "def f():\n nonlocal a", ",b", "\n", "", "", 300), ("C14", F, "del a", ",b", "\n", "", "", 600), ("C14", F, "", "a;", "\n", "", "", 600), ("C14", F, "", "pass;", "pass\n", "", "", 600), ("C14", F, "return a", ",b", "\n", "", "", 600), ("C14", F, "", "raise a from b;", "\n", "", "", 300), ("C14", F, "", "assert a,b;", "\n", "", "", 300),
    ("C26", F, "", "a=", "b\n", "", "", 300), ("C26", F, "", "a,b=", "yield c\n", "", "", 300), ("C26", F, "a,", "b,", "=c\n", "", "", 600), ("C26", F, "a=b", ",c", "\n", "", "", 600), ("C26", F, "a+=b", ",c", "\n", "", "", 600), ("C26", F, "", "a:b=c\n", "", "", "", 300), ("C26", F, "", "a>>=b\n", "", "", "", 300),
    ("C15", F, "if a: b\n", "elif c: d\n", "else: e\n", "", "", 300), ("C15", F, "if a:\n b\n", "elif c:\n d\n", "", "", "", 300), ("C15", F, "with a", ",b", ": c\n", "", "", 300), ("C15", F, "with a as b", ",c as d", ": e\n", "", "", 300), ("C15", F, "with (a as b", ",c as d", ",): e\n", "", "", 300), ("C15", F, "for a", ",b", " in c: d\n", "", "", 300), ("C15", F, "for a in b", ",c", ": d\n", "", "", 300),
    ("C15", F, "", "if a: b\n", "", "", "", 300), ("C15", F, "", "while a: b\nelse: c\n", "", "", "", 300), ("C15", F, "", "for a in b: c\n", "", "", "", 300), ("C15", F, "", "with a: c\n", "", "", "", 300),
    ("C22", F, "try: a\n", "except b: c\n", "", "", "", 300), ("C22", F, "try: a\n", "except* b as c: d\n", "else: e\nfinally: f\n", "", "", 300), ("C22", F, "", "try: a\nexcept b: c\n", "", "", "", 200), ("C22", F, "", "try: a\nfinally: c\n", "", "", "", 200), ("C22", F, "", "try: a\nexcept* b: c\ntry: a\nexcept b: c\n", "", "", "", 100),
    ("C23", F, "", "@a\n", "class b: c\n", "", "", 300), ("C23", F, "", "@a(b)\n", "def b(): c\n", "", "", 300), ("C23", F, "class a(b", ",c", "): d\n", "", "", 300), ("C23", F, "", "def a(): b\n", "", "", "", 300), ("C23", F, "", "async def a(): b\n", "", "", "", 300), ("C23", F, "", "@a.b.c\nclass d: e\n", "", "", "", 200),
    ("C31", E, "[a", " for b in c", "", "", "]", 200), ("C31", E, "(a for b in c", " if d", "", "", ")", 200), ("C31", E, "{a", " async for b in c if d", "", "", "}", 130), ("C31", E, "{a:b for c", ",d", " in e", "", "}", 300), ("C31", E, "f(", "a,", "*[b for c in d]", "", ")", 300),
    ("C32", FT, "(", "a,", "b", "", ")->c", 600), ("C32", FT, "(", "a,", "*b,**c", "", ")->d", 300), ("C32", FT, "(*a", ",b", "", "", ")->c", 300), ("C32", FT, "()->a", "[b]", "\n", "", "", 200), ("C32", FT, "()->a", "", "", "\n", "", 300),
    ("C16 C33", F, "", "a\n", "", "", "", 1100), ("C16", F, "", "\n", "a", "", "", 600), ("C16", F, "a", "\n", "", "", "", 600), ("C16", E, "a", "\n", "", "", "", 600), ("C16", E, "a", ",a", "\n", "", "", 600), ("C16", Entry::Single, "if a:\n", " b\n", "\n", "", "", 300), ("C16", Entry::Single, "", "a;", "\n", "", "", 300),
    ("C28", F, "", "a = b # type: int\n", "", "", "", 300), ("C28", F, "a = b # type: ", "c", "\n", "", "", 1100), ("C28", F, "", "a = ", "b # type: int\n", "", "", 200), ("C28", F, "", "# type: c\n", "", "", "", 100), ("C28", F, "", "for a in b: # type: c\n d\n", "", "", "", 100),
    ("C33", F, "if a:\n", " b\n", "c\n", "", "", 600), ("C33", F, "class a:\n", " def b():\n  c\n", "d\n", "", "", 300), ("C33", F, "if a:\n b\n", "\n", " c\n", "", "", 300), ("C33", F, "if a:\n b\n", "# d\n", " c\n", "", "", 300), ("C33", F, "if a:\n", " ", "b\nc\n", "", "", 600), ("C33", F, "if a:\n", "\t", "b\nc\n", "", "", 300),
    ("C20", E, "", "a ", "", "", "", 100), ("C20", F, "a = (", "b,", ",)\n", "", "", 100), ("C20", F, "a += b,", "c,", ",\n", "", "", 100), ("C20", E, "f(", "a,", ",)", "", "", 100), ("C20", E, "[", "a,", ",]", "", "", 100), ("C20", E, "a", "if b", "", "", "", 30), ("C20", F, "if a: b\n", "else: c\n", "", "", "", 30), ("C20", F, "try: a\n", "finally: c\n", "", "", "", 30), ("C20", E, "{", "a:b,", "c}", "", "", 100), ("C20", E, "{", "a,", "b:c}", "", "", 100),
    // nested
    ("C12 C04 C20", E, "", "(", "a", ")", "", 260), ("C12 C04", E, "", "[", "", "]", "", 260), ("C29 C04", E, "", "{", "a", "}", "", 260), ("C29", E, "", "{a:", "b", "}", "", 260), ("C12", E, "", "(a,", "b", ")", "", 260), ("C30", E, "", "a(", "b", ")", "", 200), ("C30", E, "", "a[", "b", "]", "", 200), ("C04 C12", E, "", "([{", "a", "}])", "", 90), ("C31", E, "", "[a for b in ", "c", "]", "", 130), ("C31", E, "", "[", "a", " for b in c]", "", 130),
    ("C13", E, "", "(a if b else ", "c", ")", "", 130), ("C13", E, "", "(a:=", "c", ")", "", 130), ("C13", E, "", "(yield ", "c", ")", "", 130), ("C27", E, "", "lambda a=", "lambda: b", ": c", "", 130), ("C11", E, "", "(a+", "b", ")*c", "", 130), ("C11", E, "", "-(", "b", ")**c", "", 130), ("C32", FT, "", "", "()->", "", "a", 1),
    // tokens
    ("C01 C02", F, "", "a", "", "", "", 3000), ("C01", F, "_", "1", "", "", "", 3000), ("C01", F, "", "+", "", "", "", 600), ("C01", F, "", ".", "", "", "", 600), ("C01", F, "", "*", "", "", "", 600), ("C01", F, "", "<", "", "", "", 600), ("C01", F, "", "=", "", "", "", 600), ("C01", F, "", "-", ">", "", "", 600), ("C01", F, "", "é", "", "", "", 600), ("C01", F, "", "if ", "", "", "", 600), ("C01", F, "", ":", "=", "=", "", 300),
    ("C06", E, "1", "2", "", "", "", 3000), ("C06", E, "0x", "f", "", "", "", 3000), ("C06", E, "0o", "7", "", "", "", 3000), ("C06", E, "0b", "1", "", "", "", 3000), ("C06", E, "1", "_2", "", "", "", 600), ("C06", E, "0x", "_f", "", "", "", 600), ("C06", E, "0", "0", "", "", "", 3000), ("C06", E, "0", "_0", "", "", "", 600), ("C06", E, "1.", "2", "j", "", "", 1100), ("C06", E, "1.5", "_5", "e3", "", "", 300), ("C06", E, ".", "2", "", "", "", 1100), ("C06", E, "1e", "2", "", "", "", 1100), ("C06", E, "1e-2", "_2", "J", "", "", 300), ("C06", E, "0", "9", ".5", "", "", 600), ("C06", E, "0", "1", "e5", "", "", 600), ("C06", E, "", "1", ".", "2", "", 600),
    ("C07", E, "'", "a", "", "", "'", 3000), ("C07", E, "'", "\\\\", "", "", "'", 1100), ("C07", E, "'", "\\'", "", "", "'", 1100), ("C07", E, "'", "\\\n", "", "", "'", 600), ("C07", E, "'''", "a\n", "", "", "'''", 1100), ("C07", E, "\"\"\"", "\"\"a", "", "", "\"\"\"", 600), ("C07", E, "'''", "\n", "", "", "'''", 1100), ("C07", E, "rb'", "é", "", "", "'", 600), ("C07", E, "f'", "{a}", "", "", "'", 600), ("C07", E, "'''", "\\'", "", "", "'''", 600), ("C07", E, "\"", "'", "", "", "\"", 600), ("C07", E, "'''", "\r\n", "", "", "'''", 600), ("C07", E, "'", "a", "", "", "", 600), ("C07", E, "'''", "a", "", "", "''", 600),
    // trivia
    ("C08 C02", F, "a", " ", "b", "", "", 3000), ("C08 C02", F, "a", "\t", "b", "", "", 1100), ("C08 C02", F, "a", " \t", "b", "", "", 600), ("C08 C02", F, "a", "\\\n", "b", "", "", 600), ("C08 C02", F, "a", "\\\r\n ", "b", "", "", 300), ("C08 C02", F, "(", "#c\n", ")", "", "", 300), ("C08 C02", F, "#", "c", "\na", "", "", 3000), ("C08 C02", F, "a #", "#", "\na", "", "", 1100), ("C08 C02", F, "", "#c\n", "a", "", "", 600), ("C08 C02", F, "a\n", "\n", "b", "", "", 1100), ("C08 C02", F, "a\n", "  \n", "b", "", "", 600), ("C08 C02", F, "a\n", "\r\n", "b", "", "", 600), ("C08 C02", F, "a\n", "\r", "b", "", "", 600), ("C08", F, "", "a  #b\n\n", "", "", "", 300), ("C08", F, "[", "a , # b\n", "]", "", "", 300),
    ("C04", F, "(", "\n", "a", "", ")\n", 1100), ("C04", F, "{", "a\r\n", "", "", "}\n", 600), ("C04", F, "[", "'(',", "", "", "]\n", 600), ("C04", F, "", "(", "", "", "", 600), ("C04", F, "", "[(", "", ")", "", 300), ("C04", F, "a\n", "()", "\n", "", "", 600), ("C04", F, "", "{", "a", "}", ")", 200), ("C04", F, "(", "[", "{)", "]", "", 200), ("C04", F, "[", "(", "]", "", "", 200),
    ("C03 C33", F, "if a:\n", " ", "b\nc\n", "", "", 600), ("C03", F, "", "a\n\n", "b", "", "", 300), ("C03", F, "a:\n b\n", "#c\n", "d", "", "", 300), ("C03", F, "a:\n b\n", " b\n", "d", "", "", 600), ("C03", F, "", "a:\n b\n", "d", "", "", 600), ("C03", F, "a:\n  b\n", "    ", "\n  c\n", "", "", 100), ("C03", F, "a:\n  b(\n", "c,\n", ")\n  d\ne\n", "", "", 300), ("C03", F, "a:\n\t", "\t", "b\nc\n", "", "", 300), ("C03", F, "a:\n  b\n c\n", "d\n", "", "", "", 50),
    ("C25", F, "", "a\n", "$", "", "", 300), ("C25", E, "(", "a,", "?)", "", "", 300), ("C25", F, "if a:\n", " b\n", " $\n", "", "", 300), ("C25", E, "", "(", "$", ")", "", 130), ("C25", F, "a = '", "b", "\n", "", "", 300), ("C25", F, "if a:\n   b\n", "   b\n", " c\n", "", "", 100),
];

/// Constructs repeated tens of thousands of times, so that positions and counts need more than sixteen bits.
const HUGE: &[T] = &[
    ("C16 C33 C05", F, "", "a\n", "b + c\n", "", "", 0), ("C01 C02", F, "", "a", " + b\n", "", "", 0), ("C12 C18", F, "x = [", "a, ", "b]\n", "", "", 0), ("C08 C02", F, "a", " ", "b\nc", "", "", 0), ("C08", F, "a", "\n", "b\nc", "", "", 0), ("C08", F, "a #", "c", "\nb\n", "", "", 0),
    ("C07", F, "x = '", "a", "' + b\nc\n", "", "", 0), ("C07", F, "x = '''", "a\n", "'''\nc\n", "", "", 0), ("C06", F, "x = 1", "2", ".5 + 3\n", "", "", 0), ("C04", F, "(", "\n", "a)\nb\n", "", "", 0), ("C03", F, "if a:\n", " b\n", "c\n", "", "", 0),
    ("C24", F, "import a", ".b", "\nimport c\n", "", "", 0), ("C30", E, "f(", "a, ", "b) + c", "", "", 0), ("C29", E, "{", "a: b, ", "c: d}", "", "", 0), ("C14", F, "", "a; ", "b\nc\n", "", "", 0), ("C25", F, "", "a\n", "$\n", "", "", 0), ("C25 C01 C02", F, "", "a\n", "\0\nb\n", "", "", 0), ("C25 C20", F, "a", " ", "\0b\n", "", "", 0), ("C20", F, "", "a\n", "b c\n", "", "", 0), ("C32", FT, "(", "a, ", "b) -> c", "", "", 0), ("C27", E, "lambda ", "a, ", "b: c", "", "", 0), ("C15", F, "", "if a: b\n", "c\n", "", "", 0), ("C22", F, "try: a\n", "except b: c\n", "d\n", "", "", 0), ("C23", F, "", "@a\n", "def b(): c\n", "", "", 0), ("C28", F, "", "a = b # type: c\n", "d\n", "", "", 0), ("C31", E, "[a for b in c", " if d", "] + e", "", "", 0),
];

fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    for p in [50, 64, 80, 100, 128, 150, 200, 250, 256, 300, 400, 500, 512, 600, 800, 1000, 1024, 1500, 2000, 2048, 3000] { v.extend([p - 1, p, p + 1, p + 2]) }
    v.retain(|n| *n <= max);
    v.dedup();
    v
}

/// Blocks inside blocks, n deep, closed by a line at each of several depths.
fn blocks(n: usize, back: usize, step: &str) -> String {
    let mut o = String::new();
    for i in 0..n { o.push_str(&step.repeat(i)); o.push_str("if a:\n") }
    o.push_str(&step.repeat(n));
    o.push_str("b\n");
    o.push_str(&step.repeat(n - back));
    o.push_str("c\n");
    o
}

/// The text with a number behind each name of one letter.
fn numbered(t: &str, i: usize) -> String {
    let c: Vec<char> = t.chars().collect();
    let part = |x: Option<&char>| x.map_or(false, |x| x.is_alphanumeric() || matches!(x, '_' | '\'' | '"' | '#'));
    let mut o = String::new();
    for (k, x) in c.iter().enumerate() {
        o.push(*x);
        if ('a'..='h').contains(x) && !(k > 0 && part(c.get(k - 1))) && !part(c.get(k + 1)) { o.push_str(&i.to_string()) }
    }
    o
}

pub fn cases(id: &str) -> Vec<Case> {
    let mut v = vec![];
    if id == "C05" {
        for (_, e, a, b, c, d, f, max) in FORMS {
            if *e != F { continue }
            for n in sizes((*max).min(140)) {
                let t = format!("{}{}{}{}{}", a, b.repeat(n), c, d.repeat(n), f);
                if !t.contains('\n') || t.contains(['\'', '"', '\r']) || n > 6 && n % 8 > 1 { continue }
                for x in ["\r", "\r\n"] { v.push(Case { texts: vec![t.clone(), t.replace('\n', x)], args: vec![] }) }
            }
        }
        for x in HUGE { if x.0.contains("C05") { for e in ["\r", "\r\n"] { let t = format!("{}{}{}", x.2, x.3.repeat(33_000), x.4); v.push(Case { texts: vec![t.clone(), t.replace('\n', e)], args: vec![] }) } } }
        return v;
    }
    if id == "C09" {
        for ch in ["a", "é", "𝒳", "\n", "\0"] {
            for n in (0..=1100).filter(|n| ch == "a" || *n < 70).chain(sizes(3000)).chain([2045, 4093, 8189, 16_381, 32_765, 65_533, 4095, 4096, 4097, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000]) {
                if n > 6 && ch != "a" && n % 8 > 1 { continue }
                let mut t = ch.repeat(n);
                t.push_str("xyz");
                // look at the start, go to the end of the repetition, look, step over the end looking at every step
                v.push(Case { texts: vec![t], args: vec![format!("nckp{}pckn{}", "a".repeat(n), "ackpn".repeat(5))] });
            }
        }
        return v;
    }
    let all = id == "C10" || id == "C17" || id == "C18";
    for (ids, e, a, b, c, d, f, max) in FORMS {
        let mine = ids.split(' ').any(|x| x == id);
        if !mine && !all { continue }
        let k = if mine { *max } else { (*max).min(140) };
        for n in sizes(k) {
            if !mine && n > 6 && n % 8 > 1 { continue }
            v.push(Case::entry(format!("{}{}{}{}{}", a, b.repeat(n), c, d.repeat(n), f), *e));
            // the same with a name of its own for each, so that none can take the place of another
            if n > 1 && id > "C09" {
                let x: String = (0..n).map(|i| numbered(b, i)).collect();
                if x != b.repeat(n) { v.push(Case::entry(format!("{}{}{}{}{}", a, x, c, d.repeat(n), f), *e)) }
            }
        }
    }
    for (ids, e, a, b, c, ..) in HUGE {
        let mine = ids.split(' ').any(|x| x == id);
        if !mine && !all { continue }
        for n in if mine { [32_800, 65_600] } else { [0, 17_000] } { v.push(Case::entry(format!("{}{}{}", a, b.repeat(n.min(66_000 / b.len() + 200)), c), *e)) }
    }
    if all || matches!(id, "C03" | "C33" | "C15") {
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 63, 64, 65, 80, 99, 100, 101, 102, 110, 127, 128, 129, 130] {
            for back in [1, 2, 3, 4, 5, 6, 8, 10, 16, 17, 20, 32, 33, 64, 65, n / 2, n - 1, n] {
                if back > n { continue }
                for step in [" ", "    ", "\t"] { if step == " " || n < 40 { v.push(Case::entry(blocks(n, back, step), F)) } }
            }
        }
    }
    v
}
