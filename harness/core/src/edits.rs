//! Small-scope enumeration of damage: each of a set of short programs with every single edit of one of its tokens
//! (a piece inserted before it, put in its place, it left out, doubled, exchanged with the next; another indentation),
//! and with pairs of edits.
use crate::engine::Case;
use crate::src::Src;
use crate::types::Entry;

const F: Entry = Entry::File;
const E: Entry = Entry::Eval;
const S: Entry = Entry::Single;
const FT: Entry = Entry::FuncType;

/// (property, entry, text)
pub const BASES: &[(&str, Entry, &str)] = &[
    // expressions
    ("C11", E, "a + b * c"), ("C11", E, "a ** -b ** c"), ("C11", E, "not a in b"), ("C11", E, "a is not b"), ("C11", E, "a not in b"), ("C11", E, "a < b == c"), ("C11", E, "a and not b or c"), ("C11", E, "a | b ^ c & d"), ("C11", E, "a << b >> c"), ("C11", E, "~a // -b"), ("C11", E, "await a ** b"), ("C11", E, "(a + b) % c"), ("C11", E, "- + ~ a"), ("C11", E, "a <> b"), ("C11", E, "a @ b.c(d)"), ("C11", E, "a[b] ** c.d"), ("C11", F, "a < b or c\n"),
    ("C12", E, "()"), ("C12", E, "(a)"), ("C12", E, "(a,)"), ("C12", E, "(a, b)"), ("C12", E, "(a, *b, c,)"), ("C12", E, "[]"), ("C12", E, "[a]"), ("C12", E, "[a, b]"), ("C12", E, "[*a, b,]"), ("C12", E, "((a), [b])"), ("C12", E, "'a' 'b' \"c\""), ("C12", E, "('a'\n 'b')"), ("C12", E, "None, True, False, ..."), ("C12", E, "a, b"), ("C12", E, "a,"), ("C12", F, "a, *b\n"), ("C12", F, "*a,\n"), ("C12", E, "(a := b, c)"), ("C12", E, "[a := b]"), ("C12", E, "(yield a)"), ("C12", E, "[(), [], {}]"), ("C12", E, "1 2.5 'a'"),
    ("C13", E, "a if b else c"), ("C13", E, "a if b else c if d else e"), ("C13", E, "(a if b else c) if d else e"), ("C13", E, "lambda: a"), ("C13", E, "lambda a: lambda: b"), ("C13", E, "lambda: a if b else c"), ("C13", E, "(a := b)"), ("C13", E, "(a := b if c else d)"), ("C13", F, "yield a\n"), ("C13", F, "yield a, b\n"), ("C13", F, "yield from a\n"), ("C13", F, "a = yield b\n"), ("C13", E, "(yield a, b)"), ("C13", E, "(yield from a)"), ("C13", E, "a(yield b)"), ("C13", E, "[*a, *b]"), ("C13", E, "*a, b"), ("C13", F, "*a, b = c\n"), ("C13", E, "a or b if c and d else not e"), ("C13", E, "[a if b else c, lambda: d]"),
    ("C27", E, "lambda a: b"), ("C27", E, "lambda a, b: c"), ("C27", E, "lambda a=b: c"), ("C27", E, "lambda a, b=c, d=e: f"), ("C27", E, "lambda *a: b"), ("C27", E, "lambda **a: b"), ("C27", E, "lambda *a, **b: c"), ("C27", E, "lambda a, *b, c=d, **e: f"), ("C27", E, "lambda *, a: b"), ("C27", E, "lambda *, a=b, c: d"), ("C27", E, "lambda a, /: b"), ("C27", E, "lambda a, /, b: c"), ("C27", E, "lambda a, b=c, /, d=e, *f, g, **h: i"), ("C27", E, "lambda a, /, *, b: c"), ("C27", E, "lambda a,: b"), ("C27", E, "lambda a, *b,: c"), ("C27", E, "lambda **a,: b"), ("C27", E, "lambda a, /,: b"), ("C27", E, "lambda a, *b, c,: d"), ("C27", E, "lambda a=(b, c), *d: e"), ("C27", E, "lambda a=lambda b: c: d"), ("C27", E, "(lambda a, b: c)(d)"),
    ("C29", E, "{}"), ("C29", E, "{a}"), ("C29", E, "{a, b}"), ("C29", E, "{a, b,}"), ("C29", E, "{*a}"), ("C29", E, "{*a, b, *c}"), ("C29", E, "{a: b}"), ("C29", E, "{a: b, c: d}"), ("C29", E, "{a: b, c: d,}"), ("C29", E, "{**a}"), ("C29", E, "{**a, b: c, **d}"), ("C29", E, "{a: {b: c}, d: {e}}"), ("C29", E, "{a: b for c in d}"), ("C29", E, "{a for b in c}"), ("C29", E, "{a: b if c else d, e: lambda: f}"), ("C29", E, "{a := b, c}"), ("C29", E, "{(a, b): [c]}"), ("C29", E, "{a if b else c: d}"),
    ("C30", E, "a()"), ("C30", E, "a(b)"), ("C30", E, "a(b, c)"), ("C30", E, "a(b, c,)"), ("C30", E, "a(b=c)"), ("C30", E, "a(b, c=d, *e, **f)"), ("C30", E, "a(*b, c)"), ("C30", E, "a(**b, c=d)"), ("C30", E, "a(b for c in d)"), ("C30", E, "a(b := c)"), ("C30", E, "a.b.c"), ("C30", E, "a.b(c)[d]"), ("C30", E, "a()()"), ("C30", E, "a[b]"), ("C30", E, "a[b, c]"), ("C30", E, "a[b,]"), ("C30", E, "a[:]"), ("C30", E, "a[b:]"), ("C30", E, "a[:b]"), ("C30", E, "a[b:c]"), ("C30", E, "a[::]"), ("C30", E, "a[::b]"), ("C30", E, "a[b::c]"), ("C30", E, "a[:b:c]"), ("C30", E, "a[b:c:d]"), ("C30", E, "a[b:c:d, e, :]"), ("C30", E, "a[..., b]"), ("C30", E, "await a.b(c)"), ("C30", E, "a(b)(c=d)[e].f"), ("C30", E, "a(lambda b: c, d if e else f)"), ("C30", E, "'a'.b('c')[1]"), ("C30", E, "(a)(b)"), ("C30", E, "[a][b](c)"), ("C30", E, "{a: b}[c]"), ("C30", E, "a[b][c:d]"), ("C30", E, "a(*b, *c, **d, **e)"),
    ("C31", E, "[a for b in c]"), ("C31", E, "[a for b in c if d]"), ("C31", E, "[a for b in c for d in e]"), ("C31", E, "[a for b in c if d if e]"), ("C31", E, "[a for b in c if d for e in f if g]"), ("C31", E, "[a for b, c in d]"), ("C31", E, "[a for b, in c]"), ("C31", E, "[a for (b, c) in d]"), ("C31", E, "[a for *b, c in d]"), ("C31", E, "[a async for b in c]"), ("C31", E, "(a for b in c async for d in e)"), ("C31", E, "{a for b in c}"), ("C31", E, "{a: b for c in d if e}"), ("C31", E, "{a: b for c, d in e}"), ("C31", E, "f(a for b in c)"), ("C31", E, "[a for b.c[d] in e]"), ("C31", E, "[a for b in c or d if not e]"), ("C31", E, "[[a for b in c] for d in e]"), ("C31", E, "[a for b in c if d and e]"), ("C31", E, "[a if b else c for d in e]"), ("C31", E, "(lambda: a for b in c)"), ("C31", E, "[a := b for c in d]"),
    ("C32", FT, "() -> a"), ("C32", FT, "(a) -> b"), ("C32", FT, "(a, b) -> c"), ("C32", FT, "(*a) -> b"), ("C32", FT, "(**a) -> b"), ("C32", FT, "(*a, **b) -> c"), ("C32", FT, "(a, *b, **c) -> d\n"), ("C32", FT, "(a, **b) -> c\n\n"), ("C32", FT, "(a[b], c.d) -> e[f, g]"), ("C32", FT, "(a if b else c) -> lambda: d"), ("C32", FT, "(a, *b) -> (c, d)"),
    // statements
    ("C14", F, "pass\n"), ("C14", F, "break; continue\n"), ("C14", F, "pass;\n"), ("C14", F, "a; b; c;\n"), ("C14", F, "del a\n"), ("C14", F, "del a, b,\n"), ("C14", F, "del (a, b), c.d, e[f]\n"), ("C14", F, "return\n"), ("C14", F, "return a\n"), ("C14", F, "return a, *b\n"), ("C14", F, "raise\n"), ("C14", F, "raise a\n"), ("C14", F, "raise a from b\n"), ("C14", F, "raise a(b) from None; pass\n"), ("C14", F, "global a\n"), ("C14", F, "global a, b, c\n"), ("C14", F, "nonlocal a\n"), ("C14", F, "nonlocal a, b\n"), ("C14", F, "assert a\n"), ("C14", F, "assert a, b\n"), ("C14", F, "a, b\n"), ("C14", F, "a.b(c)\n"), ("C14", F, "return; raise; a\n"), ("C14", S, "pass; a\n"), ("C14", F, "if a: return b; raise c\n"),
    ("C26", F, "a = b\n"), ("C26", F, "a = b = c\n"), ("C26", F, "a, b = c, d\n"), ("C26", F, "a, = b\n"), ("C26", F, "*a, b = c\n"), ("C26", F, "(a, b) = [c, d] = e\n"), ("C26", F, "a.b = c[d] = e\n"), ("C26", F, "a += b\n"), ("C26", F, "a //= b, c\n"), ("C26", F, "a **= yield b\n"), ("C26", F, "a: b\n"), ("C26", F, "a: b = c\n"), ("C26", F, "a.b: c = d\n"), ("C26", F, "a[b]: c\n"), ("C26", F, "a = yield b\n"), ("C26", F, "a = b = yield from c\n"), ("C26", F, "a = lambda: b\n"), ("C26", F, "a = b if c else d; e = f\n"), ("C26", F, "a <<= b\n"), ("C26", F, "a >>= b\n"), ("C26", F, "a @= b\n"), ("C26", F, "a = b # type: c\n"), ("C26", F, "if a: b = c\n"), ("C26", F, "(a): b = c, d\n"),
    ("C24", F, "import a\n"), ("C24", F, "import a.b.c\n"), ("C24", F, "import a as b\n"), ("C24", F, "import a.b as c, d, e.f\n"), ("C24", F, "from a import b\n"), ("C24", F, "from a.b import c\n"), ("C24", F, "from a import b as c\n"), ("C24", F, "from a import b, c as d, e\n"), ("C24", F, "from a import (b)\n"), ("C24", F, "from a import (b, c as d,)\n"), ("C24", F, "from a import *\n"), ("C24", F, "from . import a\n"), ("C24", F, "from .a import b\n"), ("C24", F, "from .. import a\n"), ("C24", F, "from ... import a\n"), ("C24", F, "from ....a.b import *\n"), ("C24", F, "import a; from b import c; d\n"), ("C24", F, "from a import (\n b,\n c\n)\n"), ("C24", F, "if a: import b, c\n"),
    ("C15", F, "if a: b\n"), ("C15", F, "if a: b\nelse: c\n"), ("C15", F, "if a: b\nelif c: d\n"), ("C15", F, "if a: b\nelif c: d\nelif e: f\nelse: g\n"), ("C15", F, "if a:\n  b\nelif c:\n  d\nelse:\n  e\n"), ("C15", F, "if a := b: c\n"), ("C15", F, "if a: b; c;\n"), ("C15", F, "if a:\n  if b: c\n  else: d\nelse: e\n"), ("C15", F, "while a: b\n"), ("C15", F, "while a: b\nelse: c\n"), ("C15", F, "while a:\n  b\nelse:\n  c\n"), ("C15", F, "for a in b: c\n"), ("C15", F, "for a in b: c\nelse: d\n"), ("C15", F, "for a, b in c, d: e\n"), ("C15", F, "for a, in b: c\n"), ("C15", F, "for *a, b in c:\n  d\nelse:\n  e\n"), ("C15", F, "for (a, b) in c: d\n"), ("C15", F, "for a.b in c: d\n"), ("C15", F, "for a in b: # type: c\n  d\n"), ("C15", F, "with a: b\n"), ("C15", F, "with a as b: c\n"), ("C15", F, "with a, b: c\n"), ("C15", F, "with a as b, c as d:\n  e\n"), ("C15", F, "with a(b) as c, d: # type: e\n  f\n"), ("C15", F, "with a as (b, c): d\n"), ("C15", F, "while a:\n  if b: break\n  else: continue\nelse: pass\n"), ("C15", S, "if a: b\n\n"), ("C15", S, "for a in b:\n  c\n\n"),
    ("C22", F, "try: a\nfinally: b\n"), ("C22", F, "try: a\nexcept: b\n"), ("C22", F, "try: a\nexcept b: c\n"), ("C22", F, "try: a\nexcept b as c: d\n"), ("C22", F, "try: a\nexcept b: c\nexcept d: e\nexcept: f\n"), ("C22", F, "try: a\nexcept b: c\nelse: d\n"), ("C22", F, "try: a\nexcept b: c\nfinally: d\n"), ("C22", F, "try: a\nexcept b: c\nelse: d\nfinally: e\n"), ("C22", F, "try: a\nexcept* b: c\n"), ("C22", F, "try: a\nexcept* b as c: d\nexcept* e: f\nelse: g\nfinally: h\n"), ("C22", F, "try:\n  a\nexcept (b, c) as d:\n  e\nelse:\n  f\nfinally:\n  g\n"), ("C22", F, "try:\n  try: a\n  finally: b\nexcept c: d\n"), ("C22", F, "if a:\n  try: b\n  except: c\nelse: d\n"), ("C22", S, "try: a\nexcept b: c\n\n"),
    ("C23", F, "def a(): b\n"), ("C23", F, "def a() -> b: c\n"), ("C23", F, "def a():\n  b\n"), ("C23", F, "def a() -> b:\n  c\n  d\n"), ("C23", F, "def a():\n  # type: () -> b\n  c\n"), ("C23", F, "def a(): # type: () -> b\n  c\n"), ("C23", F, "async def a(): b\n"), ("C23", F, "async def a():\n  await b\n"), ("C23", F, "async with a: b\n"), ("C23", F, "async with a as b, c:\n  d\n"), ("C23", F, "async for a in b: c\n"), ("C23", F, "async for a in b:\n  c\nelse:\n  d\n"), ("C23", F, "class a: b\n"), ("C23", F, "class a(): b\n"), ("C23", F, "class a(b): c\n"), ("C23", F, "class a(b, c=d, *e):\n  f\n"), ("C23", F, "class a:\n  def b(): c\n  d\n"), ("C23", F, "@a\ndef b(): c\n"), ("C23", F, "@a.b\n@c()\ndef d(): e\n"), ("C23", F, "@a(b, c=d)\nclass e: f\n"), ("C23", F, "@a\nasync def b(): c\n"), ("C23", F, "if a:\n  @b\n  def c(): d\n  e\n"), ("C23", F, "class a:\n  @b.c\n  async def d():\n    e\n"), ("C23", S, "@a\ndef b():\n  c\n\n"), ("C23", F, "class a(b): pass; c\n"),
    ("C16", E, "a"), ("C16", E, "a\n"), ("C16", E, "a, b\n\n"), ("C16", E, "(a)\n"), ("C16", E, "a + b"), ("C16", F, ""), ("C16", F, "\n"), ("C16", F, "a"), ("C16", F, "a\n"), ("C16", F, "a\nb\n"), ("C16", F, "\na\n\nb"), ("C16", F, "if a: b\nc\n"), ("C16", F, "if a:\n  b\nc\n"), ("C16", S, "a\n"), ("C16", S, "a; b\n"), ("C16", S, "\n"), ("C16", S, "if a: b\n\n"), ("C16", S, "if a:\n  b\n\n"), ("C16", S, "@a\ndef b(): c\n\n"), ("C16", S, "class a: b\n\n"), ("C16", S, "try: a\nfinally: b\n\n"), ("C16", FT, "() -> a"), ("C16", FT, "() -> a\n"), ("C16", FT, "(a, b) -> c\n\n"), ("C16", S, "a"), ("C16", S, "if a:\n  b"),
    ("C28", F, "a = b # type: c\n"), ("C28", F, "a = b = c # type: d\ne\n"), ("C28", F, "a, b = c # type: d"), ("C28", F, "for a in b: # type: c\n  d\n"), ("C28", F, "for a, b in c: # type: d\n  e\nelse: f\n"), ("C28", F, "def a():\n  # type: () -> b\n  c\n"), ("C28", F, "def a(): # type: () -> b\n  c\n"), ("C28", F, "def a():\n  b = c # type: d\n"), ("C28", F, "with a: # type: b\n  c\n"), ("C28", F, "async for a in b: # type: c\n  d\n"), ("C28", F, "a = b # type: c\nd = e # f\ng = h # type: i\n"), ("C28", F, "if a: b = c # type: d\n"), ("C28", F, "a = yield b # type: c\n"), ("C28", F, "class a:\n  b = c # type: d\n"),
    ("C33", F, "if a:\n  b\n"), ("C33", F, "if a:\n  b\nc\n"), ("C33", F, "if a:\n  b\n  c\nd\n"), ("C33", F, "if a:\n  if b:\n    c\n  d\ne\n"), ("C33", F, "if a:\n  if b:\n    c\nd\n"), ("C33", F, "if a:\n  while b:\n    if c:\n      d\n    e\nf\n"), ("C33", F, "if a:\n  b\nelse:\n  c\nd\n"), ("C33", F, "def a():\n  b\n\n  c\n"), ("C33", F, "class a:\n  b\n\n# c\n  d\n"), ("C33", F, "if a: b\nc\n"), ("C33", F, "if a: b; c\nd\n"), ("C33", F, "if a:\n\tb\n\tc\n"), ("C33", F, "for a in b:\n  c; d\n  e\n"), ("C33", F, "if a:\n  (b,\nc)\n  d\n"), ("C33", F, "if a:\n  '''b\nc'''\n  d\n"), ("C33", F, "if a:\n  b \\\n c\n  d\n"), ("C33", F, "def a():\n  if b: c\n  else: d\n  e\n"),
    // tokens
    ("C01", F, "a = b\n"), ("C01", F, "if not a: b\n"), ("C01", F, "_a1 <= b2\n"), ("C01", F, "a**b//c\n"), ("C01", F, "a->b:=c\n"), ("C02", F, "if a:\n  b # c\n\n  d\n"), ("C02", F, "(a,\n b) # c\n"), ("C02", F, "a \\\n b\n"), ("C03", F, "if a:\n  b\n  if c:\n      d\n  e\nf\n"), ("C03", F, "if a:\n\tb\n\tif c:\n\t\td\ne"), ("C03", F, "if a:\n  (b\n c)\n  # d\n\n  e\n"), ("C03", F, "if a:\n  if b:\n    if c:\n      d"), ("C04", F, "(a, [b, {c: d}])\n"), ("C04", F, "a(b)[c]{d}\n"), ("C04", F, "(\n[\n{\n}\n]\n)\n"), ("C04", F, "a[(b)\n]\nc\n"), ("C06", F, "1 + 2.5 - 0x1f * 1e5j\n"), ("C06", F, "0b1 0o7 0xf 00 .5 5.\n"), ("C07", F, "'a' + r\"b\" + '''c'''\n"), ("C07", F, "b'a' f'b' Rb\"\"\"c\nd\"\"\"\n"), ("C08", F, "a # b\n\n  # c\nd  \\\n  e\n"), ("C08", F, "(a # b\n, # c\n\n d)\n"), ("C05", F, "if a:\n  b\n\n# c\nd = '''e\nf'''\n"), ("C25", F, "if a:\n  b\nc\n"), ("C25", F, "(a, 'b', 1)\n"),
    // combinations
    ("", F, "def a():\n  return [b for c in d if e], {f: g}\n"), ("", F, "class a(b):\n  c: d = e\n  def f(): g\n"), ("", F, "with a() as b:\n  try: c = lambda: d\n  except e: raise\n"), ("", F, "for a in b:\n  if c: continue\n  yield d\nelse: e\n"), ("", F, "from a import b\n@c\nasync def d():\n  async for e in f: g\n"), ("", F, "while a:\n  b[c:d] = e(*f, **g)\n"), ("", F, "a = {b: [c, *d], **e}\n"), ("", S, "for a in b: c = d if e else f\n\n"), ("", E, "f(a)[b:c].d + (e,)"), ("", FT, "(a[b], *c) -> d"),
];
/// What is inserted or replaces a token.
const PIECES: &[&str] = &[
    "a", "1", "'s'", "(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "=", ":=", "->", "...", "*", "**", "@", "+", "-", "~", "/", "//", "%", "<<", ">>", "&", "|", "^", "<", ">", "==", "<=", ">=", "!=", "<>", "!",
    "+=", "-=", "*=", "/=", "//=", "%=", "@=", "&=", "|=", "^=", "<<=", ">>=", "**=",
    "and", "or", "not", "in", "is", "not in", "is not", "if", "else", "elif", "for", "while", "with", "as", "try", "except", "except*", "finally", "def", "class", "lambda", "lambda:", "yield", "yield from", "await", "async", "return", "raise", "del", "global", "nonlocal", "assert", "import", "from", "pass", "break", "continue", "None", "True", "False", "match", "case",
    "\n", "\n  ", "\n\n", "\\\n", "# type: t", "# c", "# type: ignore", "\t", "(\n", "\n)", "()", "[]", "{}", "a, b", "a if b else c", "*a", "**a", "a=b", "a: b", ":b", "a for b in c", "for b in c", "async for b in c", "if b", "a.b", ".b", "(a)", "[a]", "a()", "not a", "-a", "lambda: a", "yield a", "a := b", "a as b", "as b", "a or b", "a + b", "a < b", "; a", "else: a\n", "b'x'", "1.", "$", "?", "\0",
];
const INDENTS: &[&str] = &["", " ", "  ", "   ", "    ", "      ", "\t", "\t\t", " \t", "\n", "# x\n", "\x0c"];

/// Number of single edits of a text.
fn slots(text: &str) -> Vec<(usize, usize, bool)> {
    let l = crate::reflex::lex(text);
    let mut v = vec![];
    for t in &l.toks { if !t.structural() {
        let s = (t.s as usize).min(l.chars.len());
        let first = s == 0 || l.chars[..s].iter().rposition(|c| *c == '\n').map(|p| p + 1).unwrap_or(0) <= s && l.chars[..s].iter().rev().take_while(|c| **c != '\n').all(|c| *c == ' ' || *c == '\t');
        v.push((s, (t.e as usize).min(l.chars.len()), first));
    } }
    v
}
const PER: u64 = 2 * PIECES.len() as u64 + 3 + INDENTS.len() as u64;
fn single(text: &str, i: u64) -> String {
    let v = slots(text);
    let ch: Vec<char> = text.chars().collect();
    let st = |a: usize, b: usize| ch[a..b].iter().collect::<String>();
    let k = (i / PER) as usize;
    let (s, e, first) = v[k.min(v.len() - 1)];
    let i = i % PER;
    let n = PIECES.len() as u64;
    let gap = if first || s > 0 && ch[s - 1] == ' ' { "" } else { " " };
    let after = |p: &str, at: usize| if at < ch.len() && !p.ends_with('\n') && !(p.ends_with(' ') || ch[at] == ' ' || ch[at] == '\n') { " " } else { "" };
    if i < n { let p = PIECES[i as usize]; return format!("{}{}{}{}{}", st(0, s), gap, p, after(p, s), st(s, ch.len())) }
    let i = i - n;
    if i < n { let p = PIECES[i as usize]; return format!("{}{}{}{}{}", st(0, s), gap, p, after(p, e), st(e, ch.len())) }
    match i - n {
        0 => format!("{}{}", st(0, s), st(e, ch.len())),
        1 => format!("{}{} {}", st(0, s), st(s, e), st(s, ch.len())),
        2 => match v.get(k + 1) { Some((s2, e2, _)) if *s2 >= e => format!("{}{}{}{}{}", st(0, s), st(*s2, *e2), if e == *s2 { " ".into() } else { st(e, *s2) }, st(s, e), st(*e2, ch.len())), _ => text.to_string() },
        j => {
            // another indentation of the line, or for a token inside a line, characters before it
            let w = INDENTS[(j - 3) as usize];
            let mut a = s;
            while a > 0 && (ch[a - 1] == ' ' || ch[a - 1] == '\t') { a -= 1 }
            format!("{}{}{}", st(0, a), w, st(s, ch.len()))
        }
    }
}
/// All single edits of the texts of a property, and a number of double ones.
pub struct Edits { singles: Vec<(u16, u64)>, n: u64, crossed: u64, doubles: u64 }
const AROUND: [(&str, &str); 8] = [("", ""), ("", "\n"), ("", "\n\n"), ("\n", ""), ("# c\n", "# d"), (" ", "\n"), ("", "\na\n"), ("", ";")];
const ENTRIES: [Entry; 4] = [F, S, E, FT];
pub fn plan(id: &str, every: bool, doubles: u64) -> Edits {
    let mut singles = vec![];
    for (i, b) in BASES.iter().enumerate() { if every || b.0 == id { singles.push((i as u16, 1 + slots(b.2).len() as u64 * PER)) } }
    let n: u64 = singles.iter().map(|x| x.1).sum();
    // the texts themselves at every entry point, with something around them, and single edits of them at another entry point
    let crossed = if every || id == "C16" { (BASES.len() * AROUND.len() * 4) as u64 + if id == "C16" { 2 * doubles } else { doubles / 3 } } else { 0 };
    Edits { crossed, doubles: if n == 0 { 0 } else { doubles }, singles, n }
}
impl Edits {
    pub fn describe(&self) -> Option<String> {
        if self.n == 0 { return None }
        Some(format!("{} short programs with every single edit of a token ({} ways to edit one): {}, at other entry points: {}, and with two edits: {}", self.singles.len(), PER, self.n, self.crossed, self.doubles))
    }
    pub fn count(&self) -> u64 { self.n + self.crossed + self.doubles }
    pub fn at(&self, i: u64) -> Option<Case> {
        if i >= self.count() { return None }
        if i < self.n { return self.one(i) }
        let i = i - self.n;
        if i < self.crossed {
            let (m, a) = (BASES.len() as u64, AROUND.len() as u64);
            if i < m * a * 4 {
                let (b, x) = (&BASES[(i % m) as usize], AROUND[(i / m % a) as usize]);
                return Some(Case::entry(format!("{}{}{}", x.0, b.2, x.1), ENTRIES[(i / m / a) as usize]));
            }
            let mut s = Src::random(i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x77);
            let b = &BASES[s.below(BASES.len() as u32) as usize];
            let n = slots(b.2).len() as u64 * PER;
            if n == 0 { return Some(Case::entry(b.2.to_string(), S)) }
            let e = match b.1 { F => S, S => F, E => if s.pct(50) { S } else { F }, FT => if s.pct(50) { E } else { F } };
            return Some(Case::entry(single(b.2, s.below(n as u32) as u64), e));
        }
        let i = i - self.crossed;
        let mut s = Src::random(i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x51);
        let c = self.one((((s.below(1 << 30) as u64) << 20) + s.below(1 << 20) as u64) % self.n)?;
        let m = slots(&c.texts[0]).len() as u64 * PER;
        if m == 0 { return Some(c) }
        let t = single(&c.texts[0], (((s.below(1 << 30) as u64) << 10) + s.below(1 << 10) as u64) % m);
        Some(Case { texts: vec![t], args: c.args })
    }
    fn one(&self, mut i: u64) -> Option<Case> {
        for (b, n) in &self.singles {
            if i >= *n { i -= n; continue }
            let (_, e, t) = BASES[*b as usize];
            return Some(Case::entry(if i == 0 { t.to_string() } else { single(t, i - 1) }, e));
        }
        None
    }
}
