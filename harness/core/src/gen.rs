//! Grammar-directed program generator. A profile weights what is generated; most of what comes out is valid,
//! the reference parser has the last word.
use crate::layout::{lex, It};
use crate::src::Src;

#[derive(Clone, Copy)]
pub struct Prof {
    // atoms
    pub name: u32, pub num: u32, pub str_: u32, pub konst: u32, pub strcat: u32,
    // brackets
    pub paren: u32, pub tuple: u32, pub list: u32, pub dict: u32, pub set: u32, pub yieldp: u32,
    // operators
    pub unary: u32, pub bin: u32, pub boolop: u32, pub notop: u32, pub cmp: u32, pub cond: u32, pub lambda: u32,
    // trailers
    pub call: u32, pub index: u32, pub attr: u32, pub await_: u32,
    // comprehensions: percentage of displays that are one
    pub compr: u32,
    /// percentage of bracketed elements that are named / starred
    pub named: u32, pub star: u32,
    pub depth: u32, pub items: u32, pub big: u32,
    // simple statements
    pub s_expr: u32, pub s_flow: u32, pub s_return: u32, pub s_raise: u32, pub s_global: u32, pub s_del: u32, pub s_assert: u32,
    pub s_assign: u32, pub s_aug: u32, pub s_ann: u32, pub s_import: u32, pub s_from: u32, pub s_yield: u32,
    /// percentage of lines with several statements
    pub semi: u32,
    // compound statements
    pub c_if: u32, pub c_while: u32, pub c_for: u32, pub c_try: u32, pub c_with: u32, pub c_def: u32, pub c_class: u32, pub c_deco: u32, pub c_async: u32,
    /// percentage of statements that are compound
    pub compound: u32,
    /// percentage of bodies on the header line
    pub inline: u32,
    pub blocks: u32, pub stmts: u32,
    /// percentage of places for a type comment that have one
    pub tcomment: u32,
    /// richer lexemes (long names, unicode, odd numbers and strings)
    pub rich: bool,
}
pub const EXPR: Prof = Prof {
    name: 10, num: 4, str_: 2, konst: 2, strcat: 1, paren: 2, tuple: 2, list: 2, dict: 1, set: 1, yieldp: 0,
    unary: 2, bin: 4, boolop: 2, notop: 1, cmp: 2, cond: 1, lambda: 1, call: 3, index: 2, attr: 3, await_: 0, compr: 10, named: 5, star: 5,
    depth: 3, items: 3, big: 40,
    s_expr: 4, s_flow: 2, s_return: 1, s_raise: 1, s_global: 1, s_del: 1, s_assert: 1, s_assign: 3, s_aug: 1, s_ann: 1, s_import: 1, s_from: 1, s_yield: 1,
    semi: 15, c_if: 3, c_while: 1, c_for: 2, c_try: 2, c_with: 2, c_def: 2, c_class: 1, c_deco: 1, c_async: 1,
    compound: 30, inline: 25, blocks: 3, stmts: 3, tcomment: 0, rich: false,
};
/// Operands are names, numbers and little else; statements are short.
pub const TINY: Prof = Prof { depth: 1, items: 2, strcat: 0, dict: 0, set: 0, list: 0, tuple: 0, lambda: 0, cond: 0, compr: 0, named: 0, star: 0, ..EXPR };

pub struct Gen<'a> { pub s: &'a mut Src, pub p: Prof, pub o: Vec<It>, budget: i32 }

const NAMES: [&str; 22] = ["a", "b", "x", "y", "f", "g", "_", "self", "cls", "case", "type", "print", "item2", "__init__", "Foo", "none", "True_", "iff", "nott", "lambda_", "r", "isin"];
const RICH_NAMES: [&str; 12] = ["été", "变量", "ünïcode_ñ", "μ2", "_1", "averyveryverylongidentifiername_with_many_parts_0123456789", "ſ", "Ω", "match_", "async_", "fr", "B"];
const NUMS: [&str; 6] = ["1", "0", "42", "3.14", "2e10", "7j"];
const RICH_NUMS: [&str; 16] = ["0x1F", "0o17", "0b101", "1_000", ".5", "5.", "1e-3", "0x_ff", "0XAB", "10E+05", "0_0", "00", "1.5J", "123456789012345678901234567890", "0e0", "6_6.7_7e8_8j"];
const STRS: [&str; 4] = ["'s'", "\"t\"", "''", "\"\""];
const RICH_STRS: [&str; 16] = ["r'\\d'", "b\"x\"", "f'{a}'", "'''tri'ple'''", "\"\"\"l1\nl2\"\"\"", "'it\\'s'", "Rb'q'", "u''", "'é€'", "'\\\\'", "\"a\\\nb\"", "'#no'", "\"(\"", "rb'''\n'''", "fR\"\"\"{}\"\"\"", "''''q'''"];
pub const BINOPS: [&str; 12] = ["+", "-", "*", "/", "//", "%", "@", "**", "<<", ">>", "&", "|"];
pub const CMPOPS: [&str; 11] = ["<", ">", "==", "<=", ">=", "!=", "<>", "in", "is", "not in", "is not"];
pub const AUGOPS: [&str; 13] = ["+=", "-=", "*=", "/=", "//=", "%=", "@=", "**=", "<<=", ">>=", "&=", "|=", "^="];

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, p: Prof) -> Gen<'a> { Gen { s, p, o: vec![], budget: 260 } }
    pub fn t(&mut self, x: &str) { for w in x.split(' ') { self.o.push(lex(w)) } self.budget -= 1; }
    fn nl(&mut self) { self.o.push(It::Nl) }
    fn poor(&self) -> bool { self.budget <= 0 || self.s.exhausted() }
    pub fn name(&mut self) { let n = self.name_text(); self.o.push(lex(&n)); self.budget -= 1 }
    pub fn name_text(&mut self) -> String {
        if self.p.rich && self.s.pct(35) { return self.s.pick(&RICH_NAMES).to_string() }
        self.s.pick(&NAMES).to_string()
    }
    fn num(&mut self) { let n = if self.p.rich && self.s.pct(50) { *self.s.pick(&RICH_NUMS) } else { *self.s.pick(&NUMS) }; self.o.push(lex(n)); self.budget -= 1 }
    fn string(&mut self) { let n = if self.p.rich && self.s.pct(60) { *self.s.pick(&RICH_STRS) } else { *self.s.pick(&STRS) }; self.o.push(lex(n)); self.budget -= 1 }
    fn count(&mut self) -> u32 { if self.poor() { return 0 } let (m, b) = (self.p.items, self.p.big); self.s.count(m, b) }

    // ------------------------------------------------------------ expressions
    /// a conditional-level expression
    pub fn test(&mut self, d: u32) {
        let w = if d == 0 || self.poor() { [20, 0, 0] } else { [20, self.p.cond, self.p.lambda] };
        match self.s.weighted(&w) {
            1 => { self.or(d - 1); self.t("if"); self.or(d - 1); self.t("else"); self.test(d - 1) }
            2 => self.lambda(d - 1),
            _ => self.or(d),
        }
    }
    pub fn lambda(&mut self, d: u32) {
        self.t("lambda");
        if self.s.pct(60) { self.params(d) }
        self.t(":");
        self.test(d);
    }
    pub fn params(&mut self, d: u32) {
        // roles in order: positional [/] more [*args|*] keyword-only [**kw] [,]
        let n1 = self.s.below(3);
        let slash = n1 > 0 && self.s.pct(25);
        let n2 = self.s.below(3);
        let star = self.s.below(4); // 2: *args, 3: bare
        let n3 = if star >= 2 { self.s.below(3) } else { 0 };
        let star = if star == 3 && n3 == 0 { 2 } else { star };
        let kw = self.s.pct(35);
        let mut first = true;
        let mut defaults = self.s.pct(20);
        macro_rules! sep { () => { if !first { self.t(",") } first = false; } }
        for _ in 0..n1 { sep!(); self.param(&mut defaults, d, true) }
        if slash { sep!(); self.t("/") }
        for _ in 0..n2 { sep!(); self.param(&mut defaults, d, true) }
        if star >= 2 { sep!(); self.t("*"); if star == 2 { self.name() } }
        for _ in 0..n3 { sep!(); let mut f = self.s.pct(40); self.param(&mut f, d, false) }
        if kw { sep!(); self.t("**"); self.name() }
        if first { self.name() }
        if self.s.pct(15) { self.t(",") }
    }
    fn param(&mut self, defaults: &mut bool, d: u32, sticky: bool) {
        self.name();
        if *defaults || (sticky && self.s.pct(25)) { if sticky { *defaults = true } self.t("="); self.test(d.min(1)) }
    }
    /// or-level: everything but conditionals and lambda
    pub fn or(&mut self, d: u32) {
        if d == 0 || self.poor() { return self.atom(0) }
        let p = self.p;
        let atoms = p.name + p.num + p.str_ + p.konst + p.strcat + p.paren + p.tuple + p.list + p.dict + p.set + p.yieldp + p.call + p.index + p.attr + p.await_;
        match self.s.weighted(&[atoms, p.boolop, p.notop, p.cmp, p.bin + p.unary]) {
            0 => self.atom(d),
            1 => {
                let n = self.s.count(3, 12).max(1);
                self.not_level(d - 1);
                for _ in 0..n { let op = *self.s.pick(&["and", "or"]); self.t(op); self.not_level(d - 1) }
            }
            2 => { for _ in 0..1 + self.s.below(2) { self.t("not") } self.not_level(d - 1) }
            3 => self.cmp(d),
            _ => self.bits(d),
        }
    }
    fn not_level(&mut self, d: u32) { if self.p.notop > 0 && self.s.pct(15) { self.t("not") } if self.s.pct(40) { self.cmp(d) } else { self.bits(d) } }
    pub fn cmp(&mut self, d: u32) {
        self.bits(d.saturating_sub(1));
        let n = self.s.count(2, 8).max(1);
        for _ in 0..n { let op = *self.s.pick(&CMPOPS); self.t(op); self.bits(d.saturating_sub(1)) }
    }
    /// bitwise-or level
    pub fn bits(&mut self, d: u32) {
        if d == 0 || self.poor() { return self.factor(0) }
        if self.p.bin > 0 && self.s.pct(50) {
            let n = self.s.count(3, 15).max(1);
            self.factor(d - 1);
            for _ in 0..n {
                let op = if self.s.pct(8) { "^" } else { *self.s.pick(&BINOPS) };
                self.t(op);
                self.factor(d - 1)
            }
        } else { self.factor(d) }
    }
    fn factor(&mut self, d: u32) {
        if self.p.unary > 0 && self.s.pct(4 * self.p.unary) { for _ in 0..1 + self.s.count(1, 6) { let op = *self.s.pick(&["-", "+", "~"]); self.t(op) } }
        self.atom(d);
    }
    pub fn atom(&mut self, d: u32) {
        let p = self.p;
        let deep = d > 0 && !self.poor();
        if deep && p.await_ > 0 && self.s.pct(p.await_) { self.t("await") }
        if deep {
            let tw = p.call + p.index + p.attr;
            let plain = p.name + p.num + p.str_ + p.konst + p.paren + p.tuple + p.list;
            if tw > 0 && self.s.below(tw + plain) >= plain {
                // a chain of trailers
                let e = if self.s.pct(30) { d - 1 } else { 0 }; self.bare_atom(e);
                let n = 1 + self.s.count(2, 20);
                for _ in 0..n { self.trailer(d - 1) }
                return;
            }
        }
        self.bare_atom(d)
    }
    fn bare_atom(&mut self, d: u32) {
        let p = self.p;
        let deep = d > 0 && !self.poor();
        let mut w = [p.name, p.num, p.str_, p.konst, p.strcat, p.paren, p.tuple, p.list, p.dict, p.set, p.yieldp];
        if !deep { for x in &mut w[5..] { *x = 0 } }
        match self.s.weighted(&w) {
            0 => self.name(),
            1 => self.num(),
            2 => self.string(),
            3 => { let k = *self.s.pick(&["True", "False", "None", "..."]); self.t(k) }
            4 => { let n = 2 + self.s.count(1, 12); for _ in 0..n { self.string() } }
            5 => { self.t("("); self.element(d - 1, false); self.t(")") }
            6 => self.display("(", ")", d - 1),
            7 => self.display("[", "]", d - 1),
            8 => self.dict(d - 1),
            9 => self.set(d - 1),
            _ => { self.t("("); self.yield_(d - 1); self.t(")") }
        }
    }
    /// named, starred or plain element
    fn element(&mut self, d: u32, star: bool) {
        if self.s.pct(self.p.named) { self.name(); self.t(":="); self.test(d) }
        else if star && self.s.pct(self.p.star) { self.t("*"); self.bits(d) }
        else { self.test(d) }
    }
    pub fn display(&mut self, a: &str, b: &str, d: u32) {
        self.t(a);
        if self.p.compr > 0 && self.s.pct(self.p.compr) { self.element(d, false); self.comp_for(d) }
        else {
            let n = self.count();
            for i in 0..n { if i > 0 { self.t(",") } self.element(d, true) }
            if n > 0 && ((n == 1 && a == "(" && self.s.pct(60)) || self.s.pct(25)) { self.t(",") }
        }
        self.t(b);
    }
    pub fn dict(&mut self, d: u32) {
        self.t("{");
        if self.p.compr > 0 && self.s.pct(self.p.compr) { self.test(d); self.t(":"); self.test(d); self.comp_for(d) }
        else {
            let n = self.count();
            for i in 0..n {
                if i > 0 { self.t(",") }
                if self.s.pct(3 * self.p.star) { self.t("**"); self.bits(d) } else { self.test(d); self.t(":"); self.test(d) }
            }
            if n > 0 && self.s.pct(25) { self.t(",") }
        }
        self.t("}");
    }
    pub fn set(&mut self, d: u32) {
        self.t("{");
        if self.p.compr > 0 && self.s.pct(self.p.compr) { self.test(d); self.comp_for(d) }
        else {
            let n = self.count() + 1;
            for i in 0..n { if i > 0 { self.t(",") } if self.s.pct(3 * self.p.star) { self.t("*"); self.bits(d) } else { self.test(d) } }
            if self.s.pct(25) { self.t(",") }
        }
        self.t("}");
    }
    pub fn comp_for(&mut self, d: u32) {
        if self.s.pct(12) { self.t("async") }
        self.t("for");
        self.target_list(d.min(1));
        self.t("in");
        self.or(d);
        let n = self.s.count(2, 8);
        for _ in 0..n {
            if self.s.pct(55) {
                self.t("if");
                if self.s.pct(12) { self.t("lambda"); if self.s.pct(50) { self.name() } self.t(":"); self.or(d) } else { self.or(d) }
            } else {
                if self.s.pct(12) { self.t("async") }
                self.t("for"); self.target_list(d.min(1)); self.t("in"); self.or(d)
            }
        }
    }
    pub fn target(&mut self, d: u32) {
        match self.s.weighted(&[10, 2, 2, 2]) {
            1 if d > 0 => { self.name(); let n = 1 + self.s.below(2); for _ in 0..n { self.trailer_target(d - 1) } }
            2 if d > 0 => { self.t("("); self.target_list(d - 1); self.t(")") }
            3 if d > 0 => { self.t("["); self.target_list(d - 1); self.t("]") }
            _ => self.name(),
        }
    }
    fn trailer_target(&mut self, d: u32) { if self.s.pct(50) { self.t("."); self.name() } else { self.t("["); self.test(d.min(1)); self.t("]") } }
    pub fn target_list(&mut self, d: u32) {
        let n = 1 + self.count();
        for i in 0..n {
            if i > 0 { self.t(",") }
            if n > 1 && self.s.pct(self.p.star) { self.t("*") }
            self.target(d)
        }
        if self.s.pct(8) { self.t(",") }
    }
    pub fn trailer(&mut self, d: u32) {
        let p = self.p;
        match self.s.weighted(&[p.attr, p.call, p.index]) {
            0 => { self.t("."); self.name() }
            1 => { self.t("("); self.arglist(d); self.t(")") }
            _ => { self.t("["); self.subscripts(d); self.t("]") }
        }
    }
    pub fn arglist(&mut self, d: u32) {
        if self.p.compr > 0 && self.s.pct(self.p.compr / 2) { self.test(d); self.comp_for(d); return }
        let n = self.count();
        let mut kw = false;
        for i in 0..n {
            if i > 0 { self.t(",") }
            match self.s.weighted(&[if kw { 0 } else { 10 }, 4, self.p.named / 2, self.p.star / 2 + 1, self.p.star / 2 + 1]) {
                0 if !kw => self.test(d),
                1 => { kw = true; self.name(); self.t("="); self.test(d) }
                2 => { if kw { self.name(); self.t("=") } else { self.name(); self.t(":=") } self.test(d) }
                3 => { self.t("*"); self.test(d) }
                4 => { kw = true; self.t("**"); self.test(d) }
                _ => { self.name(); self.t("="); self.test(d); kw = true }
            }
        }
        if n > 0 && self.s.pct(15) { self.t(",") }
    }
    pub fn subscripts(&mut self, d: u32) {
        let n = 1 + self.count();
        for i in 0..n {
            if i > 0 { self.t(",") }
            if self.s.pct(45) { self.test(d) } else {
                if self.s.pct(50) { self.test(d) }
                self.t(":");
                if self.s.pct(50) { self.test(d) }
                if self.s.pct(45) { self.t(":"); if self.s.pct(60) { self.test(d) } }
            }
        }
        if self.s.pct(15) { self.t(",") }
    }
    pub fn yield_(&mut self, d: u32) {
        self.t("yield");
        if self.s.pct(30) { self.t("from"); self.test(d) } else { self.star_list(d, true) }
    }
    /// testlist, with stars if allowed
    pub fn star_list(&mut self, d: u32, star: bool) {
        let n = 1 + if self.s.pct(35) { self.count() } else { 0 };
        for i in 0..n {
            if i > 0 { self.t(",") }
            if star && self.s.pct(self.p.star) { self.t("*"); self.bits(d) } else { self.test(d) }
        }
        if self.s.pct(if n > 1 { 20 } else { 5 }) { self.t(",") }
    }

    // ------------------------------------------------------------ statements
    pub fn file(&mut self) {
        let n = 1 + self.s.count(self.p.stmts, self.p.stmts * 4);
        let b = self.p.blocks;
        for _ in 0..n { self.stmt(b) }
    }
    pub fn stmt(&mut self, b: u32) {
        if b > 0 && !self.poor() && self.s.pct(self.p.compound) { self.compound(b) } else { self.simple() }
    }
    pub fn simple(&mut self) {
        self.small();
        let tc = matches!(self.o.last(), Some(It::Lex(t)) if t.starts_with("# type:"));
        if !tc && self.s.pct(self.p.semi) {
            let n = self.s.count(2, 15);
            let keep = self.p.tcomment;
            self.p.tcomment = 0;
            for _ in 0..n { self.t(";"); self.small() }
            self.p.tcomment = keep;
            if self.s.pct(40) { self.t(";") }
        }
        self.nl();
    }
    pub fn small(&mut self) {
        let p = self.p;
        let d = if self.poor() { 0 } else { p.depth };
        match self.s.weighted(&[p.s_expr, p.s_flow, p.s_return, p.s_raise, p.s_global, p.s_del, p.s_assert, p.s_assign, p.s_aug, p.s_ann, p.s_import, p.s_from, p.s_yield]) {
            0 => self.star_list(d, true),
            1 => { let k = *self.s.pick(&["pass", "break", "continue"]); self.t(k) }
            2 => { self.t("return"); if self.s.pct(70) { self.star_list(d, true) } }
            3 => { self.t("raise"); if self.s.pct(75) { self.test(d); if self.s.pct(40) { self.t("from"); self.test(d) } } }
            4 => { let k = *self.s.pick(&["global", "nonlocal"]); self.t(k); let n = 1 + self.count(); for i in 0..n { if i > 0 { self.t(",") } self.name() } }
            5 => { self.t("del"); self.target_list(d.min(2)) }
            6 => { self.t("assert"); self.test(d); if self.s.pct(40) { self.t(","); self.test(d) } }
            7 => {
                self.target_list(d.min(2));
                let n = 1 + self.s.count(2, 10);
                for i in 0..n { self.t("="); if i + 1 < n { self.target_plain(d.min(2)) } else if p.s_yield > 0 && self.s.pct(12) { self.yield_(d) } else { self.star_list(d, false) } }
                if self.s.pct(p.tcomment) { let c = self.type_comment(); self.o.push(lex(&c)) }
            }
            8 => { self.target(d.min(2)); let k = *self.s.pick(&AUGOPS); self.t(k); if self.s.pct(12) { self.yield_(d) } else { self.star_list(d, false) } }
            9 => { self.target(d.min(2)); self.t(":"); self.test(d); if self.s.pct(60) { self.t("="); if self.s.pct(10) { self.yield_(d) } else { self.star_list(d, false) } } }
            10 => self.import(),
            11 => self.import_from(),
            _ => self.yield_(d),
        }
    }
    /// targets after the first `=`: no stars there (known finding)
    fn target_plain(&mut self, d: u32) {
        let n = 1 + self.count();
        for i in 0..n { if i > 0 { self.t(",") } self.target_nostar(d) }
    }
    fn target_nostar(&mut self, d: u32) { let s = self.p.star; self.p.star = 0; self.target(d); self.p.star = s }
    pub fn type_comment(&mut self) -> String {
        let c = ["# type: int", "# type:int", "# type: (int, str) -> bool", "# type: List[é]", "# type:", "# type: ignore", "# type: # more", "# type: x  "];
        self.s.pick(&c).to_string()
    }
    fn dotted(&mut self) { let n = 1 + self.s.count(2, 8); for i in 0..n { if i > 0 { self.t(".") } self.name() } }
    pub fn import(&mut self) {
        self.t("import");
        let n = 1 + self.count();
        for i in 0..n { if i > 0 { self.t(",") } self.dotted(); if self.s.pct(35) { self.t("as"); self.name() } }
    }
    pub fn import_from(&mut self) {
        self.t("from");
        let dots = if self.s.pct(50) { self.s.count(3, 9) } else { 0 };
        for _ in 0..dots { if self.s.pct(30) { self.t("...") } else { self.t(".") } }
        if dots == 0 || self.s.pct(70) { self.dotted() }
        self.t("import");
        match self.s.weighted(&[5, 1, 4]) {
            1 => self.t("*"),
            k => {
                if k == 2 { self.t("(") }
                let n = 1 + self.count();
                for i in 0..n { if i > 0 { self.t(",") } self.name(); if self.s.pct(35) { self.t("as"); self.name() } }
                if k == 2 { if self.s.pct(35) { self.t(",") } self.t(")") }
            }
        }
    }

    pub fn compound(&mut self, b: u32) {
        let p = self.p;
        match self.s.weighted(&[p.c_if, p.c_while, p.c_for, p.c_try, p.c_with, p.c_def, p.c_class, p.c_deco, p.c_async]) {
            0 => {
                self.t("if"); self.cond_expr(); self.suite(b);
                let n = if self.s.pct(45) { self.s.count(2, 10) } else { 0 };
                for _ in 0..n { self.t("elif"); self.cond_expr(); self.suite(b) }
                self.else_(b, 45);
            }
            1 => { self.t("while"); self.cond_expr(); self.suite(b); self.else_(b, 35) }
            2 => self.for_(b),
            3 => self.try_(b),
            4 => self.with(b),
            5 => self.def(b),
            6 => self.class(b),
            7 => {
                let n = 1 + self.s.count(2, 9);
                for _ in 0..n { self.t("@"); self.dotted(); if self.s.pct(45) { self.t("("); let d = self.p.depth.min(2); self.arglist(d); self.t(")") } self.nl() }
                match self.s.below(3) { 0 => self.def(b), 1 => self.class(b), _ => { self.t("async"); self.def(b) } }
            }
            _ => { self.t("async"); match self.s.below(3) { 0 => self.def(b), 1 => self.for_(b), _ => self.with(b) } }
        }
    }
    fn cond_expr(&mut self) { let d = self.p.depth; if self.s.pct(self.p.named) { self.name(); self.t(":=") } self.test(d) }
    fn else_(&mut self, b: u32, p: u32) { if self.s.pct(p) { self.t("else"); self.suite(b) } }
    pub fn for_(&mut self, b: u32) {
        let d = self.p.depth;
        self.t("for"); self.target_list(d.min(2)); self.t("in"); self.star_list(d, false);
        self.t(":");
        if self.s.pct(self.p.tcomment) { let c = self.type_comment(); self.o.push(lex(&c)); self.block(b); } else { self.body(b) }
        self.else_(b, 35);
    }
    pub fn try_(&mut self, b: u32) {
        self.t("try"); self.suite(b);
        let star = self.s.pct(30);
        let n = if self.s.pct(25) { 0 } else { 1 + self.s.count(2, 9) };
        for i in 0..n {
            self.t("except");
            if star { self.t("*") }
            if star || i + 1 < n || self.s.pct(60) { let d = self.p.depth.min(2); self.test(d); if self.s.pct(45) { self.t("as"); self.name() } }
            self.suite(b);
        }
        if n > 0 { self.else_(b, 35) }
        if n == 0 || self.s.pct(35) { self.t("finally"); self.suite(b) }
    }
    pub fn with(&mut self, b: u32) {
        self.t("with");
        let paren = self.s.pct(35);
        if paren { self.t("(") }
        let n = 1 + self.count();
        for i in 0..n {
            if i > 0 { self.t(",") }
            // a first item that starts with a bracket is a known finding
            if i == 0 || paren { self.name(); let k = self.s.below(3); let d = self.p.depth.min(2); for _ in 0..k { self.trailer(d) } } else { let d = self.p.depth; self.test(d) }
            if self.s.pct(45) { self.t("as"); if self.s.pct(80) { self.target(1) } else { self.name() } }
        }
        if paren { if self.s.pct(30) { self.t(",") } self.t(")") }
        self.suite(b);
    }
    pub fn def(&mut self, b: u32) {
        let d = self.p.depth;
        self.t("def"); self.name(); self.t("("); self.t(")");
        if self.s.pct(45) { self.t("->"); self.test(d) }
        self.t(":");
        if self.s.pct(self.p.tcomment) {
            if self.s.pct(50) { let c = self.type_comment(); self.o.push(lex(&c)); self.block(b); }
            else { self.nl(); let c = self.type_comment(); self.o.push(lex(&c)); self.block(b); }
        } else { self.body(b) }
    }
    pub fn class(&mut self, b: u32) {
        let d = self.p.depth;
        self.t("class"); self.name();
        if self.s.pct(60) { self.t("("); if self.s.pct(75) { self.arglist(d.min(2)) } self.t(")") }
        self.suite(b);
    }
    pub fn suite(&mut self, b: u32) { self.t(":"); self.body(b) }
    fn body(&mut self, b: u32) { if self.s.pct(self.p.inline) { self.simple() } else { self.block(b) } }
    pub fn block(&mut self, b: u32) {
        self.nl();
        self.o.push(It::In);
        let n = 1 + self.s.count(self.p.stmts.min(2), self.p.stmts * 3);
        for _ in 0..n { self.stmt(b.saturating_sub(1)) }
        self.o.push(It::De);
    }
}

/// A handful of edits that usually, but not always, make a token sequence invalid.
pub fn mutate(items: &mut Vec<It>, s: &mut Src) {
    let n = 1 + s.below(2);
    for _ in 0..n {
        if items.is_empty() { return }
        let i = s.below(items.len() as u32) as usize;
        match s.below(8) {
            0 | 1 => { items.remove(i); }
            2 => { let x = items[i].clone(); items.insert(i, x) }
            3 => { let j = s.below(items.len() as u32) as usize; items.swap(i, j) }
            4 => { if i + 1 < items.len() { items.swap(i, i + 1) } }
            5 => { let x = random_item(s); items[i] = x }
            6 => { let j = s.below(items.len() as u32) as usize; let x = items[j].clone(); items.insert(i, x) }
            _ => { let x = random_item(s); items.insert(i, x) }
        }
    }
}
pub const VOCAB: [&str; 92] = ["a", "1", "'s'", ",", ":", "(", ")", "[", "]", "{", "}", "=", ".", "*", "**", "for", "in", "if", "else", "not", "lambda", ";", "->", ":=", "+", "-", "~", "yield", "from",
    "import", "as", "async", "await", "pass", "return", "def", "class", "with", "try", "except", "finally", "while", "elif", "del", "global", "assert", "raise", "@", "+=", "is", "and", "or", "<", "...",
    "True", "None", "nonlocal", "break", "continue", "==", "!=", "/", "//", "<<", ">>", "|", "&", "^", "%", ">", "<=", ">=", "**=", "//=", "-=", "@=", "<>", "False",
    "a", "a", "a", "a", "b", "b", "(", ")", ",", ",", ":", "=", "1", "1"];
pub fn random_item(s: &mut Src) -> It {
    if s.pct(10) { return match s.below(3) { 0 => It::Nl, 1 => It::In, _ => It::De } }
    lex(s.pick(&VOCAB))
}
