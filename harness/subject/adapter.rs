// Written by tools/gen_adapter.py. Turns the values of the code under test into neutral ones.
#![allow(unreachable_patterns)]
use pcr_core::types::{BufOp, BufRes, Entry, Kid, LexOut, Node, Tok, Tr, NOPOS};
use crate::parser::blocks::Blocks;
use crate::parser::expressions::Expressions;
use crate::parser::nodes::ASTNode;
use crate::parser::parser::{Parser, PythonCoreParser};
use crate::parser::statements::Statements;
use crate::parser::source_buffer::{SourceBuffer, SourceBufferFunctionality};
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::parser::tokens::Token;
use crate::parser::trivias::Trivia;

type Trivs = Option<Box<Vec<Box<Trivia>>>>;

fn triv(t: &Trivs) -> Option<Vec<Tr>> {
    t.as_ref().map(|v| v.iter().map(|x| match &**x {
        Trivia::WhiteSpace(s, e, c) => Tr::Ws(*s, *e, *c),
        Trivia::Newline(s, e, a, b) => Tr::Nl(*s, *e, *a, *b),
        Trivia::LineContinuation(s, e, a, b, c) => Tr::Cont(*s, *e, *a, *b, *c),
        Trivia::Comment(s, e, t) => Tr::Comment(*s, *e, t.to_string()),
    }).collect())
}

pub fn tok(t: &Token) -> Tok {
    let mut nl = (' ', ' ');
    let mut text = String::new();
    let mut prefix = None;
    let (kind, s, e, tr): (&'static str, u32, u32, &Trivs) = match t {
        Token::PyFalse(s, e, t) => ("PyFalse", *s, *e, t),
        Token::PyNone(s, e, t) => ("PyNone", *s, *e, t),
        Token::PyTrue(s, e, t) => ("PyTrue", *s, *e, t),
        Token::PyAnd(s, e, t) => ("PyAnd", *s, *e, t),
        Token::PyAs(s, e, t) => ("PyAs", *s, *e, t),
        Token::PyAssert(s, e, t) => ("PyAssert", *s, *e, t),
        Token::PyAsync(s, e, t) => ("PyAsync", *s, *e, t),
        Token::PyAwait(s, e, t) => ("PyAwait", *s, *e, t),
        Token::PyBreak(s, e, t) => ("PyBreak", *s, *e, t),
        Token::PyClass(s, e, t) => ("PyClass", *s, *e, t),
        Token::PyContinue(s, e, t) => ("PyContinue", *s, *e, t),
        Token::PyDef(s, e, t) => ("PyDef", *s, *e, t),
        Token::PyDel(s, e, t) => ("PyDel", *s, *e, t),
        Token::PyElif(s, e, t) => ("PyElif", *s, *e, t),
        Token::PyElse(s, e, t) => ("PyElse", *s, *e, t),
        Token::PyExcept(s, e, t) => ("PyExcept", *s, *e, t),
        Token::PyFinally(s, e, t) => ("PyFinally", *s, *e, t),
        Token::PyFor(s, e, t) => ("PyFor", *s, *e, t),
        Token::PyFrom(s, e, t) => ("PyFrom", *s, *e, t),
        Token::PyGlobal(s, e, t) => ("PyGlobal", *s, *e, t),
        Token::PyIf(s, e, t) => ("PyIf", *s, *e, t),
        Token::PyImport(s, e, t) => ("PyImport", *s, *e, t),
        Token::PyIn(s, e, t) => ("PyIn", *s, *e, t),
        Token::PyIs(s, e, t) => ("PyIs", *s, *e, t),
        Token::PyLambda(s, e, t) => ("PyLambda", *s, *e, t),
        Token::PyNonLocal(s, e, t) => ("PyNonLocal", *s, *e, t),
        Token::PyNot(s, e, t) => ("PyNot", *s, *e, t),
        Token::PyOr(s, e, t) => ("PyOr", *s, *e, t),
        Token::PyPass(s, e, t) => ("PyPass", *s, *e, t),
        Token::PyRaise(s, e, t) => ("PyRaise", *s, *e, t),
        Token::PyReturn(s, e, t) => ("PyReturn", *s, *e, t),
        Token::PyTry(s, e, t) => ("PyTry", *s, *e, t),
        Token::PyWhile(s, e, t) => ("PyWhile", *s, *e, t),
        Token::PyWith(s, e, t) => ("PyWith", *s, *e, t),
        Token::PyYield(s, e, t) => ("PyYield", *s, *e, t),
        Token::PyPlus(s, e, t) => ("PyPlus", *s, *e, t),
        Token::PyMinus(s, e, t) => ("PyMinus", *s, *e, t),
        Token::PyMul(s, e, t) => ("PyMul", *s, *e, t),
        Token::PyPower(s, e, t) => ("PyPower", *s, *e, t),
        Token::PyDiv(s, e, t) => ("PyDiv", *s, *e, t),
        Token::PyFloorDiv(s, e, t) => ("PyFloorDiv", *s, *e, t),
        Token::PyModulo(s, e, t) => ("PyModulo", *s, *e, t),
        Token::PyMatrice(s, e, t) => ("PyMatrice", *s, *e, t),
        Token::PyShiftLeft(s, e, t) => ("PyShiftLeft", *s, *e, t),
        Token::PyShiftRight(s, e, t) => ("PyShiftRight", *s, *e, t),
        Token::PyBitAnd(s, e, t) => ("PyBitAnd", *s, *e, t),
        Token::PyBitOr(s, e, t) => ("PyBitOr", *s, *e, t),
        Token::PyBitXor(s, e, t) => ("PyBitXor", *s, *e, t),
        Token::PyBitInvert(s, e, t) => ("PyBitInvert", *s, *e, t),
        Token::PyColonAssign(s, e, t) => ("PyColonAssign", *s, *e, t),
        Token::PyLess(s, e, t) => ("PyLess", *s, *e, t),
        Token::PyGreater(s, e, t) => ("PyGreater", *s, *e, t),
        Token::PyLessEqual(s, e, t) => ("PyLessEqual", *s, *e, t),
        Token::PyGreaterEqual(s, e, t) => ("PyGreaterEqual", *s, *e, t),
        Token::PyEqual(s, e, t) => ("PyEqual", *s, *e, t),
        Token::PyNotEqual(s, e, t) => ("PyNotEqual", *s, *e, t),
        Token::PyLeftParen(s, e, t) => ("PyLeftParen", *s, *e, t),
        Token::PyLeftBracket(s, e, t) => ("PyLeftBracket", *s, *e, t),
        Token::PyLeftCurly(s, e, t) => ("PyLeftCurly", *s, *e, t),
        Token::PyRightParen(s, e, t) => ("PyRightParen", *s, *e, t),
        Token::PyRightBracket(s, e, t) => ("PyRightBracket", *s, *e, t),
        Token::PyRightCurly(s, e, t) => ("PyRightCurly", *s, *e, t),
        Token::PyComa(s, e, t) => ("PyComa", *s, *e, t),
        Token::PyColon(s, e, t) => ("PyColon", *s, *e, t),
        Token::PyDot(s, e, t) => ("PyDot", *s, *e, t),
        Token::PySemiColon(s, e, t) => ("PySemiColon", *s, *e, t),
        Token::PyAssign(s, e, t) => ("PyAssign", *s, *e, t),
        Token::PyArrow(s, e, t) => ("PyArrow", *s, *e, t),
        Token::PyPlusAssign(s, e, t) => ("PyPlusAssign", *s, *e, t),
        Token::PyMinusAssign(s, e, t) => ("PyMinusAssign", *s, *e, t),
        Token::PyMulAssign(s, e, t) => ("PyMulAssign", *s, *e, t),
        Token::PyDivAssign(s, e, t) => ("PyDivAssign", *s, *e, t),
        Token::PyFloorDivAssign(s, e, t) => ("PyFloorDivAssign", *s, *e, t),
        Token::PyModuloAssign(s, e, t) => ("PyModuloAssign", *s, *e, t),
        Token::PyMatriceAssign(s, e, t) => ("PyMatriceAssign", *s, *e, t),
        Token::PyBitAndAssign(s, e, t) => ("PyBitAndAssign", *s, *e, t),
        Token::PyBitOrAssign(s, e, t) => ("PyBitOrAssign", *s, *e, t),
        Token::PyBitXorAssign(s, e, t) => ("PyBitXorAssign", *s, *e, t),
        Token::PyShiftLeftAssign(s, e, t) => ("PyShiftLeftAssign", *s, *e, t),
        Token::PyShiftRightAssign(s, e, t) => ("PyShiftRightAssign", *s, *e, t),
        Token::PyPowerAssign(s, e, t) => ("PyPowerAssign", *s, *e, t),
        Token::PyElipsis(s, e, t) => ("PyElipsis", *s, *e, t),
        Token::AtomName(s, e, t, x) => { text = x.to_string(); ("AtomName", *s, *e, t) }
        Token::AtomNumber(s, e, t, x) => { text = x.to_string(); ("AtomNumber", *s, *e, t) }
        Token::AtomString(s, e, t, x, p) => { text = x.to_string(); prefix = p.clone(); ("AtomString", *s, *e, t) }
        Token::TypeComment(s, e, t, x) => { text = x.to_string(); ("TypeComment", *s, *e, t) }
        Token::Newline(s, e, t, a, b) => { nl = (*a, *b); ("Newline", *s, *e, t) }
        Token::Indent(t) => ("Indent", NOPOS, NOPOS, t),
        Token::Dedent(t) => ("Dedent", NOPOS, NOPOS, t),
        Token::EOF(p, t) => ("EOF", *p, *p, t),
        _ => return Tok { kind: "?", s: 0, e: 0, text, prefix, nl, tr: None },
    };
    Tok { kind, s, e, text, prefix, nl, tr: triv(tr) }
}

trait Conv { fn kid(&self) -> Kid; }
impl Conv for Token { fn kid(&self) -> Kid { Kid::T(tok(self)) } }
impl Conv for ASTNode { fn kid(&self) -> Kid { Kid::N(node(self)) } }
impl<T: Conv + ?Sized> Conv for Box<T> { fn kid(&self) -> Kid { (**self).kid() } }
impl<T: Conv> Conv for Vec<T> { fn kid(&self) -> Kid { Kid::L(self.iter().map(|x| x.kid()).collect()) } }
impl<T: Conv> Conv for Option<T> { fn kid(&self) -> Kid { match self { Some(x) => x.kid(), None => Kid::None } } }
impl<A: Conv, B: Conv> Conv for (A, B) { fn kid(&self) -> Kid { Kid::L(vec![self.0.kid(), self.1.kid()]) } }

pub fn node(n: &ASTNode) -> Node {
    let (kind, s, e, kids): (&'static str, u32, u32, Vec<Kid>) = match n {
        ASTNode::NamedExpr(s, e, a0, a1, a2) => ("NamedExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::Test(s, e, a0, a1, a2, a3, a4) => ("Test", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid()]),
        ASTNode::Lambda(s, e, a0, a1, a2, a3) => ("Lambda", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid()]),
        ASTNode::OrTest(s, e, a0, a1, a2) => ("OrTest", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AndTest(s, e, a0, a1, a2) => ("AndTest", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::NotTest(s, e, a0, a1) => ("NotTest", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::LessComparison(s, e, a0, a1, a2) => ("LessComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::LessEqualComparison(s, e, a0, a1, a2) => ("LessEqualComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::EqualComparison(s, e, a0, a1, a2) => ("EqualComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::GreaterComparison(s, e, a0, a1, a2) => ("GreaterComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::GreaterEqualComparison(s, e, a0, a1, a2) => ("GreaterEqualComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::NotEqualComparison(s, e, a0, a1, a2) => ("NotEqualComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::InComparison(s, e, a0, a1, a2) => ("InComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::IsComparison(s, e, a0, a1, a2) => ("IsComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::NotInComparison(s, e, a0, a1, a2, a3) => ("NotInComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid()]),
        ASTNode::IsNotComparison(s, e, a0, a1, a2, a3) => ("IsNotComparison", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid()]),
        ASTNode::StarExpr(s, e, a0, a1) => ("StarExpr", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::Expr(s, e, a0, a1, a2) => ("Expr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::XorExpr(s, e, a0, a1, a2) => ("XorExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AndExpr(s, e, a0, a1, a2) => ("AndExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::ShiftLeftExpr(s, e, a0, a1, a2) => ("ShiftLeftExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::ShiftRightExpr(s, e, a0, a1, a2) => ("ShiftRightExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::PlusArithExpr(s, e, a0, a1, a2) => ("PlusArithExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::MinusArithExpr(s, e, a0, a1, a2) => ("MinusArithExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::MulTerm(s, e, a0, a1, a2) => ("MulTerm", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::DivTerm(s, e, a0, a1, a2) => ("DivTerm", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::FloorDivTerm(s, e, a0, a1, a2) => ("FloorDivTerm", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::ModuloTerm(s, e, a0, a1, a2) => ("ModuloTerm", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::MatriceTerm(s, e, a0, a1, a2) => ("MatriceTerm", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::UnaryPlus(s, e, a0, a1) => ("UnaryPlus", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::UnaryMinus(s, e, a0, a1) => ("UnaryMinus", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::UnaryInvert(s, e, a0, a1) => ("UnaryInvert", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::PowerExpr(s, e, a0, a1, a2) => ("PowerExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AtomExpr(s, e, a0, a1, a2) => ("AtomExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AtomName(s, e, a0) => ("AtomName", *s, *e, vec![a0.kid()]),
        ASTNode::AtomNumber(s, e, a0) => ("AtomNumber", *s, *e, vec![a0.kid()]),
        ASTNode::AtomString(s, e, a0) => ("AtomString", *s, *e, vec![a0.kid()]),
        ASTNode::AtomElipsis(s, e, a0) => ("AtomElipsis", *s, *e, vec![a0.kid()]),
        ASTNode::AtomNone(s, e, a0) => ("AtomNone", *s, *e, vec![a0.kid()]),
        ASTNode::AtomTrue(s, e, a0) => ("AtomTrue", *s, *e, vec![a0.kid()]),
        ASTNode::AtomFalse(s, e, a0) => ("AtomFalse", *s, *e, vec![a0.kid()]),
        ASTNode::AtomTuple(s, e, a0, a1, a2) => ("AtomTuple", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AtomList(s, e, a0, a1, a2) => ("AtomList", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AtomDictionary(s, e, a0, a1, a2) => ("AtomDictionary", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AtomSet(s, e, a0, a1, a2) => ("AtomSet", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::TestListComp(s, e, a0, a1) => ("TestListComp", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::CallTrailer(s, e, a0, a1, a2) => ("CallTrailer", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::IndexTrailer(s, e, a0, a1, a2) => ("IndexTrailer", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::DotNameTrailer(s, e, a0, a1) => ("DotNameTrailer", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::SubscriptList(s, e, a0, a1) => ("SubscriptList", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::Subscript(s, e, a0, a1, a2, a3, a4) => ("Subscript", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid()]),
        ASTNode::ExprList(s, e, a0, a1) => ("ExprList", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::TestList(s, e, a0, a1) => ("TestList", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::DictionaryContainer(s, e, a0, a1) => ("DictionaryContainer", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::DictionaryEntry(s, e, a0, a1, a2) => ("DictionaryEntry", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::SetContainer(s, e, a0, a1) => ("SetContainer", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::MulSet(s, e, a0, a1) => ("MulSet", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::PowerDictionary(s, e, a0, a1) => ("PowerDictionary", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::ClassDef(s, e, a0, a1, a2, a3, a4, a5, a6) => ("ClassDef", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid(), a6.kid()]),
        ASTNode::ArgList(s, e, a0, a1) => ("ArgList", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::Argument(s, e, a0, a1, a2) => ("Argument", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::SyncCompForComprehension(s, e, a0, a1, a2, a3, a4) => ("SyncCompForComprehension", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid()]),
        ASTNode::CompForComprehension(s, e, a0, a1) => ("CompForComprehension", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::CompIfComprehension(s, e, a0, a1, a2) => ("CompIfComprehension", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::YieldExpr(s, e, a0, a1) => ("YieldExpr", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::YieldFromExpr(s, e, a0, a1, a2) => ("YieldFromExpr", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::FuncBodySuite(s, e, a0, a1, a2, a3, a4, a5) => ("FuncBodySuite", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid()]),
        ASTNode::FuncTypeInput(s, e, a0, a1, a2) => ("FuncTypeInput", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::FuncType(s, e, a0, a1, a2, a3, a4) => ("FuncType", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid()]),
        ASTNode::TypeList(s, e, a0, a1, a2, a3, a4, a5) => ("TypeList", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid()]),
        ASTNode::TestListStarExpr(s, e, a0, a1) => ("TestListStarExpr", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::SimpleStmtList(s, e, a0, a1, a2) => ("SimpleStmtList", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::PlusAssignStmt(s, e, a0, a1, a2) => ("PlusAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::MinusAssignStmt(s, e, a0, a1, a2) => ("MinusAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::MulAssignStmt(s, e, a0, a1, a2) => ("MulAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::DivAssignStmt(s, e, a0, a1, a2) => ("DivAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::FloorDivAssignStmt(s, e, a0, a1, a2) => ("FloorDivAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::ModuloAssignStmt(s, e, a0, a1, a2) => ("ModuloAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::MatriceAssignStmt(s, e, a0, a1, a2) => ("MatriceAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::PowerAssignStmt(s, e, a0, a1, a2) => ("PowerAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::ShiftLeftAssignStmt(s, e, a0, a1, a2) => ("ShiftLeftAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::ShiftRightAssignStmt(s, e, a0, a1, a2) => ("ShiftRightAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::BitOrAssignStmt(s, e, a0, a1, a2) => ("BitOrAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::BitXorAssignStmt(s, e, a0, a1, a2) => ("BitXorAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::BitAndAssignStmt(s, e, a0, a1, a2) => ("BitAndAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AnnAssignStmt(s, e, a0, a1, a2, a3) => ("AnnAssignStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid()]),
        ASTNode::AssignmentStmt(s, e, a0, a1, a2) => ("AssignmentStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::DelStmt(s, e, a0, a1) => ("DelStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::PassStmt(s, e, a0) => ("PassStmt", *s, *e, vec![a0.kid()]),
        ASTNode::BreakStmt(s, e, a0) => ("BreakStmt", *s, *e, vec![a0.kid()]),
        ASTNode::ContinueStmt(s, e, a0) => ("ContinueStmt", *s, *e, vec![a0.kid()]),
        ASTNode::ReturnStmt(s, e, a0, a1) => ("ReturnStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::RaiseStmt(s, e, a0, a1) => ("RaiseStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::ImportNameStmt(s, e, a0, a1) => ("ImportNameStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::ImportFromStmt(s, e, a0, a1, a2, a3, a4, a5, a6) => ("ImportFromStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid(), a6.kid()]),
        ASTNode::ImportAsName(s, e, a0, a1) => ("ImportAsName", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::DottedAsNameStmt(s, e, a0, a1) => ("DottedAsNameStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::ImportAsNamesStmt(s, e, a0, a1) => ("ImportAsNamesStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::DottedAsNamesStmt(s, e, a0, a1) => ("DottedAsNamesStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::DottedNameStmt(s, e, a0, a1) => ("DottedNameStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::GlobalStmt(s, e, a0, a1, a2) => ("GlobalStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::NonLocalStmt(s, e, a0, a1, a2) => ("NonLocalStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AssertStmt(s, e, a0, a1, a2) => ("AssertStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::AsyncStmt(s, e, a0, a1) => ("AsyncStmt", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::IfStmt(s, e, a0, a1, a2, a3, a4, a5) => ("IfStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid()]),
        ASTNode::ElifStmt(s, e, a0, a1, a2, a3) => ("ElifStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid()]),
        ASTNode::ElseStmt(s, e, a0, a1, a2) => ("ElseStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::WhileStmt(s, e, a0, a1, a2, a3, a4) => ("WhileStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid()]),
        ASTNode::ForStmt(s, e, a0, a1, a2, a3, a4, a5, a6, a7) => ("ForStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid(), a6.kid(), a7.kid()]),
        ASTNode::TryStmt(s, e, a0, a1, a2, a3, a4, a5) => ("TryStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid()]),
        ASTNode::FinallyStmt(s, e, a0, a1, a2) => ("FinallyStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::WithStmt(s, e, a0, a1, a2, a3, a4, a5, a6) => ("WithStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid(), a6.kid()]),
        ASTNode::WithItem(s, e, a0, a1) => ("WithItem", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::ExceptClauseStmt(s, e, a0, a1, a2) => ("ExceptClauseStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::ExceptStmt(s, e, a0, a1, a2) => ("ExceptStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::SuiteStmt(s, e, a0, a1, a2, a3) => ("SuiteStmt", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid()]),
        ASTNode::Decorator(s, e, a0, a1, a2, a3, a4, a5) => ("Decorator", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid()]),
        ASTNode::Decorators(s, e, a0) => ("Decorators", *s, *e, vec![a0.kid()]),
        ASTNode::Decorated(s, e, a0, a1) => ("Decorated", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::FuncDef(s, e, a0, a1, a2, a3, a4, a5, a6) => ("FuncDef", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid(), a6.kid()]),
        ASTNode::Parameter(s, e, a0, a1, a2) => ("Parameter", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::TypedArgsList(s, e, a0, a1, a2, a3, a4) => ("TypedArgsList", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid()]),
        ASTNode::TFPAssign(s, e, a0, a1, a2) => ("TFPAssign", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::TFPDef(s, e, a0, a1) => ("TFPDef", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::VarArgsList(s, e, a0, a1, a2, a3, a4, a5, a6) => ("VarArgsList", *s, *e, vec![a0.kid(), a1.kid(), a2.kid(), a3.kid(), a4.kid(), a5.kid(), a6.kid()]),
        ASTNode::VFPAssign(s, e, a0, a1, a2) => ("VFPAssign", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::VFPDef(s, e, a0) => ("VFPDef", *s, *e, vec![a0.kid()]),
        ASTNode::SingleInput(s, e, a0, a1) => ("SingleInput", *s, *e, vec![a0.kid(), a1.kid()]),
        ASTNode::FileInput(s, e, a0, a1, a2) => ("FileInput", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        ASTNode::EvalInput(s, e, a0, a1, a2) => ("EvalInput", *s, *e, vec![a0.kid(), a1.kid(), a2.kid()]),
        _ => ("?", 0, 0, vec![]),
    };
    Node { kind, s, e, e_lo: e, kids }
}

/// Tokenizes until the end marker or the first error, then asks `extra` times more.
pub fn lex(src: &str, extra: usize) -> LexOut {
    let mut l = PythonCoreTokenizer::new(src.to_string());
    let mut out = LexOut { toks: vec![], err: false, runaway: false, extra: vec![] };
    let limit = 2 * src.chars().count() + 16;
    loop {
        match l.get_symbol() {
            Ok(t) => { let t = tok(&t); let end = t.kind == "EOF"; out.toks.push(t); if end { break } }
            Err(_) => { out.err = true; break }
        }
        if out.toks.len() > limit { out.runaway = true; return out }
    }
    for _ in 0..extra { out.extra.push(match l.get_symbol() { Ok(t) => Some(tok(&t)), Err(_) => None }) }
    out
}

pub fn parse(src: &str, entry: Entry) -> Result<Node, String> {
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(src.to_string())));
    let r = match entry {
        Entry::File => p.parse_blocks_file_input(),
        Entry::Single => p.parse_blocks_single_input(),
        Entry::Eval => p.parse_blocks_eval_input(),
        Entry::FuncType => p.parse_blocks_func_type_input(),
    };
    r.map(|n| node(&n))
}

pub fn buffer(src: &str, ops: &[BufOp]) -> Vec<BufRes> {
    let mut b: SourceBuffer = <SourceBuffer as SourceBufferFunctionality>::new(src.to_string());
    ops.iter().map(|o| match o {
        BufOp::Char => BufRes::Char(b.get_char()),
        BufOp::Peek => { let (x, y, z) = b.peek_three_chars(); BufRes::Peek(x, y, z) }
        BufOp::Pos => BufRes::Num(b.get_position()),
        BufOp::Count => BufRes::Num(b.count()),
        BufOp::Advance => { b.advance(); BufRes::Unit }
    }).collect()
}

/// See Subject::rules.
pub fn rules(src: &str, ops: &[&str]) -> Vec<Option<Node>> {
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(src.to_string())));
    p.advance();
    let mut out = vec![];
    for o in ops {
        let r = match *o {
            "advance" => { p.advance(); continue }
            "file" => p.parse_blocks_file_input(),
            "atom" => p.parse_expressions_atom(),
            "atom_expr" => p.parse_expressions_atom_expr(),
            "power" => p.parse_expressions_power(),
            "factor" => p.parse_expressions_factor(),
            "term" => p.parse_expressions_term(),
            "arith" => p.parse_expressions_arith(),
            "shift" => p.parse_expressions_shift(),
            "and_expr" => p.parse_expressions_and_expr(),
            "xor_expr" => p.parse_expressions_xor_expr(),
            "expr" => p.parse_expressions_expr(),
            "star_expr" => p.parse_expressions_star_expr(),
            "comparison" => p.parse_expressions_comparison(),
            "not_test" => p.parse_expressions_not_test(),
            "and_test" => p.parse_expressions_and_test(),
            "or_test" => p.parse_expressions_or_test(),
            "test" => p.parse_expressions_test(),
            "named_expression" => p.parse_expressions_named_expression(),
            _ => p.parse_statements_stmt(),
        };
        out.push(r.ok().map(|n| node(&n)));
        if let Some(None) = out.last() { break }
    }
    out
}
